#!/usr/bin/env python3
"""Generates the standard-library overlay that puts the Go runtime's and the
operating system's nondeterminism behind the simulator.

usage: gen.py GOROOT OUTDIR   (writes OUTDIR/*.go and OUTDIR/overlay.json)

Nothing in GOROOT or /repo is modified: `go build -overlay` substitutes the
files for the simulator binary only.  Every hook is a nil function variable
until the simulator installs it."""
import json, os, sys

goroot, out = sys.argv[1], sys.argv[2]
src = os.path.join(goroot, "src")
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
replace = {}

def patch(rel, *subs):
    p = os.path.join(src, rel)
    text = open(p).read()
    for old, new in subs:
        n = text.count(old)
        if n != 1:
            sys.exit("overlay: %s: expected one occurrence of %r, found %d" % (rel, old, n))
        text = text.replace(old, new)
    dst = os.path.join(out, rel.replace("/", "__"))
    open(dst, "w").write(text)
    replace[p] = dst

def add(rel, name):
    replace[os.path.join(src, rel)] = os.path.join(here, name)

# --- runtime: map seeds, map iteration order, select order --------------------
patch("runtime/rand.go",
      ("func rand() uint64 {\n",
       "func rand() uint64 {\n\tif joesimOn {\n\t\treturn joesimNext()\n\t}\n"))
patch("runtime/select.go", ("j := cheaprandn(uint32(norder + 1))", "j := joesimSelect(uint32(norder + 1))"))
patch("internal/runtime/maps/runtime_alg.go",
      ("\t\thashkey[i] = uintptr(bootstrapRand())", "\t\thashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1) >> 1)"),
      ("\t\tkey[i] = bootstrapRand()", "\t\tkey[i] = 0x9e3779b97f4a7c15 * uint64(i+3)"))
add("runtime/joesim.go", "runtime_joesim.go.txt")

# --- os ------------------------------------------------------------------------
def pre(op, name, zero, **kw):
    """a hook prologue for a path operation that may be refused"""
    args = "".join(", %s: %s" % (k, v) for k, v in kw.items())
    return ("\tif JoesimHook != nil {\n\t\tif _, e := joesimBefore(&JoesimOp{Op: %s, Name: %s, N: -1%s}); e != nil {\n"
            "\t\t\treturn %s&PathError{Op: %s, Path: %s, Err: e}\n\t\t}\n\t}\n") % (op, name, args, zero, op, name)

def fn(sig, body):
    return (sig + "\n", sig + "\n" + body)

patch("os/file.go",
      fn("func Mkdir(name string, perm FileMode) error {", pre('"mkdir"', "name", "")),
      fn("func Chdir(dir string) error {", "\tif JoesimChdir != nil {\n\t\tif e := JoesimChdir(dir); e != nil {\n\t\t\treturn &PathError{Op: \"chdir\", Path: dir, Err: e}\n\t\t}\n\t\treturn nil\n\t}\n"),
      fn("func OpenFile(name string, flag int, perm FileMode) (*File, error) {",
         pre('"open"', "name", "nil, ", Flag="flag", Perm="perm")),
      ("\tf.appendMode = flag&O_APPEND != 0\n\n\treturn f, nil\n",
       "\tf.appendMode = flag&O_APPEND != 0\n\tif JoesimHook != nil {\n\t\tjoesimOpened(f, name, flag)\n\t}\n\n\treturn f, nil\n"),
      fn("func Rename(oldpath, newpath string) error {",
         "\tif JoesimHook != nil {\n\t\tif _, e := joesimBefore(&JoesimOp{Op: \"rename\", Name: oldpath, Name2: newpath, N: -1}); e != nil {\n"
         "\t\t\treturn &LinkError{\"rename\", oldpath, newpath, e}\n\t\t}\n\t}\n"),
      ("func Chmod(name string, mode FileMode) error { return chmod(name, mode) }",
       "func Chmod(name string, mode FileMode) error {\n" + pre('"chmod"', "name", "", Perm="mode") + "\treturn chmod(name, mode)\n}"),
      fn("func (f *File) ReadFrom(r io.Reader) (n int64, err error) {",
         "\tif JoesimHook != nil && f != nil {\n\t\treturn genericReadFrom(f, r)\n\t}\n"),
      fn("func (f *File) WriteTo(w io.Writer) (n int64, err error) {",
         "\tif JoesimHook != nil && f != nil {\n\t\treturn genericWriteTo(f, w)\n\t}\n"))

def io(op, fname):
    return ("\tif JoesimHook != nil {\n"
            "\t\tlimit, e := joesimBefore(&JoesimOp{Op: \"%s\", Name: f.name, F: f, N: len(b)})\n"
            "\t\tif e != nil && limit <= 0 {\n\t\t\treturn 0, e\n\t\t}\n"
            "\t\tif limit >= 0 && limit < len(b) {\n\t\t\tb = b[:limit]\n\t\t}\n"
            "\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\terr = e\n\t\t\t}\n"
            "\t\t\tjoesimAfter(&JoesimOp{Op: \"%s\", Name: f.name, F: f, N: n}, err)\n\t\t}()\n\t}\n") % (op, fname)

patch("os/file_posix.go",
      ("\t\treturn ErrInvalid\n\t}\n\treturn f.file.close()\n",
       "\t\treturn ErrInvalid\n\t}\n\tif JoesimHook != nil {\n\t\tif _, e := joesimBefore(&JoesimOp{Op: \"close\", Name: f.name, F: f, N: -1}); e != nil {\n"
       "\t\t\tf.file.close()\n\t\t\treturn &PathError{Op: \"close\", Path: f.name, Err: e}\n\t\t}\n\t}\n\treturn f.file.close()\n"),
      fn("func (f *File) read(b []byte) (n int, err error) {", io("read", "read-done")),
      fn("func (f *File) pread(b []byte, off int64) (n int, err error) {", io("read", "read-done")),
      fn("func (f *File) write(b []byte) (n int, err error) {", io("write", "write-done")),
      fn("func (f *File) pwrite(b []byte, off int64) (n int, err error) {", io("write", "write-done")),
      fn("func Chown(name string, uid, gid int) error {",
         pre('"chown"', "name", "", UID="uid", GID="gid").replace("UID: uid", "Flag: uid").replace("GID: gid", "N2: gid")),
      fn("func Chtimes(name string, atime time.Time, mtime time.Time) error {", pre('"chtimes"', "name", "", Time="mtime", Time2="atime")),
      fn("func (f *File) setDeadline(t time.Time) error {", "\tif JoesimHook != nil {\n\t\tif _, e := joesimBefore(&JoesimOp{Op: \"deadline\", Name: f.name, F: f, Time: t}); e != nil {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"),
      fn("func (f *File) setReadDeadline(t time.Time) error {", "\tif JoesimHook != nil {\n\t\tif _, e := joesimBefore(&JoesimOp{Op: \"read-deadline\", Name: f.name, F: f, Time: t}); e != nil {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"),
      fn("func (f *File) setWriteDeadline(t time.Time) error {", "\tif JoesimHook != nil {\n\t\tif _, e := joesimBefore(&JoesimOp{Op: \"write-deadline\", Name: f.name, F: f, Time: t}); e != nil {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"))
patch("os/file_unix.go",
      fn("func Remove(name string) error {", pre('"remove"', "name", "")))
patch("os/path.go",
      fn("func RemoveAll(path string) error {", pre('"removeall"', "path", "")))
patch("os/stat.go",
      fn("func Stat(name string) (FileInfo, error) {", pre('"stat"', "name", "nil, ")),
      fn("func Lstat(name string) (FileInfo, error) {", pre('"lstat"', "name", "nil, ")))
patch("os/stat_unix.go",
      ("\t\treturn nil, ErrInvalid\n\t}\n\tvar fs fileStat\n\terr := f.pfd.Fstat",
       "\t\treturn nil, ErrInvalid\n\t}\n" + pre('"fstat"', "f.name", "nil, ", F="f") + "\tvar fs fileStat\n\terr := f.pfd.Fstat"))
patch("os/dir.go",
      ("func (f *File) ReadDir(n int) ([]DirEntry, error) {\n\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n",
       "func (f *File) ReadDir(n int) ([]DirEntry, error) {\n\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n" + pre('"readdir"', "f.name", "nil, ", F="f")))
patch("os/proc.go",
      fn("func Exit(code int) {", "\tif JoesimExit != nil {\n\t\tJoesimExit(code)\n\t}\n"))
patch("os/exec.go",
      fn("func (p *Process) Kill() error {", "\tif JoesimSignal != nil {\n\t\treturn JoesimSignal(p.Pid, Kill)\n\t}\n"),
      fn("func (p *Process) Wait() (*ProcessState, error) {", "\tif JoesimWait != nil {\n\t\treturn JoesimWait(p.Pid)\n\t}\n"),
      fn("func (p *Process) Signal(sig Signal) error {", "\tif JoesimSignal != nil {\n\t\treturn JoesimSignal(p.Pid, sig)\n\t}\n"),
      fn("func (p *Process) Release() error {", "\tif JoesimWait != nil {\n\t\treturn nil\n\t}\n"),
      fn("func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {",
         "\tif JoesimStart != nil {\n\t\tpid, e := JoesimStart(name, argv)\n\t\tif e != nil {\n\t\t\treturn nil, &PathError{Op: \"fork/exec\", Path: name, Err: e}\n\t\t}\n\t\treturn &Process{Pid: pid}, nil\n\t}\n"))
add("os/joesim.go", "os_joesim.go.txt")

# --- os/signal -------------------------------------------------------------------
patch("os/signal/signal_unix.go",
      fn("func enableSignal(sig int) {", "\tif JoesimKernel != nil {\n\t\tJoesimKernel(\"enable\", sig)\n\t\treturn\n\t}\n"),
      fn("func disableSignal(sig int) {", "\tif JoesimKernel != nil {\n\t\tJoesimKernel(\"disable\", sig)\n\t\treturn\n\t}\n"),
      fn("func ignoreSignal(sig int) {", "\tif JoesimKernel != nil {\n\t\tJoesimKernel(\"ignore\", sig)\n\t\treturn\n\t}\n"),
      fn("func signalIgnored(sig int) bool {", "\tif JoesimKernel != nil {\n\t\treturn JoesimKernel(\"ignored\", sig)\n\t}\n"),
      ("\twatchSignalLoop = loop\n", "\t_ = loop // the simulator is the only source of signals\n"))
patch("os/signal/signal.go",
      ("\tsignalWaitUntilIdle()\n", "\tif JoesimKernel == nil {\n\t\tsignalWaitUntilIdle()\n\t}\n"))
add("os/signal/joesim.go", "signal_joesim.go.txt")

# --- testing/synctest: bubbles without a *testing.T --------------------------------
add("testing/synctest/joesim.go", "synctest_joesim.go.txt")

json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
