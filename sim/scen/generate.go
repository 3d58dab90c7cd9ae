package scen

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/format"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	tt "text/template"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/template"

	"joesim/core"
)

// genNode is a file or directory of the writable file system.
type genNode struct {
	dir     bool
	data    []byte
	mode    fs.FileMode
	touched int
}

// genFault holds the persistent faults of a path.
type genFault struct {
	create, write, close, open, read, chmod, chtimes, mkdir, stat, rename error
	at                                                                    int
	short                                                                 int
}

// genFS is a writable file system in memory; journal has everything that
// changed it.
type genFS struct {
	w         *core.World
	nodes     map[string]*genNode
	faults    map[string]*genFault
	journal   []string
	delivered error // first failure of an operation that the template needs
	tolerated int
	after     string // first change after the failure
	needed    func(op string) bool
	handles   int
	badClose  int
}

func newGenFS(w *core.World) *genFS {
	return &genFS{w: w, nodes: map[string]*genNode{".": {dir: true, mode: 0o755}, "/": {dir: true, mode: 0o755}}, faults: map[string]*genFault{}}
}

func (g *genFS) change(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	g.w.Ev("fs %s", s)
	g.journal = append(g.journal, s)
	if g.delivered != nil && g.after == "" {
		g.after = s
	}
}

func (g *genFS) fault(op, name string, err error) error {
	g.w.Fault("fs-" + op)
	if g.needed(op) {
		if g.delivered == nil {
			g.delivered = err
		}
	} else {
		g.tolerated++
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func (g *genFS) at(name string) *genFault {
	if f := g.faults[name]; f != nil {
		return f
	}
	return &genFault{}
}

func notExist(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
}

func (g *genFS) Stat(name string) (fs.FileInfo, error) {
	g.w.Step()
	n := g.nodes[path.Clean(name)]
	if n == nil {
		return nil, notExist("stat", name)
	}
	if err := g.at(path.Clean(name)).stat; err != nil {
		return nil, g.fault("stat", name, err)
	}
	return genInfo{path.Base(name), n}, nil
}

func (g *genFS) statFailed(err error) bool {
	for _, f := range g.faults {
		if f.stat != nil && errors.Is(err, f.stat) {
			return true
		}
	}
	return false
}

func (g *genFS) Open(name string) (fs.File, error) {
	g.w.Step()
	p := path.Clean(name)
	n := g.nodes[p]
	if n == nil {
		return nil, notExist("open", name)
	}
	if err := g.at(p).open; err != nil {
		return nil, g.fault("open", name, err)
	}
	g.handles++
	return &genHandle{g: g, p: p, n: n}, nil
}

func (g *genFS) OpenContext(_ context.Context, name string) (fs.File, error) { return g.Open(name) }

func (g *genFS) Create(name string) (fs.File, error) {
	g.w.Step()
	p := path.Clean(name)
	if err := g.at(p).create; err != nil {
		return nil, g.fault("create", name, err)
	}
	d := g.nodes[path.Dir(p)]
	if d == nil || !d.dir {
		return nil, notExist("create", name)
	}
	n := g.nodes[p]
	switch {
	case n == nil:
		n = &genNode{mode: 0o644}
		g.nodes[p] = n
		g.change("create %s", p)
	case n.dir:
		return nil, &fs.PathError{Op: "create", Path: name, Err: errors.New("is a directory")}
	default:
		n.data = nil
		g.change("truncate %s", p)
	}
	g.handles++
	return &genHandle{g: g, p: p, n: n, writable: true}, nil
}

func (g *genFS) OpenFile(name string, flag int, perm fs.FileMode) (fs.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return g.Open(name)
	}
	p := path.Clean(name)
	var old []byte
	if n := g.nodes[p]; n != nil && flag&os.O_TRUNC == 0 {
		old = n.data
	}
	f, err := g.Create(name)
	if err == nil {
		g.nodes[p].data = old
	}
	return f, err
}

func (g *genFS) Chmod(name string, mode fs.FileMode) error {
	g.w.Step()
	p := path.Clean(name)
	n := g.nodes[p]
	if n == nil {
		return notExist("chmod", name)
	}
	if err := g.at(p).chmod; err != nil {
		return g.fault("chmod", name, err)
	}
	n.mode = mode
	g.change("chmod %s %o", p, mode)
	return nil
}

func (g *genFS) Chtimes(name string, _, _ time.Time) error {
	g.w.Step()
	p := path.Clean(name)
	n := g.nodes[p]
	if n == nil {
		return notExist("chtimes", name)
	}
	if err := g.at(p).chtimes; err != nil {
		return g.fault("chtimes", name, err)
	}
	n.touched++
	g.change("chtimes %s", p)
	return nil
}

func (g *genFS) Mkdir(name string, mode fs.FileMode) error {
	g.w.Step()
	p := path.Clean(name)
	if err := g.at(p).mkdir; err != nil {
		return g.fault("mkdir", name, err)
	}
	if g.nodes[path.Dir(p)] == nil {
		return notExist("mkdir", name)
	}
	if g.nodes[p] != nil {
		return &fs.PathError{Op: "mkdir", Path: name, Err: fs.ErrExist}
	}
	g.nodes[p] = &genNode{dir: true, mode: mode}
	g.change("mkdir %s", p)
	return nil
}

func (g *genFS) MkdirAll(name string, mode fs.FileMode) error {
	p := path.Clean(name)
	if n := g.nodes[p]; n != nil {
		if n.dir {
			return nil
		}
		return &fs.PathError{Op: "mkdir", Path: name, Err: errors.New("not a directory")}
	}
	if err := g.MkdirAll(path.Dir(p), mode); err != nil {
		return err
	}
	return g.Mkdir(p, mode)
}

func (g *genFS) Chown(name string, uid, gid int) error {
	n := g.nodes[path.Clean(name)]
	if n == nil {
		return notExist("chown", name)
	}
	if uid == 5 && gid == 6 {
		n.touched += 100
	}
	g.change("chown %s", name)
	return nil
}
func (g *genFS) Remove(name string) error {
	g.change("remove %s", name)
	delete(g.nodes, path.Clean(name))
	return nil
}
func (g *genFS) RemoveAll(name string) error {
	p := path.Clean(name)
	g.change("remove all %s", p)
	for k := range g.nodes {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(g.nodes, k)
		}
	}
	return nil
}
func (g *genFS) Rename(a, b string) error {
	g.w.Step()
	from, to := path.Clean(a), path.Clean(b)
	if err := g.at(to).rename; err != nil {
		return g.fault("rename", b, err)
	}
	if d := g.nodes[path.Dir(to)]; g.nodes[from] == nil || d == nil || !d.dir {
		return notExist("rename", b)
	}
	g.nodes[to] = g.nodes[from]
	delete(g.nodes, from)
	g.change("rename %s %s", from, to)
	return nil
}

type genInfo struct {
	name string
	n    *genNode
}

func (i genInfo) Name() string { return i.name }
func (i genInfo) Size() int64  { return int64(len(i.n.data)) }
func (i genInfo) Mode() fs.FileMode {
	if i.n.dir {
		return i.n.mode | fs.ModeDir
	}
	return i.n.mode
}
func (i genInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i genInfo) IsDir() bool        { return i.n.dir }
func (i genInfo) Sys() any           { return nil }

type genHandle struct {
	g        *genFS
	p        string
	n        *genNode
	off      int
	writable bool
	closed   bool
}

func (h *genHandle) Stat() (fs.FileInfo, error) { return genInfo{path.Base(h.p), h.n}, nil }

func (h *genHandle) Read(p []byte) (int, error) {
	h.g.w.Step()
	if h.closed {
		return 0, fs.ErrClosed
	}
	f := h.g.at(h.p)
	data := h.n.data
	if f.read != nil && f.at < len(data) {
		data = data[:f.at]
	}
	k := min(len(p), len(data)-min(h.off, len(data)))
	if f.short > 0 {
		k = min(k, f.short)
	}
	if k == 0 {
		if f.read != nil {
			return 0, h.g.fault("read", h.p, f.read)
		}
		return 0, io.EOF
	}
	copy(p, data[h.off:h.off+k])
	h.off += k
	return k, nil
}

func (h *genHandle) Write(p []byte) (int, error) {
	h.g.w.Step()
	if h.closed || !h.writable {
		return 0, fs.ErrClosed
	}
	f := h.g.at(h.p)
	k := len(p)
	var err error
	if f.write != nil && h.off+k > f.at {
		k = max(0, f.at-h.off)
		err = h.g.fault("write", h.p, f.write)
	}
	h.n.data = append(h.n.data[:h.off:h.off], p[:k]...)
	h.off += k
	if k > 0 {
		h.g.w.Ev("fs write %s %d", h.p, k)
		h.g.journal = append(h.g.journal, "write "+h.p)
	}
	return k, err
}

func (h *genHandle) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *genHandle) Close() error {
	h.g.w.Step()
	if h.closed {
		h.g.badClose++
		return fs.ErrClosed
	}
	h.closed = true
	h.g.handles--
	if err := h.g.at(h.p).close; err != nil && h.writable {
		return h.g.fault("close", h.p, err)
	}
	return nil
}

// genOp is one operation on a file, or a generator.
type genOp struct {
	kind string
	name string // as written
	path string // where it is
	text string // contents; template source
	val  string // what Template is given
	mode fs.FileMode
	err  error
	rd   int // chunk of the reader
	ops  []*genOp
}

type genModelFile struct {
	data    []byte
	mode    fs.FileMode
	dir     bool
	touched int
}

type genRun struct {
	w       *core.World
	fs      *genFS
	prog    []*genOp
	cur     *genOp // file operation in progress
	marks   []*genOp
	late    string
	bad     string
	n       int
	vars    map[string]string
	base    string
	dry     bool
	root    *template.Root
	started []string
	child   int
}

var goSources = []string{
	"package   m\ntype C    struct {  }",
	"package m\n\nfunc  f( ) { }\n",
	"package m\n",
}

func (g *genRun) text() string {
	return core.Pick(g.w, "x", "", "hello\n", "line one\nline two\n", "{{ not a template }}", strings.Repeat("0123456789", 9), longText, longText[:600], longText[:len(longText)-1]+"!")
}

var longText = strings.Repeat("a line of a long text\n", 120)

// file draws a file and its operations.
func (g *genRun) file(dir string) *genOp {
	w := g.w
	f := &genOp{kind: "file"}
	base := core.Pick(w, "a.txt", "b", "c.go", "d.json")
	if w.Chance(1, 3) {
		base = core.Pick(w, "s/", "s/t/") + base
	} else if dir != g.base && path.Dir(dir) == g.base && w.Chance(1, 8) {
		base = "../" + base
	}
	switch w.Weighted(5, 2, 1) {
	case 0:
		f.name, f.path = base, path.Join(dir, base)
	case 1:
		v := core.Pick(w, "v0", "v1")
		f.name, f.path = path.Join(path.Dir(base), "{{ ."+v+" }}-"+path.Base(base)), path.Join(dir, path.Dir(base), g.vars[v]+"-"+path.Base(base))
	default:
		f.name, f.path = "/abs/"+path.Base(base), "/abs/"+path.Base(base)
	}
	for n := w.Range(1, 3); n > 0; n-- {
		g.n++
		o := &genOp{path: f.path, name: fmt.Sprint("op", g.n)}
		switch k := w.Int(14); k {
		case 0, 1, 2:
			o.kind, o.text = core.Pick(w, "string", "bytes"), g.text()
		case 3:
			o.kind, o.text, o.rd = "reader", g.text(), w.Range(1, 9)
			if w.Chance(1, 4) {
				o.err = &simErr{o.name + " reader"}
			}
		case 4:
			o.kind = "json"
			if w.Chance(1, 4) {
				o.err = errors.New("unsupported type")
			}
		case 5, 6:
			o.kind, o.text, o.val = "template", core.Pick(w, "my {{ .v0 }}", "{{ .v0 }}{{ .v1 }}\n", "plain"), ""
			if w.Chance(1, 2) {
				o.val = fmt.Sprint("w", w.Int(9))
				o.text += " {{ ." + o.name + " }} {{ ." + o.name + "b }}"
			}
			if w.Chance(1, 5) {
				o.err = &simErr{o.name + " template"}
				o.text += "{{ fail }}"
			}
		case 7:
			o.kind = "touch"
		case 8:
			o.kind, o.mode = "mode", core.Pick(w, fs.FileMode(0o600), 0o755, 0o400, fs.ModeSetuid|0o755, fs.ModeSticky|0o644, 0)
		case 9:
			o.kind, o.mode = "filemode", core.Pick(w, fs.FileMode(0o755), 0o600)
		case 10, 11:
			o.kind = "go"
			o.text = core.Pick(w, goSources...)
			if w.Chance(1, 6) {
				o.text = "not go"
			}
		case 12:
			o.kind = "custom"
			if w.Chance(1, 4) {
				o.err = &simErr{o.name + " custom"}
			}
		default:
			o.kind = "nil"
		}
		f.ops = append(f.ops, o)
		if o.kind == "go" {
			f.ops[len(f.ops)-1].kind = "string"
			g.n++
			f.ops = append(f.ops, &genOp{kind: "gofmt", path: f.path, name: fmt.Sprint("op", g.n)})
		}
	}
	return f
}

func (g *genRun) sequence(dir string, depth int) (res []*genOp) {
	w := g.w
	for n := w.Range(1, 3); n > 0; n-- {
		switch k := w.Weighted(8, 4, 2, 1, 1, 1, 1, 1, 1); {
		case k == 0 || depth > 2:
			res = append(res, g.file(dir))
		case k == 1:
			name := core.Pick(w, "sub", "one/two", "sub", "sub", "one/two", ".", "", "sub/../sub", "/rooted", "./sub")
			d := &genOp{kind: "dir", name: name}
			d.ops = g.sequence(path.Join(dir, name), depth+1)
			res = append(res, d)
		case k == 2:
			v, x := core.Pick(w, "v0", "v1"), fmt.Sprint("x", w.Int(5))
			g.vars[v] = x
			res = append(res, &genOp{kind: core.Pick(w, "data", "vars"), name: v, val: x})
		case k == 3:
			g.n++
			o := &genOp{kind: "custom", name: fmt.Sprint("gen", g.n), path: path.Clean(dir)}
			if w.Chance(1, 3) {
				o.err = &simErr{o.name}
			}
			res = append(res, o)
		case k == 4:
			// a generator that survives the failure of what it runs
			g.n++
			d := &genOp{kind: "try", name: fmt.Sprint("try", g.n)}
			in := &genOp{kind: "dir", name: "tried"}
			in.ops = append(in.ops, &genOp{kind: "custom", name: d.name + "f", path: path.Join(dir, "tried"), err: &simErr{d.name}})
			if w.Chance(1, 2) {
				in = &genOp{kind: "dir", name: "deeper", ops: []*genOp{in}}
				in.ops[0].ops[0].path = path.Join(dir, "deeper", "tried")
			}
			d.ops = []*genOp{in}
			res = append(res, d)
			res = append(res, g.file(dir))
		case k == 5:
			res = append(res, &genOp{kind: "seq", ops: g.sequence(dir, depth+1)})
		case k == 7:
			// a generator that uses the output context as a file system
			g.n++
			name := fmt.Sprint("fs", g.n)
			res = append(res, &genOp{kind: "fs", name: name, path: path.Join(dir, name), val: core.Pick(w, "chmod", "rename", "mkdir", "mkdirall", "remove", "chtimes", "removeall", "chown", "read"), rd: w.Int(2)})
		case k == 6:
			g.n++
			o := &genOp{kind: "goget", name: fmt.Sprint("get", g.n), val: core.Pick(w, "example.com/a", "example.com/b@v1")}
			if w.Chance(1, 3) {
				o.err = &simErr{o.name}
				if w.Chance(1, 2) {
					o.err = errStatus
				}
			}
			res = append(res, o)
		default:
			res = append(res, &genOp{kind: "empty", name: core.Pick(w, "noop.txt", "q/noop")})
		}
	}
	return res
}

// step notes that the code under test called one of the harness's operations.
func (g *genRun) step(o *genOp) {
	g.w.Step()
	g.w.Ev("%s %s", o.kind, o.name)
	g.marks = append(g.marks, o)
	if g.fs.delivered != nil && g.late == "" {
		g.late = o.kind + " " + o.name
	}
}

type chunkReader struct {
	g *genRun
	b []byte
	n int
	e error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.g.w.Step()
	if len(r.b) == 0 {
		if r.e != nil {
			r.g.w.Fault("content-read")
			r.g.fs.delivered = r.e
			return 0, r.e
		}
		return 0, io.EOF
	}
	n := copy(p, r.b[:min(r.n, len(r.b))])
	r.b = r.b[n:]
	return n, nil
}

// errStatus stands for a child process that fails.
var errStatus = errors.New("exit status 3")

func (g *genRun) start(_ string, argv []string) (int, error) {
	g.w.Step()
	g.w.Ev("start %q", argv)
	g.started = append(g.started, strings.Join(argv, " "))
	if g.fs.delivered != nil && g.late == "" {
		g.late = strings.Join(argv, " ")
	}
	g.child = 0
	for _, o := range g.gets(g.prog) {
		if len(g.started) > 0 && g.started[len(g.started)-1] == "go get "+o.val && o == g.nextGet() {
			switch o.err {
			case nil:
			case errStatus:
				g.w.Fault("child-status")
				g.child = 3
			default:
				g.w.Fault("child-start")
				g.fs.delivered = o.err
				return 0, o.err
			}
		}
	}
	return 100, nil
}

func (g *genRun) gets(ops []*genOp) (res []*genOp) {
	for _, o := range ops {
		if o.kind == "goget" {
			res = append(res, o)
		}
		res = append(res, g.gets(o.ops)...)
	}
	return
}

func (g *genRun) nextGet() *genOp {
	if l := g.gets(g.prog); len(g.started) <= len(l) {
		return l[len(g.started)-1]
	}
	return nil
}

type jsonValue struct {
	F string
	N []int
}

// build makes the generators of the real template.
func (g *genRun) build(ops []*genOp) (res []template.Generator) {
	for _, o := range ops {
		switch o.kind {
		case "file", "empty":
			var fg []template.FileGenerator
			for _, x := range o.ops {
				fg = append(fg, template.FileGeneratorFunc(func(_ context.Context, _ *template.OutputContext, name string) error {
					if path.Clean(name) != path.Clean(x.path) && g.bad == "" {
						g.bad = fmt.Sprintf("%s of %s is told the name %q", x.name, x.path, name)
					}
					g.cur = x
					g.step(x)
					return nil
				}), g.fileOp(x))
			}
			if len(o.ops) > 0 {
				fg = append(fg, template.FileGeneratorFunc(func(context.Context, *template.OutputContext, string) error {
					g.cur = nil
					return nil
				}))
			}
			res = append(res, template.File(o.name, fg...))
		case "dir":
			res = append(res, template.Dir(o.name, g.build(o.ops)...))
		case "seq":
			res = append(res, template.Sequence(g.build(o.ops)), nil)
		case "data":
			res = append(res, template.Data(o.name, o.val))
		case "vars":
			res = append(res, template.Vars{o.name: o.val})
		case "custom":
			res = append(res, genFunc(func(_ context.Context, c *template.OutputContext) error {
				g.step(o)
				if c.WorkDir() != o.path && g.bad == "" {
					g.bad = fmt.Sprintf("%s runs in %q, expected %q", o.name, c.WorkDir(), o.path)
				}
				return o.err
			}))
		case "fs":
			res = append(res, genFunc(func(_ context.Context, c *template.OutputContext) error {
				g.step(o)
				if c.DryRun != g.dry && g.bad == "" {
					g.bad = fmt.Sprintf("%s is told that a dry run is %v", o.name, c.DryRun)
				}
				if c.DryRun {
					return nil
				}
				return fsOps(c, o)
			}))
		case "goget":
			res = append(res, template.GoGet(o.val))
		case "try":
			in := g.build(o.ops)
			want := o.ops[0].ops[0].err
			if o.ops[0].ops[0].kind == "dir" {
				want = o.ops[0].ops[0].ops[0].err
			}
			res = append(res, genFunc(func(ctx context.Context, c *template.OutputContext) error {
				g.step(o)
				if err := c.Do(ctx, in...); err != want && g.bad == "" {
					g.bad = fmt.Sprintf("%s returned %v rather than %v", o.name, err, want)
				}
				return nil
			}))
		}
	}
	// the contents of Dir cannot be nil
	var out []template.Generator
	for _, r := range res {
		if r != nil {
			out = append(out, r)
		}
	}
	return out
}

// fsOps does the operations of an "fs" step on the names relative to its place.
func fsOps(c *template.OutputContext, o *genOp) error {
	a := o.name + "/a"
	switch o.val {
	case "mkdir":
		err := c.Mkdir(o.name+"/m/k", 0o755)
		if errors.Is(err, fs.ErrExist) {
			return nil // by an earlier run
		}
		return err
	case "mkdirall":
		return c.MkdirAll(o.name+"/m/k", 0o755)
	}
	f, err := c.Create(a)
	if err != nil {
		return err
	}
	_, err = f.(io.Writer).Write([]byte("A"))
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		return err
	}
	gone := ""
	switch o.val {
	case "chmod":
		return c.Chmod(a, 0o600)
	case "chown":
		return c.Chown(a, 5, 6)
	case "read":
		var f fs.File
		if o.rd == 0 {
			f, err = c.Open(a)
		} else {
			f, err = c.OpenContext(context.Background(), a)
		}
		if err != nil {
			return nil
		}
		defer f.Close()
		if b, err := io.ReadAll(f); err == nil && string(b) != "A" {
			return fmt.Errorf("%s has %q", a, b)
		}
		return nil
	case "rename":
		gone, err = a, c.Rename(a, o.name+"/to/b")
		a = o.name + "/to/b"
	case "remove":
		gone, err, a = a, c.Remove(a), ""
	case "removeall":
		gone, err, a = o.name, c.RemoveAll(o.name), ""
	case "chtimes":
		err = c.Chtimes(a, time.Time{}, time.Time{})
	}
	if err != nil {
		return err
	}
	if a != "" && !c.Exists(a) {
		return fmt.Errorf("%s doesn't exist", a)
	}
	if gone != "" && c.Exists(gone) {
		return fmt.Errorf("%s exists", gone)
	}
	return nil
}

// place is the file or directory that an "fs" step is about.
func (o *genOp) place() string {
	switch o.val {
	case "mkdir", "mkdirall":
		return path.Join(o.path, "m/k")
	case "rename":
		return path.Join(o.path, "to/b")
	}
	return path.Join(o.path, "a")
}

func (m *genModel) fsOps(o *genOp) {
	a, at := path.Join(o.path, "a"), o.place()
	ensure := func(p string) bool {
		if !m.mkdir(p) {
			if m.err == "" {
				m.err = "not a directory"
			}
			return false
		}
		return true
	}
	switch o.val {
	case "mkdir":
		if !ensure(path.Dir(at)) {
			return
		}
		// this fails also when it is there
		if err := m.fs.at(at).mkdir; err != nil {
			m.err = err.Error()
		} else if m.files[at] == nil {
			m.files[at] = &genModelFile{dir: true, mode: 0o755}
		}
		return
	case "mkdirall":
		ensure(at)
		return
	}
	if !ensure(o.path) {
		return
	}
	if m.write(a, []byte("A")); m.err != "" {
		return
	}
	fault := m.fs.at(at)
	switch o.val {
	case "chmod":
		if fault.chmod != nil {
			m.err = fault.chmod.Error()
			return
		}
		m.files[a].mode = 0o600
	case "rename":
		if !ensure(path.Dir(at)) {
			return
		}
		if fault.rename != nil {
			m.err = fault.rename.Error()
			return
		}
		m.files[at] = m.files[a]
		delete(m.files, a)
	case "remove":
		delete(m.files, a)
	case "removeall":
		for k := range m.files {
			if k == o.path || strings.HasPrefix(k, o.path+"/") {
				delete(m.files, k)
			}
		}
	case "chown":
		m.files[a].touched += 100
	case "chtimes":
		if fault.chtimes != nil {
			m.err = fault.chtimes.Error()
			return
		}
		m.files[a].touched++
	}
}

type genFunc func(context.Context, *template.OutputContext) error

func (f genFunc) Generate(ctx context.Context, c *template.OutputContext) error { return f(ctx, c) }

func (g *genRun) fileOp(o *genOp) template.FileGenerator {
	switch o.kind {
	case "string":
		return template.Contents(o.text)
	case "bytes":
		return template.Contents([]byte(o.text))
	case "reader":
		return template.Contents(&chunkReader{g, []byte(o.text), o.rd, o.err})
	case "json":
		if o.err != nil {
			return template.Contents(func() {})
		}
		return template.Contents(jsonValue{o.name, []int{1, 2}})
	case "template":
		t := tt.Must(tt.New("").Funcs(tt.FuncMap{"fail": func() (string, error) { return "", o.err }}).Parse(o.text))
		if o.val != "" {
			return template.Template(t, o.name, o.val, o.name+"b", o.val+"b")
		}
		return template.Template(t)
	case "touch":
		return template.Touch()
	case "mode":
		return template.Mode(o.mode)
	case "filemode":
		return template.FileMode(int(o.mode))
	case "gofmt":
		return template.Gofmt()
	case "custom":
		return template.FileGeneratorFunc(func(context.Context, *template.OutputContext, string) error { return o.err })
	}
	return template.FileGeneratorFunc(nil)
}

// genModel is the reference: what the template does to a tree.
type genModel struct {
	files   map[string]*genModelFile
	lines   []string
	marks   []*genOp
	vars    map[string]string
	dry     bool
	err     string // what the run has to end with
	where   *genOp
	fs      *genFS
	started []string
	dirty   string // the file whose state is not known after a failure
}

func (m *genModel) mkdir(p string) bool {
	if n := m.files[p]; n != nil {
		return n.dir
	}
	if !m.mkdir(path.Dir(p)) {
		return false
	}
	if err := m.fs.at(p).mkdir; err != nil {
		m.err = err.Error()
		return false
	}
	m.files[p] = &genModelFile{dir: true, mode: 0o755}
	return true
}

func (m *genModel) write(p string, data []byte) {
	f := m.fs.at(p)
	if f.create != nil {
		m.err = f.create.Error()
		return
	}
	n := m.files[p]
	if n != nil && n.dir {
		m.err = "is a directory"
		return
	}
	if n == nil {
		n = &genModelFile{mode: 0o644}
		m.files[p] = n
	}
	if f.write != nil && len(data) > f.at {
		m.err, m.dirty = f.write.Error(), p
		return
	}
	n.data = data
	if f.close != nil {
		m.err, m.dirty = f.close.Error(), p
	}
}

func (m *genModel) op(o *genOp) {
	m.marks = append(m.marks, o)
	n := m.files[o.path]
	fault := m.fs.at(o.path)
	var data []byte
	switch o.kind {
	case "string", "bytes":
		data = []byte(o.text)
	case "reader":
		if o.err != nil {
			m.err = o.err.Error()
			return
		}
		data = []byte(o.text)
	case "json":
		if o.err != nil {
			m.err = o.err.Error()
			return
		}
		data, _ = json.MarshalIndent(jsonValue{o.name, []int{1, 2}}, "", "    ")
	case "template":
		if o.err != nil {
			m.err = o.err.Error()
			return
		}
		s := o.text
		for k, v := range map[string]string{"v0": m.vars["v0"], "v1": m.vars["v1"], o.name: o.val, o.name + "b": o.val + "b"} {
			s = strings.ReplaceAll(s, "{{ ."+k+" }}", v)
		}
		data = []byte(s)
	case "gofmt":
		if m.dry {
			return
		}
		switch {
		case fault.open != nil:
			m.err = fault.open.Error()
			return
		case fault.read != nil:
			m.err = fault.read.Error()
			return
		}
		var err error
		if data, err = format.Source(n.data); err != nil {
			m.err = "expected"
			return
		}
	case "touch":
		switch {
		case m.dry:
		case n == nil:
			if fault.create != nil {
				m.err = fault.create.Error()
				return
			}
			m.files[o.path] = &genModelFile{mode: 0o644}
			if fault.close != nil {
				m.err = fault.close.Error()
			}
		case fault.chtimes != nil:
			m.err = fault.chtimes.Error()
		default:
			n.touched++
		}
		return
	case "mode", "filemode":
		switch {
		case m.dry:
		case n == nil:
			m.err = "not exist"
		case fault.chmod != nil:
			m.err = fault.chmod.Error()
		default:
			n.mode = o.mode
		}
		return
	case "custom":
		if o.err != nil {
			m.err = o.err.Error()
		}
		return
	default:
		return
	}
	if !m.dry {
		m.write(o.path, data)
	}
}

func (m *genModel) run(ops []*genOp) {
	for _, o := range ops {
		switch o.kind {
		case "file":
			n := m.files[path.Clean(o.path)]
			if !m.dry && !m.mkdir(path.Dir(o.path)) {
				if m.err == "" {
					m.err = "not a directory"
				}
				return
			}
			status := "create"
			var old []byte
			if n != nil {
				old = n.data
			}
			for _, x := range o.ops {
				m.op(x)
				if m.err != "" {
					return
				}
			}
			now := m.files[o.path]
			switch {
			case m.dry && n != nil:
				status = ""
			case n != nil && now != nil && bytes.Equal(old, now.data):
				status = "identical"
			case n != nil:
				status = "overwrite"
			}
			if f := m.fs.at(o.path); n != nil && (f.open != nil || f.read != nil) {
				status = "-create"
			}
			m.lines = append(m.lines, status+"  "+o.path)
		case "empty":
			m.lines = append(m.lines, "identical  "+o.name)
		case "data", "vars":
			m.vars[o.name] = o.val
		case "custom":
			m.marks = append(m.marks, o)
			if o.err != nil {
				m.err = o.err.Error()
				return
			}
		case "fs":
			m.marks = append(m.marks, o)
			if !m.dry {
				if m.fsOps(o); m.err != "" {
					return
				}
			}
		case "goget":
			if !m.dry {
				m.started = append(m.started, "go get "+o.val)
				if o.err != nil {
					m.err = o.err.Error()
					m.lines = append(m.lines, "error  go.mod")
					return
				}
			}
			m.lines = append(m.lines, "  go.mod", "  go.sum")
		case "try":
			m.marks = append(m.marks, o)
			sub := &genModel{files: m.files, vars: m.vars, dry: m.dry, fs: m.fs}
			sub.run(o.ops)
			m.marks = append(m.marks, sub.marks...)
			m.lines = append(m.lines, sub.lines...)
		default:
			m.run(o.ops)
			if m.err != "" {
				return
			}
		}
	}
}

func (g *genRun) tree() map[string]*genModelFile {
	res := map[string]*genModelFile{}
	for k, n := range g.fs.nodes {
		res[k] = &genModelFile{append([]byte(nil), n.data...), n.mode, n.dir, n.touched}
	}
	return res
}

func diffTrees(got, want map[string]*genModelFile, skip string) string {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range want {
		if got[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		a, b := got[k], want[k]
		switch {
		case k == skip:
		case a == nil:
			return fmt.Sprintf("%s is missing", k)
		case b == nil:
			return fmt.Sprintf("%s should not be there", k)
		case a.dir != b.dir:
			return fmt.Sprintf("%s: directory=%v", k, a.dir)
		case !a.dir && !bytes.Equal(a.data, b.data):
			return fmt.Sprintf("%s contains %q, expected %q", k, a.data, b.data)
		case !a.dir && a.mode != b.mode:
			return fmt.Sprintf("%s has mode %o, expected %o", k, a.mode, b.mode)
		case !a.dir && a.touched != b.touched:
			return fmt.Sprintf("%s was touched %d times, expected %d", k, a.touched, b.touched)
		}
	}
	return ""
}

func (g *genRun) paths(ops []*genOp) (res []string) {
	for _, o := range ops {
		if o.kind == "file" {
			res = append(res, o.path)
		}
		if o.kind == "fs" {
			res = append(res, o.place())
		}
		res = append(res, g.paths(o.ops)...)
	}
	return res
}

func runGenerate(w *core.World) {
	g := &genRun{w: w, fs: newGenFS(w), vars: map[string]string{"v0": "zero", "v1": "one"}}
	g.fs.needed = func(op string) bool {
		switch op {
		case "open", "read":
			return g.cur != nil && g.cur.kind == "gofmt"
		case "stat":
			return false // what is there can be changed without
		}
		return true
	}
	wd := core.Pick(w, "", "out", "out/deep", "/root", ".")
	g.base = path.Clean(wd)
	g.prog = append([]*genOp{{kind: "vars", name: "v0", val: "zero"}, {kind: "data", name: "v1", val: "one"}}, g.sequence(g.base, 0)...)
	g.dry = w.Chance(1, 4)
	files := g.paths(g.prog)
	sort.Strings(files)
	// what is there already
	for _, p := range files {
		if w.Chance(1, 4) && path.Base(p) != "k" {
			g.fs.MkdirAll(path.Dir(p), 0o755)
			if g.fs.nodes[p] == nil {
				g.fs.nodes[p] = &genNode{data: []byte(core.Pick(w, "hello\n", "x", "package m\n", "", longText, longText[:600])), mode: 0o644}
			}
		}
	}
	g.fs.nodes["other.txt"] = &genNode{data: []byte("other"), mode: 0o644}
	// faults
	faulty := len(files) > 0 && w.Chance(1, 2)
	if faulty {
		for n := w.Range(1, 2); n > 0; n-- {
			p := core.Pick(w, files...)
			f := g.fs.at(p)
			g.fs.faults[p] = f
			e := &simErr{"at " + p}
			f.at = w.Int(12)
			switch w.Int(11) {
			case 0:
				f.create = e
			case 10:
				f.rename, f.mkdir = e, e
			case 9:
				// of a file or directory that exists
				f.stat = e
				if w.Chance(1, 4) {
					f.stat = nil
					g.fs.faults[path.Dir(p)] = &genFault{stat: e}
				}
			case 1, 2:
				f.write = e
			case 3:
				f.close = e
			case 4:
				f.open = e
			case 5:
				f.read = e
			case 6:
				f.chmod = e
			case 7:
				f.chtimes = e
			default:
				d := path.Dir(p)
				g.fs.faults[d] = &genFault{mkdir: e}
			}
		}
	}
	for _, p := range files {
		if w.Chance(1, 6) {
			f := g.fs.at(p)
			f.short = w.Range(1, 4)
			g.fs.faults[p] = f
			w.Fault("short-reads")
		}
	}
	g.fs.journal, g.fs.delivered = nil, nil
	before := g.tree()

	if len(g.gets(g.prog)) > 0 {
		d := Scratch(w)
		os.WriteFile(path.Join(d, "go"), nil, 0o755) // found, but not run
		SetEnv(w, "PATH", d)
	}
	via := w.Int(3)
	var out bytes.Buffer
	run := func() (err error, pv any) {
		out.Reset()
		root := template.New(g.build(g.prog)...)
		root.WorkingDirectory = wd
		args := []string{"app"}
		app := &cli.App{Name: "app", FS: g.fs, Stdout: &out, Stderr: io.Discard}
		switch via {
		case 0:
			root.DryRun = g.dry
			app.Action = root
		case 1:
			root.DryRun = g.dry
			app.Commands = []*cli.Command{{Name: "sub", Action: root}}
			args = append(args, "sub")
		default:
			app.Uses = root
			if g.dry {
				args = append(args, "--dry-run")
			}
		}
		g.started = nil
		os.JoesimStart = g.start
		os.JoesimWait = func(pid int) (*os.ProcessState, error) {
			return os.JoesimProcessState(pid, g.child, 0), nil
		}
		pv = w.Call(func() { err = app.RunContext(context.Background(), args) })
		os.JoesimStart, os.JoesimWait = nil, nil
		return
	}
	m := &genModel{files: g.tree(), vars: map[string]string{}, dry: g.dry, fs: g.fs}
	m.run(g.prog)
	w.Ev("dry=%v via=%d wd=%q model-error=%q", g.dry, via, wd, m.err)

	err, pv := run()
	if pv != nil {
		w.Fail("panic", "generation panicked: %v", pv)
		return
	}
	w.Ev("result %s output %q", errName(err), out.String())
	after := g.tree()
	switch {
	case g.bad != "":
		w.Fail("place", "%s", g.bad)
	case g.dry && len(g.fs.journal) > 0:
		w.Fail("dry-run", "a dry run did: %s", strings.Join(g.fs.journal, ", "))
	case g.late != "":
		w.Fail("continues", "%s ran after the failure %v", g.late, g.fs.delivered)
	case g.fs.after != "":
		w.Fail("continues", "%q happened after the failure %v", g.fs.after, g.fs.delivered)
	case g.fs.delivered != nil && !errors.Is(err, g.fs.delivered):
		w.Fail("swallowed", "%v, but the run returned %s", g.fs.delivered, errName(err))
	case m.err == "" && err != nil && g.fs.statFailed(err):
		// not being able to find out can also end the run
		return
	case m.err == "" && err != nil:
		w.Fail("result", "the run returned %s", errName(err))
	case m.err != "" && err == nil:
		w.Fail("result", "the run succeeded, expected an error %q", m.err)
	case m.err != "" && !strings.Contains(err.Error(), m.err):
		w.Fail("result", "the run returned %s, expected an error %q", errName(err), m.err)
	case g.fs.badClose > 0:
		w.Fail("handles", "a file was closed twice")
	case g.fs.handles > 0:
		w.Fail("handles", "%d files were left open", g.fs.handles)
	}
	if w.Failed() {
		return
	}
	if d := fmt.Sprint(opNames(g.marks)); d != fmt.Sprint(opNames(m.marks)) {
		w.Fail("steps", "generators that ran: %v, expected %v", d, opNames(m.marks))
		return
	}
	if fmt.Sprint(g.started) != fmt.Sprint(m.started) {
		w.Fail("steps", "processes started: %q, expected %q", g.started, m.started)
		return
	}
	want := m.files
	if g.dry {
		want = before
	}
	if d := diffTrees(after, want, m.dirty); d != "" {
		w.Fail("contents", "%s (result %s)", d, errName(err))
		return
	}
	g.status(m, out.String(), err)
	w.Nontrivial = true
	if w.Failed() || g.dry {
		return
	}
	// run the template again, without faults: it completes what was left
	// unfinished, and then a third run changes no contents
	if hasOwnError(g.prog) {
		return
	}
	if err != nil {
		w.Probe("completed after a failure")
	}
	g.fs.faults = map[string]*genFault{}
	for i := 0; i < 2; i++ {
		g.fs.delivered, g.fs.after, g.late, g.cur, g.marks = nil, "", "", nil, nil
		m2 := &genModel{files: g.tree(), vars: map[string]string{}, fs: g.fs}
		m2.run(g.prog)
		err, pv = run()
		if pv != nil || m2.err == "" && err != nil {
			w.Fail("result", "repeating the template: %v %v", errName(err), pv)
			return
		}
		if m2.err != "" {
			return
		}
		if d := diffTrees(g.tree(), m2.files, ""); d != "" {
			w.Fail("contents", "repeating the template: %s", d)
			return
		}
		g.status(m2, out.String(), err)
		if w.Failed() {
			return
		}
	}
}

func hasOwnError(ops []*genOp) bool {
	for _, o := range ops {
		if o.kind == "goget" {
			return true
		}
		if o.kind != "try" && (o.err != nil || hasOwnError(o.ops)) {
			return true
		}
	}
	return false
}

func opNames(ops []*genOp) (res []string) {
	for _, o := range ops {
		res = append(res, o.name)
	}
	return
}

// status compares the report of what was done.
func (g *genRun) status(m *genModel, got string, err error) {
	lines := strings.Split(got, "\n")
	lines = lines[:len(lines)-1]
	if len(lines) != len(m.lines) {
		g.w.Fail("status", "the report has %d lines, expected %d: %q, expected %q", len(lines), len(m.lines), lines, m.lines)
		return
	}
	for i, l := range lines {
		x := m.lines[i]
		st, name, _ := strings.Cut(x, "  ")
		if g.dry {
			name += " (dry-run)"
		}
		gst, gname, _ := strings.Cut(strings.TrimSpace(l), "  ")
		if gname != name || st != "" && st != gst && st[0] != '-' || st == "-"+gst {
			g.w.Fail("status", "the report says %q, expected %q", l, strings.TrimSpace(st+"  "+name))
			return
		}
	}
}

func init() {
	register(&core.Property{
		ID:        "C13",
		QuickRuns: 60000, ThoroughRuns: 1500000,
		Rule:      "templates of random nested directories, files and operations over a writable file system with a fault per path, compared with a reference tree: contents, modes, places, report, steps after a failure, dry runs, and completion by repeating",
		Real:      []string{"template extension, App"},
		Stub:      []string{"file system (in memory, with faults)", "go get (not run)"},
		Scenarios: []core.Scenario{{Name: "generate", Weight: 1, Run: runGenerate}},
	})
}
