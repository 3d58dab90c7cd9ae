package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// ---- walking

func (n *simNode) clone() *simNode {
	c := *n
	if n.kids != nil {
		c.kids = map[string]*simNode{}
		for k, v := range n.kids {
			c.kids[k] = v.clone()
		}
	}
	return &c
}

// walkModel is what a walk of the tree should present.
type walkModel struct {
	root  *simNode
	plain bool // stat opens the file
	visit func(name string, err error) error
}

func (m *walkModel) find(name string) *simNode {
	s := simFS{root: m.root}
	return s.find(name)
}

func (m *walkModel) walk(name string) error {
	n := m.find(name)
	var err error
	switch {
	case n == nil:
		err = fs.ErrNotExist
	case m.plain && n.openErr != nil:
		err = n.openErr
	case n.statErr != nil:
		err = n.statErr
	}
	if err != nil {
		err = m.visit(name, err)
	} else {
		err = m.walkDir(name, n.dir)
	}
	if err == fs.SkipDir {
		return nil
	}
	return err
}

func (m *walkModel) walkDir(name string, dir bool) error {
	if err := m.visit(name, nil); err != nil || !dir {
		if err == fs.SkipDir && dir {
			err = nil
		}
		return err
	}
	n := m.find(name)
	var err error
	var kids []*simNode
	switch {
	case n == nil:
		err = fs.ErrNotExist
	case n.openErr != nil:
		err = n.openErr
	default:
		// what a failed listing returned before is still walked
		kids, err = n.list()
	}
	if err != nil {
		if err = m.visit(name, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, k := range kids {
		if err := m.walkDir(path.Join(name, k.name), k.dir); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// list is the sorted listing, the part before a failure of the directory.
func (n *simNode) list() ([]*simNode, error) {
	res := n.unsorted()
	var err error
	if n.dirErr != nil && n.dirPart <= len(res) {
		res, err = res[:n.dirPart], n.dirErr
	}
	res = append([]*simNode{}, res...)
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	return res, err
}

func (n *simNode) unsorted() []*simNode {
	var names []string
	for k := range n.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	if len(names) > 1 {
		r := (len(n.name)*7 + len(names)) % len(names)
		names = append(names[r:], names[:r]...)
	}
	var res []*simNode
	for _, k := range names {
		res = append(res, n.kids[k])
	}
	return res
}

func drawTree(w *core.World, s *simFS) (all []string) {
	names := []string{"a", "b.txt", "c", "B", "a-1"}
	var build func(prefix string, depth int)
	build = func(prefix string, depth int) {
		for _, nm := range names {
			if !w.Chance(2, 5) {
				continue
			}
			p := path.Join(prefix, nm)
			all = append(all, p)
			if depth < 3 && w.Chance(1, 2) {
				s.mkdir(p)
				build(p, depth+1)
			} else {
				s.add(p, "data of "+p)
			}
		}
	}
	build("", 0)
	return all
}

func runWalk(w *core.World) {
	s := newSimFS(w)
	all := drawTree(w, s)
	if len(all) == 0 {
		all = append(all, "a")
		s.add("a", "data of a")
	}
	for range w.Weighted(3, 3, 2) {
		n := s.find(core.Pick(w, all...))
		e := &simErr{"disk"}
		switch w.Int(3) {
		case 0:
			n.statErr = e
		case 1:
			n.openErr = e
		case 2:
			if n.dir {
				n.dirErr, n.dirPart = e, w.Int(len(n.kids)+1)
			}
		}
	}
	// the named files
	var named []string
	for range w.Weighted(0, 4, 3, 2) {
		f := core.Pick(w, all...)
		switch w.Weighted(6, 1, 1, 1) {
		case 1:
			f = "missing"
		case 2:
			f = "./" + f
		case 3:
			f = "."
		}
		named = append(named, f)
	}
	single := w.Chance(1, 4)
	if single {
		named = named[:1]
	}
	recursive := w.Chance(3, 4)
	useAll := !single && w.Chance(1, 3)

	// what the program does at which visit
	type act struct {
		kind   int // 1 stop with an error, 2 return the failure, 3 skip, 4 remove a file
		target string
	}
	acts := map[int]act{}
	for range w.Weighted(2, 3, 1) {
		acts[w.Int(8)] = act{w.Range(1, 4), core.Pick(w, all...)}
	}
	propagate := w.Chance(1, 4)
	stop := &simErr{"stop"}

	// plain file systems have to open a file for its status
	var fsys fs.FS
	plain := false
	switch w.Int(4) {
	case 0:
		fsys, plain = s, true
	case 1:
		fsys = simStatFS{s}
	case 2:
		fsys = cli.NewFS(simStatFS{s})
	case 3:
		fsys = cli.NewSysFS(cli.NewFS(simStatFS{s}), strings.NewReader(""), io.Discard)
	}

	remove := func(root *simNode, name string) {
		d := (&simFS{root: root}).find(path.Dir(name))
		if d != nil && d.kids != nil {
			delete(d.kids, path.Base(name))
		}
	}
	// step is what the program answers at a visit
	type visit struct {
		name string
		err  error
	}
	answer := func(i int, err error, root *simNode) error {
		if propagate && err != nil {
			return err
		}
		switch a := acts[i]; a.kind {
		case 1:
			return stop
		case 2:
			return err
		case 3:
			if recursive && !useAll {
				return fs.SkipDir
			}
		case 4:
			remove(root, a.target)
		}
		return nil
	}

	var want []visit
	m := &walkModel{root: s.root.clone(), plain: plain}
	m.visit = func(name string, err error) error {
		want = append(want, visit{name, err})
		return answer(len(want)-1, err, m.root)
	}
	wantErr := func() error {
		for _, f := range named {
			var err error
			if recursive {
				err = m.walk(f)
			} else {
				err = m.visit(f, nil)
			}
			if err != nil {
				return err
			}
		}
		return nil
	}()

	var got []visit
	var gotErr error
	var broken string
	see := func(name string, f fs.FS, file *cli.File, err error) error {
		w.Step()
		got = append(got, visit{name, err})
		if len(got) > 500 {
			return stop
		}
		if n := s.find(name); file != nil && err == nil && n != nil && !n.dir && n.openErr == nil && broken == "" {
			// the file presented is the one of that name
			h, e := file.Open()
			if e != nil {
				broken = fmt.Sprintf("opening %s failed: %v", name, e)
			} else {
				b, e := io.ReadAll(h)
				if e != nil || string(b) != string(n.data) {
					broken = fmt.Sprintf("%s has %q, %v", name, b, e)
				}
				h.Close()
			}
		}
		return answer(len(got)-1, err, s.root)
	}
	set := &cli.FileSet{}
	one := &cli.File{}
	app := &cli.App{Name: "app", FS: fsys, Stdin: strings.NewReader(""), Stdout: io.Discard, Stderr: io.Discard}
	if w.Chance(1, 6) {
		// a file system of their own
		set.FS, one.FS = fsys, fsys
		other := newSimFS(w)
		other.add("other", "other")
		app.FS = simStatFS{other}
	}
	args := []string{"app"}
	if single {
		recursive = true
	}
	arg := &cli.Arg{Name: "files", Value: set}
	if single {
		arg.Value = one
	} else if recursive {
		if w.Chance(1, 2) {
			arg.Uses = cli.Accessory("", (*cli.FileSet).RecursiveFlag)
			args = append(args, "--recursive")
		} else {
			set.Recursive = true
		}
	}
	if single {
		// a single file is always walked
		want, m.root = nil, s.root.clone()
		wantErr = m.walk(named[0])
	}
	args = append(args, named...)
	missing := ""
	if w.Chance(1, 6) {
		arg.Options = cli.MustExist
		for _, f := range named {
			if s.find(f) == nil {
				missing = f
			}
		}
	}
	app.Args = []*cli.Arg{arg}
	app.Action = func(c *cli.Context) error {
		switch {
		case single:
			gotErr = c.File("files").Walk(func(name string, d fs.DirEntry, err error) error {
				return see(name, nil, nil, err)
			})
		case useAll:
			for f, err := range c.FileSet("files").All() {
				if e := see(f.Name, f.FS, f, err); e != nil {
					gotErr = e
					break
				}
			}
		default:
			gotErr = c.FileSet("files").Do(func(f *cli.File, err error) error {
				return see(f.Name, f.FS, f, err)
			})
		}
		return gotErr
	}
	w.Ev("args %q recursive %v all %v single %v plain %v acts %v", args, recursive, useAll, single, plain, acts)
	var err error
	pv := w.Call(func() { err = app.RunContext(context.Background(), args) })
	if pv != nil {
		w.Fail("panic", "%q panicked: %v", args, pv)
		return
	}
	if missing != "" {
		if err == nil || len(got) > 0 {
			w.Fail("must-exist", "%q ran, returning %v, although %q doesn't exist", args, err, missing)
		}
		return
	}
	for i := range max(len(want), len(got)) {
		show := func(l []visit) string {
			if i >= len(l) {
				return "(nothing)"
			}
			return fmt.Sprintf("%s (%v)", l[i].name, l[i].err)
		}
		ok := i < len(want) && i < len(got) && want[i].name == got[i].name &&
			(want[i].err == nil) == (got[i].err == nil) && errors.Is(got[i].err, want[i].err)
		if !ok {
			w.Fail("visit", "%q: visit %d was of %s, expected %s", args, i, show(got), show(want))
			return
		}
		w.Ev("visit %s", show(got))
	}
	switch {
	case broken != "":
		w.Fail("file", "%q: %s", args, broken)
	case (wantErr == nil) != (gotErr == nil) || !errors.Is(gotErr, wantErr):
		w.Fail("result", "%q: iterating returned %v, expected %v", args, gotErr, wantErr)
	case err != gotErr:
		w.Fail("result", "%q returned %v, the action %v", args, err, gotErr)
	case s.open != 0:
		w.Fail("handles", "%q left %d files open", args, s.open)
	}
	if len(want) > 2 {
		w.Nontrivial = true
	}
}

// ---- operations

// fileOps makes the operations of one side: the library's or the plain ones.
type fileOps struct {
	open     func(name string, how int, flag int, perm fs.FileMode) (fs.File, error)
	rename   func(a, b string) error
	simple   func(op, name string, mode fs.FileMode) error
	stat     func(name string) (fs.FileInfo, error)
	chtimes  func(name string, at, t time.Time) error
	exists   func(name string) bool
	readFile func(name string) ([]byte, error)
}

func osOps(dir string) fileOps {
	p := func(n string) string { return filepath.Join(dir, n) }
	return fileOps{
		open: func(name string, how, flag int, perm fs.FileMode) (fs.File, error) {
			switch how {
			case 0, 1:
				return os.Open(p(name))
			case 2:
				return os.Create(p(name))
			}
			return os.OpenFile(p(name), flag, perm)
		},
		rename: func(a, b string) error { return os.Rename(p(a), p(b)) },
		simple: func(op, name string, mode fs.FileMode) error {
			switch op {
			case "mkdir":
				return os.Mkdir(p(name), mode)
			case "mkdirall":
				return os.MkdirAll(p(name), mode)
			case "remove":
				return os.Remove(p(name))
			case "removeall":
				return os.RemoveAll(p(name))
			}
			return os.Chmod(p(name), mode)
		},
		stat:    func(name string) (fs.FileInfo, error) { return os.Stat(p(name)) },
		chtimes: func(name string, at, t time.Time) error { return os.Chtimes(p(name), at, t) },
		exists: func(name string) bool {
			_, err := os.Stat(p(name))
			return err == nil || !errors.Is(err, fs.ErrNotExist)
		},
		readFile: func(name string) ([]byte, error) { return os.ReadFile(p(name)) },
	}
}

func cliOps(c context.Context, fsys fs.FS, name func(string) string) fileOps {
	f := func(n string) *cli.File { return &cli.File{Name: name(n), FS: fsys} }
	return fileOps{
		open: func(name string, how, flag int, perm fs.FileMode) (fs.File, error) {
			switch how {
			case 0:
				return f(name).Open()
			case 1:
				return f(name).OpenContext(c)
			case 2:
				return f(name).Create()
			}
			return f(name).OpenFile(flag, perm)
		},
		rename: func(a, b string) error { return f(a).Rename(name(b)) },
		simple: func(op, name string, mode fs.FileMode) error {
			switch op {
			case "mkdir":
				return f(name).Mkdir(mode)
			case "mkdirall":
				return f(name).MkdirAll(mode)
			case "remove":
				return f(name).Remove()
			case "removeall":
				return f(name).RemoveAll()
			}
			return f(name).Chmod(mode)
		},
		stat:    func(name string) (fs.FileInfo, error) { return f(name).Stat() },
		chtimes: func(name string, at, t time.Time) error { return f(name).Chtimes(at, t) },
		exists:  func(name string) bool { return f(name).Exists() },
		readFile: func(n string) ([]byte, error) {
			return fs.ReadFile(fsys, name(n))
		},
	}
}

type fileOp struct {
	op         string
	name, to   string
	how, flag  int
	mode       fs.FileMode
	data       string
	time       time.Time
	atime      time.Time
	wr         bool // write through a file that may have been opened for reading
	readBefore bool
}

// apply makes the operation and describes everything that can be seen of it.
func (p fileOp) apply(o fileOps) (desc string, err error) {
	switch p.op {
	case "open":
		h, e := o.open(p.name, p.how, p.flag, p.mode)
		if e != nil {
			return "open", e
		}
		defer h.Close()
		var b strings.Builder
		b.WriteString("opened")
		if p.wr {
			// writing has the result that it has for the plain file
			if w, ok := h.(io.Writer); ok {
				n, e := w.Write([]byte("overwritten"))
				fmt.Fprintf(&b, " wrote %d %v", n, e != nil)
			}
		}
		if p.data != "" {
			w, ok := h.(io.Writer)
			if !ok {
				return "not a writer", nil
			}
			n, e := io.WriteString(w, p.data)
			fmt.Fprintf(&b, " wrote %d", n)
			if e != nil {
				return b.String(), e
			}
		} else {
			data, e := io.ReadAll(h)
			fmt.Fprintf(&b, " read %q", data)
			if e != nil {
				return b.String(), e
			}
		}
		return b.String(), nil
	case "rename":
		return "rename", o.rename(p.name, p.to)
	case "stat":
		i, e := o.stat(p.name)
		if e != nil {
			return "stat", e
		}
		size := i.Size()
		if i.IsDir() {
			size = 0
		}
		return fmt.Sprintf("stat %v %d %v", i.Mode(), size, i.Name()), nil
	case "exists":
		return fmt.Sprintf("exists %v", o.exists(p.name)), nil
	case "chtimes":
		return "chtimes", o.chtimes(p.name, p.atime, p.time)
	case "readfile":
		b, e := o.readFile(p.name)
		return fmt.Sprintf("contents %q", b), e
	}
	return p.op, o.simple(p.op, p.name, p.mode)
}

func snapshot(dir string) string {
	var b strings.Builder
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		r, _ := filepath.Rel(dir, p)
		if err != nil || r == "." {
			return nil
		}
		i, _ := d.Info()
		fmt.Fprintf(&b, "%s %v", r, i.Mode())
		if i.Mode().IsRegular() {
			data, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %q", data)
			if i.ModTime().Year() < 1990 {
				fmt.Fprintf(&b, " %d", i.ModTime().Unix())
			}
			if at := time.Unix(i.Sys().(*syscall.Stat_t).Atim.Unix()); at.Year() < 1990 {
				fmt.Fprintf(&b, " accessed %d", at.Unix())
			}
		}
		b.WriteString("; ")
		return nil
	})
	return b.String()
}

// errText is the error without the directory that differs between both sides.
func errText(err error, dir string) string {
	if err == nil {
		return "ok"
	}
	return strings.ReplaceAll(err.Error(), dir+"/", "")
}

func runFileOps(w *core.World) {
	o := newOsWorld(w)
	defer o.stop()
	a, b := filepath.Join(o.dir, "a"), filepath.Join(o.dir, "b")
	o.stop()
	must(os.MkdirAll(a, 0o755))
	must(os.MkdirAll(b, 0o755))
	names := []string{"x", "y", "d", "d/x", "d/e/z"}
	var ops []fileOp
	for range w.Range(1, 8) {
		p := fileOp{name: core.Pick(w, names...), mode: core.Pick[fs.FileMode](w, 0o755, 0o700, 0o777, 0o750, 0o555, 0o070)}
		switch w.Weighted(6, 2, 2, 2, 2, 2, 1, 2, 1, 1, 2, 2) {
		case 0:
			p.op, p.how = "open", w.Int(4)
			if p.how == 3 {
				p.flag = core.Pick(w, os.O_RDONLY, os.O_RDWR|os.O_CREATE, os.O_WRONLY|os.O_CREATE|os.O_APPEND,
					os.O_WRONLY|os.O_CREATE|os.O_EXCL, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.O_WRONLY)
				p.mode = core.Pick[fs.FileMode](w, 0o644, 0o600)
			}
			if p.how < 2 && w.Chance(1, 4) {
				p.wr = true
			} else if p.how == 2 || p.flag != os.O_RDONLY {
				p.data = strings.Repeat("data ", w.Range(1, 3))
			}
		case 1:
			p.op = "mkdir"
		case 2:
			p.op = "mkdirall"
		case 3:
			p.op = "remove"
		case 4:
			p.op = "removeall"
		case 5:
			p.op, p.to = "rename", core.Pick(w, names...)
		case 6:
			p.op = "chmod"
			p.mode = core.Pick[fs.FileMode](w, 0o640, 0o755, 0o600)
		case 7:
			p.op = "stat"
		case 8:
			p.op = "exists"
		case 9:
			p.op, p.time = "chtimes", time.Unix(int64(w.Range(0, 100))*1000, 0)
			p.atime = core.Pick(w, p.time, time.Unix(77000, 0), time.Time{})
			if w.Chance(1, 8) {
				p.time = time.Time{}
			}
		case 10:
			p.op = "readfile"
		case 11:
			// a file to work on
			p.op, p.how, p.data = "open", 2, "contents of "+p.name
		}
		ops = append(ops, p)
	}
	for range w.Weighted(2, 2, 1) {
		f := osFile{}
		e := &simErr{"disk"}
		switch w.Int(6) {
		case 0:
			f.openErr = e
		case 1:
			f.writeErr, f.writeAt = e, w.Int(20)
		case 2:
			f.readErr, f.readAt = e, w.Int(20)
		case 3:
			f.chunk = w.Range(1, 4)
		default:
			f.opErr = map[string]error{core.Pick(w, "mkdir", "remove", "removeall", "rename", "chmod", "chtimes", "stat"): e}
		}
		n := core.Pick(w, names...)
		g := f
		o.files[filepath.Join("a", n)], o.files[filepath.Join("b", n)] = &f, &g
	}
	// the library's side
	name := func(n string) string { return n }
	var fsys fs.FS
	switch w.Int(8) {
	case 0:
		fsys = cli.DirFS(a)
	case 1:
		fsys = cli.NewFS(cli.DirFS(a))
	case 2:
		fsys = cli.NewSysFS(cli.DirFS(a), strings.NewReader(""), io.Discard)
	case 3:
		fsys = cli.DirFS(b) // names are absolute
		name = func(n string) string { return filepath.Join(a, n) }
	case 4:
		sub, err := fs.Sub(cli.DirFS(o.dir), "a")
		must(err)
		fsys = sub
	case 5:
		fsys = cli.DirFS(o.dir)
		name = func(n string) string { return "a/" + n }
	case 6:
		fsys = cli.DirFS(b)
		name = func(n string) string { return "../a/" + n }
	case 7: // before the directory is there
		must(os.Remove(a))
		sub, err := fs.Sub(cli.DirFS(o.dir), "a")
		must(err)
		must(os.Mkdir(a, 0o755))
		fsys = sub
	}
	os.JoesimHook, os.JoesimDone = o.before, o.after
	lib, ref := cliOps(context.Background(), fsys, name), osOps(b)
	for i, p := range ops {
		if o.escaped != "" {
			break
		}
		var d1, d2 string
		var e1, e2 error
		if pv := w.Call(func() { d1, e1 = p.apply(lib) }); pv != nil {
			w.Fail("panic", "operation %d %+v panicked: %v", i, p, pv)
			return
		}
		d2, e2 = p.apply(ref)
		t1, t2 := errText(e1, a), errText(e2, b)
		w.Ev("%+v: %s %s", p, d1, t1)
		if d1 != d2 || t1 != t2 {
			w.Fail("operation", "operation %d %+v did %s: %s, expected %s: %s", i, p, d1, t1, d2, t2)
			return
		}
	}
	if o.escaped != "" {
		w.Fail("other-file", "an operation was made on another file: %s", o.escaped)
		return
	}
	o.stop()
	if s1, s2 := snapshot(a), snapshot(b); s1 != s2 {
		w.Fail("effect", "after %+v the directory has %s, expected %s", ops, s1, s2)
		return
	}
	if len(ops) > 2 {
		w.Nontrivial = true
	}
}

// ---- a file system of the program, and the standard streams

// recFS records what reaches it; has tells which optional operations it offers.
type recFS struct {
	calls []string
	err   error
}

func (r *recFS) rec(format string, a ...any) error {
	r.calls = append(r.calls, fmt.Sprintf(format, a...))
	return r.err
}

type recFile struct {
	fs.File
	r *recFS
	n string
}

func (f recFile) Close() error { return nil }

func (r *recFS) Open(n string) (fs.File, error) { return recFile{nil, r, n}, r.rec("open %s", n) }
func (r *recFS) Stat(n string) (fs.FileInfo, error) {
	return simInfo{&simNode{name: path.Base(n)}}, r.rec("stat %s", n)
}

type recMore struct{ *recFS }

func (r recMore) Chmod(n string, m fs.FileMode) error { return r.rec("chmod %s %v", n, m) }
func (r recMore) Chown(n string, u, g int) error      { return r.rec("chown %s %d %d", n, u, g) }
func (r recMore) Mkdir(n string, m fs.FileMode) error { return r.rec("mkdir %s %v", n, m) }
func (r recMore) MkdirAll(n string, m fs.FileMode) error {
	return r.rec("mkdirall %s %v", n, m)
}
func (r recMore) OpenFile(n string, f int, m fs.FileMode) (fs.File, error) {
	return recFile{nil, r.recFS, n}, r.rec("openfile %s %x %v", n, f, m)
}
func (r recMore) Remove(n string) error    { return r.rec("remove %s", n) }
func (r recMore) RemoveAll(n string) error { return r.rec("removeall %s", n) }
func (r recMore) Chtimes(n string, a, m time.Time) error {
	return r.rec("chtimes %s %d %d", n, a.Unix(), m.Unix())
}
func (r recMore) Rename(a, b string) error { return r.rec("rename %s %s", a, b) }

type recAll struct{ recMore }

func (r recAll) Create(n string) (fs.File, error) {
	return recFile{nil, r.recFS, n}, r.rec("create %s", n)
}
func (r recAll) OpenContext(_ context.Context, n string) (fs.File, error) {
	return recFile{nil, r.recFS, n}, r.rec("opencontext %s", n)
}

// recSome offers some of the optional operations.
type recSome struct{ *recFS }

func (r recSome) Create(n string) (fs.File, error) {
	return recFile{nil, r.recFS, n}, r.rec("create %s", n)
}
func (r recSome) OpenContext(_ context.Context, n string) (fs.File, error) {
	return recFile{nil, r.recFS, n}, r.rec("opencontext %s", n)
}
func (r recSome) Rename(a, b string) error { return r.rec("rename %s %s", a, b) }
func (r recSome) Chown(n string, u, g int) error {
	return r.rec("chown %s %d %d", n, u, g)
}

func runDelegate(w *core.World) {
	rec := &recFS{}
	if w.Chance(1, 3) {
		rec.err = &simErr{"fs"}
		w.Fault("fs-operation")
	}
	level := w.Int(4)
	var base fs.FS
	switch level {
	case 3:
		base = recSome{rec}
	case 0:
		base = rec
	case 1:
		base = recMore{rec}
	case 2:
		base = recAll{recMore{rec}}
	}
	wraps := ""
	for range w.Int(3) {
		if w.Chance(1, 2) {
			base = cli.NewFS(base)
			wraps += " NewFS"
		} else {
			base = cli.NewSysFS(cli.NewFS(base), strings.NewReader(""), io.Discard)
			wraps += " NewSysFS"
		}
	}
	name := core.Pick(w, "f", "d/f", "./-", "-x", "")
	f := &cli.File{Name: name}
	t1, t2 := time.Unix(11, 0), time.Unix(22, 0)
	var got error
	var accept []string
	optional := 1 // the level from which the operation is offered
	op := core.Pick(w, "open", "opencontext", "create", "openfile", "stat", "exists", "chmod", "chown", "chtimes", "rename", "remove", "removeall", "mkdir", "mkdirall")
	var call func() error
	switch op {
	case "open":
		optional = 0
		accept = []string{"open " + name, "opencontext " + name}
		call = func() error { h, err := f.Open(); return opened(h, err, name) }
	case "opencontext":
		optional = 0
		accept = []string{"opencontext " + name}
		if level < 2 {
			accept = []string{"open " + name}
		}
		call = func() error { h, err := f.OpenContext(context.Background()); return opened(h, err, name) }
	case "create":
		accept = []string{fmt.Sprintf("openfile %s %x %v", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, fs.FileMode(0o666))}
		if level >= 2 && !strings.Contains(wraps, "Sys") {
			accept = nil
		}
		if level >= 2 {
			accept = append(accept, "create "+name)
		}
		call = func() error { h, err := f.Create(); return opened(h, err, name) }
	case "openfile":
		accept = []string{fmt.Sprintf("openfile %s %x %v", name, os.O_WRONLY, fs.FileMode(0o640))}
		call = func() error { h, err := f.OpenFile(os.O_WRONLY, 0o640); return opened(h, err, name) }
	case "stat":
		optional = 0
		accept = []string{"stat " + name}
		call = func() error {
			i, err := f.Stat()
			if err == nil && i.Name() != path.Base(name) {
				return fmt.Errorf("status of %s", i.Name())
			}
			return err
		}
	case "exists":
		optional = 0
		accept = []string{"stat " + name}
		missing := w.Chance(1, 2)
		if missing {
			rec.err = &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
		}
		call = func() error {
			if f.Exists() == missing {
				return fmt.Errorf("exists %v", !missing)
			}
			return rec.err
		}
	case "chmod":
		accept = []string{fmt.Sprintf("chmod %s %v", name, fs.FileMode(0o640))}
		call = func() error { return f.Chmod(0o640) }
	case "chown":
		accept = []string{fmt.Sprintf("chown %s 5 6", name)}
		call = func() error { return f.Chown(5, 6) }
	case "chtimes":
		accept = []string{fmt.Sprintf("chtimes %s 11 22", name)}
		call = func() error { return f.Chtimes(t1, t2) }
	case "rename":
		accept = []string{fmt.Sprintf("rename %s other", name)}
		call = func() error { return f.Rename("other") }
	case "remove":
		accept = []string{"remove " + name}
		call = f.Remove
	case "removeall":
		accept = []string{"removeall " + name}
		call = f.RemoveAll
	case "mkdir":
		accept = []string{fmt.Sprintf("mkdir %s %v", name, fs.FileMode(0o750))}
		call = func() error { return f.Mkdir(0o750) }
	case "mkdirall":
		accept = []string{fmt.Sprintf("mkdirall %s %v", name, fs.FileMode(0o750))}
		call = func() error { return f.MkdirAll(0o750) }
	}
	app := &cli.App{
		Name: "app", FS: base, Stdin: strings.NewReader(""), Stdout: io.Discard, Stderr: io.Discard,
		Args: []*cli.Arg{{Name: "file", Value: f}},
		Action: func(c *cli.Context) {
			rec.calls = nil
			got = call()
		},
	}
	decoy := &recFS{}
	own := w.Chance(1, 3)
	if own { // the file has a file system of its own
		f.FS, app.FS = base, recAll{recMore{decoy}}
	}
	w.Ev("%s of %q, file system %d%s, own %v, error %v", op, name, level, wraps, own, rec.err)
	var err error
	pv := w.Call(func() { err = app.RunContext(context.Background(), []string{"app", "--", name}) })
	calls := strings.Join(append(rec.calls, decoy.calls...), "; ")
	if level == 3 && op == "create" && strings.Contains(wraps, "Sys") {
		// with the standard streams, creating is a way of opening, which isn't offered
		optional = 4
	}
	if level == 3 && optional > 0 && !slices.Contains([]string{"create", "rename", "chown"}, op) {
		optional = 4
	}
	okCall := false
	for _, a := range accept {
		okCall = okCall || calls == a
	}
	switch {
	case pv != nil:
		w.Fail("panic", "%s of %q panicked: %v", op, name, pv)
	case err != nil:
		w.Fail("result", "the run failed: %v", err)
	case level < optional:
		// not offered: refused, naming the operation's file, without any effect
		var pe *fs.PathError
		if calls != "" {
			w.Fail("delegation", "%s of %q made %s", op, name, calls)
		} else if !errors.As(got, &pe) || pe.Path != name {
			w.Fail("unsupported", "%s of %q returned %v, which isn't a path error about it", op, name, got)
		}
	case !okCall:
		w.Fail("delegation", "%s of %q made %q, expected %q", op, name, calls, accept)
	case got != rec.err:
		w.Fail("result", "%s of %q returned %v, the file system %v", op, name, got, rec.err)
	}
	w.Nontrivial = true
}

// opened says whether a handle is the one of the file that was opened.
func opened(h fs.File, err error, name string) error {
	if err != nil {
		return err
	}
	r, ok := h.(recFile)
	if !ok || r.n != name {
		return fmt.Errorf("handle %v", h)
	}
	return nil
}

// simCloser counts being closed.
type simCloser struct {
	w      *core.World
	closed int
	err    error
}

func (c *simCloser) Close() error {
	c.w.Step()
	c.closed++
	if c.err != nil {
		c.w.Fault("close")
	}
	return c.err
}

type closeReader struct {
	*simReader
	*simCloser
}

type closeWriter struct {
	*simWriter
	*simCloser
}

func (r closeReader) Read(p []byte) (int, error) {
	if r.closed > 0 {
		return 0, fs.ErrClosed
	}
	return r.simReader.Read(p)
}

func (s closeWriter) Write(p []byte) (int, error) {
	if s.closed > 0 {
		return 0, fs.ErrClosed
	}
	return s.simWriter.Write(p)
}

// runStdFile uses the file named by a dash.
func runStdFile(w *core.World) {
	in := &simNode{name: "-", data: []byte(strings.Repeat("line of input\n", w.Int(5)))}
	in.benign(w)
	if w.Chance(1, 6) {
		in.readErr, in.readAt = &simErr{"stdin"}, w.Int(len(in.data)+1)
	}
	r := &simReader{w: w, n: in}
	out := &simWriter{w: w, failAt: -1}
	if w.Chance(1, 4) {
		out.failAt, out.err = w.Int(20), &simErr{"stdout"}
	}
	base := newSimFS(w)
	base.add("-", "not this one")
	base.add("f", "other")
	f := &cli.File{}
	viaApp := w.Chance(2, 3)
	var stdin io.Reader = r
	var stdout io.Writer = out
	inClose, outClose := &simCloser{w: w}, &simCloser{w: w}
	if w.Chance(1, 2) {
		stdin, stdout = closeReader{r, inClose}, closeWriter{out, outClose}
		if w.Chance(1, 4) {
			inClose.err = &simErr{"close stdin"}
		}
		if w.Chance(1, 4) {
			outClose.err = &simErr{"close stdout"}
		}
	}
	closes := w.Chance(2, 3)
	var closeErr error
	app := &cli.App{Name: "app", Stdin: stdin, Stdout: stdout, Stderr: io.Discard, Args: []*cli.Arg{{Name: "file", Value: f}}}
	var sys cli.FS
	if !viaApp {
		sys = cli.NewSysFS(cli.NewFS(simStatFS{base}), stdin, stdout)
		app.FS = sys
	}
	how := w.Int(8)
	text := "some output text"
	var got []byte
	var opErr error
	app.Action = func(c *cli.Context) {
		read := func(h fs.File, err error) {
			if err != nil {
				opErr = err
				return
			}
			if w.Chance(1, 4) { // which a stream may not offer
				if s, ok := h.(io.Seeker); ok {
					if _, err := s.Seek(0, io.SeekCurrent); err == nil {
						w.Fail("unsupported", "a stream that can't seek did")
					}
				}
				if a, ok := h.(io.ReaderAt); ok {
					if n, err := a.ReadAt(make([]byte, 4), 0); err == nil || n != 0 {
						w.Fail("unsupported", "a stream without random access read %d bytes", n)
					}
				}
			}
			got, opErr = io.ReadAll(h)
			if closes {
				closeErr = h.Close()
			}
		}
		write := func(h fs.File, err error) {
			if err != nil {
				opErr = err
				return
			}
			wr, ok := h.(io.Writer)
			if !ok {
				opErr = fmt.Errorf("%T isn't a writer", h)
				return
			}
			_, opErr = io.WriteString(wr, text)
			if closes {
				closeErr = h.Close()
			}
		}
		switch how {
		case 0:
			read(f.Open())
		case 1:
			read(f.OpenContext(c))
		case 2:
			read(f.OpenFile(os.O_RDONLY, 0))
		case 3:
			got, opErr = fs.ReadFile(c.FS, "-")
		case 4:
			write(f.OpenFile(os.O_WRONLY, 0))
		case 5:
			write(f.Create())
		case 6:
			write(f.OpenFile(os.O_RDWR|os.O_APPEND, 0))
		case 7:
			info, err := f.Stat()
			if err == nil && (info == nil || info.IsDir()) {
				opErr = fmt.Errorf("status %v", info)
			}
			n := 0
			err = f.Walk(func(p string, d fs.DirEntry, err error) error {
				n++
				if err != nil {
					return err
				}
				if p != "-" || d.IsDir() {
					opErr = fmt.Errorf("visited %s", p)
				}
				return nil
			})
			if n != 1 || err != nil {
				opErr = fmt.Errorf("visited %d files, %v", n, err)
			}
			if !f.Exists() {
				opErr = fmt.Errorf("doesn't exist")
			}
		}
	}
	w.Ev("standard stream, use %d, app %v", how, viaApp)
	var err error
	pv := w.Call(func() { err = app.RunContext(context.Background(), []string{"app", "-"}) })
	switch {
	case pv != nil:
		w.Fail("panic", "use %d of - panicked: %v", how, pv)
		return
	case err != nil:
		w.Fail("result", "the run failed: %v", err)
		return
	case base.opened > 0:
		w.Fail("other-file", "a file named - was opened in the file system")
		return
	}
	reads := how <= 2 && closes
	writes := how >= 4 && how <= 6 && closes
	switch {
	case inClose.closed > 1 || outClose.closed > 1:
		w.Fail("closed", "the streams were closed %d and %d times", inClose.closed, outClose.closed)
		return
	case !writes && outClose.closed > 0:
		w.Fail("closed", "use %d of - closed the standard output", how)
		return
	case !reads && how != 3 && inClose.closed > 0: // reading a whole file closes it
		w.Fail("closed", "use %d of - closed the standard input", how)
		return
	case reads && inClose.closed > 0 && closeErr != inClose.err, writes && outClose.closed > 0 && closeErr != outClose.err:
		w.Fail("closed", "closing - returned %v, its stream %v and %v", closeErr, inClose.err, outClose.err)
		return
	case w.Failed():
		return
	}
	switch {
	case how <= 3:
		if in.readErr != nil {
			if !errors.Is(opErr, in.readErr) {
				w.Fail("result", "reading - returned %v although the standard input failed", opErr)
			}
		} else if opErr != nil || !bytes.Equal(got, in.data) {
			w.Fail("contents", "use %d of - read %q, %v instead of the standard input %q", how, got, opErr, in.data)
		}
	case how <= 6:
		if out.failAt >= 0 && out.failAt < len(text) {
			if !errors.Is(opErr, out.err) {
				w.Fail("result", "writing - returned %v although the standard output failed", opErr)
			}
		} else if opErr != nil || out.buf.String() != text {
			w.Fail("contents", "use %d of - wrote %q to the standard output, %v", how, out.buf.String(), opErr)
		}
	default:
		if opErr != nil {
			w.Fail("status", "use %d of -: %v", how, opErr)
		}
	}
	w.Nontrivial = true
}

func init() {
	register(&core.Property{
		ID:        "C12",
		QuickRuns: 120000, ThoroughRuns: 1500000,
		Rule: "visits, results and effects equal those of a reference walk, of the os functions on a twin directory, and of the file system in use",
		Real: []string{"cli.File, cli.FileSet, file system adaptors", "the kernel's file system in a scratch directory"},
		Stub: []string{"in-memory file systems with faults", "failures of os functions"},
		Scenarios: []core.Scenario{
			{Name: "walk", Weight: 4, Run: runWalk},
			{Name: "operations", Weight: 2, Run: runFileOps},
			{Name: "delegate", Weight: 2, Run: runDelegate},
			{Name: "std", Weight: 2, Run: runStdFile},
		},
	})
}
