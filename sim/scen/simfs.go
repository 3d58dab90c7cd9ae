package scen

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// simNode is a file or directory with its persistent faults.  Faults belong to
// the file, not to the n-th operation, so that what is expected does not depend
// on how many calls the code under test makes.
type simNode struct {
	name string
	dir  bool
	mode fs.FileMode
	data []byte
	kids map[string]*simNode

	openErr   error // Open fails
	openAfter int   // ... but only from this open on (0: always)
	opens     int
	statErr   error // Stat fails (by name and by handle)
	dirErr    error // ReadDir fails
	dirPart   int   // ... after this many entries
	readErr   error // Read fails
	readAt    int   // ... once this many bytes were read
	errData   bool  // ... together with the last bytes rather than after them
	closeErr  error
	chunk     int  // at most this many bytes per Read (0: no limit)
	zero      bool // every other Read transfers nothing
	eofData   bool // the last bytes come with io.EOF
	delay     time.Duration
}

// simFS is an in-memory file system with faults.  It implements only fs.FS; the
// wrappers below add the optional interfaces.
type simFS struct {
	w         *core.World
	root      *simNode
	opened    int
	open      int
	doubleCls int
	delivered []error // failures handed to the code under test, in order
	log       []string
	onFault   func(error)
}

func newSimFS(w *core.World) *simFS {
	return &simFS{w: w, root: &simNode{name: ".", dir: true, mode: fs.ModeDir | 0o755, kids: map[string]*simNode{}}}
}

func splitPath(name string) []string {
	name = path.Clean("/" + name)[1:]
	if name == "" {
		return nil
	}
	return strings.Split(name, "/")
}

// add makes a file and the directories above it.
func (s *simFS) add(name string, data string) *simNode {
	n := s.mk(name)
	n.data = []byte(data)
	return n
}

func (s *simFS) mk(name string) *simNode {
	cur := s.root
	parts := splitPath(name)
	for i, p := range parts {
		k := cur.kids[p]
		if k == nil {
			k = &simNode{name: p, mode: 0o644}
			if i < len(parts)-1 {
				k.dir, k.mode, k.kids = true, fs.ModeDir|0o755, map[string]*simNode{}
			}
			cur.kids[p] = k
		}
		cur = k
	}
	return cur
}

func (s *simFS) mkdir(name string) *simNode {
	n := s.mk(name)
	n.dir, n.mode = true, fs.ModeDir|0o755
	if n.kids == nil {
		n.kids = map[string]*simNode{}
	}
	return n
}

func (s *simFS) find(name string) *simNode {
	cur := s.root
	for _, p := range splitPath(name) {
		if cur.kids == nil || cur.kids[p] == nil {
			return nil
		}
		cur = cur.kids[p]
	}
	return cur
}

func (s *simFS) deliver(op, name string, err error) error {
	s.w.Fault("fs-" + op)
	s.w.Ev("fs %s %s: %v", op, name, err)
	s.delivered = append(s.delivered, err)
	if s.onFault != nil {
		s.onFault(err)
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func (s *simFS) Open(name string) (fs.File, error) {
	s.w.Step()
	n := s.find(name)
	if n == nil {
		return nil, s.deliver("open", name, fs.ErrNotExist)
	}
	n.opens++
	if n.openErr != nil && n.opens > n.openAfter {
		return nil, s.deliver("open", name, n.openErr)
	}
	if n.delay > 0 {
		time.Sleep(n.delay)
	}
	s.opened++
	s.open++
	return &simHandle{fs: s, n: n, path: name}, nil
}

func (s *simFS) stat(name string) (fs.FileInfo, error) {
	s.w.Step()
	n := s.find(name)
	if n == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	if n.statErr != nil {
		return nil, s.deliver("stat", name, n.statErr)
	}
	return simInfo{n}, nil
}

type simInfo struct{ n *simNode }

func (i simInfo) Name() string               { return i.n.name }
func (i simInfo) Size() int64                { return int64(len(i.n.data)) }
func (i simInfo) Mode() fs.FileMode          { return i.n.mode }
func (i simInfo) ModTime() time.Time         { return time.Unix(0, 0) }
func (i simInfo) IsDir() bool                { return i.n.dir }
func (i simInfo) Sys() any                   { return nil }
func (i simInfo) Type() fs.FileMode          { return i.n.mode.Type() }
func (i simInfo) Info() (fs.FileInfo, error) { return i, nil }

type simHandle struct {
	fs     *simFS
	n      *simNode
	path   string
	off    int
	reads  int
	closed bool
	dirOff int
}

func (h *simHandle) Stat() (fs.FileInfo, error) {
	h.fs.w.Step()
	if h.closed {
		return nil, &fs.PathError{Op: "stat", Path: h.path, Err: fs.ErrClosed}
	}
	if h.n.statErr != nil {
		return nil, h.fs.deliver("stat", h.path, h.n.statErr)
	}
	return simInfo{h.n}, nil
}

func (h *simHandle) Read(p []byte) (int, error) {
	h.fs.w.Step()
	if h.closed {
		return 0, &fs.PathError{Op: "read", Path: h.path, Err: fs.ErrClosed}
	}
	if h.n.dir {
		return 0, &fs.PathError{Op: "read", Path: h.path, Err: errors.New("is a directory")}
	}
	n, err := h.n.read(&h.off, &h.reads, p)
	if h.n.readErr != nil && err == h.n.readErr {
		err = h.fs.deliver("read", h.path, err)
	}
	return n, err
}

// read applies the read behaviour of the node to a position.
func (n *simNode) read(off, reads *int, p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	*reads++
	if n.delay > 0 {
		time.Sleep(n.delay)
	}
	if n.zero && *reads%2 == 1 {
		return 0, nil
	}
	end := len(n.data)
	if n.readErr != nil && n.readAt < end {
		end = n.readAt
	}
	k := min(len(p), end-*off)
	if n.chunk > 0 {
		k = min(k, n.chunk)
	}
	copy(p, n.data[*off:*off+k])
	*off += k
	if *off >= end {
		if n.readErr != nil {
			if k == 0 || n.errData {
				return k, n.readErr
			}
			return k, nil
		}
		if k == 0 || n.eofData {
			return k, io.EOF
		}
	}
	return k, nil
}

func (h *simHandle) Close() error {
	h.fs.w.Step()
	if h.closed {
		h.fs.doubleCls++
		return &fs.PathError{Op: "close", Path: h.path, Err: fs.ErrClosed}
	}
	h.closed = true
	h.fs.open--
	if h.n.closeErr != nil {
		return h.fs.deliver("close", h.path, h.n.closeErr)
	}
	return nil
}

func (h *simHandle) ReadDir(n int) ([]fs.DirEntry, error) {
	h.fs.w.Step()
	if !h.n.dir {
		return nil, &fs.PathError{Op: "readdir", Path: h.path, Err: errors.New("not a directory")}
	}
	var names []string
	for k := range h.n.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	// directories are listed in no particular order
	if len(names) > 1 {
		r := (len(h.n.name)*7 + len(names)) % len(names)
		names = append(names[r:], names[:r]...)
	}
	var res []fs.DirEntry
	for ; h.dirOff < len(names) && (n <= 0 || len(res) < n); h.dirOff++ {
		if h.n.dirErr != nil && h.dirOff >= h.n.dirPart {
			return res, h.fs.deliver("readdir", h.path, h.n.dirErr)
		}
		res = append(res, simInfo{h.n.kids[names[h.dirOff]]})
	}
	if h.n.dirErr != nil && h.dirOff >= h.n.dirPart {
		return res, h.fs.deliver("readdir", h.path, h.n.dirErr)
	}
	if n > 0 && len(res) == 0 {
		return nil, io.EOF
	}
	return res, nil
}

// statFS adds Stat.
type simStatFS struct{ *simFS }

func (s simStatFS) Stat(name string) (fs.FileInfo, error) { return s.simFS.stat(name) }

// ctxFS adds OpenContext too.
type simCtxFS struct{ simStatFS }

func (s simCtxFS) OpenContext(c context.Context, name string) (fs.File, error) {
	s.log = append(s.log, "OpenContext "+name)
	return s.Open(name)
}

// variant picks how much of the FS interface is offered.
func (s *simFS) variant() fs.FS {
	switch s.w.Int(4) {
	case 0:
		return simStatFS{s}
	case 1:
		return s
	case 2:
		return simCtxFS{simStatFS{s}}
	default:
		return cli.NewFS(simStatFS{s})
	}
}

// simReader is a standard input with the read behaviour of a node.
type simReader struct {
	w         *core.World
	n         *simNode
	off       int
	reads     int
	delivered []error
	onFault   func(error)
}

func (r *simReader) Read(p []byte) (int, error) {
	r.w.Step()
	n, err := r.n.read(&r.off, &r.reads, p)
	if r.n.readErr != nil && err == r.n.readErr {
		r.w.Fault("stdin-read")
		r.delivered = append(r.delivered, err)
		if r.onFault != nil {
			r.onFault(err)
		}
	}
	return n, err
}

// benign draws legal but inconvenient ways of delivering the bytes.
func (n *simNode) benign(w *core.World) {
	if w.Chance(1, 3) {
		n.chunk = w.Range(1, 5) * (1 + len(n.data)/100)
	}
	n.zero = w.Chance(1, 8)
	n.eofData = w.Chance(1, 3)
	if n.chunk > 0 || n.zero || n.eofData {
		w.Fault("short-or-odd-reads")
	}
}
