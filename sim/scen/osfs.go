package scen

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"joesim/core"
)

// osFile holds the persistent faults of one real file (or of every file, under
// the name "").
type osFile struct {
	openErr    error // opening fails
	writeErr   error // writes fail ...
	writeAt    int   // ... after this many bytes
	readErr    error
	readAt     int
	chunk      int           // at most this many bytes per read
	delay      time.Duration // of each read and write
	closeErr   error
	opErr      map[string]error // mkdir, rename, remove, ... fail
	written    int
	readSoFar  int
	deadlineOK bool // supports deadlines
	deadline   time.Time
}

// osWorld intercepts the operations of package os.
type osWorld struct {
	w         *core.World
	dir       string
	files     map[string]*osFile
	delivered []error
	opened    map[*os.File]string
	onOp      func(op *os.JoesimOp)
	reads     int
	escaped   string
}

// newOsWorld installs the interception for the run.  Whatever changes a file
// outside the run's scratch directory is refused and reported as a failure of
// the containment.
func newOsWorld(w *core.World) *osWorld {
	o := &osWorld{w: w, dir: Scratch(w), files: map[string]*osFile{}, opened: map[*os.File]string{}}
	os.JoesimHook = o.before
	os.JoesimDone = o.after
	return o
}

func (o *osWorld) stop() {
	os.JoesimHook = nil
	os.JoesimDone = nil
}

func (o *osWorld) inside(name string) bool {
	if !filepath.IsAbs(name) {
		wd, err := os.Getwd()
		if err != nil {
			return false
		}
		name = filepath.Join(wd, name)
	}
	name = filepath.Clean(name)
	return name == o.dir || strings.HasPrefix(name, o.dir+"/")
}

func (o *osWorld) rel(name string) string {
	if !filepath.IsAbs(name) {
		wd, _ := os.Getwd()
		name = filepath.Join(wd, name)
	}
	if r, err := filepath.Rel(o.dir, filepath.Clean(name)); err == nil {
		return r
	}
	return name
}

func (o *osWorld) file(rel string) *osFile {
	if f := o.files[rel]; f != nil {
		return f
	}
	return o.files[""]
}

func (o *osWorld) fault(kind, rel string, err error) error {
	o.w.Fault("os-" + kind)
	o.w.Ev("os %s %s: %v", kind, rel, err)
	o.delivered = append(o.delivered, err)
	return err
}

func (o *osWorld) before(op *os.JoesimOp) (int, error) {
	o.w.Step()
	mutates := false
	switch op.Op {
	case "mkdir", "chmod", "chown", "chtimes", "remove", "removeall", "rename", "write":
		mutates = true
	case "open":
		mutates = op.Flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0
	}
	if op.F != nil && (op.F == os.Stdout || op.F == os.Stderr || op.F == os.Stdin) {
		return -1, nil
	}
	if mutates && (!o.inside(op.Name) || op.Op == "rename" && !o.inside(op.Name2)) {
		o.escaped = fmt.Sprintf("%s %s %s", op.Op, op.Name, op.Name2)
		o.w.Ev("REFUSED %s", o.escaped)
		return 0, fmt.Errorf("refused: outside of the scratch directory")
	}
	if o.onOp != nil {
		o.onOp(op)
	}
	rel := o.rel(op.Name)
	f := o.file(rel)
	if f == nil {
		return -1, nil
	}
	switch op.Op {
	case "open":
		if f.openErr != nil {
			return 0, o.fault("open", rel, f.openErr)
		}
	case "read":
		o.reads++
		if f.delay > 0 {
			if f.deadlineOK && !f.deadline.IsZero() && time.Now().Add(f.delay).After(f.deadline) {
				time.Sleep(time.Until(f.deadline) + time.Millisecond)
				o.w.Fault("os-read-timed-out")
				return 0, &os.PathError{Op: "read", Path: op.Name, Err: os.ErrDeadlineExceeded}
			}
			time.Sleep(f.delay)
		}
		limit := op.N
		if f.chunk > 0 {
			limit = min(limit, f.chunk)
		}
		if f.readErr != nil {
			if f.readSoFar >= f.readAt {
				return 0, &os.PathError{Op: "read", Path: op.Name, Err: o.fault("read", rel, f.readErr)}
			}
			limit = min(limit, f.readAt-f.readSoFar)
		}
		return limit, nil
	case "write":
		if f.delay > 0 {
			time.Sleep(f.delay)
		}
		if f.writeErr != nil {
			left := f.writeAt - f.written
			if left < op.N {
				// a short write, then the error
				return max(left, 0), &os.PathError{Op: "write", Path: op.Name, Err: o.fault("write", rel, f.writeErr)}
			}
		}
	case "close":
		if f.closeErr != nil {
			return 0, o.fault("close", rel, f.closeErr)
		}
	case "deadline", "read-deadline", "write-deadline":
		if !f.deadlineOK {
			return 0, os.ErrNoDeadline
		}
		if op.Op != "write-deadline" {
			f.deadline = op.Time
		}
	default:
		if e := f.opErr[op.Op]; e != nil {
			return 0, o.fault(op.Op, rel, e)
		}
	}
	return -1, nil
}

func (o *osWorld) after(op *os.JoesimOp, err error) {
	rel := o.rel(op.Name)
	f := o.files[rel]
	switch op.Op {
	case "open-done":
		o.opened[op.F] = rel
	case "read-done":
		if f != nil && op.N > 0 {
			f.readSoFar += op.N
		}
	case "write-done":
		if f != nil && op.N > 0 {
			f.written += op.N
		}
	}
}
