package scen

import (
	"context"
	"errors"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"slices"
	"sync"
	"syscall"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/exec"

	"joesim/core"
)

// opening is one use of Open, with what becomes of the process.
type opening struct {
	name  string
	start error
	wait  error         // its end can't be learned
	after time.Duration // it ends then, unless negative
	code  int
	sig   int

	programs []string
	argvs    [][]string
	pids     []int
	waited   int
}

// runOpen runs apps that open files and addresses.
func runOpen(w *core.World) {
	dir := Scratch(w)
	program := filepath.Join(dir, "xdg-open")
	installed := core.Pick(w, "yes", "yes", "yes", "yes", "yes", "no", "plain")
	switch installed {
	case "yes":
		os.WriteFile(program, nil, 0o755) // found, but not run
	case "plain":
		os.WriteFile(program, nil, 0o644)
	}
	SetEnv(w, "PATH", dir)
	display := !w.Chance(1, 8)
	if display {
		SetEnv(w, "DISPLAY", core.Pick(w, ":0", "x:1.0"))
	} else {
		SetEnv(w, "DISPLAY", "")
	}
	var list []*opening
	for range w.Range(1, 4) {
		o := &opening{name: core.Pick(w, "a.txt", "dir/b c", "https://example.com/?a=b&c", "-x", "", "a'b", "two\nlines", "http://x/%20*?", " s ", "./r/../q", "FILE:///X", "--help", "$HOME/~", "%s")}
		if len(list) > 0 {
			o.name = fmt.Sprint(len(list)) + o.name
		}
		switch w.Weighted(5, 2, 1, 1) {
		case 0:
			// Ends within the time or after it, never at the same instant
			o.after = time.Duration(w.Range(0, 2999)) * time.Millisecond
			if w.Chance(1, 3) {
				o.after = time.Duration(core.Pick(w, 3001, 3500, 2999, 0, 1, 60000)) * time.Millisecond
			}
		case 1:
			o.after = -1
		case 2:
			o.start = core.Pick[error](w, syscall.EAGAIN, syscall.ENOMEM, syscall.EACCES, syscall.ENOEXEC)
		case 3:
			o.after = time.Duration(w.Range(0, 5000)) * time.Millisecond
			if o.after == 3*time.Second {
				o.after++
			}
			o.wait = syscall.ECHILD
		}
		if o.after >= 0 {
			switch w.Int(3) {
			case 0:
				o.code = core.Pick(w, 1, 2, 3, 4, 127, 255)
			case 1:
				o.sig = core.Pick(w, 9, 11, 15)
			}
		}
		list = append(list, o)
	}
	pids := map[int]*opening{}
	together := w.Chance(1, 3)
	w.Cleanup(func() { os.JoesimStart, os.JoesimWait = nil, nil })
	stop := make(chan struct{})
	os.JoesimStart = func(name string, argv []string) (int, error) {
		w.Step()
		i := slices.IndexFunc(list, func(o *opening) bool { return slices.Contains(argv[min(1, len(argv)):], o.name) })
		if i < 0 {
			w.Fail("started", "started %q %q", name, argv)
			return 0, syscall.ENOENT
		}
		o := list[i]
		o.argvs = append(o.argvs, slices.Clone(argv))
		o.programs = append(o.programs, name)
		if o.start != nil {
			w.Fault("process start")
			return 0, o.start
		}
		pid := 100 + len(pids)
		pids[pid] = o
		o.pids = append(o.pids, pid)
		return pid, nil
	}
	os.JoesimWait = func(pid int) (*os.ProcessState, error) {
		o := pids[pid]
		o.waited++
		if o.after < 0 {
			<-stop
			return os.JoesimProcessState(pid, 0, 9), nil
		}
		time.Sleep(o.after)
		if o.wait != nil {
			return nil, o.wait
		}
		return os.JoesimProcessState(pid, o.code, o.sig), nil
	}
	os.JoesimSignal = func(pid int, sig os.Signal) error {
		w.Fail("signalled", "process %d of %q gets signal %v", pid, pids[pid].name, sig)
		return nil
	}
	const limit = 3 * time.Second
	bad := func(class, format string, args ...any) error {
		w.Fail(class, format, args...)
		return nil
	}
	step := func(i int, o *opening) error {
		begin := time.Now()
		err := exec.Open(o.name)
		took := time.Since(begin)
		what := fmt.Sprintf("opening %q (number %d, display %v, installed %s, start %v, ends after %v with %d, signal %d, %v)",
			o.name, i, display, installed, o.start, o.after, o.code, o.sig, o.wait)
		w.Ev("%s: %v after %v", what, err, took)
		switch {
		case !display || installed != "yes":
			switch {
			case err == nil:
				return bad("not-reported", "%s: no error", what)
			case len(o.argvs) > 0:
				return bad("started", "%s: started %q", what, o.argvs)
			case took != 0:
				return bad("time", "%s: took %v", what, took)
			}
			w.Fault("no program or display")
			return nil
		case len(o.argvs) != 1 || o.programs[0] != program || len(o.argvs[0]) != 2 || o.argvs[0][1] != o.name:
			return bad("started", "%s: started %q %q", what, o.programs, o.argvs)
		case o.start != nil:
			if !errors.Is(err, o.start) || took != 0 {
				return bad("start", "%s: %v after %v", what, err, took)
			}
			return nil
		}
		if o.waited != 1 {
			return bad("waited", "%s: the process was waited for %d times", what, o.waited)
		}
		if o.after < 0 || o.after > limit {
			w.Probe("still running")
			if err != nil || took != limit {
				return bad("running", "%s: %v after %v, expected success after %v", what, err, took, limit)
			}
			return nil
		}
		if took != o.after {
			return bad("time", "%s: took %v, but the process ended after %v", what, took, o.after)
		}
		var xe *osexec.ExitError
		switch {
		case o.wait != nil:
			w.Fault("process wait")
			if !errors.Is(err, o.wait) {
				return bad("status", "%s: %v", what, err)
			}
		case o.code == 0 && o.sig == 0:
			if err != nil {
				return bad("status", "%s: %v", what, err)
			}
		default:
			w.Fault("process status")
			if !errors.As(err, &xe) || o.sig == 0 && xe.ExitCode() != o.code || xe.Sys().(syscall.WaitStatus).Signaled() != (o.sig != 0) {
				return bad("status", "%s: %v", what, err)
			}
		}
		return err
	}
	app := &cli.App{Name: "app", Action: func() error {
		if together {
			// They begin at different instants, and end at different ones
			w.Probe("together")
			var wg sync.WaitGroup
			for i, o := range list {
				wg.Go(func() {
					time.Sleep(time.Duration(1+i) * time.Microsecond)
					step(i, o)
				})
			}
			wg.Wait()
			return nil
		}
		for i, o := range list {
			step(i, o)
			if w.Failed() {
				break
			}
			if w.Chance(1, 3) {
				time.Sleep(time.Duration(w.Range(1, 4000)) * time.Millisecond)
			}
		}
		return nil
	}}
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), []string{"app"}) })
	close(stop)
	time.Sleep(2 * time.Minute) // what is still running ends
	os.JoesimStart, os.JoesimWait = nil, nil
	if w.Exceeded() {
		panic(pv)
	}
	switch {
	case pv != nil:
		w.Fail("panic", "panic %v at %s", pv, site)
	case err != nil && !w.Failed():
		w.Fail("run", "the run ends with %v", err)
	}
	w.Nontrivial = true
}

func init() {
	register(&core.Property{
		ID:        "C18",
		QuickRuns: 40000, ThoroughRuns: 800000,
		Rule:      "opening a file starts the opener once and reports what becomes of it within three seconds, and no later",
		Real:      []string{"exec.Open, os/exec (search, start, wait)"},
		Stub:      []string{"the process (its start, duration and status)", "clock", "environment variables"},
		Scenarios: []core.Scenario{{Name: "open", Weight: 1, Run: runOpen}},
	})
}
