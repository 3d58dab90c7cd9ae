package scen

import (
	"context"
	"errors"
	"fmt"
	"os"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// exitCall is how the simulated process ends.
type exitCall struct{ code int }

// exitErr is an error with an exit code of its own.
type exitErr struct {
	msg  string
	code int
}

func (e exitErr) Error() string { return e.msg }
func (e exitErr) ExitCode() int { return e.code }

type exitCase struct {
	err  error
	code int
	msg  string
}

func drawExitError(w *core.World) exitCase {
	n := w.Range(1, 300)
	switch w.Int(18) {
	case 0:
		return exitCase{errors.New("boom"), 1, "boom"}
	case 1:
		return exitCase{cli.Exit("message", n), n, "message"}
	case 2:
		return exitCase{cli.Exit(n), n, fmt.Sprintf("exited with status %d", n)}
	case 3:
		return exitCase{cli.Exit("several ", 3, "parts", n), n, "several 3parts"}
	case 4:
		return exitCase{cli.Exit("only", "text"), 1, "onlytext"}
	case 5:
		return exitCase{cli.Exit("what", cli.UnknownOption), 2, "unknown option: what"}
	case 6:
		return exitCase{cli.Exit(cli.UnexpectedArgument), 2, "unexpected argument"}
	case 7:
		return exitCase{exitErr{"custom %d", n}, n, "custom %d"}
	case 8:
		return exitCase{errors.New(""), 1, ""}
	case 9:
		return exitCase{cli.Exit(0), 0, ""}
	case 11:
		return exitCase{cli.Exit(exitErr{"", n}), n, ""}
	case 12:
		return exitCase{cli.Exit(exitErr{"own", n}), n, "own"}
	case 13:
		return exitCase{cli.Exit(errors.New("plain")), 1, "plain"}
	case 14:
		return exitCase{errors.New("  indented text\n\n"), 1, "  indented text\n\n"}
	case 15:
		return exitCase{cli.Exit(errors.New("plain"), n), n, "plain"}
	case 16:
		return exitCase{cli.Exit(" ", n), n, " "}
	case 10:
		return exitCase{cli.Exit("fine after all", 0), 0, "fine after all"}
	}
	return exitCase{exitErr{"lines\nof text", n}, n, "lines\nof text"}
}

// runExit simulates the whole process: the run ends it exactly once, exactly
// when the run failed.
func runExit(w *core.World) {
	phases := []string{"uses", "before", "flag", "sub-uses", "sub-flag", "sub-before", "action", "sub-after", "after"}
	at := ""
	var ex exitCase
	var args []string
	badLine := false
	switch w.Weighted(6, 3, 1) {
	case 0:
		at = core.Pick(w, phases...)
		ex = drawExitError(w)
		args = []string{"app", "-f", "1", "sub", "-g", "2"}
	case 1:
		badLine = true
		args = core.Pick(w,
			[]string{"app", "--nope"},
			[]string{"app", "-f"},
			[]string{"app", "-f", "x", "sub"},
			[]string{"app", "sub", "-g", "x"},
			[]string{"app", "sub", "extra"},
			[]string{"app", "nosuch"},
			[]string{"app", "sub", "--nope=1"},
			[]string{"app", "sub2"},
			[]string{"app", "help", "nosuch"},
			[]string{"app", "-f", "99999999999999999999", "sub"},
		)
	default:
		args = core.Pick(w, []string{"app", "sub"}, []string{"app", "-f", "3", "sub", "-g4"})
	}
	help := at == "" && !badLine && w.Chance(1, 2)
	if help {
		args = core.Pick(w, []string{"app", "--help"}, []string{"app", "--version"}, []string{"app", "sub", "--help"}, []string{"app", "help", "sub"})
	}
	// a flag that ends the run once its action has succeeded
	exits := ""
	if !badLine && !help && w.Chance(1, 5) {
		exits = core.Pick(w, "flag", "sub-flag")
		if at == "" {
			args = []string{"app", "-f", "3", "sub", "-g4"}
			at = "none"
		}
		order := []string{"uses", "sub-uses", "before", "flag", "sub-before", "sub-flag", "action", "sub-after", "after", "none"}
		if slices.Index(order, at) > slices.Index(order, exits) {
			at, ex = "after "+exits, exitCase{code: 0}
		}
		w.Ev("exits after %s", exits)
	}
	exitsOpt := func(name string) cli.Option {
		if name == exits {
			return cli.Exits
		}
		return 0
	}
	var ended bool
	var late string
	afterExits := ""
	done := 0
	ran := ""
	step := func(name string) cli.Action {
		return cli.ActionOf(func() error {
			w.Step()
			w.Ev("step %s", name)
			done++
			if at == "after "+exits && ran == exits {
				afterExits = name
			}
			ran = name
			if ended && late == "" {
				late = name
			}
			if name == at {
				return ex.err
			}
			return nil
		})
	}
	middle := w.Chance(1, 3)
	wrap := func(a cli.Action) cli.Action {
		if middle {
			return cli.Pipeline(cli.ActionOf(func() {}), a)
		}
		return a
	}
	so, se := &simWriter{w: w, failAt: -1, err: &simErr{"stdout"}}, &simWriter{w: w, failAt: -1, err: &simErr{"stderr"}}
	stderrFails := w.Chance(1, 5)
	build := func() *cli.App {
		return &cli.App{
			Name: "app", Stdout: so, Stderr: se,
			Uses:   wrap(step("uses")),
			Before: wrap(step("before")),
			After:  wrap(step("after")),
			Flags:  []*cli.Flag{{Name: "f", Value: new(int), Action: step("flag"), Options: exitsOpt("flag")}},
			Commands: []*cli.Command{
				{
					Name: "sub", Uses: step("sub-uses"), Before: wrap(step("sub-before")), Action: wrap(step("action")), After: step("sub-after"),
					Flags: []*cli.Flag{{Name: "g", Value: new(int), Action: step("sub-flag"), Options: exitsOpt("sub-flag")}},
				},
				{
					Name: "sub2", Flags: []*cli.Flag{{Name: "needed", Options: cli.Required}}, Action: step("action2"),
				},
			},
		}
	}
	// what the same program reports when it is not the process
	var cerr error
	if pv := w.Call(func() { cerr = build().RunContext(context.Background(), args) }); pv != nil {
		w.Fail("panic", "%q panicked: %v", args, pv)
		return
	}
	code, msg := ex.code, ex.msg
	switch {
	case badLine:
		code = 2
		var pe *cli.ParseError
		if !errors.As(cerr, &pe) {
			code = exitStatus(cerr) // the error of the value, not of the parser
		}
		if cerr == nil {
			w.Fail("result", "%q was accepted", args)
			return
		}
		msg = cerr.Error()
		if msg == "" {
			w.Fail("result", "%q is refused without any message", args)
			return
		}
	case help:
		code = 0
	case at == "":
		if cerr != nil {
			w.Fail("result", "%q returned %v", args, cerr)
			return
		}
	}
	want := at != "" || badLine
	so.buf.Reset()
	se.buf.Reset()
	if stderrFails && !help {
		se.failAt = w.Int(4)
	}
	done, ran = 0, ""
	custom := w.Chance(1, 3)
	var codes []int
	var msgs []string
	var hctx *cli.Context
	if custom {
		cli.ExitHandler = func(c *cli.Context, m string, s int) {
			codes, msgs, hctx, ended = append(codes, s), append(msgs, m), c, true
		}
		os.JoesimExit = func(c int) { panic(exitCall{c}) }
	} else {
		os.JoesimExit = func(c int) {
			codes, ended = append(codes, c), true
			w.Ev("exit %d", c)
			panic(exitCall{c})
		}
	}
	app := build()
	pv := w.Call(func() { app.Run(args) })
	os.JoesimExit = nil
	cli.ExitHandler = nil
	w.Ev("codes=%v msgs=%q stderr=%q", codes, msgs, se.buf.String())
	if ec, ok := pv.(exitCall); ok && custom {
		w.Fail("exit", "%q ended the process with status %d despite the exit handler", args, ec.code)
		return
	} else if pv != nil && !ok {
		w.Fail("panic", "%q panicked: %v", args, pv)
		return
	}
	switch {
	case len(codes) > 1:
		w.Fail("exit", "%q ended more than once: %v", args, codes)
	case afterExits != "":
		w.Fail("exit", "%q ran %s after the flag that exits", args, afterExits)
	case late != "":
		w.Fail("exit", "%q ran %s after the end", args, late)
	case want && len(codes) == 0:
		w.Fail("exit", "%q failed with %v, but the process did not end with a status", args, errName(cerr))
	case len(codes) == 1 && codes[0] != code:
		w.Fail("status", "%q ended with status %d, expected %d (%v)", args, codes[0], code, errName(cerr))
	case help || !want && len(codes) == 0:
		if help {
			return
		}
		if se.buf.Len() > 0 {
			w.Fail("message", "%q succeeded and wrote %q", args, se.buf.String())
		}
	case custom:
		if msg != msgs[0] && code != 0 {
			w.Fail("message", "%q: the exit handler was given %q, expected %q", args, msgs[0], msg)
		} else if hctx == nil || hctx.App() != app {
			w.Fail("message", "%q: the exit handler was not given the app's context", args)
		}
	default:
		x := ""
		if code != 0 && msg != "" {
			x = msg + "\n"
		}
		got := se.buf.String()
		if got != x && !(se.failed > 0 && strings.HasPrefix(x, got)) {
			w.Fail("message", "%q ended with status %d and wrote %q, expected %q", args, code, got, x)
		}
	}
	w.Probe("exit status " + fmt.Sprint(min(code, 3)))
	w.Nontrivial = true
}

func init() {
	register(&core.Property{
		ID:        "C10",
		QuickRuns: 80000, ThoroughRuns: 1500000,
		Rule:      "the process ends exactly once iff the run failed, with the status and message of its error, and nothing runs after",
		Real:      []string{"App.Run, exit handler, errors, parser, help and version actions"},
		Stub:      []string{"os.Exit (recorded, unwinds)", "standard error (in memory, may fail)"},
		Scenarios: []core.Scenario{{Name: "exit", Weight: 1, Run: runExit}},
	})
}
