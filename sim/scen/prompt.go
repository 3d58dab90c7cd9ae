package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// simTerm is standard input with a file descriptor.
type simTerm struct {
	*simReader
	fd     uintptr
	onRead func()
}

func (t *simTerm) Fd() uintptr { return t.fd }
func (t *simTerm) Read(p []byte) (int, error) {
	if t.onRead != nil {
		t.onRead()
	}
	return t.simReader.Read(p)
}

type promptOp struct {
	kind  string // line, password, raw, file, rest, say
	text  string
	n     int
	end   bool // an error ends the run
	plain bool // the function rather than the context's method
}

// runPrompt has the steps of a run take turns at reading standard input.
func runPrompt(w *core.World) {
	var b strings.Builder
	for range w.Int(9) {
		for range w.Int(7) {
			b.WriteString(core.Pick(w, "a", "b", " ", "é", "\r", "\t", "xyz", "\x00"))
		}
		b.WriteString("\n")
	}
	if w.Chance(1, 3) {
		b.WriteString("unfinished")
	}
	if w.Chance(1, 10) {
		b.WriteString(strings.Repeat("long line ", 700) + "\nend\n")
	}
	node := &simNode{name: "-", data: []byte(b.String())}
	node.benign(w)
	if w.Chance(1, 3) && len(node.data) > 0 {
		node.readErr, node.readAt, node.errData = &simErr{"stdin"}, w.Int(len(node.data)), w.Chance(1, 2)
	}
	in := &simTerm{simReader: &simReader{w: w, n: node}}
	if w.Chance(1, 8) {
		in.fd = uintptr(w.Range(1, 9))
	}
	se := &simWriter{w: w, failAt: -1, err: &simErr{"stderr"}, once: w.Chance(1, 2)}
	if w.Chance(1, 4) {
		se.failAt = w.Int(60)
	}
	so := &simWriter{w: w, failAt: -1}

	phases := []string{"before", "sub-before", "flag", "action", "sub-after", "after"}
	ops := map[string][]promptOp{}
	for range w.Range(1, 9) {
		op := promptOp{kind: []string{"line", "raw", "file", "rest", "say", "password"}[w.Weighted(10, 2, 2, 1, 2, 1)],
			text: core.Pick(w, "name: ", "", "%d? ", "two\nlines ", "é> ", "Name"), n: w.Range(1, 12), end: w.Chance(2, 3), plain: w.Chance(1, 4)}
		if op.kind == "password" && in.fd == 0 {
			op.kind = "line" // reads the terminal of the real process
		}
		ph := core.Pick(w, phases...)
		ops[ph] = append(ops[ph], op)
	}

	// the model: what was taken of the input, and what standard error holds
	taken := 0
	shown := ""
	next := func(p []byte) bool { return bytes.HasPrefix(node.data[taken:], p) }
	limit := func() int {
		if node.readErr != nil {
			return node.readAt
		}
		return len(node.data)
	}
	endErr := func() error {
		if node.readErr != nil {
			return node.readErr
		}
		return io.EOF
	}
	fail := func(class, format string, a ...any) { w.Fail(class, format, a...) }
	show := func(s string) bool { // whether it can be shown
		if se.failAt >= 0 && len(shown)+len(s) > se.failAt && !(se.once && se.failed > 0) {
			shown += s[:max(0, se.failAt-len(shown))]
			return false
		}
		shown += s
		return true
	}
	var expected error // that ends the run
	later := ""
	do := func(ph string, c *cli.Context, op promptOp) error {
		w.Step()
		w.Ev("%s %s %q n=%d taken=%d", ph, op.kind, op.text, op.n, taken)
		switch op.kind {
		case "say":
			can := show(op.text)
			_, err := fmt.Fprint(c.Stderr, op.text)
			if can != (err == nil) {
				fail("say", "writing %q to standard error: %v", op.text, err)
			}
			return err
		case "line", "password":
			can := op.plain || show(op.text)
			in.onRead = func() {
				if se.buf.String() != shown {
					fail("prompt", "standard input is read with standard error %q, expected %q", se.buf.String(), shown)
				}
			}
			off := in.off
			var s string
			var err error
			switch {
			case op.kind == "password" && op.plain:
				s, err = cli.ReadPasswordString(c.Stdin)
			case op.kind == "password":
				s, err = c.ReadPasswordString(op.text)
			case op.plain:
				s, err = cli.ReadString(c.Stdin)
			default:
				s, err = c.ReadString(op.text)
			}
			in.onRead = nil
			w.Ev("  = %q %s", s, errName(err))
			if got := se.buf.String(); got != shown {
				fail("prompt", "prompt %q: standard error is %q, expected %q", op.text, got, shown)
				return nil
			}
			if !can || in.fd != 0 {
				switch {
				case err == nil || s != "":
					fail("result", "prompt %q (shown: %v, terminal: %v) gave %q, %v", op.text, can, in.fd == 0, s, err)
				case !can && err != error(se.err):
					fail("result", "prompt %q can't be written, but ended with %s", op.text, errName(err))
				case in.off != off:
					fail("consumed", "prompt %q failed but took %d bytes of the input", op.text, in.off-off)
				}
				return err
			}
			line, _, whole := bytes.Cut(node.data[taken:limit()], []byte("\n"))
			if !whole {
				taken = limit()
				if err != endErr() || s != "" {
					fail("result", "the line at %d is cut off by %v, but the prompt gave %q, %v", taken, endErr(), s, errName(err))
				}
				return err
			}
			at := taken
			taken += len(line) + 1
			if err != nil || s != string(line) {
				fail("line", "the line at %d is %q, but the prompt gave %q, %v", at, line, s, errName(err))
			} else if in.off != taken {
				fail("consumed", "the line at %d ends at %d, but the input was read up to %d", at, taken, in.off)
			}
			w.Probe("line read")
			return err
		case "raw", "file", "rest":
			r := c.Stdin
			if op.kind != "raw" {
				f, err := c.File("in").Open()
				if err != nil {
					fail("open", "opening - : %v", err)
					return nil
				}
				r = f
			}
			var p []byte
			var err error
			if op.kind == "rest" {
				p, err = io.ReadAll(r)
			} else {
				p = make([]byte, op.n)
				var n int
				n, err = io.ReadFull(r, p)
				p = p[:n]
			}
			w.Ev("  = %q %s", p, errName(err))
			n := op.n
			if op.kind == "rest" {
				n = len(node.data)
			}
			n = min(n, limit()-taken)
			if len(p) != n || !next(p) {
				fail("input", "reading %d bytes at %d gave %q", op.n, taken, p)
				return nil
			}
			taken += n
			return nil
		}
		return nil
	}
	step := func(ph string) cli.Action {
		return cli.ActionOf(func(c *cli.Context) error {
			if expected != nil && later == "" {
				later = ph
			}
			for _, op := range ops[ph] {
				err := do(ph, c, op)
				if w.Failed() {
					return nil
				}
				if err != nil && op.end {
					expected = err
					return err
				}
			}
			return nil
		})
	}
	text := new(string)
	app := &cli.App{
		Name: "app", Stdin: in, Stdout: so, Stderr: se,
		Before: step("before"), After: step("after"),
		Flags: []*cli.Flag{
			{Name: "in", Value: new(cli.File)},
			{Name: "text", Value: text, Options: cli.FileReference},
		},
		Commands: []*cli.Command{{
			Name: "sub", Before: step("sub-before"), Action: step("action"), After: step("sub-after"),
			Flags: []*cli.Flag{{Name: "f", Value: new(bool), Action: step("flag")}},
		}},
	}
	args := []string{"app", "--in", "-", "sub", "-f"}
	if w.Chance(1, 10) {
		args = []string{"app", "--in", "-", "--text", "-", "sub", "-f"}
		taken = limit()
		if node.readErr != nil {
			expected = node.readErr
		}
	}
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), args) })
	if w.Exceeded() {
		panic(pv)
	}
	if w.Failed() {
		return
	}
	switch {
	case pv != nil:
		w.Fail("panic", "%v at %s", pv, site)
	case later != "":
		w.Fail("later", "%s runs after the run was ended by %v", later, expected)
	case expected == nil && err != nil || !errors.Is(err, expected):
		w.Fail("end", "the run ended with %s, expected %s", errName(err), errName(expected))
	case len(args) > 5 && expected == nil && *text != string(node.data):
		w.Fail("reference", "the value is %q, expected %q", *text, node.data)
	}
	w.Nontrivial = len(ops) > 1
}

func init() {
	register(&core.Property{
		ID:        "C16",
		QuickRuns: 120000, ThoroughRuns: 2400000,
		Rule:      "each prompt is shown once and takes exactly the next line of standard input, whoever reads it before and after",
		Real:      []string{"ReadString, ReadPasswordString (refusal), prompts, File and FileReference of -, run engine"},
		Stub:      []string{"standard input (in memory: short, empty and failing reads)", "standard error (in memory, may fail)", "the terminal's password mode is not entered"},
		Scenarios: []core.Scenario{{Name: "prompt", Weight: 1, Run: runPrompt}},
	})
}
