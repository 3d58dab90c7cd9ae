package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/table"

	"joesim/core"
)

// simWriter is an output that fails once a number of bytes was written.
type simWriter struct {
	w          *core.World
	buf        bytes.Buffer
	failAt     int // -1: never
	err        error
	once       bool // only the first failing write fails
	failed     int
	afterwards int // writes after the first failure
}

func (s *simWriter) Write(p []byte) (int, error) {
	s.w.Step()
	if s.failed > 0 {
		s.afterwards++
	}
	if s.failAt >= 0 && s.buf.Len()+len(p) > s.failAt && !(s.once && s.failed > 0) {
		k := max(0, s.failAt-s.buf.Len())
		s.buf.Write(p[:k])
		s.failed++
		s.w.Fault("output-write")
		return k, s.err
	}
	s.buf.Write(p)
	return len(p), nil
}

// simStringWriter offers WriteString too.
type simStringWriter struct{ *simWriter }

func (s simStringWriter) WriteString(t string) (int, error) { return s.Write([]byte(t)) }

type outOp struct {
	kind int
	text string
	n    int
}

// expected is what the operation adds to standard output and standard error.
func (o outOp) expected(colored bool) (string, string) {
	switch o.kind {
	case 0:
		return fmt.Sprint(o.text, o.n, o.n), ""
	case 1:
		return fmt.Sprintln(o.text, o.n), ""
	case 2:
		return fmt.Sprintf("%s=%d;", o.text, o.n), ""
	case 3:
		return "", fmt.Sprint(o.text, o.n, o.n)
	case 4:
		return "", fmt.Sprintln(o.text, o.n)
	case 5:
		return "", fmt.Sprintf("%s=%d;", o.text, o.n)
	case 6:
		return o.text + "\n", ""
	case 7:
		return o.text, ""
	case 8:
		return fmt.Sprintf("<%s:%d>", o.text, o.n), ""
	case 11:
		return fmt.Sprintf("[%s]", o.text), ""
	case 12:
		return fmt.Sprintf("{%s!%d!}", o.text, o.n), ""
	case 9:
		if colored {
			return "\x1b[1m" + o.text + "\x1b[0m", ""
		}
		return o.text, ""
	}
	if colored {
		return "", "\x1b[1m" + o.text + "\x1b[0m"
	}
	return "", o.text
}

func (o outOp) action(tpl string) cli.Action {
	switch o.kind {
	case 0:
		return cli.Print(o.text, o.n, o.n)
	case 1:
		return cli.Println(o.text, o.n)
	case 2:
		return cli.Printf("%s=%d;", o.text, o.n)
	case 3:
		return cli.Fprint(nil, o.text, o.n, o.n)
	case 4:
		return cli.Fprintln(nil, o.text, o.n)
	case 5:
		return cli.Fprintf(nil, "%s=%d;", o.text, o.n)
	case 6:
		return cli.ActionOf(func(c *cli.Context) error { _, err := c.Println(o.text); return err })
	case 7:
		return cli.ActionOf(func(c *cli.Context) error { _, err := c.Stdout.WriteString(o.text); return err })
	case 11:
		return cli.ExecuteTemplate("Inner", func(*cli.Context) any { return o.text })
	case 8, 12:
		if o.kind == 12 {
			tpl = "Calls"
		}
		return cli.ExecuteTemplate(tpl, func(*cli.Context) any {
			return struct {
				T string
				N int
			}{o.text, o.n}
		})
	case 9:
		return cli.ActionOf(func(c *cli.Context) error { _, err := c.Stdout.Bold(o.text); return err })
	}
	return cli.ActionOf(func(c *cli.Context) error { _, err := c.Stderr.Styled(cli.Bold, o.text); return err })
}

var errTemplateFunc = &simErr{"template function"}

type outProg struct {
	before, subBefore, act, after []outOp
	flagAct                       []outOp
	flags                         int
	subs                          int
	table, color                  bool
	args                          []string
	direct                        bool // the output is that of the operations
	helpText                      string
	mentions                      []string
	customHelp                    bool // the program's own help template
	broken                        int  // the call of the template function that fails
	broke                         bool // it has failed
	setColor                      int  // 1, 2: off or on during initialization; 3, 4: before
}

// colored reports whether styles show on standard output.
func (p *outProg) colored() bool { return p.setColor != 0 && p.setColor%2 == 0 }

func drawOps(w *core.World, n int) []outOp {
	var res []outOp
	for range n {
		res = append(res, outOp{w.Int(13), core.Pick(w, "a", "text with %d and spaces", "two\nlines\n", "", strings.Repeat("long ", 40)), w.Int(100)})
	}
	return res
}

func drawOutProg(w *core.World) *outProg {
	p := &outProg{
		flags: w.Range(0, 3), subs: w.Range(0, 2),
		table: w.Chance(1, 4), color: w.Chance(1, 5),
		helpText: core.Pick(w, "does something", "", strings.Repeat("wrapped help text ", 12)),
	}
	if w.Chance(1, 3) {
		p.setColor = w.Range(1, 4)
	}
	p.before = drawOps(w, w.Int(2))
	p.subBefore = drawOps(w, w.Int(2))
	p.act = drawOps(w, w.Range(0, 3))
	p.after = drawOps(w, w.Int(2))
	p.flagAct = drawOps(w, w.Int(2))
	sub := func() string {
		if p.subs == 0 {
			return ""
		}
		return fmt.Sprintf("sub%d", w.Int(p.subs))
	}
	args := []string{"app"}
	add := func(s ...string) {
		for _, x := range s {
			if x != "" {
				args = append(args, x)
			}
		}
	}
	all := func() {
		for i := range p.flags {
			p.mentions = append(p.mentions, fmt.Sprintf("--flag-%d", i))
		}
		for i := range p.subs {
			p.mentions = append(p.mentions, fmt.Sprintf("sub%d", i))
		}
	}
	switch w.Int(10) {
	case 0, 1, 2:
		p.direct = true
		if w.Chance(1, 2) {
			add("--print")
		} else {
			p.flagAct = nil
		}
		if p.subs > 0 {
			add(sub())
		} else {
			p.subBefore = nil
		}
	case 3:
		all()
		add("--help")
	case 4:
		if p.subs > 0 {
			s := sub()
			add("help", s)
			p.mentions = []string{s, "-x"}
		} else {
			all()
			add("-h")
		}
	case 5:
		if p.subs > 0 {
			s := sub()
			add(s, "--help")
			p.mentions = []string{s, "-x"}
		} else {
			all()
			add("--help")
		}
	case 6:
		p.mentions = []string{"app", "1.2"}
		if p.subs > 0 && w.Chance(1, 2) {
			add("version")
		} else {
			add("--version")
		}
	case 7:
		p.mentions = []string{"license text"}
		add("--license")
	case 8:
		p.mentions = []string{"compdef"}
		add("--zsh-completion")
	default:
		p.mentions = []string{"one", "two"}
		add("--list-provider")
	}
	p.args = args
	if w.Chance(1, 4) {
		p.customHelp = true
		if s := strings.Join(args, " "); strings.Contains(s, "help") || strings.Contains(s, "-h") {
			p.mentions = []string{"<help>", "last cell"}
		}
	}
	return p
}

// build makes the program; step is told before each operation.
func (p *outProg) build(stdout, stderr io.Writer, step func(string)) *cli.App {
	seq := func(name string, ops []outOp) cli.Action {
		var res []cli.Action
		for i, o := range ops {
			id := fmt.Sprintf("%s%d", name, i)
			res = append(res, cli.ActionOf(func() { step(id) }), o.action("T"))
		}
		return cli.ActionPipeline(res)
	}
	act := seq("action", p.act)
	setColor := func(from int) cli.Action {
		if p.setColor == from || p.setColor == from+1 {
			return cli.SetColor(p.colored())
		}
		return nil
	}
	app := &cli.App{
		Name: "app", Version: "1.2", License: strings.Repeat("license text ", 20),
		Stdout: stdout, Stderr: stderr,
		HelpText: p.helpText,
		Before:   cli.Pipeline(setColor(3), seq("before", p.before)),
		After:    seq("after", p.after),
	}
	mark := func(n int) (string, error) {
		if p.broken > 0 {
			if p.broken--; p.broken == 0 {
				p.broke = true
				return "", errTemplateFunc
			}
		}
		return fmt.Sprintf("!%d!", n), nil
	}
	uses := []cli.Action{
		cli.RegisterTemplate("T", "<{{ .T }}:{{ .N }}>"),
		cli.RegisterTemplate("Inner", "replaced"),
		cli.RegisterTemplateFunc("Mark", mark),
		cli.RegisterTemplate("Calls", `{{ define "Inner" }}[{{ . }}]{{ end }}{{ "{" }}{{ .T }}{{ Mark .N }}{{ "}" }}`),
		&provider.Registry{Name: "provider", Providers: provider.Map{"one": {"k": "v"}, "two": {"a": "1", "b": "2"}}},
	}
	if p.table {
		uses = append(uses, &table.Options{})
	}
	if p.color {
		uses = append(uses, &color.Options{})
	}
	if p.customHelp {
		uses = append(uses, cli.RegisterTemplate("Help", "<help>\ttext\n{{ range .SelectedCommand.VisibleFlags }}x\ty\n{{ end }}long\tlast cell"))
	}
	app.Uses = cli.Pipeline(setColor(1), cli.ActionPipeline(uses))
	for i := range p.flags {
		app.Flags = append(app.Flags, &cli.Flag{Name: fmt.Sprintf("flag-%d", i), HelpText: p.helpText, Value: new(string)})
	}
	app.Flags = append(app.Flags,
		&cli.Flag{Name: "print", Value: new(bool), Action: seq("flag", p.flagAct)},
		&cli.Flag{Name: "license", Uses: cli.PrintLicense()},
		&cli.Flag{Name: "provider", Value: new(provider.Value)},
		&cli.Flag{Uses: provider.ListProviders("provider")},
	)
	for i := range p.subs {
		app.Commands = append(app.Commands, &cli.Command{
			Name: fmt.Sprintf("sub%d", i), HelpText: p.helpText,
			Flags:  []*cli.Flag{{Name: "x", HelpText: p.helpText}},
			Before: seq("sub-before", p.subBefore),
			Action: act,
		})
	}
	if p.subs == 0 {
		app.Action = act
	}
	return app
}

// expected output of a program whose output is that of its operations.
func (p *outProg) expected() (out, errs string) {
	for _, ops := range [][]outOp{p.before, p.flagAct, p.subBefore, p.act, p.after} {
		for _, o := range ops {
			a, b := o.expected(p.colored())
			out, errs = out+a, errs+b
		}
	}
	return
}

func runOutput(w *core.World) {
	p := drawOutProg(w)
	w.Ev("program %+v", *p)
	control := func() (o, e *simWriter, err error, pv any) {
		o, e = &simWriter{w: w, failAt: -1}, &simWriter{w: w, failAt: -1}
		pv = w.Call(func() {
			err = p.build(o, e, func(string) {}).RunContext(context.Background(), p.args)
		})
		return
	}
	co, ce, cerr, pv := control()
	if pv != nil {
		w.Fail("panic", "%q panicked: %v", p.args, pv)
		return
	}
	w.Ev("control: %q %q %v", co.buf.String(), ce.buf.String(), cerr)
	if p.direct {
		xo, xe := p.expected()
		if co.buf.String() != xo || ce.buf.String() != xe {
			w.Fail("bytes", "%q wrote %q and %q, expected %q and %q", p.args, co.buf.String(), ce.buf.String(), xo, xe)
			return
		}
	}
	if exitStatus(cerr) != 0 {
		w.Fail("failed", "%q failed without any fault: %v", p.args, cerr)
		return
	}
	if !p.direct {
		for _, s := range p.mentions {
			if !strings.Contains(co.buf.String()+ce.buf.String(), s) {
				w.Fail("bytes", "%q wrote %q and %q, which does not mention %s", p.args, co.buf.String(), ce.buf.String(), s)
				return
			}
		}
	}

	if p.direct && w.Chance(1, 6) {
		// a template that fails
		o, e := &simWriter{w: w, failAt: -1}, &simWriter{w: w, failAt: -1}
		late := ""
		p.broken = w.Range(1, 2)
		var err error
		pv := w.Call(func() {
			err = p.build(o, e, func(id string) {
				if p.broke && late == "" {
					late = id
				}
			}).RunContext(context.Background(), p.args)
		})
		switch {
		case pv != nil:
			w.Fail("panic", "%q panicked: %v", p.args, pv)
		case !p.broke:
		case !errors.Is(err, errTemplateFunc):
			w.Fail("error-lost", "%q returned %v although a template failed", p.args, errName(err))
		case late != "":
			w.Fail("later-step", "%q ran %s after a template had failed", p.args, late)
		case !strings.HasPrefix(co.buf.String(), o.buf.String()):
			w.Fail("bytes", "%q wrote %q, which does not begin %q", p.args, o.buf.String(), co.buf.String())
		}
		if p.broke {
			w.Fault("template-function")
		}
		if p.broken, p.broke = 0, false; w.Failed() {
			return
		}
	}

	// the same program with outputs that fail
	inj := &simErr{"output"}
	mk := func(total int, may bool) *simWriter {
		s := &simWriter{w: w, failAt: -1, err: inj}
		if may {
			s.failAt = w.Int(total + 2)
			s.once = w.Chance(1, 3)
		}
		return s
	}
	which := w.Weighted(3, 3, 1, 1) // stdout, stderr, both, neither
	if p.colored() {
		// the Writer interface cannot report that a control code was not written
		which = 3
	}
	fo := mk(co.buf.Len(), which == 0 || which == 2)
	fe := mk(ce.buf.Len(), which == 1 || which == 2)
	kind := w.Int(4)
	wrap := func(s *simWriter) io.Writer {
		switch kind {
		case 1:
			return simStringWriter{s}
		case 2:
			return cli.NewWriter(s)
		}
		return s
	}
	var wo, we io.Writer = wrap(fo), wrap(fe)
	var files []*os.File
	var osw *osWorld
	if kind == 3 {
		// real files, whose writes fail
		osw = newOsWorld(w)
		mkf := func(name string, s *simWriter) io.Writer {
			f, err := os.Create(filepath.Join(osw.dir, name))
			if err != nil {
				panic(err)
			}
			files = append(files, f)
			if s.failAt >= 0 {
				osw.files[name] = &osFile{writeErr: inj, writeAt: s.failAt}
			}
			return f
		}
		wo, we = mkf("stdout", fo), mkf("stderr", fe)
	}
	faults := func() int {
		if osw != nil {
			return len(osw.delivered)
		}
		return fo.failed + fe.failed
	}
	var steps []string
	late := ""
	app := p.build(wo, we, func(id string) {
		steps = append(steps, id)
		if faults() > 0 && late == "" {
			late = id
		}
	})
	var err error
	pv = w.Call(func() { err = app.RunContext(context.Background(), p.args) })
	n := faults()
	var so, se string
	if osw != nil {
		osw.stop()
		for _, f := range files {
			f.Close()
		}
		a, _ := os.ReadFile(filepath.Join(osw.dir, "stdout"))
		b, _ := os.ReadFile(filepath.Join(osw.dir, "stderr"))
		so, se = string(a), string(b)
	} else {
		so, se = fo.buf.String(), fe.buf.String()
	}
	w.Ev("run: faults=%d err=%v steps=%v", n, err, steps)
	switch {
	case pv != nil:
		w.Fail("panic", "%q panicked: %v", p.args, pv)
	case n == 0:
		if so != co.buf.String() || se != ce.buf.String() {
			w.Fail("bytes", "%q wrote %q and %q, expected %q and %q", p.args, so, se, co.buf.String(), ce.buf.String())
		} else if fmt.Sprint(err) != fmt.Sprint(cerr) {
			w.Fail("result", "%q returned %v, expected %v", p.args, err, cerr)
		}
	case !errors.Is(err, inj):
		w.Fail("error-lost", "%q returned %v although writing its output failed", p.args, errName(err))
	case late != "":
		w.Fail("later-step", "%q ran %s after its output had failed", p.args, late)
	case !strings.HasPrefix(co.buf.String(), so) || !strings.HasPrefix(ce.buf.String(), se):
		w.Fail("bytes", "%q wrote %q and %q, which does not begin %q and %q", p.args, so, se, co.buf.String(), ce.buf.String())
	}
}

// exitStatus is the status the error stands for.
func exitStatus(err error) int {
	if err == nil {
		return 0
	}
	if c, ok := err.(cli.ExitCoder); ok {
		return c.ExitCode()
	}
	return 1
}

func init() {
	register(&core.Property{
		ID:        "C09",
		QuickRuns: 40000, ThoroughRuns: 1500000,
		Rule:      "output bytes equal an unfaulted control run's; a failed write ends the run with its error",
		Real:      []string{"cli package: help, version, license, completion and print actions, templates, tab writer, colour writer", "provider, table and color extensions", "os.File writes (in a scratch directory)"},
		Stub:      []string{"terminal (never present)"},
		Scenarios: []core.Scenario{{Name: "output", Weight: 1, Run: runOutput}},
	})
}
