package scen

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/table"

	"joesim/core"
)

// guest is a program whose runs are compared: it is built anew for each run,
// and its history is all that can be observed of the run.
type guest struct {
	w    *core.World
	name string
	app  func(g *guest) (*cli.App, []string)
	cols string
	env  string

	log  []string
	outs [2]*simWriter
	ctx  context.Context // of the step in progress
	me   *cli.App
	busy int // runs in progress of any guest
	// alone is whether the current app is defined: no run interleaves
	alone bool
}

func (g *guest) note(format string, args ...any) {
	g.log = append(g.log, fmt.Sprintf(format, args...))
	g.w.Ev("%s: %s", g.name, g.log[len(g.log)-1])
	g.w.Step()
}

// see is a step that records what it observes.
func (g *guest) see(id string, more func(c *cli.Context) string) cli.Action {
	return cli.ActionOf(func(c *cli.Context) error {
		old := g.ctx
		g.ctx = c
		defer func() { g.ctx = old }()
		for i := range 2 {
			x := ""
			if more != nil {
				x = more(c)
			}
			g.note("%s.%d %s %q name=%s app=%v %s", id, i, c.Timing(), strings.Join(c.Path(), " "), c.Name(), c.App() == g.me, x)
			if g.alone && cli.CurrentApp() != g.me {
				g.w.Fail("current-app", "%s: the current app in step %s is not the app that runs (%v)", g.name, id, appName(cli.CurrentApp()))
			}
		}
		return nil
	})
}

func appName(a *cli.App) string {
	if a == nil {
		return "none"
	}
	return a.Name
}

// run is one run of the program from scratch.
func (g *guest) run(ctx context.Context) []string {
	g.log, g.outs = nil, [2]*simWriter{{w: g.w, failAt: -1}, {w: g.w, failAt: -1}}
	app, args := g.app(g)
	app.Stdout, app.Stderr = g.outs[0], g.outs[1]
	g.me = app
	g.ctx = ctx
	var err error
	pv, site := g.w.CallStack(func() { err = app.RunContext(ctx, args) })
	if pv != nil {
		if g.w.Exceeded() {
			panic(pv)
		}
		g.note("panic %v at %s", pv, site)
	}
	g.note("error %s", errName(err))
	g.note("stdout %q", g.outs[0].buf.String())
	g.note("stderr %q", g.outs[1].buf.String())
	return g.log
}

// drawGuest draws a program.
func drawGuest(w *core.World, name string) *guest {
	g := &guest{w: w, name: name}
	switch w.Int(8) {
	case 0:
		lg := &lgen{w: w, budget: w.Range(4, 25), suppOK: true}
		root := lg.cmd("root", 0)
		args, _ := lg.invocation(root)
		fail := -1
		if w.Chance(1, 3) {
			fail = w.Int(12)
		}
		g.app = func(g *guest) (*cli.App, []string) {
			r := &recorder{w: w, fail: fail, err: &simErr{name}}
			r.onEv = func(k int) { g.note("%s", r.log[k]) }
			cmd := r.command(root)
			return &cli.App{Name: cmd.Name, Flags: cmd.Flags, Args: cmd.Args, Commands: cmd.Subcommands,
				Uses: cmd.Uses, Before: cmd.Before, Action: cmd.Action, After: cmd.After}, args
		}
	case 1, 2:
		p := drawOutProg(w)
		g.app = func(g *guest) (*cli.App, []string) {
			return p.build(nil, nil, func(id string) { g.note("%s", id) }), p.args
		}
	case 3:
		g.app = valuesGuest(w)
	case 4:
		g.app = tableGuest(w)
	case 5:
		g.app = fileGuest(w)
	case 6:
		g.app = exprGuest(w)
	default:
		g.app = registryGuest(w)
	}
	g.cols = core.Pick(w, "60", "40", "79")
	g.env = core.Pick(w, "", "one", "two")
	return g
}

// valuesGuest has options of many types, valid and not, and looks at them.
func valuesGuest(w *core.World) func(*guest) (*cli.App, []string) {
	type fl struct {
		name string
		typ  int
		each bool
		cat  string
		help string
	}
	var flags []fl
	args := []string{"vals"}
	n := w.Range(1, 5)
	bad := w.Chance(1, 3)
	for i := range n {
		f := fl{fmt.Sprintf("f%d", i), w.Int(7), w.Chance(1, 2),
			core.Pick(w, "", "alpha", "beta", "gamma"), core.Pick(w, "", "help", strings.Repeat("some longer help text ", 5))}
		flags = append(flags, f)
		for range w.Range(0, 2) {
			v := []string{"7", "text", "a,b", "k=v,l=w", "3s", "on", "x=y"}[f.typ]
			if bad && (f.typ == 0 || f.typ == 4) {
				v = "bad-" + f.name
			}
			if f.typ == 5 {
				args = append(args, "--"+f.name)
			} else {
				args = append(args, "--"+f.name, v)
			}
		}
	}
	desc := core.Pick(w, "", strings.Repeat("a description of what it does ", 6))
	sub := w.Chance(1, 2)
	if sub {
		args = append(args, "sub")
	}
	for range w.Int(3) {
		args = append(args, core.Pick(w, "one", "two"))
	}
	switch w.Int(10) {
	case 0, 1:
		args = append(args[:1:1], "--help")
	case 2:
		args = append(args[:1:1], "help", "sub")
	}
	return func(g *guest) (*cli.App, []string) {
		app := &cli.App{Name: "vals", Description: desc}
		var vals []any
		dump := func(c *cli.Context) string {
			var b []string
			for i, f := range flags {
				b = append(b, fmt.Sprintf("%s=%v/%v", f.name, c.Value(f.name), c.Occurrences(f.name)))
				_ = i
			}
			return strings.Join(b, " ")
		}
		for _, f := range flags {
			v := []any{new(int), new(string), cli.List(), cli.Map(), cli.Duration(), new(bool), new(cli.NameValue)}[f.typ]
			vals = append(vals, v)
			x := &cli.Flag{Name: f.name, Value: v, Data: map[string]any{"d1": 1, "d2": 2, "d3": 3}, Category: f.cat, HelpText: f.help}
			if f.typ == 1 {
				x.EnvVars = []string{"JOE_WORD"}
			}
			act := g.see("flag-"+f.name, func(c *cli.Context) string {
				return fmt.Sprintf("%v %v %q", c.Value(""), c.Occurrences(""), c.Raw(""))
			})
			if f.each {
				x.Options = cli.EachOccurrence
			}
			x.Action = act
			app.Flags = append(app.Flags, x)
		}
		arg := []*cli.Arg{{Name: "rest", Value: cli.List(), NArg: -2, Action: g.see("rest", func(c *cli.Context) string { return fmt.Sprint(c.List("")) })}}
		app.Before, app.After = g.see("before", dump), g.see("after", dump)
		bind := func(c *cli.Context) string { return fmt.Sprint(c.BindingLookup().BindingNames(), dump(c)) }
		if sub {
			app.Commands = []*cli.Command{{Name: "sub", Args: arg, Action: g.see("sub", dump), Before: g.see("sub-before", bind)}}
		} else {
			app.Args, app.Action = arg, g.see("act", bind)
		}
		return app, args
	}
}

// tableGuest prints tables and the help screen as tables.
func tableGuest(w *core.World) func(*guest) (*cli.App, []string) {
	rows := w.Range(1, 3)
	long := core.Pick(w, "short", strings.Repeat("long words in the cell ", 6))
	args := core.Pick(w, []string{"tab"}, []string{"tab", "--help"})
	unf := w.Chance(1, 3)
	return func(g *guest) (*cli.App, []string) {
		t := "{{ Table }}"
		if unf {
			t = `{{ Table "Unformatted" }}`
		}
		t += `{{ Headers "A" "B" }}{{ range . }}{{ Row }}{{ Cell .A }}{{ Cell .B }}{{ end }}{{ EndTable }}`
		type row struct{ A, B string }
		var data []row
		for i := range rows {
			data = append(data, row{fmt.Sprint("r", i), long})
		}
		return &cli.App{Name: "tab", HelpText: long,
			Uses:   cli.Pipeline(&table.Options{}, cli.RegisterTemplate("T", t)),
			Flags:  []*cli.Flag{{Name: "aa", HelpText: long}, {Name: "bb", HelpText: "use {PLACE}"}},
			Action: cli.Pipeline(g.see("act", nil), cli.ExecuteTemplate("T", func(*cli.Context) any { return data })),
		}, args
	}
}

// fileGuest reads files of its own file system.
func fileGuest(w *core.World) func(*guest) (*cli.App, []string) {
	body := core.Pick(w, "alpha", "beta\nbeta\n", strings.Repeat("gamma", 30))
	chunk := w.Range(0, 3)
	fail := w.Chance(1, 4)
	return func(g *guest) (*cli.App, []string) {
		s := newSimFS(w)
		n := s.add("data.txt", body)
		n.chunk = chunk * 7
		if fail {
			n.readErr, n.readAt = errors.New("bad sector"), len(body)/2
		}
		s.add("d/one", "1"+body)
		s.add("d/two", "2"+body)
		return &cli.App{Name: "files", FS: simStatFS{s},
			Flags: []*cli.Flag{
				{Name: "ref", Value: new(string), Options: cli.FileReference, Action: g.see("ref", func(c *cli.Context) string { return fmt.Sprintf("%q", c.String("")) })},
				{Name: "file", Value: new(cli.File), Action: cli.ActionOf(func(c *cli.Context) error {
					f, err := c.File("").Open()
					if err != nil {
						return err
					}
					d, err := io.ReadAll(f)
					g.note("read %q %v %v", d, err, f.Close())
					return nil
				})},
				{Name: "set", Value: &cli.FileSet{Recursive: true}, Action: cli.ActionOf(func(c *cli.Context) error {
					return c.FileSet("").Do(func(f *cli.File, err error) error {
						g.note("file %s %v", f.Name, err)
						return nil
					})
				})},
			},
			Action: g.see("act", nil),
		}, []string{"files", "--file", "data.txt", "--set", "d", "--ref", "data.txt"}
	}
}

// exprGuest evaluates an expression.
func exprGuest(w *core.World) func(*guest) (*cli.App, []string) {
	args := []string{"ex"}
	for range w.Range(1, 4) {
		switch w.Int(3) {
		case 0:
			args = append(args, "-add", fmt.Sprint(w.Int(9)))
		case 1:
			args = append(args, "-twice")
		default:
			args = append(args, "-odd")
		}
	}
	return func(g *guest) (*cli.App, []string) {
		add := func(name string, as []*cli.Arg, f func(c *cli.Context, v any, yield func(any) error) error) *expr.Expr {
			return &expr.Expr{Name: name, Args: as, Evaluate: func(c *cli.Context, v any, yield func(any) error) error {
				g.note("%s %v", name, v)
				return f(c, v, yield)
			}}
		}
		return &cli.App{Name: "ex",
			Args: []*cli.Arg{{Name: "e", Value: new(expr.Expression), Uses: expr.AddExprs(
				add("add", []*cli.Arg{{Name: "n", Value: new(int), NArg: 1}}, func(c *cli.Context, v any, y func(any) error) error { return y(v.(int) + c.Int("n")) }),
				add("twice", nil, func(_ *cli.Context, v any, y func(any) error) error {
					if err := y(v); err != nil {
						return err
					}
					return y(v)
				}),
				add("odd", nil, func(_ *cli.Context, v any, y func(any) error) error {
					if v.(int)%2 == 1 {
						return y(v)
					}
					return nil
				}),
			)}},
			Action: cli.ActionOf(func(c *cli.Context) error {
				e := expr.FromContext(c, "e")
				return e.Evaluate(c, 1, 2, 3)
			}),
		}, args
	}
}

// registryGuest uses providers.
func registryGuest(w *core.World) func(*guest) (*cli.App, []string) {
	args := core.Pick(w,
		[]string{"reg", "--list-p"},
		[]string{"reg", "--p", "one,x=1,y=2,z=3,u=4"},
		[]string{"reg", "--p", "one,a=1,b=2,c=3", "sub"},
		[]string{"reg", "--p", "two", "--p-arg", "a=9", "sub"},
		[]string{"reg", "--p", "none"},
		[]string{"reg", "help"},
		[]string{"reg", "--zsh-completion"},
	)
	det := w.Chance(1, 2)
	return func(g *guest) (*cli.App, []string) {
		var l provider.Lookup = provider.Map{"one": {"a": "", "b": "", "c": ""}, "two": {"a": "1"}, "three": {}}
		if det {
			f := func(d map[string]string) (any, error) { return "made", nil }
			l = provider.Details{
				"one":   {Defaults: map[string]string{"a": "", "b": "", "c": ""}, Factory: f, HelpText: "first"},
				"two":   {Defaults: map[string]string{"a": "1"}, Factory: f},
				"three": {Factory: f},
			}
		}
		reg := &provider.Registry{Name: "p", Providers: l}
		return &cli.App{Name: "reg", Uses: reg,
			Flags: []*cli.Flag{
				{Name: "p", Value: new(provider.Value), Action: g.see("p", func(c *cli.Context) string {
					v := c.Value("").(*provider.Value)
					return fmt.Sprintf("%s %v %v", v.Name, v.Args, reg.ProviderNames())
				})},
				{Uses: provider.SetArgument("p"), Name: "p-arg"},
				{Uses: provider.ListProviders("p")},
			},
			Commands: []*cli.Command{{Name: "sub", Action: g.see("sub", nil)}, {Name: "other", Category: "cat", HelpText: "o"}},
		}, args
	}
}

func reseed(w *core.World) {
	runtime.JoesimRand(true, uint64(w.U64()))
}

func (g *guest) setEnv() {
	SetEnv(g.w, "COLUMNS", g.cols)
	SetEnv(g.w, "JOE_WORD", g.env)
}

// Solo is set in a process that was started to run guests in it: the number
// of the guest to start with.
var Solo = -1

// SoloHistory is what the last guest did.
var SoloHistory []string

// runFresh compares a run in a process of its own with the same run in a
// process where others ran before.
func runFresh(w *core.World) {
	var gs []*guest
	for i := range w.Range(2, 3) {
		g := drawGuest(w, string(rune('A'+i)))
		gs = append(gs, g)
		if i > 0 && w.Chance(1, 2) {
			// the same program, with another environment
			g.app = gs[i-1].app
		}
	}
	var seeds []uint64
	for range gs {
		seeds = append(seeds, uint64(w.U64()))
	}
	if Solo >= 0 {
		for i, g := range gs[Solo:] {
			g.setEnv()
			runtime.JoesimRand(true, seeds[Solo+i])
			SoloHistory = g.run(context.Background())
		}
		return
	}
	history := func(from int) (res []string) {
		in, _ := json.Marshal(w.Tape)
		cmd := exec.Command(os.Args[0], "solo", "C14", "fresh", fmt.Sprint(from))
		cmd.Stdin = bytes.NewReader(in)
		out, err := cmd.Output()
		if err != nil || json.Unmarshal(out, &res) != nil {
			panic(fmt.Sprintf("solo: %v %.300s", err, out))
		}
		return
	}
	last := gs[len(gs)-1]
	want := history(len(gs) - 1)
	got := history(0)
	for _, e := range got {
		w.Ev("%s", e)
	}
	if d := firstDiff(got, want); d != "" {
		w.Fail("interference", "%s in a process where other apps ran before: %s (compared with a process of its own)", last.name, d)
	}
	w.Nontrivial = true
	w.Probe("in a process of its own")
}

func runIsolated(w *core.World) {
	mode := w.Int(4)
	var gs []*guest
	for i := range w.Range(2, 3) {
		gs = append(gs, drawGuest(w, string(rune('A'+i))))
	}
	if mode == 0 {
		gs = gs[:1]
	}
	setCols := func(g *guest) { g.setEnv() }
	// what each does alone
	var want [][]string
	for _, g := range gs {
		if mode == 1 || mode == 2 {
			g.cols, g.env = gs[0].cols, gs[0].env // one environment for runs that overlap
		}
		reseed(w)
		g.alone = true
		setCols(g)
		want = append(want, g.run(context.Background()))
		w.Ev("-- %s alone: %d entries", g.name, len(want[len(want)-1]))
		if cli.CurrentApp() != nil && !w.Failed() {
			w.Fail("current-app", "%s is still the current app after its run", appName(cli.CurrentApp()))
		}
	}
	if w.Failed() {
		return
	}
	got := make([][]string, len(gs))
	what := ""
	switch mode {
	case 0, 3:
		// again, after the others, by chance in another order
		what = "another run"
		order := make([]int, len(gs))
		for i := range order {
			order[i] = i
		}
		w.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for _, i := range order {
			reseed(w)
			setCols(gs[i])
			got[i] = gs[i].run(context.Background())
		}
	case 1:
		what = "a run interleaved with others"
		reseed(w)
		s := core.NewSched(w)
		for i, g := range gs {
			g.alone = false
			s.Go(g.name, func(*core.Task) { got[i] = g.run(context.Background()) })
		}
		w.OnStep = func() { s.Current().Yield("") }
		s.Run()
		w.OnStep = nil
	default:
		what = "a run with others nested in it"
		reseed(w)
		// each guest runs at some step of the one before
		next := 1
		at := w.Int(25)
		n := 0
		var in func()
		in = func() {
			n++
			if n <= at || next >= len(gs) {
				return
			}
			host := gs[next-1]
			g, i := gs[next], next
			next++
			n, at = 0, w.Int(15)
			parent := context.Background()
			if host.ctx != nil && w.Chance(1, 2) {
				parent = host.ctx
				w.Probe("nested in the context of a step")
			}
			was := cli.CurrentApp()
			got[i] = g.run(parent)
			w.Sched++
			w.Probe("nested run")
			if now := cli.CurrentApp(); now != was {
				w.Fail("current-app", "after the run of %s inside %s the current app is %s, before it was %s", g.name, host.name, appName(now), appName(was))
			}
		}
		w.OnStep = in
		got[0] = gs[0].run(context.Background())
		w.OnStep = nil
	}
	for i, g := range gs {
		if got[i] == nil {
			continue
		}
		if d := firstDiff(got[i], want[i]); d != "" && !w.Failed() {
			w.Fail("interference", "%s in %s: %s (compared with a run alone)", g.name, what, d)
		}
	}
	if !w.Failed() && cli.CurrentApp() != nil {
		w.Fail("current-app", "%s is still the current app after all runs", appName(cli.CurrentApp()))
	}
	w.Nontrivial = true
	w.Probe([]string{"repeated", "interleaved", "nested", "in another order"}[mode])
}

func init() {
	register(&core.Property{
		ID:        "C14",
		QuickRuns: 60000, ThoroughRuns: 1500000,
		Rule:      "two or three random programs run alone, then again: in another order, interleaved at every step and I/O operation by a random schedule, or one within a step of another; map iteration order is drawn anew each time; the complete histories (steps, values, output, error) must be the same, and the current app the one that runs",
		Real:      []string{"cli package, table, provider and expr extensions"},
		Stub:      []string{"scheduling of the goroutines that run the apps", "map iteration order", "outputs and file systems (in memory)"},
		Scenarios: []core.Scenario{{Name: "isolated", Weight: 60, Run: runIsolated}, {Name: "fresh", Weight: 1, Run: runFresh}},
	})
}
