package scen

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/structure"

	"joesim/core"
)

// C19: providers, named with their arguments on the command line.

type provDetail struct {
	name     string
	kind     string // "func", "map", "pointer", "struct", "value"
	defaults map[string]string
	value    any
}

// provOptions is what some factories take.
type provOptions struct {
	A, B, C string
	Indent  int
}

type provReg struct {
	name    string
	details []*provDetail
	unknown bool // AllowUnknown
	plain   bool // a Map, which has no factories
	where   int  // Uses of the app, the command, or the flag
	reg     *provider.Registry

	// the factories' side
	calls  int
	failAt int
	err    error
	panics bool
	last   string
}

type provUse struct {
	r        *provReg
	initial  string // the name before
	args     string // "nil", "map", "set", "struct"
	whole    bool
	argFirst bool
	accessor int // how the argument flag is written

	value *provider.Value
	dest  *map[string]string
	opts  *provOptions
}

func showArgs(m map[string]string) string {
	var l []string
	for _, k := range core.SortedKeys(m) {
		l = append(l, fmt.Sprintf("%s=%q", k, m[k]))
	}
	return strings.Join(l, ";")
}

func showOptions(o provOptions) string {
	return fmt.Sprintf("%q %q %q %d", o.A, o.B, o.C, o.Indent)
}

func (r *provReg) detail(name string) *provDetail {
	for _, d := range r.details {
		if d.name == name {
			return d
		}
	}
	return nil
}

// made is what a factory reports, with its failure or panic.
func (r *provReg) made(w *core.World, name, got string) (any, error) {
	w.Step()
	r.calls++
	r.last = name + ": " + got
	w.Ev("factory %s", r.last)
	if r.calls-1 == r.failAt {
		w.Fault("factory")
		if r.panics {
			panic(panicText)
		}
		return nil, r.err
	}
	return r.last, nil
}

func (r *provReg) factory(w *core.World, d *provDetail) provider.FactoryFunc {
	name := d.name
	switch d.kind {
	case "func":
		return func(m map[string]string) (any, error) {
			got := showArgs(m)
			clear(m) // the map is the factory's own
			m["junk"] = "1"
			return r.made(w, name, got)
		}
	case "map":
		return provider.Factory(func(m map[string]string) (any, error) {
			return r.made(w, name, showArgs(m))
		})
	case "pointer":
		return provider.Factory(func(o *provOptions) (any, error) {
			return r.made(w, name, showOptions(*o))
		})
	case "struct":
		return provider.Factory(func(o provOptions) (any, error) {
			return r.made(w, name, showOptions(o))
		})
	}
	return nil
}

func runProviders(w *core.World) {
	var regs []*provReg
	for i, n := 0, w.Range(1, 2); i < n; i++ {
		r := &provReg{name: core.Pick(w, "p", "format", "to-x") + fmt.Sprint(i), unknown: w.Chance(1, 4), plain: w.Chance(1, 5), where: w.Int(3), failAt: -1}
		for _, name := range []string{"json", "csv", "a.b", "X"}[:w.Range(1, 4)] {
			d := &provDetail{name: name, kind: core.Pick(w, "func", "map", "pointer", "struct", "value")}
			if d.kind == "value" && !r.plain {
				d.value = "value of " + name
			} else {
				d.defaults = map[string]string{}
				if w.Chance(1, 6) {
					d.value = "not used" // the factory is
				}
				for _, k := range []string{"a", "b", "c"} {
					if w.Chance(1, 2) {
						d.defaults[k] = core.Pick(w, "1", "", "x y", "d")
					}
				}
				if w.Chance(1, 3) {
					d.defaults["indent"] = fmt.Sprint(w.Range(0, 9))
				}
			}
			r.details = append(r.details, d)
		}
		if w.Chance(1, 3) {
			r.failAt, r.err, r.panics = w.Int(4), injectable(w), w.Chance(1, 4)
		}
		r.reg = &provider.Registry{Name: r.name, AllowUnknown: r.unknown}
		if r.plain {
			m := provider.Map{}
			for _, d := range r.details {
				m[d.name] = maps.Clone(d.defaults)
			}
			r.reg.Providers = m
		} else {
			m := provider.Details{}
			for _, d := range r.details {
				m[d.name] = provider.Detail{Defaults: maps.Clone(d.defaults), Value: d.value, Factory: r.factory(w, d)}
			}
			r.reg.Providers = m
		}
		regs = append(regs, r)
	}
	for run, n := 0, w.Range(1, 3); run < n && !w.Failed(); run++ {
		provRun(w, regs, run)
	}
	w.Nontrivial = true
}

func provRun(w *core.World, regs []*provReg, run int) {
	app := &cli.App{Name: "app", Stderr: new(nullWriter), Stdin: strings.NewReader("")}
	out := &simWriter{w: w, failAt: -1}
	app.Stdout = out
	cmd := &cli.Command{Name: "sub"}
	level := w.Int(2)
	words := []string{"app"}
	if level == 1 {
		words = append(words, "sub")
	}
	var flags []*cli.Flag
	var uses []*provUse
	for _, r := range regs {
		u := &provUse{r: r, whole: w.Chance(1, 4), argFirst: w.Chance(1, 2), accessor: w.Int(3)}
		u.args = core.Pick(w, "nil", "map", "set", "struct")
		u.value = &provider.Value{}
		if w.Chance(1, 3) {
			u.initial = core.Pick(w, r.details...).name
			u.value.Name = u.initial
		}
		switch u.args {
		case "map":
			u.dest = &map[string]string{}
			u.value.Args = u.dest
		case "set":
			u.dest = &map[string]string{"a": "set"}
			u.value.Args = u.dest
		case "struct":
			u.opts = &provOptions{B: "own"}
			u.value.Args = structure.Of(u.opts)
		}
		p := &cli.Flag{Name: r.name, Value: u.value}
		if u.whole {
			p.Options = cli.DisableSplitting
		}
		var steps []cli.Action
		if r.where == 2 {
			steps = append(steps, r.reg)
		}
		var arg *cli.Flag
		switch u.accessor {
		case 0:
			arg = &cli.Flag{Uses: provider.SetArgument(r.name)}
		case 1:
			arg = &cli.Flag{Name: r.name + "-arg", Uses: provider.SetArgument(r.name)}
		case 2:
			steps = append(steps, cli.Accessory("-", (*provider.Value).ArgumentFlag))
			u.argFirst = false
		}
		if len(steps) > 0 {
			p.Uses = cli.ActionPipeline(steps)
		}
		switch {
		case arg == nil:
			flags = append(flags, p)
		case u.argFirst:
			flags = append(flags, arg, p)
		default:
			flags = append(flags, p, arg)
		}
		uses = append(uses, u)
		switch {
		case r.where == 0 || r.where == 1 && level == 0:
			app.Uses = cli.Pipeline(app.Uses, r.reg)
		case r.where == 1:
			cmd.Uses = cli.Pipeline(cmd.Uses, r.reg)
		}
	}
	for _, r := range regs {
		flags = append(flags, &cli.Flag{Uses: provider.ListProviders(r.name)})
	}

	// the words, and what they mean
	type meaning struct {
		name  string
		args  map[string]string
		wrong string // why the run is refused
	}
	means := map[*provUse]*meaning{}
	type group struct {
		u     *provUse
		words []string
	}
	var groups []group
	escape := func(u *provUse, s string) string {
		if u.whole {
			return s
		}
		return strings.ReplaceAll(s, ",", `\,`)
	}
	draw := func(u *provUse, d *provDetail, n int, anything bool) (names, values []string) {
		known := []string{"a", "b", "c"}
		if !anything {
			known = nil
			if d != nil {
				known = core.SortedKeys(d.defaults)
			}
		}
		for range n {
			if len(known) == 0 {
				return
			}
			k := core.Pick(w, known...)
			v := core.Pick(w, "v", "w", "2", "x=y", "two words", "", "é", "o,p", "v'", `q"`)
			if k == "indent" {
				v = fmt.Sprint(w.Range(0, 99))
			}
			names, values = append(names, k), append(values, v)
		}
		return
	}
	for _, u := range uses {
		r := u.r
		m := &meaning{name: u.initial, args: map[string]string{}}
		means[u] = m
		if u.args == "set" {
			m.args["a"] = "set"
		}
		var d *provDetail
		if u.initial != "" {
			d = r.detail(u.initial)
		}
		given := w.Chance(3, 4)
		if given {
			name := core.Pick(w, r.details...).name
			if w.Chance(1, 6) {
				name = core.Pick(w, "nope", "JSON", "jso", "json ", "csv.", "x", "")
			}
			d = r.detail(name)
			m.name = name
			if d == nil && !r.unknown {
				m.wrong = fmt.Sprintf("%q", name)
			}
			for i, n := 0, w.Weighted(0, 5, 1, 1); i < n; i++ {
				word := ""
				names, values := draw(u, d, w.Weighted(2, 2, 1, 1), r.unknown)
				if w.Chance(1, 8) && u.args != "struct" {
					names, values = append(names, "odd"), append(values, "1")
				}
				if u.whole && len(names) > 1 {
					names, values = names[:1], values[:1]
				}
				var parts []string
				for i := range names {
					parts = append(parts, names[i]+"="+escape(u, values[i]))
					m.args[names[i]] = values[i]
				}
				word = strings.Join(parts, ",")
				if i == 0 {
					word = name
					if len(parts) > 0 {
						word += "," + strings.Join(parts, ",")
					}
				} else if len(parts) == 0 {
					continue
				}
				if w.Chance(1, 2) {
					groups = append(groups, group{u, []string{"--" + r.name, word}})
				} else {
					groups = append(groups, group{u, []string{"--" + r.name + "=" + word}})
				}
			}
			if _, odd := m.args["odd"]; odd && !r.unknown && m.wrong == "" {
				m.wrong = `"odd"`
			}
		}
		// arguments by the flag of their own
		if w.Chance(1, 2) {
			for i, n := 0, w.Range(1, 4); i < n; i++ {
				k := 1
				if !u.whole {
					k = w.Range(1, 2)
				}
				names, values := draw(u, d, k, r.unknown || !given)
				var parts []string
				for i := range names {
					if u.whole { // whether it extends to this flag is not decided
						values[i] = strings.ReplaceAll(values[i], ",", "")
					}
					parts = append(parts, names[i]+"="+escape(u, values[i]))
					m.args[names[i]] = values[i]
				}
				if len(parts) == 0 {
					continue
				}
				word := strings.Join(parts, ",")
				if w.Chance(1, 2) {
					groups = append(groups, group{u, []string{"--" + r.name + "-arg", word}})
				} else {
					groups = append(groups, group{u, []string{"--" + r.name + "-arg=" + word}})
				}
			}
		}
	}
	// Flags of different registries may interleave
	for len(uses) > 1 && len(groups) > 0 {
		next := uses[w.Int(2)]
		i := slices.IndexFunc(groups, func(g group) bool { return g.u == next })
		if i < 0 {
			i = 0
		}
		words = append(words, groups[i].words...)
		groups = slices.Delete(groups, i, i+1)
	}
	for _, g := range groups {
		words = append(words, g.words...)
	}
	wrong := []string{}
	for _, u := range uses {
		if means[u].wrong != "" {
			wrong = append(wrong, means[u].wrong)
		}
	}
	var list *provReg
	if len(wrong) == 0 && w.Chance(1, 8) {
		list = core.Pick(w, regs...)
		words = append(words, "--list-"+list.name)
		if w.Chance(1, 3) {
			out.failAt, out.err = w.Int(8), &simErr{id: "list"}
		}
	}
	w.Ev("words %q", words)
	for _, u := range uses {
		w.Ev("use %s at %d, unknown %v, plain %v: %q %s whole %v argument flag %d first %v, expect %+v", u.r.name, u.r.where, u.r.unknown, u.r.plain,
			u.initial, u.args, u.whole, u.accessor, u.argFirst, *means[u])
	}

	// the action
	ran := 0
	var failure error
	action := func(c *cli.Context) error {
		ran++
		for _, u := range uses {
			m := means[u]
			if u.value.Name != m.name {
				w.Fail("name", "%s names %q, expected %q", u.r.name, u.value.Name, m.name)
				return nil
			}
			args := map[string]string{}
			switch x := u.value.Args.(type) {
			case nil:
			case *map[string]string:
				args = *x
			}
			switch u.args {
			case "struct":
				want := provOptions{B: "own"}
				for k, v := range m.args {
					switch k {
					case "a":
						want.A = v
					case "b":
						want.B = v
					case "c":
						want.C = v
					case "indent":
						fmt.Sscan(v, &want.Indent)
					}
				}
				if *u.opts != want {
					w.Fail("arguments", "%s has %s, expected %s", u.r.name, showOptions(*u.opts), showOptions(want))
					return nil
				}
				args = m.args
			default:
				if u.dest != nil {
					args = *u.dest
				}
				if got, want := showArgs(args), showArgs(m.args); got != want {
					w.Fail("arguments", "%s has %s, expected %s", u.r.name, got, want)
					return nil
				}
			}
			reg := provider.Services(c).Registry(u.r.name)
			if reg != u.r.reg {
				w.Fail("registry", "the registry %s is %v", u.r.name, reg)
				return nil
			}
			if u.r.plain {
				continue
			}
			for range w.Range(0, 2) {
				if err := u.r.create(w, u.value.Name, args); err != nil {
					failure = err
					return err
				}
				if w.Failed() {
					return nil
				}
			}
		}
		return nil
	}
	if level == 1 {
		cmd.Action, cmd.Flags = action, flags
		app.Commands = []*cli.Command{cmd}
	} else {
		app.Action, app.Flags = action, flags
	}
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), words) })
	w.Ev("run %d: %v, panic %v", run, err, pv)
	if w.Failed() {
		return
	}
	var coder cli.ExitCoder
	switch {
	case pv == panicText && ran > 0:
		w.Probe("factory panics")
	case pv != nil:
		w.Fail("panic", "panic %v at %s", pv, site)
	case len(wrong) > 0:
		w.Probe("refused")
		if err == nil || ran > 0 {
			w.Fail("accepted", "%q: error %v, the action ran %d times", words, err, ran)
			return
		}
		if !slices.ContainsFunc(wrong, func(s string) bool { return strings.Contains(err.Error(), s) }) {
			w.Fail("message", "%q: error %v names none of %q", words, err, wrong)
		}
	case list != nil && out.failed > 0:
		if !errors.Is(err, out.err) || ran > 0 {
			w.Fail("list", "the output fails: error %v, the action ran %d times", err, ran)
		}
	case list != nil:
		if !errors.As(err, &coder) || coder.ExitCode() != 0 || ran > 0 {
			w.Fail("list", "error %v, the action ran %d times", err, ran)
			return
		}
		lines := strings.Split(strings.TrimSuffix(out.buf.String(), "\n"), "\n")
		var got, want []string
		for _, l := range lines {
			name, rest, _ := strings.Cut(l, "\t")
			got = append(got, name)
			d := list.detail(name)
			if d == nil {
				continue
			}
			for k, v := range d.defaults {
				if !strings.Contains(rest, k+"="+v) {
					w.Fail("list", "%s is listed as %q, without %s=%s", name, l, k, v)
				}
			}
		}
		for _, d := range list.details {
			want = append(want, d.name)
		}
		slices.Sort(want)
		if !slices.Equal(got, want) {
			w.Fail("list", "listed %q, expected %q", got, want)
		}
	case failure != nil:
		if err != failure {
			w.Fail("error", "the action returns %v, the run %v", failure, err)
		}
	case err != nil || ran != 1:
		w.Fail("refused", "%q: error %v, the action ran %d times", words, err, ran)
	}
}

// create makes one provider and compares what the factory got.
func (r *provReg) create(w *core.World, name string, args map[string]string) error {
	d := r.detail(name)
	before := r.calls
	given := showArgs(args)
	obj, err := r.reg.New(name, args)
	w.Ev("new %s %q: %v %v", name, given, obj, err)
	if showArgs(args) != given {
		w.Fail("create", "creating %q changed the arguments %s to %s", name, given, showArgs(args))
		return nil
	}
	switch {
	case d == nil:
		if err == nil || r.calls > before {
			w.Fail("create", "creating %q: %v, error %v", name, obj, err)
		}
		return nil
	case d.kind == "value":
		if obj != d.value || err != nil || r.calls > before {
			w.Fail("create", "creating %q: %v, error %v, expected %v", name, obj, err, d.value)
		}
		return nil
	}
	all := maps.Clone(d.defaults)
	maps.Copy(all, args)
	want := showArgs(all)
	if d.kind == "pointer" || d.kind == "struct" {
		var o provOptions
		o.A, o.B, o.C = all["a"], all["b"], all["c"]
		fmt.Sscan(all["indent"], &o.Indent)
		want = showOptions(o)
	}
	want = name + ": " + want
	switch {
	case r.calls != before+1:
		w.Fail("create", "creating %q called its factory %d times", name, r.calls-before)
	case r.last != want:
		w.Fail("create", "the factory got %s, expected %s", r.last, want)
	case before == r.failAt:
		if err != r.err {
			w.Fail("create", "the factory fails with %v, but creating %q with %v", r.err, name, err)
		}
		return err
	case err != nil || obj != r.last:
		w.Fail("create", "creating %q: %v, error %v", name, obj, err)
	}
	return nil
}

func init() {
	register(&core.Property{
		ID:        "C19",
		QuickRuns: 60000, ThoroughRuns: 1500000,
		Rule:      "the providers and arguments of the command line are those the action sees and the factories get; unknown ones are refused",
		Real:      []string{"extensions/provider", "extensions/structure", "cli: parsing, binding, occurrences"},
		Stub:      []string{"factories (record, fail or panic on demand)", "stdout"},
		Scenarios: []core.Scenario{{Name: "providers", Weight: 1, Run: runProviders}},
	})
}
