package scen

import (
	"context"
	"fmt"
	"math/big"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// C03: an action taken for each occurrence of a flag or arg.

type occFlag struct {
	name  string
	typ   string
	merge bool
	each  bool
	arg   bool
	alias string
	steps int
	whole bool // DisableSplitting
	how   int
	via   []int       // how each step is written
	at    [2][]string // values given at the root and at the sub-command
	forms [2][]string // how the flag was written
}

func occValue(w *core.World, typ string, n int) string {
	switch typ {
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
		return fmt.Sprint(10 + n)
	case "bytes":
		return fmt.Sprintf("%02x", 10+n)
	case "duration":
		return fmt.Sprintf("%ds", 1+n)
	case "namevalue", "namevalues", "map":
		return fmt.Sprintf("n%d=v%d", n, n)
	case "float", "float32", "bigfloat":
		return fmt.Sprintf("%d.5", n)
	case "bool":
		return core.Pick(w, "true", "false")
	case "url":
		return fmt.Sprintf("http://h%d/", n)
	case "ip":
		return fmt.Sprintf("10.0.0.%d", n)
	case "bigint":
		return fmt.Sprintf("9%d000000000000000000000", n)
	case "list":
		if w.Chance(1, 3) {
			return fmt.Sprintf(core.Pick(w, "v%d,w%d", "é%d,w%d", `v%d\,w%d`, `v%d\,w%d,y,z`, `x,v%d\,w%d,y`, `é%d,v,w\,x%d`), n, n)
		}
	}
	return fmt.Sprintf("v%d", n)
}

func newOccValue(typ string) any {
	switch typ {
	case "int":
		return cli.Int()
	case "uint64":
		return cli.Uint64()
	case "duration":
		return cli.Duration()
	case "namevalue":
		return new(cli.NameValue)
	case "list":
		return cli.List()
	case "namevalues":
		return cli.NameValues()
	case "map":
		return cli.Map()
	case "float":
		return cli.Float64()
	case "bool":
		return cli.Bool()
	case "url":
		return cli.URL()
	case "ip":
		return cli.IP()
	case "bigint":
		return cli.BigInt()
	case "bigfloat":
		return cli.BigFloat()
	case "float32":
		return cli.Float32()
	case "int8":
		return cli.Int8()
	case "int16":
		return cli.Int16()
	case "int32":
		return cli.Int32()
	case "int64":
		return cli.Int64()
	case "uint":
		return cli.Uint()
	case "uint8":
		return cli.Uint8()
	case "uint16":
		return cli.Uint16()
	case "uint32":
		return cli.Uint32()
	case "bytes":
		return cli.Bytes()
	case "regexp":
		return cli.Regexp()
	case "value":
		return new(occPlain)
	case "getter":
		return new(occGetter)
	case "deref":
		return new(occDeref)
	}
	return cli.String()
}

// values of the program's own types; they can be reset and copied, and are
// presented in each of the ways that a value can be
type occPlain struct{ vals []string }

func (v *occPlain) Set(s string) error { v.vals = append(v.vals, s); return nil }
func (v *occPlain) String() string     { return strings.Join(v.vals, "+") }
func (v *occPlain) Reset()             { v.vals = nil }
func (v *occPlain) Copy() *occPlain    { return &occPlain{append([]string(nil), v.vals...)} }

type occGetter struct{ occPlain }

func (v *occGetter) Get() any         { return "got:" + v.String() }
func (v *occGetter) Copy() *occGetter { return &occGetter{*v.occPlain.Copy()} }

type occDeref struct{ occPlain }

func (v *occDeref) Value() any      { return "value:" + v.String() }
func (v *occDeref) Copy() *occDeref { return &occDeref{*v.occPlain.Copy()} }

func occShow(v any) string {
	switch x := v.(type) {
	case *cli.NameValue:
		return x.Name + "=" + x.Value
	case []*cli.NameValue:
		var l []string
		for _, nv := range x {
			l = append(l, nv.Name+"="+nv.Value)
		}
		return strings.Join(l, "+")
	case map[string]string:
		var l []string
		for _, k := range core.SortedKeys(x) {
			l = append(l, k+"="+x[k])
		}
		return strings.Join(l, "+")
	case []string:
		return strings.Join(x, "+")
	case []byte:
		return fmt.Sprintf("%x", x)
	case string:
		if v, ok := strings.CutPrefix(x, "got:"); ok {
			return v
		}
		if v, ok := strings.CutPrefix(x, "value:"); ok {
			return v
		}
	case *occGetter, *occDeref:
		return "not-dereferenced"
	case url.URL, regexp.Regexp, big.Int, big.Float:
		return "dereferenced-twice"
	case time.Duration:
		return fmt.Sprintf("%ds", int(x.Seconds()))
	}
	return fmt.Sprint(v)
}

var occTypes = []string{"string", "int", "uint64", "duration", "namevalue", "list", "map", "namevalues", "float", "bool", "url", "ip", "bigint",
	"int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "float32", "bigfloat", "regexp", "bytes", "value", "getter", "deref"}

func eachOccurrence(w *core.World) {
	hasSub := w.Chance(1, 2)
	level := 0
	if hasSub && w.Chance(3, 4) {
		level = 1
	}
	var flags []*occFlag
	for i, n := 0, w.Range(1, 3); i < n; i++ {
		f := &occFlag{name: fmt.Sprintf("f%d", i+1), typ: core.Pick(w, occTypes...)}
		f.each = w.Chance(4, 5)
		f.merge = (f.typ == "string" || f.typ == "list" || f.typ == "map" || occAccumulates(f.typ)) && w.Chance(1, 3)
		f.whole = w.Chance(1, 3)
		f.steps = w.Range(1, 3)
		f.how = w.Int(4)
		if w.Chance(1, 2) {
			f.alias = string(rune('p' + i))
		}
		flags = append(flags, f)
	}
	if w.Chance(1, 3) {
		flags = append(flags, &occFlag{name: "a", typ: core.Pick(w, "list", "string", "value", "bytes"), merge: w.Chance(1, 4), arg: true, each: w.Chance(3, 4), steps: w.Range(1, 2), how: w.Int(4), whole: w.Chance(1, 2)})
	}
	for _, f := range flags {
		for range f.steps {
			f.via = append(f.via, w.Weighted(3, 1, 1, 1, 1, 1))
		}
	}
	args := []string{"app"}
	n := 0
	for l := 0; l <= level; l++ {
		if l == 1 {
			args = append(args, "sub")
		}
		several := false // the last occurrence has several words, so that a flag must be next
		for i, k := 0, w.Int(6); i < k || several; i++ {
			f := flags[w.Int(len(flags))]
			if f.arg {
				continue
			}
			if f.typ == "list" && i+1 < k && w.Chance(1, 3) {
				var vs []string
				for range w.Range(1, 3) {
					n++
					vs = append(vs, occValue(w, f.typ, n))
				}
				name := "--" + f.name
				if f.alias != "" && w.Chance(1, 3) {
					name = "-" + f.alias
				}
				args = append(append(args, name), vs...)
				f.at[l] = append(f.at[l], strings.Join(vs, " "))
				f.forms[l] = append(f.forms[l], name)
				several = true
				w.Probe("occurrence of several words")
				continue
			}
			several = false
			n++
			v := occValue(w, f.typ, n)
			f.at[l] = append(f.at[l], v)
			form := w.Int(3)
			if f.alias == "" && form == 2 {
				form = 0
			}
			if f.typ != "string" && f.typ != "int" && f.typ != "uint64" && f.typ != "duration" && f.typ != "namevalue" {
				form = 1 // these take several values or none
			}
			switch form {
			case 0:
				args = append(args, "--"+f.name, v)
				f.forms[l] = append(f.forms[l], "--"+f.name)
			case 1:
				args = append(args, "--"+f.name+"="+v)
				f.forms[l] = append(f.forms[l], "--"+f.name)
			case 2:
				args = append(args, "-"+f.alias, v)
				f.forms[l] = append(f.forms[l], "-"+f.alias)
			}
		}
	}
	for _, f := range flags {
		if f.arg {
			for i, k := 0, w.Int(4); i < k; i++ {
				n++
				v := occValue(w, f.typ, n)
				f.at[level] = append(f.at[level], v)
				f.forms[level] = append(f.forms[level], "<a>")
				args = append(args, v)
			}
		}
	}
	w.Ev("args %v", args)
	for _, f := range flags {
		w.Ev("option %+v", *f)
	}

	// a control run of the same options without per-occurrence actions tells what
	// the merged values are
	control := map[string][]string{}
	ctlMain, ctlErr := "", error(nil)
	ctl := occApp(flags, hasSub, level, func(f *occFlag) (any, any, cli.Option) {
		return nil, func(c *cli.Context) { control[f.name] = append(control[f.name], occShow(c.Value(f.name))) }, f.options(false)
	}, func(c *cli.Context) error {
		for _, f := range flags {
			ctlMain += fmt.Sprintf(" %s=%s", f.name, occShow(c.Value(f.name)))
		}
		return nil
	})
	if pv, site := w.CallStack(func() { ctlErr = ctl.RunContext(context.Background(), args) }); pv != nil || ctlErr != nil {
		w.Fail("control-run", "without per-occurrence actions: error %s, panic %v %s", errName(ctlErr), pv, site)
		return
	}

	// what is expected, in order
	type exp struct {
		step string
		occ  string
		flag *occFlag
	}
	var want []exp
	emit := func(f *occFlag, l int) {
		vals := f.at[l]
		if len(vals) == 0 {
			return
		}
		acc := ""
		group := 0
		if l == 1 && len(f.at[0]) > 0 {
			group = 1
		}
		if group >= len(control[f.name]) {
			w.Fail("control-run", "the action of %s ran %d times", f.name, len(control[f.name]))
			return
		}
		count := len(vals)
		if l == 1 && !f.arg {
			count += len(f.at[0])
		}
		named := control[f.name][group]
		once := func(val, raw string) {
			for s := 0; s < f.steps; s++ {
				want = append(want, exp{step: fmt.Sprintf("%s.%d value=%s %s named=%s count=%d", f.name, s, val, raw, named, count), flag: f})
			}
		}
		if !f.each {
			return // checked by C01
		}
		for i, v := range vals {
			if !f.merge {
				acc = ""
			}
			acc = occMerge(f, acc, v)
			once(acc, fmt.Sprintf("raw=[%s %s] rawoccurrences=[%s]", f.forms[l][i], f.at[l][i], f.at[l][i]))
		}
	}
	for l := 0; l <= level; l++ {
		for _, f := range flags {
			if !f.arg || l == level {
				emit(f, l)
			}
		}
	}

	fail, kind := -1, 0
	if len(want) > 0 && w.Chance(1, 2) {
		fail, kind = w.Int(len(want)), w.Int(2)
	}
	ferr := injectable(w)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cancelAt := -1
	if w.Chance(1, 4) {
		cancelAt = w.Int(8)
	}

	var got []string
	mainSaw := ""
	build := func(f *occFlag) cli.ActionPipeline {
		var p cli.ActionPipeline
		for s := 0; s < f.steps; s++ {
			p = p.Append(wrapStep(f.via[s], func(c *cli.Context) error {
				w.Step()
				if !f.each {
					return nil
				}
				got = append(got, fmt.Sprintf("%s.%d value=%s raw=%v rawoccurrences=%v named=%s count=%d", f.name, s,
					occShow(c.Value("")), c.Raw(""), c.RawOccurrences(""), occShow(c.Value(f.name)), c.Occurrences(f.name)))
				w.Ev("step %s", got[len(got)-1])
				k := len(got) - 1
				if k == cancelAt {
					w.Fault("caller-cancel")
					cancel()
				}
				if k == fail {
					w.Fault("step-error")
					if kind == 1 {
						panic(panicText)
					}
					return ferr
				}
				return nil
			}))
		}
		return p
	}
	setup := func(f *occFlag) (any, any, cli.Option) {
		var uses, action any
		switch f.how {
		case 0:
			action = build(f)
		case 1:
			uses = cli.At(cli.ActionTiming, build(f))
		case 2:
			p := build(f)
			uses = cli.Before(cli.ActionFunc(func(c *cli.Context) error {
				return c.Action(p[len(p)-1])
			}))
			if len(p) > 1 {
				uses = cli.Pipeline(cli.At(cli.ActionTiming, p[:len(p)-1]), uses)
			}
		default:
			p := build(f)
			uses, action = cli.At(cli.ActionTiming, p[:1]), p[1:]
			if len(p) == 1 {
				action = nil
			}
		}
		return uses, action, f.options(f.each)
	}
	main := func(c *cli.Context) error {
		for _, f := range flags {
			mainSaw += fmt.Sprintf(" %s=%s", f.name, occShow(c.Value(f.name)))
		}
		return nil
	}
	app := occApp(flags, hasSub, level, setup, main)
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(ctx, args) })

	exps := make([]string, 0, len(want))
	for i, e := range want {
		exps = append(exps, e.step)
		if i == fail {
			break
		}
	}
	if d := firstDiff(got, exps); d != "" {
		w.Fail("occurrences", "%s", d)
		return
	}
	switch {
	case fail >= 0 && kind == 1:
		if pv != panicText {
			w.Fail("panic", "a step panicked; the caller saw %v (%s), error %s", pv, site, errName(err))
		}
	case pv != nil:
		w.Fail("panic", "run panicked: %v at %s", pv, site)
	case fail >= 0:
		if err != ferr {
			w.Fail("error-identity", "a step failed with %s; the caller got %s", errName(ferr), errName(err))
		}
	case err != nil:
		w.Fail("unexpected-error", "%s", errName(err))
	default:
		// the winning value is the last one
		exp := ""
		for _, f := range flags {
			all := append(append([]string{}, f.at[0]...), f.at[1]...)
			if f.arg {
				all = f.at[level]
			}
			if f.arg || f.merge || len(all) == 0 || f.typ == "list" || f.typ == "map" || f.typ == "namevalues" || occAccumulates(f.typ) {
				continue // compared with the control run only
			}
			exp += fmt.Sprintf(" %s=%s", f.name, all[len(all)-1])
		}
		for _, e := range strings.Fields(exp) {
			if !strings.Contains(mainSaw+" ", " "+e+" ") {
				w.Fail("winning-value", "the command's action saw%s, expected %s", mainSaw, e)
				return
			}
		}
		if mainSaw != ctlMain {
			w.Fail("final-value", "the command's action saw%s, but without per-occurrence actions%s", mainSaw, ctlMain)
		}
	}
	if len(want) > 1 {
		w.Nontrivial = true
	}
}

func occAccumulates(typ string) bool {
	return typ == "bytes" || typ == "value" || typ == "getter" || typ == "deref"
}

// wrapStep writes a step of an action in one of the ways that mean the same.
func wrapStep(via int, fn func(*cli.Context) error) cli.Action {
	a := cli.ActionFunc(fn)
	switch via {
	case 1:
		return cli.At(cli.ActionTiming, a)
	case 2:
		return cli.Setup{Action: a}
	case 3:
		return cli.ActionFunc(func(c *cli.Context) error { return c.Do(a) })
	case 4:
		return cli.ActionFunc(func(c *cli.Context) error { return c.Action(a) })
	case 5:
		return cli.Pipeline(cli.Prototype{Setup: cli.Setup{Action: cli.Pipeline(a)}})
	}
	return a
}

func (f *occFlag) options(each bool) (opts cli.Option) {
	if f.merge {
		opts |= cli.Merge
	}
	if f.whole {
		opts |= cli.DisableSplitting
	}
	if each {
		opts |= cli.EachOccurrence
	}
	return
}

// occMerge is what a value shows after one more occurrence.
func occMerge(f *occFlag, acc, v string) string {
	if f.typ == "list" && !f.whole {
		v = strings.NewReplacer(`\,`, ",", ",", "+", " ", "+").Replace(v)
	} else if f.typ == "list" {
		v = strings.ReplaceAll(v, " ", "+")
	}
	if acc == "" {
		return v
	}
	switch f.typ {
	case "list", "value", "getter", "deref":
		return acc + "+" + v
	case "bytes":
		return acc + v
	case "map":
		l := append(strings.Split(acc, "+"), v)
		sort.Strings(l)
		return strings.Join(l, "+")
	}
	return acc + " " + v
}

func occApp(flags []*occFlag, hasSub bool, level int, setup func(*occFlag) (any, any, cli.Option), main func(*cli.Context) error) *cli.App {
	app := &cli.App{Name: "app", Stdout: new(nullWriter), Stderr: new(nullWriter), Stdin: strings.NewReader("")}
	sub := &cli.Command{Name: "sub", Action: main}
	for _, f := range flags {
		uses, action, opts := setup(f)
		if f.arg {
			a := &cli.Arg{Name: f.name, NArg: -1, Value: newOccValue(f.typ), Uses: uses, Action: action, Options: opts}
			if level == 1 {
				sub.Args = append(sub.Args, a)
			} else {
				app.Args = append(app.Args, a)
			}
			continue
		}
		fl := &cli.Flag{Name: f.name, Value: newOccValue(f.typ), Uses: uses, Action: action, Options: opts}
		if f.alias != "" {
			fl.Aliases = []string{f.alias}
		}
		app.Flags = append(app.Flags, fl)
	}
	app.Action = main
	if hasSub && (level == 1 || len(app.Args) == 0) {
		app.Commands = []*cli.Command{sub}
	}
	return app
}

func init() {
	register(&core.Property{
		ID: "C03", QuickRuns: 200000, ThoroughRuns: 3000000,
		Rule:      "Random flags and args of 28 value types (also the program's own) acting per occurrence, given in random order and spelling at two command levels; the step for a random occurrence fails or panics, or the caller cancels. The sequence of (step, value, raw text) is compared with the command line.",
		Real:      []string{"cli package: parsing, per-occurrence middleware, value cloning, option pipelines"},
		Stub:      []string{"user actions (record the occurrence, fail on demand)", "stdin/stdout/stderr"},
		Scenarios: []core.Scenario{{Name: "each-occurrence", Run: eachOccurrence}},
	})
}
