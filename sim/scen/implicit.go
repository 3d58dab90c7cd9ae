package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// implSource is one place an option can take its value from when it is not given.
type implSource struct {
	kind string // env, file, fn, implies
	vars []string
	path string
	fs2  bool
	val  string
	ok   bool
	by   string // the flag that implies it
}

type implOpt struct {
	name    string
	typ     int
	arg     bool
	def     int // which default value
	uses    []*implSource
	envs    []string
	file    string
	implied []*implSource
	given   []string
	optImpl bool
	merge   bool
	noSplit bool
	val     any
	want    any
	source  string
	bad     bool // the winning source's value is not valid
}

// the first ten types below, and then each of consNums
const implTypes = 10

// implTarget makes the destination with its default.
func implTarget(typ, def int) any {
	switch typ {
	case 0:
		p := new(string)
		if def > 0 {
			*p = "def"
		}
		return p
	case 1:
		p := new([]string)
		if def > 0 {
			*p = []string{"d1", "d2"}
		}
		return p
	case 2:
		p := new(int)
		*p = def * 3
		return p
	case 3:
		p := new(bool)
		*p = def > 0
		return p
	case 4:
		p := new(map[string]string)
		if def > 0 {
			*p = map[string]string{"k": "d"}
		}
		return p
	case 5:
		p := new(time.Duration)
		*p = time.Duration(def) * time.Second
		return p
	case 6:
		p := new(cli.NameValue)
		if def > 0 {
			p.Name, p.Value = "n", "d"
		}
		return p
	case 7:
		p := new(cli.FileSet)
		if def > 0 {
			p.Files = []string{"d"}
		}
		return p
	case 8:
		p := new(cli.File)
		if def > 0 {
			p.Name = "d"
		}
		return p
	case 9:
		p := new([]*cli.NameValue)
		if def > 0 {
			*p = []*cli.NameValue{{Name: "n", Value: "d"}}
		}
		return p
	}
	n := consNums[typ-implTypes]
	p := n.make()
	if def > 0 {
		_ = cli.Set(p, n.good[0])
	}
	return p
}

func implType(w *core.World) int {
	if t := w.Int(implTypes + 4); t < implTypes {
		return t
	}
	return implTypes + w.Int(len(consNums))
}

func implValue(w *core.World, typ int) string {
	if typ >= implTypes && w.Chance(1, 8) {
		return core.Pick(w, consNums[typ-implTypes].bad...)
	}
	return implGood(w, typ)
}

func implGood(w *core.World, typ int) string {
	if typ >= implTypes {
		return core.Pick(w, consNums[typ-implTypes].good...)
	}
	switch typ {
	case 2:
		return core.Pick(w, "12", "-4", "0")
	case 3:
		return core.Pick(w, "true", "false", "1")
	case 4:
		return core.Pick(w, "a=b", "a=b,c=d", "k=v")
	case 5:
		return core.Pick(w, "2s", "1h5m")
	case 6, 9:
		return core.Pick(w, "a=b", "n=w")
	case 7, 8:
		return core.Pick(w, "p", "q/r", "p,q")
	}
	return core.Pick(w, "v", "a,b", "x y", "é=", "a,b,c", "v\n", " s ", "a,b\n", "two\nlines\n")
}

func implShow(v any) string {
	switch p := v.(type) {
	case *string:
		return fmt.Sprintf("%q", *p)
	case *[]string:
		return fmt.Sprintf("%q", *p)
	case *int:
		return fmt.Sprint(*p)
	case *bool:
		return fmt.Sprint(*p)
	case *map[string]string:
		return fmt.Sprintf("%q", *p)
	case *time.Duration:
		return p.String()
	case *cli.NameValue:
		return fmt.Sprintf("%q=%q", p.Name, p.Value)
	case *cli.FileSet:
		return fmt.Sprintf("%q", p.Files)
	case *cli.File:
		return fmt.Sprintf("%q", p.Name)
	case *[]*cli.NameValue:
		var b strings.Builder
		for _, x := range *p {
			fmt.Fprintf(&b, "%q=%q ", x.Name, x.Value)
		}
		return b.String()
	}
	return consShow(reflect.ValueOf(v).Elem().Interface())
}

// implExplicit is what the option's value is when the text is given on the
// command line instead.
func implExplicit(o *implOpt, texts []string) (string, error) {
	// the default is replaced, unless values are merged
	def := o.def
	if !o.merge {
		def = 0
	}
	v := implTarget(o.typ, def)
	var opts cli.Option
	if o.merge {
		opts |= cli.Merge
	}
	if o.noSplit {
		opts |= cli.DisableSplitting
	}
	app := &cli.App{Name: "control", Stdin: new(bytes.Buffer), Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	argv := []string{"control"}
	if o.arg {
		app.Args = []*cli.Arg{{Name: "o", Value: v, Options: opts}}
		argv = append(argv, texts...)
	} else {
		app.Flags = []*cli.Flag{{Name: "o", Value: v, Options: opts}}
		for _, t := range texts {
			argv = append(argv, "--o="+t)
		}
	}
	err := app.RunContext(context.Background(), argv)
	return implShow(v), err
}

func implicitValues(w *core.World) {
	s, s2 := newSimFS(w), newSimFS(w)
	env := map[string]string{}
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("JSIM_E%d", i)
		SetEnv(w, n, "")
		env[n] = ""
	}
	setEnv := func(n, v string) {
		SetEnv(w, n, v)
		env[n] = v
		w.Ev("env %s=%q", n, v)
	}
	nfile := 0
	type fileInfo struct {
		path   string
		usable bool
		text   string
	}
	files := map[string]*fileInfo{}
	mkFile := func(t *simFS, typ int, prefix string) string {
		nfile++
		path := core.Pick(w, "", "d/") + fmt.Sprintf("f%d", nfile)
		fi := &fileInfo{path: path, usable: true, text: implValue(w, typ)}
		files[prefix+path] = fi
		switch w.Int(8) {
		case 1:
			fi.usable = false // not there
			w.Fault("file-missing")
		case 2:
			fi.usable = false
			t.mkdir(path)
			w.Fault("file-is-directory")
		default:
			n := t.add(path, fi.text)
			n.benign(w)
			switch w.Int(8) {
			case 1:
				n.openErr, fi.usable = &simErr{"open"}, false
			case 2, 3:
				n.readErr, n.readAt, n.errData, fi.usable = &simErr{"read"}, w.Int(len(fi.text)+1), w.Chance(1, 2), false
			case 4:
				n.closeErr = &simErr{"close"}
			case 5:
				n.statErr = &simErr{"stat"}
			}
		}
		w.Ev("file %s%s usable=%v %q", prefix, path, fi.usable, fi.text)
		return path
	}

	nCmd := 1 + w.Int(2)
	argv := []string{"app"}
	id := 0
	var cmds [][]*implOpt
	triggers := map[int][]string{}
	seenTrig := map[string]bool{}
	cmdImplied := make([]bool, nCmd)
	for ci := 0; ci < nCmd; ci++ {
		var opts []*implOpt
		cmdImplied[ci] = w.Chance(1, 4)
		for i := w.Range(1, 3); i > 0; i-- {
			id++
			o := &implOpt{name: fmt.Sprintf("opt-%d", id), typ: implType(w), def: w.Int(2)}
			if i == 1 && ci == nCmd-1 && o.typ != 1 && o.typ != 7 && o.typ != 6 && o.typ != 9 {
				o.arg = w.Chance(1, 2)
			}
			if w.Chance(1, 4) {
				o.name = string(rune('k' + id))
			}
			o.merge = w.Chance(1, 8)
			o.noSplit = w.Chance(1, 8)
			o.optImpl = w.Chance(1, 3)
			mk := func(kind string) *implSource {
				src := &implSource{kind: kind}
				switch kind {
				case "env":
					src.vars = []string{fmt.Sprintf("JSIM_E%d", w.Int(4))}
					if w.Chance(1, 2) {
						src.vars = append(src.vars, core.Pick(w, "JSIM{}", "JSIM{}Z", "JSIM_E1"))
					}
				case "file":
					src.fs2 = w.Chance(1, 3)
					if src.fs2 {
						src.path = mkFile(s2, o.typ, "2:")
					} else {
						src.path = mkFile(s, o.typ, "1:")
					}
				case "fn":
					src.val, src.ok = implValue(w, o.typ), w.Chance(1, 2)
				}
				return src
			}
			for j := w.Weighted(2, 2, 1); j > 0; j-- {
				o.uses = append(o.uses, mk(core.Pick(w, "env", "file", "fn")))
			}
			if w.Chance(1, 2) {
				o.envs = mk("env").vars
			}
			if w.Chance(1, 2) {
				o.file = mkFile(s, o.typ, "1:")
			}
			if !o.arg && w.Chance(1, 4) {
				trig := fmt.Sprintf("trig-%d", id)
				triggers[ci] = append(triggers[ci], trig)
				o.implied = append(o.implied, &implSource{kind: "implies", by: trig, val: implValue(w, o.typ)})
			}
			// a variable that one of its sources may use
			if w.Chance(1, 2) {
				up := strings.ToUpper(strings.ReplaceAll(o.name, "-", "_"))
				setEnv(core.Pick(w, "JSIM_"+up, "JSIM_"+up+"_Z"), implValue(w, o.typ))
			}
			if w.Chance(1, 3) {
				setEnv(fmt.Sprintf("JSIM_E%d", w.Int(4)), implValue(w, o.typ))
			}
			if w.Chance(1, 3) {
				n := w.Range(1, 2)
				if o.arg {
					n = 1
				}
				for ; n > 0; n-- {
					v := implGood(w, o.typ)
					for o.arg && strings.HasPrefix(v, "-") {
						v = "12"
					}
					o.given = append(o.given, v)
				}
			}
			opts = append(opts, o)
		}
		cmds = append(cmds, opts)
		for _, t := range triggers[ci] {
			if w.Chance(1, 2) {
				argv = append(argv, "--"+t)
				seenTrig[t] = true
			}
		}
		var pos []string
		for _, o := range opts {
			for _, v := range o.given {
				if o.arg {
					pos = append(pos, v)
				} else {
					argv = append(argv, "--"+o.name+"="+v)
				}
			}
		}
		argv = append(argv, pos...)
		if ci < nCmd-1 {
			argv = append(argv, "sub")
		}
	}
	expand := func(o *implOpt, v string) string {
		up := strings.ToUpper(strings.ReplaceAll(o.name, "-", "_"))
		switch v {
		case "JSIM{}":
			return "JSIM_" + up
		case "JSIM{}Z":
			return "JSIM_" + up + "_Z"
		}
		return v
	}
	// what is expected
	for _, c := range cmds {
		for _, o := range c {
			find := func() (string, string, bool) {
				all := append([]*implSource{}, o.uses...)
				all = append(all, &implSource{kind: "env", vars: o.envs})
				if o.file != "" {
					all = append(all, &implSource{kind: "file", path: o.file})
				}
				all = append(all, o.implied...)
				for _, src := range all {
					switch src.kind {
					case "env":
						for _, v := range src.vars {
							if x := env[expand(o, v)]; x != "" {
								return x, "env " + v, true
							}
						}
					case "file":
						p := "1:"
						if src.fs2 {
							p = "2:"
						}
						if fi := files[p+src.path]; fi.usable {
							return fi.text, "file " + src.path, true
						}
					case "fn":
						if src.ok {
							return src.val, "function", true
						}
					case "implies":
						if seenTrig[src.by] {
							return src.val, "implied by " + src.by, true
						}
					}
				}
				return "", "", false
			}
			switch {
			case len(o.given) > 0:
				o.source = "given"
				want, err := implExplicit(o, o.given)
				if err != nil {
					panic(fmt.Sprintf("control failed: %v %q", err, o.given))
				}
				o.want = want
			default:
				text, src, ok := find()
				o.source = src
				if !ok {
					o.source = "default"
					o.want = implShow(implTarget(o.typ, o.def))
					break
				}
				if o.arg && strings.HasPrefix(text, "-") {
					o.bad = o.bad || o.typ != 2
					v := -4
					o.want = implShow(&v)
					break
				}
				want, err := implExplicit(o, []string{text})
				o.want = want
				if err != nil {
					o.bad = true
				}
			}
		}
	}

	// the program
	log := map[string][]string{}
	at := func(o *implOpt, step string) func(*cli.Context) error {
		return func(c *cli.Context) error {
			log[o.name] = append(log[o.name], fmt.Sprintf("%s count=%d implicit=%v", step, c.Occurrences(""), c.ImplicitlySet()))
			return nil
		}
	}
	shared := map[string]cli.Action{}
	build := func(fsA fs.FS, wired bool) (*cli.App, []*implOpt) {
		var built [][2]any
		_ = built
		var flagsOf, argsOf [2]any
		_ = flagsOf
		_ = argsOf
		mkCmd := func(ci int) ([]*cli.Flag, []*cli.Arg) {
			var fl []*cli.Flag
			var ar []*cli.Arg
			for _, o := range cmds[ci] {
				o := o
				var uses []cli.Action
				for k, src := range o.uses {
					src := src
					switch src.kind {
					case "env":
						uses = append(uses, cli.FromEnv(src.vars...))
					case "file":
						key := fmt.Sprint(o.name, k)
						a := shared[key]
						if a == nil {
							if src.fs2 {
								a = cli.FromFilePath(simStatFS{s2}, src.path)
							} else {
								a = cli.FromFilePath(nil, src.path)
							}
							shared[key] = a
						}
						uses = append(uses, a)
					case "fn":
						uses = append(uses, cli.ImplicitValue(func(*cli.Context) (string, bool) { return src.val, src.ok }))
					}
				}
				for _, src := range o.implied {
					fl = append(fl, &cli.Flag{Name: src.by, Value: new(bool), Uses: cli.Implies(o.name, src.val)})
				}
				var opts cli.Option
				if o.optImpl {
					opts |= cli.ImpliedAction
				}
				if o.merge {
					opts |= cli.Merge
				}
				if o.noSplit {
					opts |= cli.DisableSplitting
				}
				o.val = implTarget(o.typ, o.def)
				if o.arg {
					ar = append(ar, &cli.Arg{Name: o.name, Value: o.val, EnvVars: o.envs, FilePath: o.file, Uses: cli.Pipeline(pipe(uses)...), Options: opts, Action: at(o, "action"), After: at(o, "after")})
				} else {
					fl = append(fl, &cli.Flag{Name: o.name, Value: o.val, EnvVars: o.envs, FilePath: o.file, Uses: cli.Pipeline(pipe(uses)...), Options: opts, Action: at(o, "action"), After: at(o, "after")})
				}
			}
			return fl, ar
		}
		check := func(where string, ci int) {
			for _, o := range cmds[ci] {
				if o.bad {
					continue
				}
				if got := implShow(o.val); wired && got != o.want {
					w.Fail("value", "%s: %s has value %s, expected %s (%s)", where, o.name, got, o.want, o.source)
				}
			}
		}
		app := &cli.App{Name: "app", FS: fsA, Stdin: new(bytes.Buffer), Stdout: io.Discard, Stderr: io.Discard}
		app.Flags, app.Args = mkCmd(0)
		if cmdImplied[0] {
			app.Options |= cli.ImpliedAction
		}
		if nCmd == 1 {
			app.Action = func() { check("action", 0) }
		} else {
			sub := &cli.Command{Name: "sub"}
			sub.Flags, sub.Args = mkCmd(1)
			if cmdImplied[1] {
				sub.Options |= cli.ImpliedAction
			}
			sub.Action = func() { check("action", 0); check("action", 1) }
			app.Commands = []*cli.Command{sub}
		}
		return app, nil
	}
	if w.Chance(1, 4) {
		// another program using the same actions ran earlier, on other files
		other := newSimFS(w)
		for k, fi := range files {
			if strings.HasPrefix(k, "1:") {
				other.add(fi.path, "0")
			}
		}
		w.Ev("earlier program")
		app, _ := build(simStatFS{other}, false)
		app.RunContext(context.Background(), argv)
		log = map[string][]string{}
	}
	for _, c := range cmds {
		for _, o := range c {
			w.Ev("%s type=%d arg=%v def=%d merge=%v nosplit=%v uses=%s env=%v file=%s implied=%s given=%q impliedAction=%v -> %s %v", o.name, o.typ, o.arg, o.def, o.merge, o.noSplit, showSources(o.uses), o.envs, o.file, showSources(o.implied), o.given, o.optImpl, o.source, o.want)
			if o.source != "given" && o.source != "default" {
				w.Nontrivial = true
				w.Probe("from " + strings.Fields(o.source)[0])
			}
		}
	}
	w.Ev("argv %q", argv)
	app, _ := build(s.variant(), true)
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), argv) })
	if pv != nil {
		w.Fail("panic", "run panicked: %v at %s", pv, site)
		return
	}
	anyBad := false
	for _, c := range cmds {
		for _, o := range c {
			anyBad = anyBad || o.bad
		}
	}
	if anyBad {
		w.Probe("invalid-implicit-value")
		return
	}
	if err != nil {
		w.Fail("run-error", "the run failed: %v", err)
		return
	}
	for ci, c := range cmds {
		for _, o := range c {
			if got := implShow(o.val); got != o.want {
				w.Fail("value", "after the run: %s has value %s, expected %s (%s)", o.name, got, o.want, o.source)
			}
			var want []string
			switch o.source {
			case "given":
				st := fmt.Sprintf("count=%d implicit=false", len(o.given))
				want = []string{"action " + st, "after " + st}
			case "default":
				want = []string{"after count=0 implicit=false"}
			default:
				if o.optImpl || cmdImplied[ci] {
					want = append(want, "action count=0 implicit=true")
				}
				want = append(want, "after count=0 implicit=true")
			}
			if got := log[o.name]; fmt.Sprint(got) != fmt.Sprint(want) {
				w.Fail("steps", "%s (%s): steps %v, expected %v", o.name, o.source, got, want)
			}
		}
	}
}

func pipe(a []cli.Action) []any {
	var r []any
	for _, x := range a {
		r = append(r, x)
	}
	return r
}

func showSources(l []*implSource) string {
	var p []string
	for _, s := range l {
		p = append(p, fmt.Sprintf("{%s %v %s fs2=%v %q %v %s}", s.kind, s.vars, s.path, s.fs2, s.val, s.ok, s.by))
	}
	return strings.Join(p, " ")
}

var _ = errors.Is

func init() {
	register(&core.Property{
		ID: "C08", QuickRuns: 100000, ThoroughRuns: 2000000,
		Rule:      "Random options of ten types with random chains of sources (environment, files, functions, implied by other flags) over one or two commands; files are missing, directories, unreadable at random places or delivered in pieces; each option's value is compared with that of a control run that is given the winning source's text on the command line.",
		Real:      []string{"cli package: EnvVars, FilePath, FromEnv, FromFilePath, ImplicitValue, Implies, ImpliedAction, SetValue"},
		Stub:      []string{"the environment and the file system (in memory, with faults)"},
		Scenarios: []core.Scenario{{Name: "implicit", Run: implicitValues}},
	})
}
