package scen

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"math/big"
	"net/url"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// C21: actions run only on lines which satisfy what the options declare.

type consOpt struct {
	name, alias string
	hidden      int      // the command that has another flag of this name, or 0
	hides       *consOpt // the flag of an ancestor with the same name
	ci          int      // the command that defines it
	arg         bool     // an argument, of the last command
	typ         string
	num         *consNum // the type of value for typ "int"
	narg        int

	required, mustExist, workdir, nonPersistent, optional bool
	enum                                                  []string
	mutex                                                 []*consOpt
	checks                                                bool // a validator that fails on "bad..."
	checkErr                                              error
	attach                                                [6]int // how each constraint is attached

	env   string // the text that its variable has
	isEnv bool
	def   string
	given map[int][]string // the values in the words of each command
	count int
}

func (o *consOpt) display() string {
	switch {
	case o.arg:
		return "<" + o.name + ">"
	case len(o.name) == 1:
		return "-" + o.name
	}
	return "--" + o.name
}

// form writes the flag and its value in one of the ways to do so.
func (o *consOpt) form(w *core.World, v string) []string {
	name := o.name
	if o.alias != "" && w.Chance(1, 3) {
		name = o.alias
	}
	short := len(name) == 1
	if o.typ == "bool" {
		if short && w.Chance(1, 2) {
			return []string{"-" + name}
		}
		return []string{"--" + name}
	}
	n := w.Int(5)
	switch {
	case o.typ == "int" && o.num.typ == "bool":
		return []string{"--" + name + "=" + v}
	case n == 0 || v == "" || n > 1 && !short || n == 1 && (o.typ == "list" || o.typ == "fileset"):
		return []string{"--" + name + "=" + v}
	case n == 1:
		return []string{"--" + name, v}
	case n == 2 && o.typ != "list" && o.typ != "fileset":
		return []string{"-" + name, v}
	}
	return []string{"-" + name + v}
}

// names are the ways in which an error may call the option.
func (o *consOpt) names() []string {
	if o.alias == "" {
		return []string{o.display()}
	}
	return []string{o.display(), (&consOpt{name: o.alias}).display()}
}

func (o *consOpt) aliases() []string {
	if o.alias == "" {
		return nil
	}
	return []string{o.alias}
}

func (o *consOpt) variable() string { return "JSIM_C_" + strings.ToUpper(o.name) }

// text is the value of the option after the words of the commands up to g.
func (o *consOpt) values(g int) []string {
	var all []string
	for h := 0; h <= g; h++ {
		all = append(all, o.given[h]...)
	}
	switch {
	case len(all) > 0:
		if o.typ == "int" && o.num.typ == "bytes" {
			return all // they accumulate
		}
	case o.isEnv:
		all = []string{o.env}
	case o.def != "":
		all = []string{o.def}
	}
	if o.typ != "list" && o.typ != "fileset" && len(all) > 1 {
		all = all[len(all)-1:]
	}
	return all
}

func (o *consOpt) want(g int) string {
	v := o.values(g)
	switch o.typ {
	case "list", "fileset":
		return fmt.Sprintf("%q", append([]string{}, v...))
	case "int":
		if len(v) == 0 {
			return o.num.zero
		}
		return strings.Join(v, "")
	case "bool":
		return fmt.Sprint(len(v) > 0)
	}
	return strings.Join(v, " ")
}

func (o *consOpt) value() any {
	switch o.typ {
	case "list":
		x := []string{}
		if o.def != "" {
			x = append(x, o.def)
		}
		return &x
	case "int":
		x := o.num.make()
		if o.def != "" {
			_ = cli.Set(x, o.def)
		}
		return x
	case "bool":
		return new(bool)
	case "file":
		return &cli.File{Name: o.def}
	case "fileset":
		x := &cli.FileSet{}
		if o.def != "" {
			x.Files = []string{o.def}
		}
		return x
	}
	x := o.def
	return &x
}

func (o *consOpt) show(c *cli.Context) string { return consShow(c.Value(o.name)) }

func consShow(x any) string {
	switch v := x.(type) {
	case []string:
		return fmt.Sprintf("%q", append([]string{}, v...))
	case []byte:
		return hex.EncodeToString(v)
	case *url.URL:
		if v == nil {
			return ""
		}
	case *regexp.Regexp:
		if v == nil {
			return ""
		}
	case *big.Float:
		if v != nil {
			return v.Text('g', -1)
		}
	case consText:
		return v.text
	case *consOwn:
		return v.text
	case consOwn:
		return v.text
	case *cli.File:
		return v.Name
	case *cli.FileSet:
		return fmt.Sprintf("%q", append([]string{}, v.Files...))
	}
	return fmt.Sprint(x)
}

// consNum is a type of value with text that it accepts, as it shows it, and
// text that it doesn't.
type consNum struct {
	typ       string
	make      func() any
	zero      string
	good, bad []string
}

var consNums = []*consNum{
	{"int", func() any { return cli.Int() }, "0", []string{"1", "20", "345"}, []string{"ten", "1x", "99999999999999999999"}},
	{"int8", func() any { return cli.Int8() }, "0", []string{"1", "20", "127"}, []string{"ten", "128", "1.0"}},
	{"int16", func() any { return cli.Int16() }, "0", []string{"1", "20", "32767"}, []string{"ten", "32768"}},
	{"int32", func() any { return cli.Int32() }, "0", []string{"1", "20", "2147483647"}, []string{"ten", "2147483648"}},
	{"int64", func() any { return cli.Int64() }, "0", []string{"1", "20", "9223372036854775807"}, []string{"ten", "9223372036854775808"}},
	{"uint", func() any { return cli.Uint() }, "0", []string{"1", "20", "345"}, []string{"ten", "+-1", "99999999999999999999"}},
	{"uint8", func() any { return cli.Uint8() }, "0", []string{"1", "20", "255"}, []string{"ten", "256"}},
	{"uint16", func() any { return cli.Uint16() }, "0", []string{"1", "20", "65535"}, []string{"ten", "65536"}},
	{"uint32", func() any { return cli.Uint32() }, "0", []string{"1", "20", "4294967295"}, []string{"ten", "4294967296"}},
	{"uint64", func() any { return cli.Uint64() }, "0", []string{"1", "20", "18446744073709551615"}, []string{"ten", "18446744073709551616"}},
	{"float32", func() any { return cli.Float32() }, "0", []string{"1", "2.5"}, []string{"ten", "1e99", "2.5.1"}},
	{"float64", func() any { return cli.Float64() }, "0", []string{"1", "2.5"}, []string{"ten", "1e999", "2.5.1"}},
	{"bool", func() any { return cli.Bool() }, "false", []string{"true", "false"}, []string{"maybe", "2"}},
	{"bytes", func() any { return cli.Bytes() }, "", []string{"00", "1f", "beef"}, []string{"0", "0x00", "g0"}},
	{"duration", func() any { return cli.Duration() }, "0s", []string{"1s", "1m5s", "3ms"}, []string{"5", "1y", "soon"}},
	{"url", func() any { return cli.URL() }, "", []string{"http://h/p?q=1", "rel"}, []string{"http://[::1", "http://h:port/"}},
	{"ip", func() any { return cli.IP() }, "<nil>", []string{"10.0.0.1", "::1"}, []string{"10.0.0", "256.0.0.1", "localhost"}},
	{"regexp", func() any { return cli.Regexp() }, "", []string{"a+b", "^$"}, []string{"a(b", "*"}},
	{"bigint", func() any { return cli.BigInt() }, "<nil>", []string{"1", "99999999999999999999999"}, []string{"ten", "1.5"}},
	{"bigfloat", func() any { return cli.BigFloat() }, "<nil>", []string{"1", "2.5"}, []string{"ten", "2.5.1"}},
	{"text", func() any { return new(consText) }, "", []string{"ok", "fine"}, []string{"bad", "bad2"}},
	{"own", func() any { return new(consOwn) }, "", []string{"ok", "fine"}, []string{"bad", "bad2"}},
}

// consText is a value of a type that can be unmarshaled from text
type consText struct{ text string }

func (t *consText) UnmarshalText(b []byte) error {
	if strings.HasPrefix(string(b), "bad") {
		return fmt.Errorf("refused %s", b)
	}
	t.text = string(b)
	return nil
}

// consOwn is a value of the program's own type
type consOwn consText

func (t *consOwn) Set(s string) error { return (*consText)(t).UnmarshalText([]byte(s)) }
func (t *consOwn) String() string     { return t.text }

type consViolation struct {
	what  string
	match func(error) bool
}

func naming(what string, names ...string) consViolation {
	return consViolation{what, func(err error) bool {
		return slices.ContainsFunc(names, func(n string) bool { return n != "" && strings.Contains(err.Error(), n) })
	}}
}

// badText is that the option is given text which isn't of its type; what some
// of the types say then doesn't name the text.
func (o *consOpt) badText() consViolation {
	return consViolation{o.display() + " isn't a " + o.num.typ, func(err error) bool {
		var s *simErr
		if errors.As(err, &s) || errors.Is(err, fs.ErrNotExist) || errors.Is(err, fs.ErrPermission) {
			return false
		}
		for _, other := range []string{"required", "expected argument", "unknown option", "after arguments"} {
			if strings.Contains(err.Error(), other) {
				return false
			}
		}
		return true
	}}
}

func causedBy(what string, cause error) consViolation {
	return consViolation{what, func(err error) bool { return errors.Is(err, cause) }}
}

func runConstraints(w *core.World) {
	s := newSimFS(w)
	files := []string{"here/a.txt", "b.txt", "c"}
	for _, f := range files {
		s.add(f, "data")
	}
	s.mkdir("dir")
	files = append(files, "dir")
	faultyFile := ""
	var statErr error
	if w.Chance(1, 3) {
		statErr = core.Pick[error](w, &simErr{"stat"}, fs.ErrPermission)
		faultyFile = core.Pick(w, files...)
		s.find(faultyFile).statErr = statErr
	}
	var dirErr error
	if w.Chance(1, 4) {
		dirErr = &simErr{"chdir"}
	}
	pickFile := func() string {
		if w.Chance(3, 4) {
			return core.Pick(w, files...)
		}
		return core.Pick(w, "none.txt", "here/none", "c/x")
	}

	nCmd := w.Range(1, 3)
	names := []string{"app", "sub", "leaf"}[:nCmd]
	last := nCmd - 1
	disallow := w.Chance(1, 4)
	var opts, flags, args []*consOpt

	id := 0
	newOpt := func(ci int, arg bool) *consOpt {
		o := &consOpt{ci: ci, arg: arg, given: map[int][]string{}}
		for i := range o.attach {
			o.attach[i] = w.Int(4)
		}
		if arg {
			o.name = fmt.Sprintf("arg%d", id)
		} else {
			o.name = fmt.Sprintf("opt%d", id)
			if w.Chance(1, 4) {
				o.name = string(rune('a' + id))
			}
			if w.Chance(1, 4) {
				o.alias = core.Pick(w, string(rune('A'+id)), fmt.Sprintf("also%d", id))
			}
		}
		id++
		o.typ = core.Pick(w, "string", "list", "int", "file", "fileset")
		if !arg && w.Chance(1, 5) {
			o.typ = "bool"
		}
		if o.typ == "int" {
			o.num = core.Pick(w, consNums...)
		}
		return o
	}
	for ci := range nCmd {
		for n := w.Range(0, 3); n > 0; n-- {
			o := newOpt(ci, false)
			if ci > 0 && len(flags) > 0 && w.Chance(1, 12) {
				// hides a flag of an ancestor
				if p := core.Pick(w, flags...); p.ci < ci && p.hidden == 0 && p.hides == nil {
					o.name, o.alias, p.alias = p.name, "", ""
					p.hidden, o.hides = ci, p
					for i := range p.attach {
						p.attach[i] = w.Int(3)
					}
				}
			}
			opts, flags = append(opts, o), append(flags, o)
		}
	}
	for n := w.Int(3); n > 0; n-- {
		o := newOpt(last, true)
		o.narg = 1
		if n == 1 {
			o.narg = w.Int(2)
		}
		if n == 1 && (o.typ == "list" || o.typ == "fileset") && w.Chance(1, 2) {
			o.narg = cli.TakeUntilNextFlag
		}
		opts, args = append(opts, o), append(args, o)
	}

	pools := [][]string{{"red", "green", "blue", "cyan"}, {"x", "y"}}
	var sharedEnum cli.Action
	shareEnum := w.Chance(1, 4)
	for _, o := range opts {
		o.nonPersistent = !o.arg && o.hides == nil && w.Chance(1, 6)
		if !o.arg || o.narg == 1 || o.narg == 0 {
			o.required = w.Chance(1, 4)
		}
		switch o.typ {
		case "string", "list":
			if w.Chance(1, 2) {
				o.enum = pools[w.Int(2)]
				if shareEnum {
					o.enum = pools[0]
				}
			}
			if o.typ == "string" && o.enum == nil {
				o.mustExist = w.Chance(1, 3)
				o.workdir = !o.mustExist && w.Chance(1, 5)
			}
		case "file", "fileset":
			o.mustExist = w.Chance(2, 3)
			o.workdir = o.typ == "file" && w.Chance(1, 8)
		}
		if w.Chance(1, 5) {
			o.checks = true
			o.checkErr = &simErr{"check of " + o.name}
		}
		if w.Chance(1, 3) {
			for _, p := range flags {
				if p != o && p.ci <= o.ci && p.hidden == 0 && p.hides == nil && w.Chance(1, 3) {
					o.mutex = append(o.mutex, p)
				}
			}
		}
		// where else its value comes from
		if o.typ != "bool" && w.Chance(1, 4) {
			o.def = o.sample(w, pickFile, true)
		}
		if o.typ != "bool" && o.typ != "list" && o.typ != "fileset" && o.hides == nil && w.Chance(1, 4) {
			o.isEnv, o.env = true, o.sample(w, pickFile, true)
			SetEnv(w, o.variable(), o.env)
		}
	}

	// the words
	phase := make([][]consViolation, 2*nCmd) // binding and validation of each command
	add := func(g, k int, v consViolation) { phase[2*g+k] = append(phase[2*g+k], v) }
	words := make([][]string, nCmd)
	careless := w.Chance(1, 2)
	for _, o := range flags {
		for g := o.ci; g < nCmd; g++ {
			if g > o.ci && (o.required && len(o.given[o.ci]) == 0 || !w.Chance(1, 3)) {
				continue
			}
			if g == o.ci && !w.Chance(1, 2) && !(o.required && w.Chance(4, 5)) {
				continue
			}
			if o.hidden > 0 && g >= o.hidden {
				break
			}
			if g > o.ci && o.nonPersistent && !(careless && w.Chance(1, 4)) {
				continue
			}
			n := 1
			if w.Chance(1, 4) {
				n = 2
			}
			for ; n > 0; n-- {
				o.given[g] = append(o.given[g], o.sample(w, pickFile, !careless))
			}
		}
	}
	// an exclusion is looked for when the option that declares it is given
	for _, o := range opts {
		if o.arg {
			continue
		}
		for g := range nCmd {
			if len(o.given[g]) == 0 {
				continue
			}
			later := true
			for h := g + 1; h < nCmd; h++ {
				later = later && len(o.given[h]) == 0
			}
			if !later {
				continue
			}
			for _, p := range o.mutex {
				for h := g + 1; h < nCmd; h++ {
					delete(p.given, h)
				}
			}
		}
	}
	type unit struct {
		o     *consOpt
		value string
		words []string
	}
	for g := range nCmd {
		var units []unit
		for _, o := range flags {
			for _, v := range o.given[g] {
				units = append(units, unit{o, v, o.form(w, v)})
				if g > o.ci && o.nonPersistent {
					add(g, 0, naming(o.display()+" isn't persistent", o.names()...))
				}
				if o.typ == "int" && slices.Contains(o.num.bad, v) {
					add(g, 0, o.badText())
				}
			}
		}
		w.Shuffle(len(units), func(i, j int) { units[i], units[j] = units[j], units[i] })
		for _, o := range flags {
			o.given[g] = nil
		}
		for _, u := range units {
			u.o.given[g] = append(u.o.given[g], u.value)
			words[g] = append(words[g], u.words...)
		}
		if careless && w.Chance(1, 10) {
			words[g] = append(words[g], "--unheard-of")
			add(g, 0, naming("an unknown option", "--unheard-of"))
		}
		if g < last {
			words[g] = append(words[g], names[g+1])
		}
	}
	short := false
	for _, o := range args {
		n := 1
		switch o.narg {
		case 0:
			n = w.Int(2)
		case cli.TakeUntilNextFlag:
			n = w.Range(1, 3)
		}
		if careless && w.Chance(1, 8) {
			n = 0
		}
		if n == 0 {
			short = true
		}
		if short {
			n = 0
		}
		for ; n > 0; n-- {
			v := o.sample(w, pickFile, !careless)
			o.given[last] = append(o.given[last], v)
			words[last] = append(words[last], v)
			if o.typ == "int" && slices.Contains(o.num.bad, v) {
				add(last, 0, o.badText())
			}
		}
		if len(o.given[last]) == 0 && o.narg == 1 {
			add(last, 0, naming("the argument "+o.display()+" is missing", "expected argument"))
		}
	}
	greedy := len(args) > 0 && args[len(args)-1].narg == cli.TakeUntilNextFlag
	if careless && !short && !greedy && w.Chance(1, 8) {
		words[last] = append(words[last], "extra")
		add(last, 0, naming("an argument too many", "extra"))
	} else if !short && len(args) > 0 && len(flags) > 0 && !greedy && disallow && w.Chance(1, 4) {
		o := core.Pick(w, flags...)
		v := o.sample(w, pickFile, true)
		words[last] = append(words[last], o.form(w, v)...)
		add(last, 0, naming("a flag after the arguments", "after arguments", "unknown option"))
	}

	// what the constraints make of them
	chdirs := []string{}
	for g := range nCmd {
		for _, o := range opts {
			own := o.ci == g
			given := o.given[g]
			if o.nonPersistent && !own || !own && len(given) == 0 || o.ci > g {
				continue
			}
			if own && o.required && len(given) == 0 {
				add(g, 1, naming(o.display()+" is required", o.display()))
			}
			if o.enum != nil {
				for _, v := range given {
					if !slices.Contains(o.enum, v) {
						add(g, 1, naming(fmt.Sprintf("%s can't be %q", o.display(), v), o.display()))
					}
				}
			}
			if o.checks && slices.ContainsFunc(given, func(v string) bool { return strings.HasPrefix(v, "bad") }) {
				add(g, 1, causedBy("the check of "+o.display(), o.checkErr))
			}
			if len(given) > 0 {
				for _, p := range o.mutex {
					for h := 0; h <= g; h++ {
						if len(p.given[h]) > 0 {
							add(g, 1, naming(o.display()+" excludes "+p.display(), o.display()))
						}
					}
				}
			}
			if o.mustExist {
				for _, f := range o.values(g) {
					n := s.find(f)
					switch {
					case f == "":
					case n == nil:
						add(g, 1, naming(fmt.Sprintf("%s names %q, which doesn't exist", o.display(), f), f))
					case f == faultyFile && o.typ == "string":
						add(g, 1, causedBy(fmt.Sprintf("%s names %q, which can't be examined", o.display(), f), statErr))
					}
				}
			}
			if o.workdir && len(given) > 0 {
				if v := o.want(g); v != "" {
					if dirErr != nil {
						add(g, 1, causedBy("the change to "+v, dirErr))
					} else {
						chdirs = append(chdirs, fmt.Sprint(g, " ", v))
					}
				}
			}
		}
	}
	stop := slices.IndexFunc(phase, func(v []consViolation) bool { return len(v) > 0 })

	// the program
	var ran []string
	steps := map[*consOpt]int{}
	var app *cli.App
	attach := func(o *consOpt, how int, a cli.Option, fields *cli.Option, uses, customs *[]cli.Action) {
		switch how {
		case 0:
			*fields |= a
		case 1:
			*uses = append(*uses, a)
		case 2:
			*uses = append(*uses, cli.Prototype{Options: a})
		default:
			*customs = append(*customs, cli.Customize(o.display(), a))
		}
	}
	attachA := func(o *consOpt, how int, a cli.Action, uses, customs *[]cli.Action) {
		switch how {
		case 0, 1:
			*uses = append(*uses, a)
		case 2:
			*uses = append(*uses, cli.Prototype{Setup: cli.Setup{Uses: a}})
		default:
			*customs = append(*customs, cli.Customize(o.display(), a))
		}
	}
	mk := func(ci int) (fl []*cli.Flag, ar []*cli.Arg, customs []cli.Action) {
		for _, o := range opts {
			if o.ci != ci {
				continue
			}
			var fields cli.Option
			var uses []cli.Action
			if o.nonPersistent {
				fields |= cli.NonPersistent
			}
			if o.required {
				attach(o, o.attach[0], cli.Required, &fields, &uses, &customs)
			}
			if o.mustExist {
				attach(o, o.attach[1], cli.MustExist, &fields, &uses, &customs)
			}
			if o.workdir {
				attach(o, o.attach[2], cli.WorkingDirectory, &fields, &uses, &customs)
			}
			if o.enum != nil {
				a := cli.Enum(o.enum...)
				if shareEnum {
					if sharedEnum == nil {
						sharedEnum = a
					}
					a = sharedEnum
				}
				attachA(o, o.attach[3], a, &uses, &customs)
			}
			if o.mutex != nil {
				var ns []string
				for _, p := range o.mutex {
					if p.alias != "" && o.attach[3] == 1 {
						ns = append(ns, p.alias)
					} else {
						ns = append(ns, p.name)
					}
				}
				attachA(o, o.attach[4], cli.Mutex(ns...), &uses, &customs)
			}
			if o.checks {
				attachA(o, o.attach[5], cli.ValidatorFunc(func(raw []string) error {
					for _, r := range raw {
						if strings.HasPrefix(r, "bad") {
							w.Fault("validator-fails")
							return o.checkErr
						}
					}
					return nil
				}), &uses, &customs)
			}
			var vars []string
			if o.isEnv {
				vars = []string{o.variable()}
			}
			act := func(c *cli.Context) error {
				steps[o]++
				return nil
			}
			if o.arg {
				var n any = o.narg
				ar = append(ar, &cli.Arg{Name: o.name, NArg: n, Value: o.value(), Options: fields, EnvVars: vars, Uses: cli.Pipeline(pipe(uses)...), Action: act})
			} else {
				fl = append(fl, &cli.Flag{Name: o.name, Aliases: o.aliases(), Value: o.value(), Options: fields, EnvVars: vars, Uses: cli.Pipeline(pipe(uses)...), Action: act})
			}
		}
		return
	}
	action := func(ci int) cli.Action {
		return cli.ActionFunc(func(c *cli.Context) error {
			ran = append(ran, names[ci])
			if stop >= 0 {
				w.Fail("unchecked", "%s runs although %s: %q", names[ci], phase[stop][0].what, words)
				return nil
			}
			for _, o := range opts {
				if o.nonPersistent && o.ci != ci || o.hidden > 0 {
					continue
				}
				if got, want := o.show(c), o.want(last); got != want {
					w.Fail("value", "%s is %s, expected %s: %q", o.display(), got, want, words)
				}
			}
			return nil
		})
	}
	var cmdOpts cli.Option
	if disallow {
		cmdOpts = cli.DisallowFlagsAfterArgs
	}
	var child []*cli.Command
	for ci := last; ci >= 0; ci-- {
		fl, ar, customs := mk(ci)
		var o cli.Option
		if ci == last {
			o = cmdOpts
		}
		if ci == 0 {
			app = &cli.App{Name: "app", Flags: fl, Args: ar, Commands: child, Options: o, Uses: cli.Pipeline(pipe(customs)...), Action: action(0), FS: s.variant(),
				Stdin: strings.NewReader(""), Stdout: new(nullWriter), Stderr: new(nullWriter)}
			break
		}
		child = []*cli.Command{{Name: names[ci], Flags: fl, Args: ar, Subcommands: child, Options: o, Uses: cli.Pipeline(pipe(customs)...), Action: action(ci)}}
	}

	var line []string
	for _, g := range words {
		line = append(line, g...)
	}
	w.Ev("line %q", line)
	for _, o := range opts {
		w.Ev("%s of %s: %s narg %d required %v mustExist %v workdir %v enum %v mutex %d checks %v nonPersistent %v hidden %d env %q default %q attach %v given %v", o.display(), names[o.ci], o.typ, o.narg, o.required, o.mustExist, o.workdir, o.enum, len(o.mutex), o.checks, o.nonPersistent, o.hidden, o.env, o.def, o.attach, o.given)
	}
	if stop >= 0 {
		for _, v := range phase[stop] {
			w.Ev("violated %d: %s", stop, v.what)
		}
	}

	var dirs []string
	os.JoesimChdir = func(dir string) error {
		w.Step()
		dirs = append(dirs, dir)
		if dirErr != nil {
			w.Fault("chdir")
			return dirErr
		}
		return nil
	}
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), append([]string{"app"}, line...)) })
	os.JoesimChdir = nil
	w.Ev("ran %v, chdir %v, error %v", ran, dirs, err)
	w.Nontrivial = len(opts) > 0
	if w.Failed() {
		return
	}
	if pv != nil {
		w.Fail("panic", "%q: panic %v at %s", line, pv, site)
		return
	}
	if stop >= 0 {
		w.Probe("violated in " + map[int]string{0: "binding", 1: "validation"}[stop%2])
		ok := err != nil && slices.ContainsFunc(phase[stop], func(v consViolation) bool { return v.match(err) })
		if err == nil {
			w.Fail("unchecked", "%q succeeds although %s", line, phase[stop][0].what)
		} else if !ok {
			w.Fail("error", "%q fails with %v, although %s", line, err, phase[stop][0].what)
		}
	} else {
		w.Probe("satisfied")
		switch {
		case err != nil:
			w.Fail("refused", "%q fails with %v", line, err)
		case !slices.Equal(ran, names[last:]):
			w.Fail("refused", "%q ran %v, expected %v", line, ran, names[last:])
		}
	}
	if w.Failed() {
		return
	}
	// the actions of the options ran for the commands before the one which fails
	end := nCmd
	if stop >= 0 {
		end = stop / 2
	}
	for _, o := range opts {
		want := 0
		for g := range end {
			if len(o.given[g]) > 0 {
				want++
			}
		}
		if steps[o] != want {
			w.Fail("option", "%q: the action of %s ran %d times, expected %d", line, o.display(), steps[o], want)
			return
		}
	}
	var wantDirs []string
	for _, d := range chdirs {
		g, dir, _ := strings.Cut(d, " ")
		if n, _ := strconv.Atoi(g); n < end {
			wantDirs = append(wantDirs, dir)
		}
	}
	if stop < 0 || stop%2 == 0 {
		slices.Sort(dirs)
		slices.Sort(wantDirs)
		if !slices.Equal(dirs, wantDirs) {
			w.Fail("directory", "%q changes to %q, expected %q", line, dirs, wantDirs)
		}
	}
}

// sample draws a value for the option, one that satisfies it when good is set.
func (o *consOpt) sample(w *core.World, file func() string, good bool) string {
	if !good && o.checks && o.typ != "int" && o.typ != "bool" && w.Chance(1, 4) {
		return "bad" + core.Pick(w, "", "1")
	}
	switch {
	case o.typ == "bool":
		return ""
	case o.typ == "int":
		if !good && w.Chance(1, 6) {
			return core.Pick(w, o.num.bad...)
		}
		return core.Pick(w, o.num.good...)
	case o.enum != nil:
		if !good && w.Chance(1, 4) {
			return core.Pick(w, "purple", "Red", "z")
		}
		return core.Pick(w, o.enum...)
	case o.workdir:
		return core.Pick(w, "dir", "here", "/elsewhere")
	case o.typ == "file" || o.typ == "fileset" || o.mustExist:
		return file()
	}
	return core.Pick(w, "v", "word", "x2")
}

func init() {
	register(&core.Property{
		ID:        "C21",
		QuickRuns: 150000, ThoroughRuns: 1500000,
		Rule: "the action of a command runs exactly on the lines that satisfy what its options and those of its ancestors declare",
		Real: []string{"cli: parsing, binding, validators, Required, MustExist, WorkingDirectory, Enum, Mutex, Customize, Prototype"},
		Stub: []string{"file system (in memory, with faults)", "change of the working directory (recorded, refused on demand)", "environment variables (set by the simulator)"},
		Scenarios: []core.Scenario{
			{Name: "constraints", Weight: 1, Run: runConstraints},
		},
	})
}
