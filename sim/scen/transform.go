package scen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// C24: the program's own transforms, which make the value of an option from its words.

// trOcc is an occurrence of an option on the line.
type trOcc struct {
	id     string   // part of its words
	level  int      // the command in whose words it is
	shown  string   // as written
	words  []string // the words of its value
	out    int      // 0 text, 1 bytes, 2 reader
	text   string   // what it is made
	fn     bool     // the transform fails
	pv     bool     // by panicking
	second bool     // but only when it is called again
	read   int      // the reader fails after so many bytes; -1: never
	chunk  int
	eof    bool // the reader ends with its last data
	bad    bool // the text isn't of the option's type
	calls  int
	err    *simErr
}

type trOpt struct {
	name, alias string
	arg         bool
	level       int
	typ         string
	how         int // field, Uses, as an action, customized, replaced
	pair        bool
	each, merge bool
	occ         []*trOcc
	target      any
	flag        *cli.Flag
	argument    *cli.Arg
}

func (o *trOpt) display() string {
	switch {
	case o.arg:
		return "<" + o.name + ">"
	case len(o.name) == 1:
		return "-" + o.name
	}
	return "--" + o.name
}

// trReader delivers the text of an occurrence.
type trReader struct {
	s   *trState
	o   *trOcc
	off int
	end bool
}

func (r *trReader) Read(p []byte) (int, error) {
	r.s.w.Step()
	text := r.o.text
	if r.o.read >= 0 {
		text = text[:r.o.read]
	}
	k := min(len(p), r.o.chunk, len(text)-r.off)
	copy(p, text[r.off:r.off+k])
	r.off += k
	last := r.off == len(text)
	switch {
	case last && r.o.read >= 0 && (k == 0 || r.o.eof):
		r.s.delivered(r.o.err, "transform-read")
		return k, r.o.err
	case last && (k == 0 || r.o.eof):
		return k, io.EOF
	}
	return k, nil
}

// trText is a value of the program that is set from text.
type trText struct{ text string }

func (t *trText) Set(s string) error { t.text = s; return nil }
func (t *trText) String() string     { return t.text }

// trData is a value of the program that reads its data.
type trData struct{ text string }

func (t *trData) Set(s string) error { t.text = "set " + s; return nil }
func (t *trData) String() string     { return t.text }
func (t *trData) SetData(r io.Reader) error {
	b, err := io.ReadAll(r)
	if err == nil {
		t.text = string(b)
	}
	return err
}

type trState struct {
	buffer []byte
	w      *core.World
	opts   []*trOpt
	log    []string
	fault  error // the first failure that was delivered
	pv     bool
	late   string // what ran after that
}

func (s *trState) event(format string, a ...any) {
	s.w.Step()
	e := fmt.Sprintf(format, a...)
	s.log = append(s.log, e)
	if s.fault != nil && s.late == "" {
		s.late = e
	}
}

func (s *trState) delivered(err error, kind string) {
	s.w.Fault(kind)
	if s.fault == nil {
		s.fault = err
	}
}

// transform is the option's transform.
func (s *trState) transform(o *trOpt) cli.TransformFunc {
	return func(raw []string) (any, error) {
		var at *trOcc
		for _, c := range o.occ {
			if slices.ContainsFunc(raw, func(r string) bool { return strings.Contains(r, c.id) }) || len(o.occ) == 1 {
				at = c
			}
		}
		s.event("transform %s %q", o.name, raw)
		if at == nil {
			return "", nil
		}
		at.calls++
		if at.fn && (!at.second || at.calls > 1) {
			s.delivered(at.err, "transform")
			if at.pv {
				s.pv = true
				panic(at.err)
			}
			return nil, at.err
		}
		text := at.text
		if o.pair {
			_, text, _ = strings.Cut(text, "=")
		}
		switch at.out {
		case 0:
			return text, nil
		case 1:
			s.buffer = append(s.buffer[:0], text...) // the same for every transform
			return s.buffer, nil
		}
		c := *at
		c.text = text
		if c.read > len(text) {
			c.read = len(text)
		}
		return &trReader{s: s, o: &c}, nil
	}
}

// raw is what the transform is given for the occurrence.
func (o *trOpt) raw(c *trOcc) string {
	words := c.words
	if o.pair {
		k, v, ok := strings.Cut(words[0], "=")
		words = append([]string{k}, words[1:]...)
		if ok {
			words = append([]string{k, v}, words[1:]...)
		}
		return fmt.Sprintf("transform %s %q", o.name, words)
	}
	return fmt.Sprintf("transform %s %q", o.name, append([]string{c.shown}, words...))
}

// want is the value made from these occurrences.
func (o *trOpt) want(occ []*trOcc) string {
	var v []string
	for _, c := range occ {
		v = append(v, c.text)
	}
	last := ""
	if len(v) > 0 {
		last = v[len(v)-1]
	}
	switch o.typ {
	case "string":
		if o.merge {
			return strings.Join(v, " ")
		}
	case "list":
		return fmt.Sprintf("%q", v)
	case "int":
		if last == "" {
			return "0"
		}
	case "bool":
		return fmt.Sprint(last == "true")
	case "map":
		m := map[string]string{}
		for _, kv := range v {
			k, x, _ := strings.Cut(kv, "=")
			m[k] = x
		}
		return fmt.Sprint(m)
	case "pairs":
		return strings.Join(v, ";")
	case "bytes":
		return fmt.Sprintf("%q", strings.Join(v, ""))
	case "fileset":
		var l []string
		for _, x := range v {
			for _, line := range strings.Split(x, "\n") {
				if line = strings.TrimSpace(line); line != "" && line[0] != '#' && line[0] != ';' {
					l = append(l, line)
				}
			}
		}
		return fmt.Sprintf("%q", l)
	}
	return last
}

func (o *trOpt) show(v any) string {
	switch v := v.(type) {
	case []string:
		return fmt.Sprintf("%q", v)
	case []byte:
		return fmt.Sprintf("%q", v)
	case *cli.NameValue:
		if v == nil || v.Name == "" {
			return ""
		}
		return v.Name + "=" + v.Value
	case []*cli.NameValue:
		var l []string
		for _, x := range v {
			l = append(l, o.show(x))
		}
		return strings.Join(l, ";")
	case *cli.FileSet:
		return fmt.Sprintf("%q", v.Files)
	}
	return fmt.Sprint(v)
}

func (o *trOpt) make() any {
	switch o.typ {
	case "string":
		return new(string)
	case "list":
		return cli.List()
	case "int":
		return new(int)
	case "bool":
		return new(bool)
	case "map":
		return cli.Map()
	case "pair":
		return new(cli.NameValue)
	case "pairs":
		return cli.NameValues()
	case "bytes":
		return cli.Bytes()
	case "fileset":
		return new(cli.FileSet)
	case "text":
		return new(trText)
	}
	return new(trData)
}

// occurrence draws one of the option.
func (s *trState) occurrence(o *trOpt, level int) *trOcc {
	w := s.w
	n := 0
	for _, p := range s.opts {
		n += len(p.occ)
	}
	id := fmt.Sprintf("w%dw", n)
	c := &trOcc{id: id, level: level, words: []string{id}, out: w.Int(3), read: -1, chunk: core.Pick(w, 1, 2, 5, 1000), eof: w.Chance(1, 3), err: &simErr{id}}
	c.shown = o.display()
	if o.alias != "" && w.Chance(1, 3) {
		c.shown = (&trOpt{name: o.alias}).display()
	}
	switch o.typ {
	case "bool":
		c.text = core.Pick(w, "true", "false")
		c.words = []string{""}
		return c
	case "int":
		c.text = fmt.Sprint(w.Int(1000))
		if w.Chance(1, 10) {
			c.text, c.bad = core.Pick(w, "ten", "1x", "", "1.5"), true
		}
	case "map", "pair", "pairs":
		c.text = core.Pick(w, "k", "key") + fmt.Sprint(n) + "=" + core.Pick(w, "v", "", "w x", "u=v", "@f")
		if o.pair {
			k, _, _ := strings.Cut(c.text, "=")
			c.words = []string{k + "=" + id}
			if o.typ == "pair" && w.Chance(1, 2) {
				c.words = []string{k, id}
			}
		}
	case "fileset":
		c.text = core.Pick(w, "", "a\n", "a\nb", "a b\nc\n", "# b\n a \n\n\t;c\nd #e\n", "  #x\ny;", strings.Repeat("a/", 2100)+"\n#"+strings.Repeat("b", 4100)+"\nc")
	case "bytes":
		c.text = core.Pick(w, "", "\x00\xff", "data", strings.Repeat("more", 300))
		if c.out == 0 {
			c.out = 1 // text would be hexadecimal
		}
	case "list":
		c.text = core.Pick(w, "", "a", "two words", "x=y", "-z")
	default:
		if o.merge {
			c.text = core.Pick(w, "text", "a b", "x\n", "@f")
			break
		}
		c.text = core.Pick(w, "", "text", "two\nlines\n", "a,b", "--x", "@f", "é\x00", strings.Repeat("long ", 200))
	}
	return c
}

func runTransform(w *core.World) {
	s := &trState{w: w}
	sub := w.Chance(1, 2)
	leaf := 0
	if sub {
		leaf = 1
	}
	names := []string{"alpha", "beta", "gamma", "delta", "p", "q"}
	letters := []string{"x", "y", "z", "u", "v"}
	w.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	types := []string{"string", "string", "list", "int", "bool", "map", "pair", "pairs", "bytes", "fileset", "text", "data"}
	add := func(o *trOpt) {
		o.name, names = names[0], names[1:]
		o.typ = core.Pick(w, types...)
		if o.arg && !slices.Contains([]string{"string", "list", "int", "bytes", "text", "data"}, o.typ) {
			o.typ = "string"
		}
		if !o.arg && w.Chance(1, 3) {
			o.alias, letters = letters[0], letters[1:]
		}
		o.how = w.Int(5)
		o.pair = (o.typ == "map" || o.typ == "pair" || o.typ == "pairs") && w.Chance(1, 2)
		if o.pair {
			o.how = 1
		}
		o.merge = o.typ == "string" && !o.arg && w.Chance(1, 4)
		o.each = !o.arg && !o.merge && o.level == leaf && !slices.Contains([]string{"fileset", "text", "data", "bool"}, o.typ) && w.Chance(1, 4)
		o.target = o.make()
		s.opts = append(s.opts, o)
	}
	for range w.Range(1, 3) {
		add(&trOpt{level: w.Int(leaf + 1)})
	}
	if w.Chance(1, 2) {
		add(&trOpt{arg: true, level: leaf})
	}
	// the line
	line := []string{"app"}
	for level := 0; level <= leaf; level++ {
		if level == 1 {
			line = append(line, "cmd")
		}
		var todo []*trOpt
		for _, o := range s.opts {
			n := 0
			if o.level <= level && !o.arg {
				n = w.Weighted(1, 2, 1)
			}
			if o.typ == "bool" {
				n = min(n, 1)
				if len(o.occ) > 0 {
					n = 0
				}
			}
			for range n {
				todo = append(todo, o)
			}
		}
		w.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
		for _, o := range todo {
			c := s.occurrence(o, level)
			o.occ = append(o.occ, c)
			switch {
			case len(c.words) == 2:
				line = append(append(line, c.shown), c.words...)
			case o.typ == "bool":
				line = append(line, c.shown)
			case len(c.shown) == 2 && w.Chance(1, 2):
				line = append(line, c.shown+c.words[0])
			case len(c.shown) > 2:
				line = append(line, c.shown+"="+c.words[0])
			case slices.Contains([]string{"list", "map", "pair", "pairs", "fileset"}, o.typ):
				line = append(line, c.shown+c.words[0])
			default:
				line = append(line, c.shown, c.words[0])
			}
		}
	}
	for _, o := range s.opts {
		for i := range 3 {
			if !o.arg || i > 0 && o.typ != "list" || w.Chance(1, 4) {
				break
			}
			c := s.occurrence(o, leaf)
			o.occ = append(o.occ, c)
			line = append(line, c.words[0])
		}
	}
	// what fails
	var all []*trOcc
	for _, o := range s.opts {
		for _, c := range o.occ {
			all = append(all, c)
		}
	}
	if len(all) > 0 && w.Chance(1, 2) {
		for range w.Range(1, 2) {
			c := core.Pick(w, all...)
			if w.Chance(1, 2) {
				c.fn, c.pv = true, w.Chance(1, 5)
				c.second = w.Chance(1, 4)
			} else {
				c.out, c.read = 2, w.Int(len(c.text)+1)
			}
		}
	}
	for _, o := range s.opts {
		if o.pair { // the failing place is in the value
			for _, c := range o.occ {
				if c.read >= 0 {
					c.read = min(c.read, len(c.text)-strings.Index(c.text, "=")-1)
				}
			}
		}
	}

	// the program
	value := func(c *cli.Context, at string) {
		for _, o := range s.opts {
			if w.Failed() || o.level == 1 && at != "cmd" {
				continue
			}
			var occ []*trOcc
			for _, x := range o.occ {
				if at == "cmd" || x.level == 0 {
					occ = append(occ, x)
				}
			}
			if g, e := o.show(c.Value(o.name)), o.want(occ); g != e {
				w.Fail("value", "in %s the value of %s is %q, expected %q", at, o.display(), g, e)
			} else if n := c.Occurrences(o.name); n != len(occ) {
				w.Fail("occurrences", "in %s %s has %d occurrences, expected %d", at, o.display(), n, len(occ))
			} else if len(occ) == 0 || occ[0].level == occ[len(occ)-1].level {
				e := []string{}
				for _, x := range occ {
					e = append(append(e, x.shown), x.words...)
				}
				if g := c.Raw(o.name); len(g)+len(e) > 0 && !slices.Equal(g, e) {
					w.Fail("raw", "in %s the words of %s are %q, expected %q", at, o.display(), g, e)
				}
			}
		}
	}
	step := func(id, at string) cli.Action {
		return cli.ActionOf(func(c *cli.Context) {
			s.event("%s", id)
			value(c, at)
		})
	}
	app := &cli.App{Name: "app", Stdin: strings.NewReader(""), Stdout: io.Discard, Stderr: io.Discard, Before: step("before app", "app"), After: cli.ActionOf(func() { s.log = append(s.log, "after app") })}
	cmd := &cli.Command{Name: "cmd", Before: step("before cmd", "cmd"), Action: step("action", "cmd")}
	var customs []cli.Action
	for _, o := range s.opts {
		fn := s.transform(o)
		other := cli.TransformFunc(func(raw []string) (any, error) {
			w.Fail("replaced", "the transform of %s that was replaced is called with %q", o.display(), raw)
			return "", nil
		})
		var field cli.TransformFunc
		var uses []cli.Action
		switch {
		case o.pair:
			uses = append(uses, cli.ValueTransform(fn))
		case o.how == 0:
			field = fn
		case o.how == 1:
			uses = append(uses, cli.Transform(fn))
		case o.how == 2:
			uses = append(uses, fn)
		case o.how == 3:
			customs = append(customs, cli.Customize(o.display(), cli.Transform(fn)))
		default:
			field = other
			uses = append(uses, cli.Transform(other), cli.ActionOf(func(c *cli.Context) error { return c.SetTransform(fn) }))
		}
		act := cli.Action(cli.ActionOf(func(c *cli.Context) {
			if !o.each {
				s.event("action of %s", o.name)
				return
			}
			// the one which it is about is that which was transformed last
			var at *trOcc
			for _, x := range o.occ {
				if x.calls > 1 {
					at = x
				}
			}
			if at == nil {
				w.Fail("occurrence", "the action of an occurrence of %s runs without its transform", o.display())
				return
			}
			s.event("action of %s", o.name)
			if g, e := o.show(c.Value("")), o.want([]*trOcc{at}); g != e {
				w.Fail("occurrence", "in the action for occurrence %q of %s the value is %q, expected %q", at.words, o.display(), g, e)
			}
			value(c, []string{"app", "cmd"}[leaf])
		}))
		var options cli.Option
		if o.each {
			options |= cli.EachOccurrence
		}
		if o.merge {
			options |= cli.Merge
		}
		var use any
		if len(uses) > 0 {
			use = cli.ActionPipeline(uses)
		}
		to := cmd
		if o.arg {
			o.argument = &cli.Arg{Name: o.name, NArg: map[bool]any{true: -1}[o.typ == "list"], Value: o.target, Transform: field, Uses: use, Action: act, Options: options}
			to.Args = append(to.Args, o.argument)
			continue
		}
		o.flag = &cli.Flag{Name: o.name, Value: o.target, Transform: field, Uses: use, Action: act, Options: options}
		if o.alias != "" {
			o.flag.Aliases = []string{o.alias}
		}
		if sub && o.level == 0 {
			app.Flags = append(app.Flags, o.flag)
		} else {
			to.Flags = append(to.Flags, o.flag)
		}
	}
	if sub {
		app.Commands = []*cli.Command{cmd}
		if len(customs) > 0 {
			app.Uses = cli.ActionPipeline(customs)
		}
	} else {
		app.Flags, app.Args = cmd.Flags, cmd.Args
		app.Action = step("action", "app")
		if len(customs) > 0 {
			app.Uses = cli.ActionPipeline(customs)
		}
	}
	for _, o := range s.opts {
		w.Ev("%s level %d %s how %d pair %v each %v merge %v", o.display(), o.level, o.typ, o.how, o.pair, o.each, o.merge)
		for _, c := range o.occ {
			w.Ev("  %s %q -> %.30q out %d fn %v pv %v second %v read %d bad %v", c.shown, c.words, c.text, c.out, c.fn, c.pv, c.second, c.read, c.bad)
		}
	}
	w.Ev("line %q", line)
	var err error
	pv := w.Call(func() { err = app.RunContext(context.Background(), line) })
	for _, l := range s.log {
		w.Ev("%s", l)
	}
	w.Ev("returned %v", errName(err))
	if w.Failed() {
		return
	}
	w.Nontrivial = len(all) > 0

	// what happens in each stage until something fails
	bad := false
	i := 0
	next := func() string {
		if i < len(s.log) {
			return s.log[i]
		}
		return "(nothing)"
	}
	for level := 0; level <= leaf; level++ {
		// the transforms of its words, each option's in order
		due := map[*trOpt][]*trOcc{}
		n := 0
		for _, o := range s.opts {
			for _, c := range o.occ {
				if c.level == level {
					due[o] = append(due[o], c)
					n++
				}
			}
		}
		for n > 0 {
			var o *trOpt
			for p, l := range due {
				if len(l) > 0 && p.raw(l[0]) == next() {
					o = p
				}
			}
			if o == nil {
				w.Fail("transform", "%q: %s happens, but these transforms are due: %s", line, next(), trDue(due))
				return
			}
			c := due[o][0]
			due[o] = due[o][1:]
			n--
			i++
			if c.fn && !c.second || c.read >= 0 || c.bad {
				// ends the run
				bad = bad || c.bad && !(c.fn && !c.second) && c.read < 0
				s.ended(line, s.log[i:], err, pv, bad)
				return
			}
		}
		at := []string{"before app", "before cmd"}[level]
		if next() != at {
			w.Fail("order", "%q: %s happens, expected %s", line, next(), at)
			return
		}
		i++
		// the actions of the options in the words of the program itself
		for level < leaf && strings.HasPrefix(next(), "action of ") {
			o := s.named(strings.TrimPrefix(next(), "action of "))
			if !slices.ContainsFunc(o.occ, func(c *trOcc) bool { return c.level == level }) {
				w.Fail("order", "%q: %s happens before it is used", line, next())
				return
			}
			i++
		}
	}
	// then the actions, in which those of occurrences are transformed again
	for j := i; j < len(s.log) && s.fault == nil; j++ {
		if strings.HasPrefix(s.log[j], "transform") && !slices.ContainsFunc(s.opts, func(o *trOpt) bool {
			return o.each && slices.ContainsFunc(o.occ, func(c *trOcc) bool { return o.raw(c) == s.log[j] })
		}) {
			w.Fail("transform", "%q: %s happens again", line, s.log[j])
			return
		}
	}
	if s.fault != nil {
		s.ended(line, nil, err, pv, false)
		return
	}
	switch {
	case pv != nil:
		w.Fail("panic", "%q panicked: %v", line, pv)
	case err != nil:
		w.Fail("result", "%q returned %v although nothing failed", line, err)
	case !slices.Contains(s.log, "action"):
		w.Fail("result", "%q ran no action", line)
	}
	for _, o := range s.opts {
		if o.each && s.fault == nil {
			for _, c := range o.occ {
				if c.calls != 2 {
					w.Fail("occurrence", "%q: occurrence %q of %s was transformed %d times", line, c.words, o.display(), c.calls)
				}
			}
		}
	}
}

func (s *trState) named(name string) *trOpt {
	return s.opts[slices.IndexFunc(s.opts, func(o *trOpt) bool { return o.name == name })]
}

func trDue(due map[*trOpt][]*trOcc) string {
	var l []string
	for o, occ := range due {
		for _, c := range occ {
			l = append(l, o.raw(c))
		}
	}
	slices.Sort(l)
	return strings.Join(l, "; ")
}

// ended checks that the run ended with the failure.
func (s *trState) ended(line []string, rest []string, err error, pv any, bad bool) {
	w := s.w
	rest = slices.DeleteFunc(slices.Clone(rest), func(e string) bool { return e == "after app" })
	switch {
	case len(rest) > 0:
		w.Fail("later", "%q: %q happened after the failure", line, rest)
	case s.late != "":
		w.Fail("later", "%q: %s happened after the failure", line, s.late)
	case s.pv:
		if pv != any(s.fault) {
			w.Fail("panic", "%q ended with panic %v and %v, expected panic %v", line, pv, errName(err), s.fault)
		}
	case pv != nil:
		w.Fail("panic", "%q panicked: %v", line, pv)
	case bad:
		if err == nil {
			w.Fail("result", "%q returned no error although a text isn't of its type", line)
		}
	case !errors.Is(err, s.fault):
		w.Fail("result", "%q returned %v, expected %v", line, errName(err), s.fault)
	}
}

func init() {
	register(&core.Property{
		ID:        "C24",
		QuickRuns: 100000, ThoroughRuns: 3000000,
		Rule:      "each occurrence is transformed once, before the command's steps; its result is the value, its failure ends the run",
		Real:      []string{"cli: parsing, binding, transforms, SetData of every kind of value"},
		Stub:      []string{"the program's transforms and the readers that they return"},
		Scenarios: []core.Scenario{{Name: "transform", Weight: 1, Run: runTransform}},
	})
}
