package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// C23: an app which changes its definition while it initializes is the app that it would have
// been had it been written so, and the definition doesn't change later.

// dfDef is what the definition of an element says.
type dfDef struct {
	name    string
	aliases []string
	text    map[string]string // help, usage, category, description, manual, default
	options []string
	data    map[string]string
	env     []string
	noValue bool
	nargs   int
}

func (d dfDef) clone() dfDef {
	d.aliases = slices.Clone(d.aliases)
	t := map[string]string{}
	for k, v := range d.text {
		t[k] = v
	}
	d.text = t
	d.options = slices.Clone(d.options)
	d.env = slices.Clone(d.env)
	m := map[string]string{}
	for k, v := range d.data {
		m[k] = v
	}
	d.data = m
	return d
}

// dfEl is a command, a flag or an arg.
type dfEl struct {
	id        string
	kind      string
	typ       string
	inValue   int // how many of its operations its value's initializer does
	value     string
	later     *dfOp
	renames   bool
	rename    string // the name that it gives itself, if it does
	def, cur  dfDef
	children  []*dfEl // as written
	flags     []*dfEl
	args      []*dfEl
	subs      []*dfEl
	ops       []*dfOp
	hooks     []*dfHook
	inited    bool
	removed   bool
	stepBits  int
	actionBit bool
}

type dfHook struct {
	el      *dfEl
	pattern string
	ops     []*dfOp
}

type dfOp struct {
	kind  string
	els   []*dfEl
	el    *dfEl
	key   any
	text  string
	names []string
	proto dfDef
	via   int
	hook  *dfHook
}

func (o *dfOp) String() string {
	var b strings.Builder
	b.WriteString(o.kind)
	for _, e := range o.els {
		b.WriteString(" " + e.id + "=" + e.def.name)
	}
	if o.key != nil {
		if e, ok := o.key.(*dfEl); ok {
			b.WriteString(" the " + e.id)
		} else {
			fmt.Fprintf(&b, " %v", o.key)
		}
	}
	if o.text != "" {
		b.WriteString(" " + o.text)
	}
	for _, n := range o.names {
		b.WriteString(" " + n)
	}
	if o.kind == "prototype" {
		fmt.Fprintf(&b, " %+v", o.proto)
	}
	if o.hook != nil {
		fmt.Fprintf(&b, " %q: %v", o.hook.pattern, o.hook.ops)
	}
	return b.String()
}

func dfDisplay(kind, name string) string {
	switch {
	case kind == "arg":
		return "<" + name + ">"
	case kind == "cmd":
		return name
	case len(name) == 1:
		return "-" + name
	}
	return "--" + name
}

func (e *dfEl) display() string { return dfDisplay(e.kind, e.cur.name) }

// dfState draws the definition and what happens to it.
type dfState struct {
	w         *core.World
	root      *dfEl
	letters   []rune
	n         int
	nenv      int
	budget    int
	all       []*dfEl
	failOp    int
	failAt    int
	lateAt    int
	late      string
	afterHelp bool
	stepErr   *simErr
	opErr     *simErr
	prevent   bool
}

func (s *dfState) fresh(kind string) string {
	s.n++
	if kind == "flag" && len(s.letters) > 0 && s.w.Chance(1, 3) {
		i := s.w.Int(len(s.letters))
		l := s.letters[i]
		s.letters = slices.Delete(s.letters, i, i+1)
		return string(l)
	}
	switch kind {
	case "flag":
		return "f" + strconv.Itoa(s.n)
	case "arg":
		return "a" + strconv.Itoa(s.n)
	}
	return "c" + strconv.Itoa(s.n)
}

var dfTexts = []string{"help", "usage", "category", "description", "manual"}

func (s *dfState) newEl(kind string, depth int) *dfEl {
	w := s.w
	e := &dfEl{kind: kind, def: dfDef{name: s.fresh(kind), text: map[string]string{}}}
	e.id = kind + strconv.Itoa(len(s.all))
	s.all = append(s.all, e)
	if kind != "arg" {
		for range w.Weighted(3, 2, 1) {
			e.def.aliases = append(e.def.aliases, s.fresh(kind))
		}
	}
	for _, t := range dfTexts {
		if w.Chance(1, 5) {
			e.def.text[t] = t + strconv.Itoa(w.Int(100))
		}
	}
	if w.Chance(1, 3) {
		e.rename = s.fresh(kind)
	}
	e.stepBits = w.Int(4)
	e.actionBit = w.Chance(2, 3)
	if kind == "cmd" {
		e.actionBit = w.Chance(5, 6)
		for range w.Weighted(1, 3, 3, 1) {
			e.children = append(e.children, s.newEl("flag", 0))
		}
		for range w.Weighted(3, 2, 1) {
			e.children = append(e.children, s.newEl("arg", 0))
		}
		if depth > 0 {
			for range w.Weighted(3, 3, 2) {
				e.children = append(e.children, s.newEl("cmd", depth-1))
			}
		}
		for _, c := range e.children {
			e.attach(c)
		}
	} else {
		e.typ = core.Pick(w, "string", "string", "bool", "int", "list", "own")
		if e.kind == "arg" && e.typ == "bool" {
			e.typ = "string"
		}
		e.def.nargs = core.Pick(w, 0, 1, 0, 2, -2)
		switch {
		case (e.typ == "string" || e.typ == "own") && w.Chance(1, 3):
			e.value = "default" + strconv.Itoa(s.n)
		case e.typ == "int" && w.Chance(1, 3):
			e.value = strconv.Itoa(s.n)
		}
		if w.Chance(1, 6) && e.typ != "bool" {
			e.def.env = []string{s.env()}
		}
		if w.Chance(1, 8) {
			e.def.options = append(e.def.options, s.option(e))
		}
	}
	e.def = e.def.clone()
	if s.prevent && w.Chance(1, 6) {
		e.def.options = append(e.def.options, "prevent")
	}
	if w.Chance(1, 4) {
		e.def.data[core.Pick(w, "k", "m")] = "d" + strconv.Itoa(s.n)
	}
	if w.Chance(1, 6) && e.id != "cmd0" { // what it lacks comes from its initializer
		e.later = &dfOp{kind: "name", text: e.def.name, el: e, via: w.Int(6)}
		if !s.prevent {
			e.later = &dfOp{kind: "prototype", el: e, via: w.Int(7), proto: dfDef{name: e.def.name}}
			if kind != "cmd" && w.Chance(1, 2) {
				e.def.noValue = true
				e.later.proto.noValue = true // it gives one
			}
		}
		e.def.name = ""
	}
	e.cur = e.def.clone()
	return e
}

func (s *dfState) env() string {
	s.nenv++
	n := fmt.Sprintf("JSIM_D_%d", s.nenv)
	if s.w.Chance(3, 4) {
		SetEnv(s.w, n, strconv.Itoa(100+s.nenv))
	}
	return n
}

func (s *dfState) option(e *dfEl) string {
	if e.kind == "flag" {
		return core.Pick(s.w, "hidden", "required", "each", "nonpersistent")
	}
	return core.Pick(s.w, "hidden", "required")
}

var dfOptions = map[string]cli.Option{
	"prevent": cli.PreventSetup, "hidden": cli.Hidden, "required": cli.Required, "each": cli.EachOccurrence, "nonpersistent": cli.NonPersistent,
}

func (e *dfEl) attach(c *dfEl) {
	l := e.list(c.kind)
	*l = append(*l, c)
}

func (e *dfEl) list(kind string) *[]*dfEl {
	switch kind {
	case "flag":
		return &e.flags
	case "arg":
		return &e.args
	}
	return &e.subs
}

func dfKinds(kind string) string {
	return map[string]string{"flag": "Flag", "arg": "Arg", "cmd": "Command"}[kind]
}

// op draws an operation on el, whose command is cmd.
func (s *dfState) op(el, cmd *dfEl, hookish bool) *dfOp {
	w := s.w
	s.budget--
	o := &dfOp{el: el, via: w.Int(8)}
	switch w.Weighted(5, 3, 4, 1, 2, 1, 3, 2, 3, 1) {
	case 0: // add
		kind := core.Pick(w, "flag", "flag", "arg", "cmd")
		if kind == "cmd" && cmd == s.root && (el != s.root || hookish) {
			kind = "flag" // whether it has the help command was decided
		}
		if kind == "flag" && cmd == s.root && (el != s.root || hookish) {
			s.afterHelp = true // its action would be after that of the built-in one
		}
		o.kind = "Add" + dfKinds(kind)
		for range w.Weighted(0, 3, 1) {
			o.els = append(o.els, s.newEl(kind, 0))
		}
	case 1: // remove
		kind := core.Pick(w, "flag", "flag", "arg", "cmd")
		if kind == "cmd" && cmd == s.root && (el != s.root || hookish) {
			kind = "flag"
		}
		o.kind = "Remove" + dfKinds(kind)
		l := *cmd.list(kind)
		if len(l) == 0 || w.Chance(1, 6) {
			o.key = "none"
			if w.Chance(1, 2) {
				o.key = core.Pick(w, 99, -99)
			}
			break
		}
		x := core.Pick(w, l...)
		how := w.Int(4)
		if how == 1 && cmd == s.root && (el != s.root || hookish) {
			how = 0 // the flags and commands include built-in ones
		}
		switch how {
		case 0:
			o.key = x
		case 1:
			i := slices.Index(l, x)
			if w.Chance(1, 2) {
				i -= len(l)
			}
			o.key = i
		case 2:
			if len(x.cur.aliases) > 0 {
				o.key = core.Pick(w, x.cur.aliases...)
				break
			}
			fallthrough
		default:
			if x.cur.name == "" {
				o.key = x
				break
			}
			o.key = x.cur.name
			if kind != "cmd" && w.Chance(1, 2) {
				o.key = x.display()
			}
		}
	case 2: // text
		o.kind = core.Pick(w, dfTexts...)
		if o.kind == "category" && el == s.root { // the app has none
			o.kind = "help"
		}
		o.text = o.kind + "-" + strconv.Itoa(100+w.Int(900))
	case 3:
		if el == s.root {
			return s.op(el, cmd, hookish)
		}
		o.kind = "alias"
		for range w.Range(1, 2) {
			o.names = append(o.names, s.fresh(el.kind))
		}
	case 4:
		o.kind = "unalias"
		o.text = "none"
		if len(el.cur.aliases) > 0 && w.Chance(4, 5) {
			o.text = core.Pick(w, el.cur.aliases...)
		}
	case 5:
		if el.kind == "cmd" {
			return s.op(el, cmd, hookish)
		}
		o.kind = "option"
		o.text = s.option(el)
	case 6:
		if el.rename == "" || hookish || el == s.root || el.cur.name == el.rename {
			return s.op(el, cmd, hookish)
		}
		o.kind = "name"
		o.text = el.rename
	case 7: // customize another
		if hookish || el.kind != "cmd" {
			return s.op(el, cmd, hookish)
		}
		var l []*dfEl
		s.below(el, &l)
		if len(l) == 0 {
			return s.op(el, cmd, hookish)
		}
		x := core.Pick(w, l...)
		o.kind = "Customize"
		o.hook = &dfHook{el: x, pattern: x.display()}
		c := x
		if c.kind != "cmd" {
			for _, y := range s.all {
				if y.kind == "cmd" && (slices.Contains(y.flags, x) || slices.Contains(y.args, x)) {
					c = y
				}
			}
		}
		post := x.rename != "" && (x.cur.name == "" || w.Chance(1, 3))
		if x.cur.name == "" && !post {
			return s.op(el, cmd, hookish)
		}
		if post {
			o.hook.pattern = dfDisplay(x.kind, x.rename)
			x.renames = w.Chance(4, 5)
		}
		for range w.Range(1, 2) {
			n := s.op(x, c, true)
			if post && (n.kind == "prototype" && n.proto.more() || strings.HasPrefix(n.kind, "Add") || strings.HasPrefix(n.kind, "Remove")) {
				n = &dfOp{kind: "help", text: "help-again", el: x, via: n.via} // the rest is settled
			}
			o.hook.ops = append(o.hook.ops, n)
		}
	case 8:
		if s.prevent {
			return s.op(el, cmd, hookish)
		}
		o.kind = "prototype"
		p := dfDef{text: map[string]string{}}.clone()
		if w.Chance(1, 3) && el.kind != "arg" && el != s.root {
			p.aliases = append(p.aliases, s.fresh(el.kind))
		}
		for _, t := range append(slices.Clone(dfTexts), "default") {
			if w.Chance(1, 3) && (el != s.root || t != "category") {
				p.text[t] = t + strconv.Itoa(w.Int(100))
			}
		}
		if w.Chance(1, 3) && el.kind != "cmd" {
			p.options = append(p.options, s.option(el))
		}
		if w.Chance(1, 3) {
			p.data[core.Pick(w, "k", "m")] = "p" + strconv.Itoa(w.Int(100))
		}
		if w.Chance(1, 4) && el.typ != "bool" && el.kind != "cmd" {
			p.env = append(p.env, s.env())
		}
		if w.Chance(1, 4) {
			p.name = s.fresh(el.kind) // it has one
		}
		if w.Chance(1, 4) && el.kind == "arg" {
			p.nargs = core.Pick(w, 1, 2, -2)
		}
		o.proto = p
	case 9:
		o.kind = "data"
		o.names = []string{core.Pick(w, "k", "m")}
		o.text = "s" + strconv.Itoa(w.Int(100))
	}
	return o
}

// more is whether it gives what is settled once the element has initialized.
func (d dfDef) more() bool { return len(d.env) > 0 || len(d.options) > 0 || d.nargs != 0 }

// below collects the elements below the command that are not initialized yet.
func (s *dfState) below(cmd *dfEl, l *[]*dfEl) {
	for _, k := range []string{"flag", "arg", "cmd"} {
		for _, e := range *cmd.list(k) {
			if e.inited {
				continue
			}
			*l = append(*l, e)
			if k == "cmd" {
				s.below(e, l)
			}
		}
	}
}

// apply is what the operation does to the definition.
func (s *dfState) apply(o *dfOp, el, cmd *dfEl) {
	switch o.kind {
	case "AddFlag", "AddArg", "AddCommand":
		for _, e := range o.els {
			cmd.attach(e)
		}
	case "RemoveFlag", "RemoveArg", "RemoveCommand":
		kind := map[string]string{"RemoveFlag": "flag", "RemoveArg": "arg", "RemoveCommand": "cmd"}[o.kind]
		l := cmd.list(kind)
		for i, e := range *l {
			name, _ := o.key.(string)
			if kind == "flag" {
				name = strings.TrimLeft(name, "-")
			} else if kind == "arg" {
				name = strings.Trim(name, "<>")
			}
			n, isInt := o.key.(int)
			if o.key == any(e) || name != "" && name == e.cur.name || slices.Contains(e.cur.aliases, name) || isInt && (n == i || n+len(*l) == i) {
				*l = slices.Concat((*l)[:i], (*l)[i+1:])
				e.removed = true
				break
			}
		}
	case "alias":
		if el.kind != "arg" {
			el.cur.aliases = append(el.cur.aliases, o.names...)
		}
	case "unalias":
		el.cur.aliases = slices.DeleteFunc(el.cur.aliases, func(x string) bool { return x == o.text })
	case "option":
		el.cur.options = append(el.cur.options, o.text)
	case "name":
		el.cur.name = o.text
	case "data":
		el.cur.data[o.names[0]] = o.text
	case "prototype":
		p := o.proto
		if el.cur.name == "" {
			el.cur.name = p.name
		}
		el.cur.aliases = append(el.cur.aliases, p.aliases...)
		for k, v := range p.text {
			if el.cur.text[k] == "" && (k != "default" || el.kind != "cmd") {
				el.cur.text[k] = v
			}
		}
		el.cur.options = append(el.cur.options, p.options...)
		for k, v := range p.data {
			el.cur.data[k] = v
		}
		el.cur.env = append(el.cur.env, p.env...)
		if el.cur.nargs == 0 {
			el.cur.nargs = p.nargs
		}
		if p.noValue {
			el.cur.noValue = false
		}
	case "Customize":
		el.hooks = append(el.hooks, o.hook)
	default:
		el.cur.text[o.kind] = o.text
	}
}

// init is how an element initializes. It draws its operations when they are applied.
func (s *dfState) init(e, cmd *dfEl, lineage []*dfEl) {
	name := e.cur.name
	hooks := func() {
		for _, l := range lineage {
			for _, h := range l.hooks {
				if h.pattern != e.display() {
					continue
				}
				for _, o := range h.ops {
					s.apply(o, e, cmd)
				}
			}
		}
	}
	hooks()
	if e.later != nil {
		e.ops = append(e.ops, e.later)
		s.apply(e.later, e, cmd)
	}
	if e.renames {
		o := &dfOp{kind: "name", text: e.rename, el: e, via: s.w.Int(6)}
		e.ops = append(e.ops, o)
		s.apply(o, e, cmd)
	}
	for range s.w.Weighted(3, 2, 2, 1) {
		if s.budget <= 0 {
			break
		}
		o := s.op(e, cmd, false)
		e.ops = append(e.ops, o)
		s.apply(o, e, cmd)
		if e.typ == "own" && (e.inValue > 0 || s.w.Chance(1, 2)) {
			e.inValue++
			if o.kind == "prototype" && len(o.proto.options) > 0 {
				e.inValue = 0 // the options of the flag or arg are in effect by then
			}
		}
	}
	if e.kind == "cmd" {
		lineage = append(slices.Clone(lineage), e)
		for more := true; more; {
			more = false
			for _, k := range []string{"flag", "arg"} {
				for _, x := range slices.Clone(*e.list(k)) {
					if x.inited || !slices.Contains(*e.list(k), x) {
						continue
					}
					more = true
					s.init(x, e, lineage)
				}
			}
		}
		for _, x := range slices.Clone(e.subs) {
			s.init(x, x, lineage)
		}
	}
	e.inited = true
	if e.cur.name != name {
		hooks()
	}
}

// dfRun is one of the two apps.
type dfRun struct {
	*dfState
	static bool
	objs   map[*dfEl]any
	log    []string
	steps  int
	ops    int
	out    *simWriter
	errw   *simWriter
	failed bool
	atEnd  int
}

func (r *dfRun) path(e *dfEl) (res []*dfEl) {
	var find func(c *dfEl) bool
	find = func(c *dfEl) bool {
		ok := c == e || slices.Contains(c.flags, e) || slices.Contains(c.args, e)
		for _, x := range c.subs {
			ok = ok || find(x)
		}
		if ok {
			res = append(res, c)
		}
		return ok
	}
	find(r.root)
	return
}

func (r *dfRun) step(e *dfEl, timing string) cli.ActionFunc {
	return func(c *cli.Context) error {
		r.w.Step()
		r.steps++
		if r.failed {
			r.atEnd++
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%s %s: %s, %q %q %q %q %q, %v %v;", e.id, timing, c.Name(),
			c.HelpText(), c.UsageText(), c.Category(), fmt.Sprint(c.Description()), c.ManualText(), c.Aliases(), dfData(c.Data()))
		for _, p := range r.path(e) {
			for _, l := range [][]*dfEl{p.flags, p.args} {
				for _, x := range l {
					fmt.Fprintf(&b, " %s=%v/%v/%d", x.cur.name, lkFormat(c.Value(x.cur.name)), c.Seen(x.cur.name), c.Occurrences(x.cur.name))
				}
			}
		}
		b.WriteString("; ")
		b.WriteString(strings.Join(dfNames(c), " "))
		r.log = append(r.log, b.String())
		if !r.static && r.steps == r.lateAt {
			r.tooLate(c, e)
		}
		if r.steps == r.failAt {
			r.w.Fault("a step fails")
			r.failed = true
			return r.stepErr
		}
		return nil
	}
}

func dfData(m map[string]any) string {
	res := map[string]any{}
	for _, k := range []string{"k", "m"} {
		if v, ok := m[k]; ok {
			res[k] = v
		}
	}
	return fmt.Sprint(res)
}

// dfNames are the options and commands that the context's command has.
func dfNames(c *cli.Context) (res []string) {
	cmd := c.Command()
	built := func(name string) bool {
		switch name {
		case "help", "version", "zsh-completion", "command":
			return true
		}
		return false
	}
	for _, f := range cmd.Flags {
		if !built(f.Name) {
			res = append(res, fmt.Sprintf("-%s%v", f.Name, f.Aliases))
		}
	}
	for _, a := range cmd.Args {
		if !built(a.Name) {
			res = append(res, "<"+a.Name+">")
		}
	}
	for _, x := range cmd.Subcommands {
		if !built(x.Name) {
			res = append(res, fmt.Sprintf("%s%v", x.Name, x.Aliases))
		}
	}
	return
}

// tooLate tries to change the definition from a step.
func (r *dfRun) tooLate(c *cli.Context, e *dfEl) {
	r.w.Fault("a step changes the definition")
	f := &cli.Flag{Name: "late", Value: new(string)}
	a := &cli.Arg{Name: "late", Value: new(string)}
	sub := &cli.Command{Name: "late", Action: func() {}}
	first := func(kind string) any {
		p := r.path(e)
		if len(p) == 0 || len(*p[0].list(kind)) == 0 {
			return "late"
		}
		return (*p[0].list(kind))[0].cur.name
	}
	var err error
	via := func(a cli.Action) { err = c.Do(a) }
	switch r.late {
	case "AddFlag":
		err = c.AddFlag(f)
	case "AddFlags":
		err = c.AddFlags(f, &cli.Flag{Name: "later"})
	case "the action AddFlag":
		via(cli.AddFlag(f))
	case "AddArg":
		err = c.AddArg(a)
	case "the action AddArgs":
		via(cli.AddArgs(a))
	case "AddCommand":
		err = c.AddCommand(sub)
	case "the action AddCommands":
		via(cli.AddCommands(sub))
	case "AddArgs":
		err = c.AddArgs(a, &cli.Arg{Name: "later"})
	case "AddCommands":
		err = c.AddCommands(sub, &cli.Command{Name: "later"})
	case "the action AddFlags":
		via(cli.AddFlags(f, &cli.Flag{Name: "later"}))
	case "the action AddArg":
		via(cli.AddArg(a))
	case "the action AddCommand":
		via(cli.AddCommand(sub))
	case "the action RemoveCommand":
		via(cli.RemoveCommand(first("cmd")))
	case "RemoveFlag":
		err = c.RemoveFlag(first("flag"))
	case "the action RemoveFlag":
		via(cli.RemoveFlag(first("flag")))
	case "RemoveArg":
		err = c.RemoveArg(0)
	case "the action RemoveArg":
		via(cli.RemoveArg(first("arg")))
	case "RemoveCommand":
		err = c.RemoveCommand(first("cmd"))
	case "AddAlias":
		err = c.AddAlias("late")
	case "RemoveAlias":
		if l := c.Aliases(); len(l) > 0 {
			err = c.RemoveAlias(l[0])
		} else {
			err = c.RemoveAlias("late")
		}
	case "the action Alias":
		via(cli.Alias("late"))
	case "Customize":
		if _, ok := c.Target().(*cli.Command); !ok {
			return
		}
		err = c.Customize("*", cli.ActionFunc(func(*cli.Context) error {
			r.w.Fail("late", "what a step customizes runs")
			return nil
		}))
	}
	if !errors.Is(err, cli.ErrTimingTooLate) {
		r.w.Fail("late", "%s in the %s of %s gives %v", r.late, c.Timing(), e.id, err)
	}
}

var dfLate = []string{"AddFlag", "AddFlags", "the action AddFlag", "AddArg", "the action AddArgs", "AddCommand",
	"the action AddCommands", "RemoveFlag", "the action RemoveFlag", "RemoveArg", "the action RemoveArg", "RemoveCommand",
	"AddAlias", "RemoveAlias", "the action Alias", "Customize", "AddArgs", "AddCommands", "the action AddFlags",
	"the action AddArg", "the action AddCommand", "the action RemoveCommand"}

func (r *dfRun) opAction(o *dfOp) cli.Action {
	run := func(f func(*cli.Context) error) cli.Action { return cli.ActionFunc(f) }
	var a cli.Action
	var m func(*cli.Context) error
	switch o.kind {
	case "AddFlag":
		var l []*cli.Flag
		for _, e := range o.els {
			l = append(l, r.build(e).(*cli.Flag))
		}
		a, m = cli.AddFlags(l...), func(c *cli.Context) error { return c.AddFlags(l...) }
		if len(l) == 1 {
			a, m = cli.AddFlag(l[0]), func(c *cli.Context) error { return c.AddFlag(l[0]) }
		}
	case "AddArg":
		var l []*cli.Arg
		for _, e := range o.els {
			l = append(l, r.build(e).(*cli.Arg))
		}
		a, m = cli.AddArgs(l...), func(c *cli.Context) error { return c.AddArgs(l...) }
		if len(l) == 1 {
			a, m = cli.AddArg(l[0]), func(c *cli.Context) error { return c.AddArg(l[0]) }
		}
	case "AddCommand":
		var l []*cli.Command
		for _, e := range o.els {
			l = append(l, r.build(e).(*cli.Command))
		}
		a, m = cli.AddCommands(l...), func(c *cli.Context) error { return c.AddCommands(l...) }
		if len(l) == 1 {
			a, m = cli.AddCommand(l[0]), func(c *cli.Context) error { return c.AddCommand(l[0]) }
		}
	case "RemoveFlag", "RemoveArg", "RemoveCommand":
		key := func() any {
			if e, ok := o.key.(*dfEl); ok {
				return r.objs[e]
			}
			return o.key
		}
		switch o.kind {
		case "RemoveFlag":
			a, m = run(func(c *cli.Context) error { return c.Do(cli.RemoveFlag(key())) }), func(c *cli.Context) error { return c.RemoveFlag(key()) }
		case "RemoveArg":
			a, m = run(func(c *cli.Context) error { return c.Do(cli.RemoveArg(key())) }), func(c *cli.Context) error { return c.RemoveArg(key()) }
		default:
			a, m = run(func(c *cli.Context) error { return c.Do(cli.RemoveCommand(key())) }), func(c *cli.Context) error { return c.RemoveCommand(key()) }
		}
	case "alias":
		a, m = cli.Alias(o.names...), func(c *cli.Context) error { return c.AddAlias(o.names...) }
	case "unalias":
		a, m = cli.RemoveAlias(o.text), func(c *cli.Context) error { return c.RemoveAlias(o.text) }
	case "option":
		x := dfOptions[o.text]
		a, m = x, func(c *cli.Context) error { return c.Do(x) }
	case "name":
		a, m = cli.Named(o.text), func(c *cli.Context) error { return c.SetName(o.text) }
	case "help":
		a, m = cli.HelpText(o.text), func(c *cli.Context) error { return c.SetHelpText(o.text) }
	case "usage":
		a, m = cli.UsageText(o.text), func(c *cli.Context) error { return c.SetUsageText(o.text) }
	case "category":
		a, m = cli.Category(o.text), func(c *cli.Context) error { return c.SetCategory(o.text) }
	case "description":
		a, m = cli.Description(o.text), func(c *cli.Context) error { return c.SetDescription(o.text) }
	case "manual":
		a, m = cli.ManualText(o.text), func(c *cli.Context) error { return c.SetManualText(o.text) }
	case "Customize":
		var l []cli.Action
		for _, x := range o.hook.ops {
			l = append(l, r.opAction(x))
		}
		h := pipelineOf(l)
		a, m = cli.Customize(o.hook.pattern, h), func(c *cli.Context) error { return c.Customize(o.hook.pattern, h) }
	}
	proto := func() cli.Prototype {
		if o.kind != "prototype" {
			return cli.Prototype{Setup: cli.Setup{Uses: a}}
		}
		d := o.proto
		p := cli.Prototype{Name: d.name, Aliases: d.aliases, HelpText: d.text["help"], UsageText: d.text["usage"],
			Category: d.text["category"], ManualText: d.text["manual"], DefaultText: d.text["default"], EnvVars: d.env}
		if x := d.text["description"]; x != "" {
			p.Description = x
		}
		for _, x := range d.options {
			p.Options |= dfOptions[x]
		}
		if len(d.data) > 0 {
			p.Data = map[string]any{}
			for k, v := range d.data {
				p.Data[k] = v
			}
		}
		if d.nargs != 0 {
			p.NArg = d.nargs
		}
		if d.noValue {
			p.Value = r.target(o.el)
		}
		return p
	}
	switch o.kind {
	case "prototype":
		a = proto()
		m = func(c *cli.Context) error { return c.Do(a) }
	case "data":
		a, m = cli.Data(o.names[0], o.text), func(c *cli.Context) error { return c.SetData(o.names[0], o.text) }
	}
	count := func(c *cli.Context) error {
		r.w.Step()
		r.ops++
		if r.ops == r.failOp {
			r.w.Fault("an initializer fails")
			r.failed = true
			return r.opErr
		}
		return nil
	}
	switch o.via {
	case 0, 1:
		return cli.Pipeline(run(count), a)
	case 2:
		return cli.Pipeline(run(count), cli.At(cli.InitialTiming, a))
	case 3:
		return cli.Pipeline(run(count), cli.Setup{Uses: a})
	case 7:
		if x := o.setup(); x != nil && !r.prevent {
			return cli.Pipeline(run(count), x)
		}
	case 6:
		if o.kind != "prototype" && !r.prevent {
			return cli.Pipeline(run(count), proto())
		}
	}
	return run(func(c *cli.Context) error {
		if err := count(c); err != nil {
			return err
		}
		return m(c)
	})
}

// setup changes the fields of the flag, arg or command itself.
func (o *dfOp) setup() cli.Action {
	var set func(help, manual, usage, category *string, description *any)
	switch o.kind {
	case "help":
		set = func(s, _, _, _ *string, _ *any) { *s = o.text }
	case "manual":
		set = func(_, s, _, _ *string, _ *any) { *s = o.text }
	case "usage":
		set = func(_, _, s, _ *string, _ *any) { *s = o.text }
	case "category":
		set = func(_, _, _, s *string, _ *any) { *s = o.text }
	case "description":
		set = func(_, _, _, _ *string, s *any) { *s = o.text }
	default:
		return nil
	}
	cmd := cli.CommandSetup(func(c *cli.Command) { set(&c.HelpText, &c.ManualText, &c.UsageText, &c.Category, &c.Description) })
	return cli.Pipeline(
		cli.FlagSetup(func(f *cli.Flag) { set(&f.HelpText, &f.ManualText, &f.UsageText, &f.Category, &f.Description) }),
		cli.ArgSetup(func(a *cli.Arg) { set(&a.HelpText, &a.ManualText, &a.UsageText, &a.Category, &a.Description) }),
		cli.ActionFunc(func(c *cli.Context) error { // within an option it is for its command
			if _, ok := c.Target().(*cli.Command); ok {
				return c.Do(cmd)
			}
			return nil
		}))
}

func (r *dfRun) uses(e *dfEl) cli.Action {
	var l []cli.Action
	if !r.static {
		for _, o := range e.ops[:len(e.ops)-e.inValue] {
			l = append(l, r.opAction(o))
		}
	}
	return pipelineOf(l)
}

// dfValue is a value with an initializer.
type dfValue struct {
	text string
	init func() cli.Action
}

func (v *dfValue) Set(s string) error      { v.text = s; return nil }
func (v *dfValue) String() string          { return v.text }
func (v *dfValue) Value() any              { return v.text }
func (v *dfValue) Reset()                  { v.text = "" }
func (v *dfValue) Copy() *dfValue          { return &dfValue{text: v.text} }
func (v *dfValue) Initializer() cli.Action { return v.init() }

func (r *dfRun) target(e *dfEl) any {
	switch e.typ {
	case "bool":
		return new(bool)
	case "int":
		n, _ := strconv.Atoi(e.value)
		return &n
	case "list":
		return &[]string{}
	case "own":
		return &dfValue{e.value, func() cli.Action {
			var l []cli.Action
			if !r.static {
				for _, o := range e.ops[len(e.ops)-e.inValue:] {
					l = append(l, r.opAction(o))
				}
			}
			return pipelineOf(l)
		}}
	}
	v := e.value
	return &v
}

func (r *dfRun) build(e *dfEl) (obj any) {
	if o, ok := r.objs[e]; ok {
		return o
	}
	defer func() { r.objs[e] = obj }()
	d := e.def
	if r.static {
		d = e.cur
	}
	var desc any
	if x := d.text["description"]; x != "" {
		desc = x
	}
	var data map[string]any
	if len(d.data) > 0 {
		data = map[string]any{}
		for k, v := range d.data {
			data[k] = v
		}
	}
	var value any
	if !d.noValue && e.kind != "cmd" {
		value = r.target(e)
	}
	var opts cli.Option
	for _, o := range d.options {
		opts |= dfOptions[o]
	}
	var before, after, action any
	if e.stepBits&1 != 0 {
		before = r.step(e, "before")
	}
	if e.stepBits&2 != 0 {
		after = r.step(e, "after")
	}
	if e.actionBit {
		action = r.step(e, "action")
	}
	switch e.kind {
	case "flag":
		return &cli.Flag{Name: d.name, Aliases: slices.Clone(d.aliases), HelpText: d.text["help"], UsageText: d.text["usage"],
			Category: d.text["category"], Description: desc, ManualText: d.text["manual"], Options: opts,
			Value: value, Data: data, DefaultText: d.text["default"], EnvVars: slices.Clone(d.env), Uses: r.uses(e), Before: before, After: after, Action: action}
	case "arg":
		a := &cli.Arg{Name: d.name, HelpText: d.text["help"], UsageText: d.text["usage"],
			Category: d.text["category"], Description: desc, ManualText: d.text["manual"], Options: opts,
			Value: value, Data: data, DefaultText: d.text["default"], EnvVars: slices.Clone(d.env), Uses: r.uses(e), Before: before, After: after, Action: action}
		if d.nargs != 0 {
			a.NArg = d.nargs
		}
		return a
	}
	c := &cli.Command{Name: d.name, Aliases: slices.Clone(d.aliases), HelpText: d.text["help"], UsageText: d.text["usage"],
		Category: d.text["category"], Description: desc, ManualText: d.text["manual"],
		Data: data, Options: opts, Uses: r.uses(e), Before: before, After: after, Action: action}
	flags, args, subs := e.flags, e.args, e.subs
	if !r.static {
		flags, args, subs = nil, nil, nil
		for _, x := range e.children {
			switch x.kind {
			case "flag":
				flags = append(flags, x)
			case "arg":
				args = append(args, x)
			default:
				subs = append(subs, x)
			}
		}
	}
	for _, x := range flags {
		c.Flags = append(c.Flags, r.build(x).(*cli.Flag))
	}
	for _, x := range args {
		c.Args = append(c.Args, r.build(x).(*cli.Arg))
	}
	for _, x := range subs {
		c.Subcommands = append(c.Subcommands, r.build(x).(*cli.Command))
	}
	return c
}

// line draws words for the definition as it ends up.
func (s *dfState) line() []string {
	w := s.w
	line := []string{"app"}
	cmd, scope := s.root, []*dfEl(nil)
	word := func() string { return core.Pick(w, "1", "22", "w", "x", "7") }
	for range 4 {
		scope = append(scope, cmd.flags...)
		if w.Chance(2, 3) {
			for range w.Weighted(1, 3, 2, 1) {
				var f *dfEl
				name := ""
				switch {
				case len(scope) > 0 && w.Chance(6, 7):
					f = core.Pick(w, scope...)
					name = f.cur.name
					if l := f.cur.aliases; len(l) > 0 && w.Chance(1, 3) {
						name = core.Pick(w, l...)
					}
				default: // an element that isn't there, or not any more
					f = core.Pick(w, s.all...)
					if f.kind != "flag" || !f.removed && f.def.name == f.cur.name && w.Chance(3, 4) {
						continue
					}
					name = f.def.name
				}
				d := dfDisplay("flag", name)
				switch {
				case f.typ == "bool":
					line = append(line, d)
				case len(name) > 1 && w.Chance(1, 2):
					line = append(line, d+"="+core.Pick(w, "3", "44", word()))
				default:
					line = append(line, d, core.Pick(w, "3", "44", word()))
				}
			}
		}
		for range len(cmd.args) {
			if w.Chance(2, 3) {
				line = append(line, word())
			}
		}
		if len(cmd.subs) == 0 || w.Chance(1, 6) {
			break
		}
		cmd = core.Pick(w, cmd.subs...)
		name := cmd.cur.name
		if l := cmd.cur.aliases; len(l) > 0 && w.Chance(1, 3) {
			name = core.Pick(w, l...)
		}
		if w.Chance(1, 12) {
			name = core.Pick(w, s.all...).def.name
		}
		line = append(line, name)
	}
	switch w.Weighted(8, 2, 1) {
	case 1:
		if s.afterHelp {
			break
		}
		line = append(line, "--help")
	case 2:
		line = slices.Insert(line, 1, "help")
	}
	return line
}

func dfWords(s string) string {
	l := strings.Fields(s)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (r *dfRun) run(line []string) (err error, pv any, stack string) {
	root := r.build(r.root).(*cli.Command)
	r.out, r.errw = &simWriter{w: r.w, failAt: -1}, &simWriter{w: r.w, failAt: -1}
	app := &cli.App{Name: root.Name, Flags: root.Flags, Args: root.Args, Commands: root.Subcommands, Uses: root.Uses,
		HelpText: root.HelpText, UsageText: root.UsageText, Description: root.Description, ManualText: root.ManualText, Data: root.Data, Options: root.Options,
		Before: root.Before, After: root.After, Action: root.Action,
		Stdout: r.out, Stderr: r.errw, Stdin: strings.NewReader("")}
	pv, stack = r.w.CallStack(func() { err = app.RunContext(context.Background(), line) })
	return
}

func runDefine(w *core.World) {
	s := &dfState{w: w, letters: []rune("abcdegijklmnopqrstuwxyz"), budget: w.Range(1, 10),
		stepErr: &simErr{"step"}, opErr: &simErr{"initializer"}}
	s.prevent = w.Chance(1, 6)
	s.root = s.newEl("cmd", w.Range(0, 2))
	s.root.def.name, s.root.def.aliases, s.root.rename = "app", nil, ""
	delete(s.root.def.text, "category")
	s.root.cur = s.root.def.clone()
	s.init(s.root, s.root, nil)
	if w.Chance(1, 5) {
		s.failAt = w.Range(1, 10)
	}
	nops := 0
	for _, e := range s.all {
		if e.inited {
			nops += len(e.ops)
		}
		for _, o := range e.ops {
			w.Ev("%s: %v", e.id, o)
		}
		w.Ev("%s %s %q %v", e.id, e.typ, e.def.name, e.def.options)
	}
	if w.Chance(1, 12) && nops > 0 {
		s.failOp = w.Range(1, nops)
	}
	if w.Chance(1, 3) {
		s.lateAt = w.Range(1, 8)
		s.late = core.Pick(w, dfLate...)
	}
	line := s.line()
	w.Ev("line %q", line)
	dyn := &dfRun{dfState: s, objs: map[*dfEl]any{}}
	st := &dfRun{dfState: s, objs: map[*dfEl]any{}, static: true}
	err, pv, stack := dyn.run(line)
	if w.Failed() {
		return
	}
	if pv != nil {
		w.Fail("panic", "%q panics with %v at %s", line, pv, stack)
		return
	}
	if dyn.failed && s.failOp > 0 && dyn.ops == s.failOp {
		switch {
		case !errors.Is(err, s.opErr):
			w.Fail("initializer", "%q ends with %v, although an initializer failed", line, err)
		case dyn.steps > 0:
			w.Fail("initializer", "%q runs %q, although an initializer failed", line, dyn.log)
		}
		return
	}
	err2, pv2, stack2 := st.run(line)
	if w.Failed() {
		return
	}
	if pv2 != nil {
		w.Fail("panic", "%q panics with %v at %s", line, pv2, stack2)
		return
	}
	for i := range max(len(dyn.log), len(st.log)) {
		switch {
		case i >= len(dyn.log):
			w.Fail("missing", "%q doesn't run the step %q", line, st.log[i])
		case i >= len(st.log):
			w.Fail("extra", "%q runs the step %q", line, dyn.log[i])
		case dyn.log[i] != st.log[i]:
			w.Fail("step", "%q runs the step %q, expected %q", line, dyn.log[i], st.log[i])
		default:
			continue
		}
		return
	}
	if a, b := dfErr(err), dfErr(err2); a != b {
		w.Fail("result", "%q ends with %s, expected %s", line, a, b)
		return
	}
	if a, b := dfWords(dyn.out.buf.String()), dfWords(st.out.buf.String()); a != b {
		w.Fail("output", "%q prints %q, expected %q", line, a, b)
		return
	}
	if a, b := dfWords(dyn.errw.buf.String()), dfWords(st.errw.buf.String()); a != b {
		w.Fail("output", "%q writes %q, expected %q", line, a, b)
		return
	}
	w.Nontrivial = nops > 0 && dyn.steps > 0
}

func dfErr(err error) string {
	if err == nil {
		return "no error"
	}
	return err.Error()
}

func init() {
	register(&core.Property{
		ID:        "C23",
		QuickRuns: 100000, ThoroughRuns: 2000000,
		Rule:      "an app that changes its definition while it initializes runs as the app written so, and no step changes the definition",
		Real:      []string{"command tree, initialization, customization, parser, lifecycle, help"},
		Stub:      []string{"the initializers and steps (record, change the definition, may fail)", "environment variables", "standard streams (in memory)"},
		Scenarios: []core.Scenario{{Name: "define", Weight: 1, Run: runDefine}},
	})
}
