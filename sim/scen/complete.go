package scen

import (
	"context"
	"fmt"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// csource is where the candidates for a value come from.
type csource struct {
	id    string
	kind  string // none, values, enum, func, file, dir, standard
	how   string // field, uses, later
	vals  []string
	items []cli.CompletionItem
	pv    bool // the function panics
	made  cli.Completion
}

type cflag struct {
	long, short string
	kind        string // bool, string, int, list, file
	help        string
	comp        *csource
	own         bool // NonPersistent
	required    bool
	env         bool
	hook        bool // has an action
}

func (f *cflag) names() (res []string) {
	if f.short != "" {
		res = append(res, "-"+f.short)
	}
	if f.long != "" {
		res = append(res, "--"+f.long)
	}
	return
}

type carg struct {
	name string
	kind string // string, list, file
	opt  bool
	comp *csource
}

type ccmd struct {
	name    string
	aliases []string
	help    string
	flags   []*cflag
	args    []*carg
	kids    []*ccmd
	comp    *csource // of the command itself
	defers  bool
	handler string // implicit command
	parent  *ccmd
}

// crec is a candidate as it is written.
type crec struct {
	kind, value, descr string
	noSpace            bool
	mark               string // with which the shell is told about the space
}

type compl struct {
	w       *core.World
	refuted [2]bool // that a mark of zsh means that no space follows
	n       int
	log     []string
	shell   string
	req     *creq
}

// creq is what is asked.
type creq struct {
	words  []string // all the words before
	last   string   // the word to be completed
	more   []string // what is after it
	strict bool
	want   []crec
	called *csource // the function that is asked
	above  []string // the words it is given
}

var (
	cvalues = []string{"red", "rose", "ruby", "r", "a b", "--x", "blue", "b=c", "blau", "7", "70", "17", "ü"}
	clongs  = []string{"num", "number", "flag", "flagship", "fl", "color", "co", "out"}
	chelps  = []string{"", "", "helps", "two  words", "line\nlines", " ", "a\tb\n\nc", "plain"}
)

func (d *compl) source(kind string) *csource {
	w := d.w
	d.n++
	s := &csource{id: fmt.Sprintf("s%d", d.n), how: core.Pick(w, "field", "uses", "later")}
	if kind == "bool" {
		s.kind = "none"
		return s
	}
	s.kind = core.Pick(w, "none", "values", "values", "values", "enum", "func", "func", "standard")
	if s.kind == "standard" {
		s.kind = core.Pick(w, "file", "dir")
	}
	switch s.kind {
	case "values", "enum":
		pool := slices.Clone(cvalues)
		if kind == "int" {
			pool = []string{"7", "70", "17", "1"}
		}
		w.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		s.vals = pool[:w.Range(1, 4)]
	case "func":
		s.items = d.items()
		s.pv = w.Chance(1, 20)
	}
	return s
}

func (d *compl) items() []cli.CompletionItem {
	w := d.w
	res := []cli.CompletionItem{}
	for range w.Range(0, 3) {
		res = append(res, cli.CompletionItem{
			Type:              core.Pick(w, cli.CompletionTypeToken, cli.CompletionTypeToken, cli.CompletionTypeFile, cli.CompletionTypeDirectory),
			Value:             core.Pick(w, cvalues...),
			HelpText:          core.Pick(w, chelps...),
			PreventSpaceAfter: w.Chance(1, 3),
		})
	}
	return res
}

func (d *compl) drawCmd(depth int, name string) *ccmd {
	w := d.w
	c := &ccmd{name: name, help: core.Pick(w, chelps...), defers: w.Chance(1, 4)}
	if depth == 0 {
		c.help = ""
	}
	longs := slices.Clone(clongs)
	w.Shuffle(len(longs), func(i, j int) { longs[i], longs[j] = longs[j], longs[i] })
	for range w.Range(0, 4) {
		f := &cflag{
			long:     longs[0],
			kind:     core.Pick(w, "bool", "string", "string", "int", "list", "file"),
			help:     core.Pick(w, chelps...),
			own:      w.Chance(1, 4),
			required: w.Chance(1, 8),
			env:      w.Chance(1, 6),
			hook:     w.Chance(1, 2),
		}
		longs = longs[1:]
		if f.own {
			// Names that the commands below don't share with those above
			f.long = fmt.Sprintf("%s%d", f.long, depth)
		}
		// The short name goes with the long one throughout
		switch f.long {
		case "num", "flag", "color", "out":
			f.short = f.long[:1]
		}
		f.comp = d.source(f.kind)
		c.flags = append(c.flags, f)
	}
	if depth == 0 && w.Chance(3, 4) || depth < 3 && w.Chance(1, 2) {
		pool := []string{"a", "add", "ad", "b", "badd", "cc", "d-d", "adder"}
		w.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		for range w.Range(1, 3) {
			k := d.drawCmd(depth+1, pool[0])
			k.parent = c
			pool = pool[1:]
			for w.Chance(1, 4) && len(pool) > 4 {
				k.aliases = append(k.aliases, pool[0])
				pool = pool[1:]
			}
			c.kids = append(c.kids, k)
		}
		if w.Chance(1, 10) {
			c.handler = core.Pick(w, c.kids...).name
		}
	} else {
		n := w.Range(0, 3)
		opt := false
		for i := range n {
			a := &carg{name: fmt.Sprint("arg", i), kind: core.Pick(w, "string", "string", "file")}
			opt = opt || w.Chance(1, 4)
			a.opt = opt
			if i == n-1 && w.Chance(1, 3) {
				a.kind = "list"
			}
			a.comp = d.source(a.kind)
			c.args = append(c.args, a)
		}
	}
	if w.Chance(1, 25) {
		c.comp = d.source("string")
		c.comp.kind, c.comp.items, c.comp.how = "func", d.items(), core.Pick(w, "field", "uses")
	}
	return c
}

func (d *compl) note(format string, args ...any) {
	d.log = append(d.log, fmt.Sprintf(format, args...))
	d.w.Ev("%s", d.log[len(d.log)-1])
	d.w.Step()
}

// ---- the real thing

func (d *compl) step(id string) cli.Action {
	return cli.ActionOf(func(*cli.Context) { d.note("%s", id) })
}

// completion makes the completion, or the action that sets it.
func (d *compl) completion(s *csource) cli.Completion {
	switch s.kind {
	case "values":
		return cli.CompletionValues(s.vals...)
	case "func":
		return cli.CompletionFunc(func(c *cli.Context) []cli.CompletionItem {
			r := c.CompletionRequest()
			d.note("ask %s for %q after %q", s.id, r.Incomplete, r.Args)
			if s.pv {
				d.w.Fault("panicking completion")
				panic(simPanic{s.id})
			}
			return s.items
		})
	case "file":
		return cli.FileCompletion
	case "dir":
		return cli.DirectoryCompletion
	}
	return nil
}

func (d *compl) apply(s *csource, field *cli.Completion, uses *any) {
	if s.kind == "enum" {
		*uses = cli.Enum(s.vals...)
		return
	}
	if s.made == nil {
		s.made = d.completion(s) // is used for all runs
	}
	comp := s.made
	if comp == nil {
		return
	}
	switch s.how {
	case "field":
		*field = comp
	case "uses":
		*uses = cli.SetCompletion(comp)
	default:
		*uses = cli.Prototype{Completion: comp}
	}
}

func cvalue(kind string) any {
	switch kind {
	case "bool":
		return new(bool)
	case "int":
		return new(int)
	case "list":
		return new([]string)
	case "file":
		return new(cli.File)
	}
	return new(string)
}

func (d *compl) build(c *ccmd) *cli.Command {
	cmd := &cli.Command{Name: c.name, Aliases: c.aliases, HelpText: c.help}
	for _, f := range c.flags {
		x := &cli.Flag{Name: f.long, Value: cvalue(f.kind), HelpText: f.help}
		if f.short != "" {
			x.Aliases = []string{f.short}
		}
		if f.own {
			x.Options |= cli.NonPersistent
		}
		if f.required {
			x.Options |= cli.Required
		}
		if f.env {
			x.EnvVars = []string{"JOESIM_CFLAG"}
		}
		if f.hook {
			x.Action = d.step("flag " + f.long)
			x.After = d.step("flag after " + f.long)
		}
		d.apply(f.comp, &x.Completion, &x.Uses)
		cmd.Flags = append(cmd.Flags, x)
	}
	for _, a := range c.args {
		x := &cli.Arg{Name: a.name, Value: cvalue(a.kind), NArg: 1, Action: d.step("arg " + a.name), Options: cli.DisableSplitting}
		if a.opt {
			x.NArg = 0
		}
		if a.kind == "list" {
			x.NArg = cli.TakeUntilNextFlag
		}
		d.apply(a.comp, &x.Completion, &x.Uses)
		cmd.Args = append(cmd.Args, x)
	}
	cmd.Before = d.step("before " + c.name)
	if c.defers {
		cmd.Before = cli.Pipeline(d.step("before "+c.name), cli.At(cli.ActionTiming, d.step("deferred "+c.name)))
	}
	if c.handler != "" {
		cmd.Before = cli.Pipeline(cmd.Before, cli.ImplicitCommand(c.handler))
	}
	cmd.Action = d.step("action " + c.name)
	cmd.After = d.step("after " + c.name)
	if c.comp != nil {
		d.apply(c.comp, &cmd.Completion, &cmd.Uses)
	}
	for _, k := range c.kids {
		cmd.Subcommands = append(cmd.Subcommands, d.build(k))
	}
	return cmd
}

// fakeShell is a shell that the app supports too.
type fakeShell struct{ d *compl }

func (f fakeShell) GetCompletionRequest() ([]string, string) {
	return slices.Clone(f.d.req.words), f.d.req.last
}
func (fakeShell) SetOptions(map[string]string) {}
func (fakeShell) FormatCompletions(items []cli.CompletionItem) string {
	var b strings.Builder
	for _, i := range items {
		fmt.Fprintf(&b, "%s\n%s\n%s\n%v\n", ckind(i.Type), i.Value, cdescr(i.HelpText), i.PreventSpaceAfter)
	}
	return b.String()
}
func (fakeShell) GetSourceTemplate() *cli.Template { return nil }

func ckind(t cli.CompletionType) string {
	return []string{"plain", "file", "dir"}[t]
}

func cdescr(s string) string {
	if s = strings.Join(strings.Fields(s), " "); s != "" {
		return s
	}
	return "_"
}

// ---- the model

func (s *csource) String() string {
	if s == nil {
		return ""
	}
	return fmt.Sprintf("%s:%s(%s)%q%v", s.id, s.kind, s.how, s.vals, s.items)
}

func (c *ccmd) describe(w *core.World, in string) {
	w.Ev("%s%s %q %v", in, c.name, c.aliases, c.comp)
	for _, f := range c.flags {
		w.Ev("%s %q %s own=%v required=%v env=%v %v", in, f.names(), f.kind, f.own, f.required, f.env, f.comp)
	}
	for _, a := range c.args {
		w.Ev("%s <%s> %s optional=%v %v", in, a.name, a.kind, a.opt, a.comp)
	}
	for _, k := range c.kids {
		k.describe(w, in+"  ")
	}
}

// flagsOf is the flags that the command accepts.
func (c *ccmd) flagsOf() []*cflag {
	res := slices.Clone(c.flags)
	for p := c.parent; p != nil; p = p.parent {
		for _, f := range p.flags {
			if !f.own && !slices.ContainsFunc(res, func(g *cflag) bool { return g.long == f.long }) {
				res = append(res, f)
			}
		}
	}
	return res
}

func (s *csource) standard(last string) []crec {
	switch s.kind {
	case "file":
		return []crec{{kind: "file", value: last, descr: "_"}}
	case "dir":
		return []crec{{kind: "dir", value: last, descr: "_"}}
	}
	return nil
}

func (s *csource) asked() (res []crec) {
	for _, i := range s.items {
		res = append(res, crec{ckind(i.Type), i.Value, cdescr(i.HelpText), i.PreventSpaceAfter, ""})
	}
	return
}

// value gives the candidates where each starts with the prefix.
func (r *creq) value(s *csource, kind string, prefixes ...string) {
	if s.kind == "none" && kind == "file" {
		s = &csource{kind: "file"}
	}
	switch s.kind {
	case "func":
		r.called = s
		r.want = s.asked()
	case "values", "enum":
		for _, p := range prefixes {
			for _, v := range s.vals {
				if strings.HasPrefix(p+v, r.last) {
					r.want = append(r.want, crec{kind: "plain", value: p + v, descr: "_"})
				}
			}
		}
	default:
		r.want = s.standard(r.last)
	}
}

func (f *cflag) prefixes() (res []string) {
	if f.short != "" {
		res = append(res, "-"+f.short)
	}
	return append(res, "--"+f.long+"=")
}

const builtin = "*"

// names gives the flags that begin with the word.
func (r *creq) names(c *ccmd) {
	all := c.flagsOf()
	// What the app has by itself
	all = append(all,
		&cflag{long: "help", short: "h", kind: "bool", help: builtin, comp: &csource{kind: "none"}},
		&cflag{long: "version", kind: "bool", help: builtin, comp: &csource{kind: "none"}})
	var some []*cflag
	for _, f := range all {
		for _, n := range f.names() {
			if n == r.last || strings.HasPrefix(r.last, n+"=") {
				r.value(f.comp, f.kind, f.prefixes()...)
				if f.comp.kind == "none" && n == r.last {
					r.strict = false // flags with longer names may be offered
				}
				return
			}
			if strings.HasPrefix(n, r.last) && (len(some) == 0 || some[len(some)-1] != f) {
				some = append(some, f)
			}
		}
	}
	for _, f := range some {
		if len(some) == 1 && f.kind != "bool" {
			// Its value follows
			r.want = append(r.want, crec{"plain", "--" + f.long + "=", cdescr(f.help), true, ""})
			continue
		}
		for _, n := range f.names() {
			if strings.HasPrefix(n, r.last) {
				r.want = append(r.want, crec{kind: "plain", value: n, descr: cdescr(f.help)})
			}
		}
	}
}

func (r *creq) subcommands(c *ccmd) {
	add := func(n, help string) {
		if strings.HasPrefix(n, r.last) {
			r.want = append(r.want, crec{kind: "plain", value: n, descr: cdescr(help)})
		}
	}
	for _, k := range c.kids {
		add(k.name, k.help)
		for _, a := range k.aliases {
			add(a, k.help)
		}
	}
	if c.parent == nil {
		add("help", builtin)
		add("version", builtin)
		add("h", builtin)
	}
}

func cprefix(w *core.World, s string) string {
	r := []rune(s)
	return string(r[:w.Int(len(r)+1)])
}

func (s *csource) some(w *core.World, kind string) string {
	if len(s.vals) > 0 && (s.kind == "enum" || w.Chance(2, 3)) {
		return core.Pick(w, s.vals...)
	}
	if kind == "int" {
		return core.Pick(w, "7", "170")
	}
	if kind != "file" && w.Chance(1, 10) {
		return ""
	}
	return core.Pick(w, "red", "bl", "a b", "q", "b=c", "x,y", "7")
}

// ask draws a line whose words are right and a word that is not complete.
func (d *compl) ask(root *ccmd) *creq {
	w := d.w
	r := &creq{words: []string{"app"}, strict: true}
	cur, i, listed, from := root, 0, false, 0
	var custom *ccmd
	customAt := 0
	enter := func(at int) {
		from = at
		if custom == nil && cur.comp != nil {
			custom, customAt = cur, at
		}
	}
	enter(0)
	// A word in the place of an arg that must be there is never a flag once
	// args were given, and one that may be there can't follow a flag then
	taken := func() bool { return i > 0 && i < len(cur.args) && !cur.args[i].opt }
	for w.Chance(4, 5) {
		if fs := cur.flagsOf(); len(fs) > 0 && w.Chance(1, 3) && (i == 0 || i == len(cur.args)) && !listed {
			f := core.Pick(w, fs...)
			v := f.comp.some(w, f.kind)
			n := core.Pick(w, f.names()...)
			switch {
			case f.kind == "bool":
				r.words = append(r.words, n)
			case len(n) == 2 && w.Chance(1, 2) && v != "" && !strings.HasPrefix(v, "="):
				r.words = append(r.words, n+v)
			case len(n) > 2 && w.Chance(1, 2):
				r.words = append(r.words, n+"="+v)
			case f.kind == "list": // would take the words after it too
			case !strings.HasPrefix(v, "-"):
				r.words = append(r.words, n, v)
			}
			continue
		}
		if len(cur.kids) > 0 {
			if w.Chance(1, 12) && cur == root {
				r.words = append(r.words, core.Pick(w, "--help", "--version", "-h"))
			}
			cur = core.Pick(w, cur.kids...)
			r.words = append(r.words, core.Pick(w, append([]string{cur.name}, cur.aliases...)...))
			enter(len(r.words) - 1)
		} else if i < len(cur.args) {
			a := cur.args[i]
			v := a.comp.some(w, a.kind)
			if strings.HasPrefix(v, "-") {
				continue
			}
			r.words = append(r.words, v)
			if a.kind == "list" {
				listed = true
			} else {
				i++
			}
		}
	}
	fs := cur.flagsOf()
	mode := w.Weighted(4, 3, 2, 2)
	var flag *cflag
	if mode >= 2 {
		fs = slices.DeleteFunc(slices.Clone(fs), func(f *cflag) bool { return f.kind == "bool" || mode == 3 && f.kind == "list" })
		if len(fs) == 0 {
			mode = 1
		} else {
			flag = core.Pick(w, fs...)
		}
	}
	if mode == 0 && len(cur.kids) == 0 && i >= len(cur.args) && i > 0 {
		mode = 1 // what more args would be is not said
	}
	if taken() {
		mode = 0
	}
	switch mode {
	case 0:
		switch {
		case len(cur.kids) > 0:
			k := core.Pick(w, cur.kids...)
			r.last = cprefix(w, core.Pick(w, append([]string{k.name, "help", "x"}, k.aliases...)...))
			r.subcommands(cur)
		case i < len(cur.args):
			a := cur.args[i]
			r.last = cprefix(w, a.comp.some(w, a.kind))
			if strings.HasPrefix(r.last, "-") {
				r.last = ""
			}
			r.value(a.comp, a.kind, "")
		default:
			r.last = cprefix(w, "red")
		}
	case 1:
		n := "--" + core.Pick(w, clongs...)
		if len(fs) > 0 && w.Chance(4, 5) {
			n = core.Pick(w, core.Pick(w, fs...).names()...)
		} else if w.Chance(1, 3) {
			n = core.Pick(w, "--help", "--version", "-h", "--x")
		}
		n = n[:w.Range(1, len(n))]
		if n == "--" && w.Chance(1, 2) {
			n = "-"
		}
		r.last = n
		r.names(cur)
	case 2:
		r.last = "--" + flag.long + "=" + cprefix(w, flag.comp.some(w, flag.kind))
		r.names(cur)
	case 3:
		r.words = append(r.words, core.Pick(w, flag.names()...))
		r.last = cprefix(w, flag.comp.some(w, flag.kind))
		if strings.HasPrefix(r.last, "-") {
			r.last = ""
		}
		r.value(flag.comp, flag.kind, "")
	}
	r.above = r.words[from:]
	if custom != nil {
		r.called, r.want, r.above = custom.comp, custom.comp.asked(), r.words[customAt:]
	}
	if w.Chance(1, 5) {
		for range w.Range(1, 2) {
			r.more = append(r.more, core.Pick(w, "red", "add", "--num", "--nope", "a"))
		}
	}
	return r
}

// disturb makes the line one of which not much is known.
func (d *compl) disturb(r *creq, root *ccmd) {
	w := d.w
	r.strict, r.called = false, nil
	for range w.Range(1, 2) {
		at := w.Range(0, len(r.words))
		x := core.Pick(w, "--nope", "nope", "--num=x", "-n", "--", "", "--color", "-x", "add", "--flag=", "a", "=", "--=", "-", "--num", "help", "7")
		switch w.Int(3) {
		case 0:
			r.words = slices.Insert(slices.Clone(r.words), at, x)
		case 1:
			if at < len(r.words) {
				r.words = slices.Delete(slices.Clone(r.words), at, at+1)
			}
		case 2:
			r.last = x
		}
	}
}

// hasFuncs is whether completion functions are used, which may give anything.
func (c *ccmd) hasFuncs() bool {
	is := func(s *csource) bool { return s != nil && s.kind == "func" }
	return is(c.comp) ||
		slices.ContainsFunc(c.flags, func(f *cflag) bool { return is(f.comp) }) ||
		slices.ContainsFunc(c.args, func(a *carg) bool { return is(a.comp) }) ||
		slices.ContainsFunc(c.kids, (*ccmd).hasFuncs)
}

func (c *ccmd) panics() bool {
	is := func(s *csource) bool { return s != nil && s.pv }
	return is(c.comp) ||
		slices.ContainsFunc(c.flags, func(f *cflag) bool { return is(f.comp) }) ||
		slices.ContainsFunc(c.args, func(a *carg) bool { return is(a.comp) }) ||
		slices.ContainsFunc(c.kids, (*ccmd).panics)
}

func (d *compl) parse(s string) ([]crec, bool) {
	if s == "" {
		return nil, true
	}
	if !strings.HasSuffix(s, "\n") {
		return nil, false
	}
	f := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(f)%4 != 0 {
		return nil, false
	}
	var res []crec
	for i := 0; i < len(f); i += 4 {
		x := crec{kind: f[i], value: f[i+1], descr: f[i+2]}
		if !slices.Contains([]string{"plain", "file", "dir"}, x.kind) || x.descr == "" {
			return nil, false
		}
		if d.shell == "fake" {
			x.noSpace = f[i+3] == "true"
		} else if x.mark = f[i+3]; x.mark != "" && x.mark != "1" {
			return nil, false
		}
		res = append(res, x)
	}
	return res, true
}

var cscript = regexp.MustCompile(`(\w+)=zsh `)

// runComplete runs an app to complete a line for the shell.
func runComplete(w *core.World) {
	d := &compl{w: w}
	root := d.drawCmd(0, "app")
	root.describe(w, "")
	variable, name := "_JOE_APP_COMPLETE", "app"
	SetEnv(w, "JOESIM_CFLAG", "7")
	build := func() (*cli.App, *simWriter, *simWriter) {
		cmd := d.build(root)
		so, se := &simWriter{w: w, failAt: -1, err: &simErr{"output"}}, &simWriter{w: w, failAt: -1}
		app := &cli.App{Name: name, Flags: cmd.Flags, Args: cmd.Args, Commands: cmd.Subcommands, Uses: cmd.Uses,
			Before: cmd.Before, Action: cmd.Action, After: cmd.After, Stdout: so, Stderr: se}
		if cmd.Completion != nil {
			app.Uses = cli.Pipeline(app.Uses, cli.SetCompletion(cmd.Completion))
		}
		if d.shell == "fake" {
			app.Uses = cli.Pipeline(app.Uses, cli.AddFlag(&cli.Flag{Uses: cli.ShellCompleteIntegration("fake", fakeShell{d}), Options: cli.NonPersistent}))
		}
		return app, so, se
	}
	if w.Chance(1, 10) {
		// The name of the variable is what the shell is told
		name = core.Pick(w, "app", "my-app", "App2", "a.b", "x y")
		app, so, se := build()
		// The required args and flags must not prevent it
		args := []string{name, "--zsh-completion"}
		var err error
		os.Unsetenv(variable)
		pv := w.Call(func() { err = app.RunContext(context.Background(), args) })
		if w.Exceeded() {
			panic(pv)
		}
		m := cscript.FindStringSubmatch(so.buf.String())
		switch {
		case pv != nil:
			w.Fail("script", "%q panicked: %v", args, pv)
			return
		case m == nil && err == nil:
			w.Fail("script", "%q wrote %q (and %q to standard error), which doesn't ask for completions", args, so.buf.String(), se.buf.String())
			return
		case m == nil:
			return // the app was called in a way that it refuses
		}
		variable = m[1]
		d.log = nil
		w.Probe("variable from script")
	}
	requests := w.Range(1, 3)
	for range requests {
		d.shell = core.Pick(w, "zsh", "zsh", "zsh", "fake")
		r := d.ask(root)
		if w.Chance(1, 4) {
			d.disturb(r, root)
		}
		r.words[0:1:1][0] = name
		if !d.complete(root, r, variable, build) {
			return
		}
	}
	w.Nontrivial = true
}

func (d *compl) complete(root *ccmd, r *creq, variable string, build func() (*cli.App, *simWriter, *simWriter)) bool {
	w := d.w
	d.req, d.log = r, nil
	var quoted []string
	for _, s := range r.words {
		quoted = append(quoted, cli.Quote(s))
	}
	cword := strconv.Itoa(len(r.words))
	line := strings.Join(quoted, " ")
	if r.last != "" || len(r.more) > 0 || w.Chance(1, 3) {
		line += " " + cli.Quote(r.last)
	} else if w.Chance(1, 2) {
		line += " "
	}
	for _, s := range r.more {
		line += " " + cli.Quote(s)
	}
	unknown := false
	if !r.strict && d.shell == "zsh" && w.Chance(1, 3) {
		unknown = true
		switch w.Int(4) {
		case 0:
			cword = core.Pick(w, "-1", "0", "99", "", "x", "9223372036854775807", "1.5")
		case 1:
			line += core.Pick(w, " 'x", ` "y z`, ` \`, " 'a' \"")
		case 2:
			line = core.Pick(w, "", " ", "'", "''")
		case 3:
			cword = strconv.Itoa(w.Int(len(r.words) + 1))
		}
	}
	SetEnv(w, "COMP_WORDS", line)
	SetEnv(w, "COMP_CWORD", cword)
	shell := d.shell
	if w.Chance(1, 30) {
		shell = core.Pick(w, "bash", "ZSH", "zsh ", "1")
	}
	SetEnv(w, variable, shell)
	app, so, se := build()
	if w.Chance(1, 5) {
		so.failAt = w.Int(60)
		so.once = w.Chance(1, 2)
	}
	failing := ""
	if w.Chance(1, 15) {
		failing = core.Pick(w, "error", "panic")
		app.Before = cli.Pipeline(app.Before, func() error {
			w.Fault("failing step")
			if failing == "panic" {
				panic(simPanic{"before"})
			}
			return &simErr{"before"}
		})
	}
	w.Ev("%s: %s (%s)", shell, line, cword)
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), []string{app.Name}) })
	if w.Exceeded() {
		panic(pv)
	}
	what := fmt.Sprintf("completing %q (word %s) for %s", line, cword, shell)
	if shell != d.shell {
		// A shell that the app knows nothing about
		switch {
		case so.buf.Len() > 0 && strings.HasPrefix(so.buf.String(), "plain\n"):
			w.Fail("unknown-shell", "%s: wrote %q", what, so.buf.String())
		case pv != nil && failing == "":
			w.Fail("panic", "%s: panic %v at %s", what, pv, site)
		}
		return !w.Failed()
	}
	var steps, asked []string
	for _, l := range d.log {
		if strings.HasPrefix(l, "ask ") {
			asked = append(asked, l)
		} else {
			steps = append(steps, l)
		}
	}
	if fmt.Sprint(steps) != "[before app]" {
		w.Fail("steps", "%s: ran %v, expected [before app]", what, steps)
		return false
	}
	if failing != "" {
		switch {
		case pv != nil && (failing == "error" || pv != simPanic{"before"}):
			w.Fail("panic", "%s: panic %v at %s", what, pv, site)
		case pv == nil && failing == "panic":
			w.Fail("lost-panic", "%s: ends with %s, but Before panicked", what, errName(err))
		case pv == nil && derr(err) != "injected before":
			w.Fail("failed-before", "%s: ends with %s, but Before failed", what, errName(err))
		case so.buf.Len() > 0 || len(asked) > 0:
			w.Fail("failed-before", "%s: Before failed, but %v and %q was written", what, asked, so.buf.String())
		}
		return !w.Failed()
	}
	if r.strict && r.called != nil {
		want := []string{fmt.Sprintf("ask %s for %q after %q", r.called.id, r.last, r.above)}
		if !slices.Equal(want, asked) {
			w.Fail("request", "%s: %q, expected %q", what, asked, want)
			return false
		}
		w.Probe("function asked")
		if r.called.pv {
			if pv != (simPanic{r.called.id}) {
				w.Fail("lost-panic", "%s: ends with panic %v and %s, but the completion function panicked", what, pv, errName(err))
			}
			return !w.Failed()
		}
	}
	if r.strict && r.called == nil && len(asked) > 0 {
		w.Fail("request", "%s: %q, but no function is to be asked", what, asked)
		return false
	}
	if _, ok := pv.(simPanic); ok && !r.strict && root.panics() {
		return true
	}
	if pv != nil {
		w.Fail("panic", "%s: panic %v at %s", what, pv, site)
		return false
	}
	ec, isExit := err.(interface{ ExitCode() int })
	if so.failed > 0 {
		if derr(err) != "injected output" {
			w.Fail("output", "%s: ends with %s, but the candidates could not be written", what, errName(err))
		}
		return !w.Failed()
	}
	if !isExit || ec.ExitCode() != 0 {
		w.Fail("status", "%s: ends with %s, expected to exit with 0", what, errName(err))
		return false
	}
	if se.buf.Len() > 0 {
		w.Fail("stderr", "%s: wrote %q to standard error", what, se.buf.String())
		return false
	}
	got, ok := d.parse(so.buf.String())
	if !ok {
		w.Fail("format", "%s: wrote %q", what, so.buf.String())
		return false
	}
	for i := range got {
		if got[i].descr == "Display help for a command" || got[i].descr == "Display this help screen then exit" || got[i].descr == "Print the build version then exit" {
			got[i].descr = builtin
		}
	}
	if !r.strict {
		if !unknown && !root.hasFuncs() {
			for _, g := range got {
				if !strings.HasPrefix(g.value, r.last) {
					w.Fail("unrelated", "%s: %q offered, which doesn't begin with %q", what, g.value, r.last)
					return false
				}
			}
		}
		w.Probe("line not right")
		return true
	}
	want := slices.Clone(r.want)
	for i := range want {
		if d.shell == "zsh" {
			want[i].noSpace = false
		}
	}
	defer func() {
		// the marks are different for a space and for none, whichever they are
		if d.shell != "zsh" || w.Failed() {
			return
		}
		for i, mark := range []string{"", "1"} {
			var a, b []string
			for _, x := range got {
				a = append(a, fmt.Sprint(x.value, " ", x.mark == mark))
			}
			for _, x := range r.want {
				b = append(b, fmt.Sprint(x.value, " ", x.noSpace))
			}
			slices.Sort(a)
			slices.Sort(b)
			d.refuted[i] = d.refuted[i] || !slices.Equal(a, b)
		}
		if d.refuted[0] && d.refuted[1] {
			w.Fail("space", "%s: the marks %q don't tell what is followed by a space", what, so.buf.String())
		}
	}()
	show := func(l []crec) []string {
		var res []string
		for _, x := range l {
			res = append(res, fmt.Sprintf("%s %q %q %v", x.kind, x.value, x.descr, x.noSpace))
		}
		slices.Sort(res)
		return res
	}
	g, e := show(got), show(want)
	for _, x := range e {
		if !slices.Contains(g, x) {
			w.Fail("not-offered", "%s: %s is not offered, only %v", what, x, g)
			return false
		}
	}
	if !slices.Equal(g, e) {
		w.Fail("offered", "%s: offered %v, expected %v", what, g, e)
		return false
	}
	w.Probe(fmt.Sprint("candidates ", min(len(e), 3)))
	return true
}

func init() {
	register(&core.Property{
		ID:        "C17",
		QuickRuns: 80000, ThoroughRuns: 1600000,
		Rule:      "completing a line runs none of its commands and writes exactly the candidates for the word",
		Real:      []string{"App.RunContext, parser in the presence of unfinished lines, command tree, completion of commands, flags and args, the zsh integration"},
		Stub:      []string{"the shell (the variables it sets; a shell integration of the scenario's own)", "completion functions and steps (recorded, may fail or panic)", "standard output (in memory, may fail)"},
		Scenarios: []core.Scenario{{Name: "complete", Weight: 1, Run: runComplete}},
	})
}
