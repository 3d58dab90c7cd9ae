package scen

import (
	"context"
	"fmt"
	"os"
	"slices"
	"strconv"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// C22: each way of looking up an option, at any step, finds the option that is in scope and
// its state at that time.

type lkOpt struct {
	id      string
	name    string
	aliases []string
	ci      int // the command that defines it
	arg     bool
	index   int
	typ     string
	kind    *boundKind // of type "other"
	np      bool       // not persistent
	def     string
	env     string // what its variable contains
	words   map[int][][]string
	flag    *cli.Flag
	a       *cli.Arg
	target  any
}

func (o *lkOpt) many() bool {
	return o.typ == "list" || o.typ == "map" || o.typ == "other" && (o.kind.name == "fileset" || o.kind.name == "pairs")
}

func (o *lkOpt) display() string {
	switch {
	case o.arg:
		return "<" + o.name + ">"
	case len(o.name) == 1:
		return "-" + o.name
	}
	return "--" + o.name
}

type lkState struct {
	w        *core.World
	depth    int
	names    []string
	aliases  [][]string
	subs     [3][]string // the sub-commands of each
	opts     []*lkOpt    // those of the commands of the line
	decoys   []*lkOpt    // those of other commands
	bound    int         // the commands whose words are bound
	broken   map[int]bool
	steps    int
	log      []string
	failAt   int
	failWith error
	after    int
}

// values are the texts that the option has been given up to command g.
func (o *lkOpt) values(g int) []string {
	var all []string
	for h := 0; h <= g; h++ {
		for _, occ := range o.words[h] {
			all = append(all, occ[1:]...)
		}
	}
	switch {
	case len(all) > 0:
	case o.env != "" && o.ci <= g:
		all = []string{o.env}
	case o.def != "":
		all = []string{o.def}
	}
	return all
}

func (o *lkOpt) count(g int) (n int) {
	for h := 0; h <= g; h++ {
		n += len(o.words[h])
	}
	return
}

func (o *lkOpt) want(g int) string {
	v := o.values(g)
	last := ""
	if len(v) > 0 {
		last = v[len(v)-1]
	}
	switch o.typ {
	case "other":
		switch {
		case len(v) == 0:
			return o.kind.show(o.kind.zero)
		case o.kind.name == "fileset":
			return o.kind.show(strings.Join(v, ","))
		case o.kind.name == "bytes" || o.kind.name == "pairs":
			return o.kind.show(strings.Join(v, ""))
		}
		return o.kind.show(last)
	case "list":
		return fmt.Sprintf("%q", append([]string{}, v...))
	case "int":
		n, _ := strconv.Atoi(last)
		return strconv.Itoa(n)
	case "bool":
		return fmt.Sprint(len(v) > 0)
	case "duration":
		d, _ := time.ParseDuration(last)
		return d.String()
	case "float":
		f, _ := strconv.ParseFloat(last, 64)
		return fmt.Sprint(f)
	case "map":
		m := map[string]string{}
		for _, kv := range v {
			k, x, _ := strings.Cut(kv, "=")
			m[k] = x
		}
		return fmt.Sprint(m)
	}
	return last
}

func (o *lkOpt) value() any {
	switch o.typ {
	case "other":
		return o.kind.make()
	case "list":
		x := []string{}
		return &x
	case "int":
		x, _ := strconv.Atoi(o.def)
		return &x
	case "bool":
		return new(bool)
	case "duration":
		x, _ := time.ParseDuration(o.def)
		return &x
	case "float":
		return new(float64)
	case "map":
		return &map[string]string{}
	}
	x := o.def
	return &x
}

func lkFormat(v any) string {
	switch v := v.(type) {
	case string, int, bool, time.Duration, float64, nil:
	case []string:
		return fmt.Sprintf("%q", append([]string{}, v...))
	case map[string]string:
		if v == nil {
			return "map[]"
		}
	default:
		return showOther(v)
	}
	return fmt.Sprint(v)
}

func (o *lkOpt) draw(w *core.World) string {
	switch o.typ {
	case "other":
		return core.Pick(w, o.kind.texts...)
	case "int":
		return strconv.Itoa(w.Int(90) + 10)
	case "duration":
		return strconv.Itoa(w.Int(59)+1) + "s"
	case "float":
		return strconv.Itoa(w.Int(90)+1) + ".5"
	case "map":
		return core.Pick(w, "k", "m") + "=" + strconv.Itoa(w.Int(90))
	}
	return core.Pick(w, "p", "q", "r", "long", "a b") + strconv.Itoa(w.Int(90))
}

// find is the option in scope of command k that has this name or alias.
func (s *lkState) find(k int, name string) *lkOpt {
	for h := k; h >= 0; h-- {
		for _, o := range s.opts {
			if o.ci == h && (o.name == name || slices.Contains(o.aliases, name)) {
				return o
			}
		}
	}
	return nil
}

// raw is the text given for the option in the words of the nearest command.
func (s *lkState) raw(o *lkOpt, k int) (with, without []string) {
	for h := min(k, s.bound); h >= o.ci; h-- {
		for _, occ := range o.words[h] {
			v := occ[1:]
			if o.typ == "bool" {
				v = []string{""} // no value is passed
			}
			with = append(append(with, occ[0]), v...)
			without = append(without, v...)
		}
		if len(with) > 0 {
			return
		}
	}
	return
}

func (s *lkState) fail(class, format string, args ...any) {
	s.w.Fail(class, format, args...)
}

// typed uses the accessor of the option's type.
func lkTyped(c cli.Lookup, o *lkOpt, key any) string {
	switch o.typ {
	case "other":
		return lkFormat(o.kind.typed(c, key))
	case "list":
		return lkFormat(c.List(key))
	case "int":
		return lkFormat(c.Int(key))
	case "bool":
		return lkFormat(c.Bool(key))
	case "duration":
		return lkFormat(c.Duration(key))
	case "float":
		return lkFormat(c.Float64(key))
	case "map":
		return lkFormat(c.Map(key))
	}
	return c.String(key)
}

// keys are the ways to name the option, and whether lookups by flag accept it.
func (s *lkState) keys(o *lkOpt, k int) (res []any) {
	if o.arg {
		res = append(res, o.name, "<"+o.name+">", o.a)
		if o.ci == k {
			n := 0
			for _, p := range s.opts {
				if p.arg && p.ci == k {
					n++
				}
			}
			res = append(res, o.index, o.index-n)
		}
		return
	}
	names := []string{o.name}
	if s.bound >= 0 {
		names = append(names, o.aliases...) // they may be added by its initializer
	}
	for _, n := range names {
		res = append(res, n)
		if len(n) == 1 {
			res = append(res, rune(n[0]), "-"+n)
		} else {
			res = append(res, "--"+n)
		}
	}
	return append(res, o.flag)
}

func lkKey(key any) string {
	switch v := key.(type) {
	case *cli.Flag:
		return "the flag " + v.Name
	case *cli.Arg:
		return "the arg " + v.Name
	case rune:
		return fmt.Sprintf("%q", v)
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%#v", key)
}

// level is the command of the context.
func (s *lkState) level(c *cli.Context) int {
	n := -1
	for x := c; x != nil; x = x.Parent() {
		if x.IsCommand() {
			n++
		}
	}
	return n
}

// check looks at the options of one context.
func (s *lkState) check(c *cli.Context, at string, self *lkOpt, occurrence bool) {
	w := s.w
	k := s.level(c)
	if k < 0 || k >= s.depth {
		s.fail("context", "%s: the context %v is within %d commands", at, c.Path(), k+1)
		return
	}
	path := strings.Join(s.names[:k+1], " ")
	own := path
	if self != nil {
		own += " " + self.display()
	}
	if p := c.Path().String(); p != own {
		s.fail("path", "%s: the path is %q, expected %q", at, p, own)
		return
	}
	for range w.Range(1, 4) {
		if w.Failed() {
			return
		}
		switch w.Weighted(10, 2, 1, 1) {
		case 0:
			var o *lkOpt
			if self != nil && w.Chance(1, 4) {
				o = self
			} else {
				o = core.Pick(w, s.opts...)
			}
			if o.ci > k || s.find(k, o.name) != o {
				if o.ci > k && s.find(k, o.name) == nil {
					s.absent(c, at, o)
				}
				continue
			}
			keys := s.keys(o, k)
			key := core.Pick(w, keys...)
			if o == self && !occurrence && w.Chance(1, 3) {
				key = ""
				if w.Chance(1, 3) {
					key = nil
				}
			}
			s.one(c, at, o, key, k, path)
		case 1:
			if len(s.decoys) > 0 {
				o := core.Pick(w, s.decoys...)
				if s.find(k, o.name) == nil {
					s.absent(c, at, o)
				}
			}
		case 2:
			s.tree(c, at, k, path)
		default:
			s.args(c, at, k)
		}
	}
}

// absent checks that an option that isn't in scope isn't found.
// lkNothing uses the accessors that have nothing for what doesn't exist.
func lkNothing(c cli.Lookup, key any) string {
	if v := c.String(key); v != "" {
		return v
	}
	if l, m, d := c.List(key), c.Map(key), c.Duration(key); len(l) > 0 || len(m) > 0 || d != 0 {
		return fmt.Sprint(l, m, d)
	}
	if v := c.File(key); v != nil {
		return v.Name
	}
	if v := c.FileSet(key); v != nil {
		return fmt.Sprint(v.Files)
	}
	if v, l := c.NameValue(key), c.NameValues(key); v != nil || len(l) > 0 {
		return fmt.Sprint(v, l)
	}
	if v := c.URL(key); v != nil {
		return v.String()
	}
	if v := c.Regexp(key); v != nil {
		return v.String()
	}
	if v, b := c.IP(key), c.Bytes(key); len(v) > 0 || len(b) > 0 {
		return fmt.Sprint(v, b)
	}
	if v := c.BigInt(key); v != nil {
		return v.String()
	}
	if v := c.BigFloat(key); v != nil {
		return v.String()
	}
	return ""
}

func (s *lkState) absent(c *cli.Context, at string, o *lkOpt) {
	var key any = o.name
	if s.w.Chance(1, 2) {
		key = o.display()
	}
	w := s.w
	switch w.Int(7) {
	case 6:
		if v := lkNothing(c, key); v != "" {
			s.fail("leak", "%s: the value of %s, which isn't in scope, is %s", at, lkKey(key), v)
		}
	case 5:
		x := c
		for !x.IsCommand() {
			x = x.Parent()
		}
		if y, ok := x.FindTarget(cli.ContextPath{x.Name(), o.display()}); ok {
			s.fail("leak", "%s: %v is found for %s, which isn't in scope", at, y.Path(), lkKey(key))
		}
	case 0:
		if v := c.Value(key); v != nil {
			s.fail("leak", "%s: the value of %s, which isn't in scope, is %v", at, lkKey(key), lkFormat(v))
		}
	case 1:
		if c.Seen(key) {
			s.fail("leak", "%s: %s, which isn't in scope, was seen", at, lkKey(key))
		}
	case 2:
		if r := c.Raw(key); len(r) > 0 {
			s.fail("leak", "%s: %s, which isn't in scope, has the raw text %q", at, lkKey(key), r)
		}
	case 3:
		if f, ok := c.LookupFlag(key); ok {
			s.fail("leak", "%s: flag %s is found for %s, which isn't in scope", at, f.Name, lkKey(key))
		}
	default:
		if a, ok := c.LookupArg(key); ok {
			s.fail("leak", "%s: arg %s is found for %s, which isn't in scope", at, a.Name, lkKey(key))
		}
	}
	w.Probe("absent option")
}

// one looks the option up in one way.
func (s *lkState) one(c *cli.Context, at string, o *lkOpt, key any, k int, path string) {
	w := s.w
	g := s.bound
	fromName := key != "" && key != nil
	how := w.Int(10)
	show := fmt.Sprintf("%s: looking up %s by %s", at, o.display(), lkKey(key))
	if s.bound < 0 && how < 6 {
		how = 6 + w.Int(4)
	}
	if o.env != "" && o.count(g) == 0 && o.ci == k && c.IsBefore() && (how < 3 || how == 9) {
		how = 6 // has perhaps not been read yet
	}
	w.Probe("lookup " + []string{"value", "typed", "interface", "seen", "occurrences", "raw", "option", "context", "find", "context state"}[how])
	switch how {
	case 0:
		if v, e := lkFormat(c.Value(key)), o.want(g); v != e {
			s.fail("value", "%s: the value is %s, expected %s", show, v, e)
		}
	case 1:
		if v, e := lkTyped(c, o, key), o.want(g); v != e {
			s.fail("typed", "%s: the value is %s, expected %s", show, v, e)
			return
		}
		// The same from other sources of values
		var l cli.Lookup = cli.LookupValues{"x": o.target}
		by := "its variable"
		switch w.Int(3) {
		case 0:
			l, by = cli.LookupValues{"x": c.Value(key)}, "its value"
		case 1:
			by = "a function"
			l = cli.LookupFunc(func(n string) (any, bool) {
				if n == "x" {
					return o.target, true
				}
				return nil, false
			})
		}
		if v, e := lkTyped(l, o, "x"), o.want(g); v != e {
			s.fail("typed", "%s: the value is %s looked up from %s, expected %s", show, v, by, e)
		} else if v, ok := l.Interface("x"); !ok || by != "its value" && v != o.target {
			s.fail("typed", "%s: there is no value, or not it, when looked up from %s", show, by)
		} else if v := lkNothing(l, "y"); v != "" {
			s.fail("typed", "%s: there is %s of another name when looked up from %s", show, v, by)
		} else if _, ok := l.Interface("y"); ok || l.Value("y") != nil {
			s.fail("typed", "%s: there is a value of another name when looked up from %s", show, by)
		}
	case 2:
		v, ok := c.Interface(key)
		if !fromName {
			return
		}
		if !ok {
			s.fail("interface", "%s: there is no value", show)
		} else if v != o.target {
			s.fail("interface", "%s: the value is not the variable of the option", show)
		}
	case 3:
		if v, e := c.Seen(key), o.count(g) > 0; v != e {
			s.fail("seen", "%s: it is seen: %v, expected %v", show, v, e)
		}
	case 4:
		if v, e := c.Occurrences(key), o.count(g); v != e {
			s.fail("occurrences", "%s: it has %d occurrences, expected %d", show, v, e)
		}
	case 5:
		if o.arg && !c.IsCommand() && c.Target() == o.a {
			return // doesn't have the name of the arg
		}
		e, eo := s.raw(o, k)
		if v := c.Raw(key); !slices.Equal(v, e) {
			s.fail("raw", "%s: the raw text is %q, expected %q", show, v, e)
		} else if v := c.RawOccurrences(key); !slices.Equal(v, eo) {
			s.fail("raw", "%s: the raw occurrences are %q, expected %q", show, v, eo)
		}
	case 6:
		if !fromName {
			return
		}
		if o.arg {
			if a, ok := c.LookupArg(key); !ok || a != o.a {
				s.fail("option", "%s: found: %v, but not that arg", show, ok)
			}
		} else if f, ok := c.LookupFlag(key); !ok || f != o.flag {
			s.fail("option", "%s: found: %v, but not that flag", show, ok)
		}
	case 7, 9:
		if key == nil {
			return
		}
		x := c.ContextOf(key)
		if x == nil {
			s.fail("context", "%s: there is no context", show)
			return
		}
		s.same(x, show, o, path, how == 9 && s.bound >= 0)
	case 8:
		// From a command of the path
		h := o.ci + w.Int(k-o.ci+1)
		x := c
		for s.level(x) > h || !x.IsCommand() {
			x = x.Parent()
		}
		if s.find(h, o.name) != o {
			return
		}
		p := cli.ContextPath{s.names[h], o.display()}
		y, ok := x.FindTarget(p)
		if !ok || y == nil {
			s.fail("find", "%s: %v isn't found", at, p)
			return
		}
		s.same(y, fmt.Sprintf("%s: finding %v", at, p), o, strings.Join(s.names[:h+1], " "), false)
	}
}

// same checks a context that was made for the option.
func (s *lkState) same(x *cli.Context, show string, o *lkOpt, path string, state bool) {
	g := s.bound
	path += " " + o.display()
	var ok bool
	if o.arg {
		ok = x.Arg() == o.a && x.IsArg() && !x.IsFlag() && x.Target() == any(o.a)
	} else {
		ok = x.Flag() == o.flag && x.IsFlag() && !x.IsArg() && x.Target() == any(o.flag)
	}
	switch {
	case !ok || x.IsCommand() || !x.HasValue():
		s.fail("context", "%s: the context is not of that option", show)
	case x.Path().String() != path || x.Name() != o.display():
		s.fail("context", "%s: the context has name %q and path %q, expected path %q", show, x.Name(), x.Path(), path)
	case !state:
	case x.Seen("") != (o.count(g) > 0) || x.Occurrences("") != o.count(g):
		s.fail("context", "%s: its context says seen %v, %d times, expected %d times", show, x.Seen(""), x.Occurrences(""), o.count(g))
	case lkFormat(x.Value("")) != o.want(g):
		s.fail("context", "%s: its context has value %s, expected %s", show, lkFormat(x.Value("")), o.want(g))
	}
}

// tree checks the commands that are found.
func (s *lkState) tree(c *cli.Context, at string, k int, path string) {
	w := s.w
	for !c.IsCommand() {
		c = c.Parent()
	}
	if r := c.Root(); r.Name() != s.names[0] || r.Parent() != nil {
		s.fail("tree", "%s: the root is %q", at, r.Path())
		return
	}
	lin := c.Lineage()
	if len(lin) != k+1 || lin[0] != c || lin[k] != c.Root() {
		s.fail("tree", "%s: the lineage has %d contexts, expected %d", at, len(lin), k+1)
		return
	}
	if k+1 < s.depth {
		name := s.names[k+1]
		if len(s.aliases[k+1]) > 0 && w.Chance(1, 2) {
			name = core.Pick(w, s.aliases[k+1]...)
		}
		if cmd, ok := c.LookupCommand(name); !ok || cmd.Name != s.names[k+1] {
			s.fail("tree", "%s: looking up the command %s: found %v", at, name, ok)
			return
		}
	}
	if cmd, ok := c.LookupCommand("nothing"); ok {
		s.fail("tree", "%s: found a command %v for a name that no command has", at, cmd.Name)
	}
	// The flags in scope
	var local, inherited []string
	for _, o := range s.opts {
		if o.arg || o.ci != k {
			continue
		}
		local = append(local, o.id)
	}
	for h := k - 1; h >= 0; h-- {
		for _, o := range s.opts {
			if o.ci == h && !o.arg && !o.np {
				inherited = append(inherited, o.id)
			}
		}
	}
	ids := func(fs []*cli.Flag) (res []string) {
		for _, f := range fs {
			for _, o := range s.opts {
				if o.flag == f {
					if s.find(k, o.name) == o || o.ci == k {
						res = append(res, o.id)
					}
				}
			}
		}
		slices.Sort(res)
		return
	}
	slices.Sort(local)
	if v := ids(c.LocalFlags()); !slices.Equal(v, local) {
		s.fail("tree", "%s: the local flags are %v, expected %v", at, v, local)
	}
	slices.Sort(inherited)
	var seen []string
	for _, id := range inherited {
		for _, o := range s.opts {
			if o.id == id && s.find(k, o.name) == o {
				seen = append(seen, id)
			}
		}
	}
	inherited = seen
	if v := ids(c.PersistentFlags()); !slices.Equal(v, inherited) {
		s.fail("tree", "%s: the persistent flags are %v, expected %v", at, v, inherited)
	}
	all := append(slices.Clone(local), inherited...)
	slices.Sort(all)
	if v := ids(c.Flags()); !slices.Equal(v, all) {
		s.fail("tree", "%s: the flags are %v, expected %v", at, v, all)
	}
	if s.bound >= 0 {
		s.walk(c, at, k, path)
	}
}

// walk visits the commands below the one of the context.
func (s *lkState) walk(c *cli.Context, at string, k int, path string) {
	w := s.w
	want := []string{}
	skip, stop := w.Int(6), w.Int(8)
	fail := &simErr{"walk"}
	var add func(p string, h int) bool
	n := 0
	add = func(p string, h int) bool {
		n++
		want = append(want, p)
		if n == stop {
			return false
		}
		if n == skip {
			return true
		}
		for _, sub := range s.subs[h] {
			next := -1
			if h+1 < s.depth && sub == s.names[h+1] {
				next = h + 1
			}
			if next < 0 {
				n++
				want = append(want, p+" "+sub)
				if n == stop {
					return false
				}
				continue
			}
			if !add(p+" "+sub, next) {
				return false
			}
		}
		return true
	}
	whole := add(path, k)
	var got []string
	err := c.Walk(func(x *cli.Context) error {
		got = append(got, x.Path().String())
		if len(got) > 50 {
			return fmt.Errorf("endless")
		}
		if x.Command() == nil || !x.IsCommand() {
			s.fail("walk", "%s: %v isn't a command", at, x.Path())
		}
		switch len(got) {
		case stop:
			return fail
		case skip:
			return cli.ErrSkipCommand
		}
		return nil
	})
	if !slices.Equal(got, want) {
		s.fail("walk", "%s: the walk visits %q, expected %q (skipping the commands of number %d, failing at %d)", at, got, want, skip, stop)
	} else if whole && err != nil || !whole && err != fail {
		s.fail("walk", "%s: the walk returns %v, failing at %d", at, err, stop)
	}
	if !whole {
		w.Fault("walk fails")
	}
}

// args checks the args of the command by position.
func (s *lkState) args(c *cli.Context, at string, k int) {
	for !c.IsCommand() {
		c = c.Parent()
	}
	if k != s.depth-1 {
		return // has an arg for its sub-command
	}
	var want []string
	for _, o := range s.opts {
		if o.arg && o.ci == k {
			if o.env != "" && c.IsBefore() {
				return // has perhaps not been read yet
			}
			want = append(want, o.want(s.bound))
		}
	}
	if s.bound >= k {
		if n := c.NValue(); n != len(want) {
			s.fail("args", "%s: the command has %d values, expected %d", at, n, len(want))
			return
		}
		for i, v := range c.Values() {
			if lkFormat(v) != want[i] {
				s.fail("args", "%s: the value at %d is %s, expected %s", at, i, lkFormat(v), want[i])
			}
		}
	}
	if v := c.Value(len(want)); v != nil {
		s.fail("args", "%s: there is a value past the last arg: %v", at, lkFormat(v))
	}
}

// step is a step of the run.
func (s *lkState) step(id string, init, occurrence bool) cli.Action {
	return cli.ActionOf(func(c *cli.Context) error {
		if s.w.Failed() {
			return nil
		}
		s.w.Step()
		s.steps++
		if s.failWith != nil && s.after > 0 {
			s.w.Fail("after-failure", "%s runs after the failure of a step", id)
			return nil
		}
		var self *lkOpt
		for _, o := range s.opts {
			if o.arg && c.Target() == any(o.a) || !o.arg && c.Target() == any(o.flag) {
				self = o
			}
		}
		if !init {
			s.bound = max(s.bound, s.level(c))
		}
		at := fmt.Sprintf("%s (in %v)", id, c.Path())
		if !init || s.w.Chance(1, 3) {
			s.check(c, at, self, occurrence)
		}
		if s.steps == s.failAt {
			s.after++
			s.w.Fault("step fails")
			s.w.Ev("%s fails", id)
			return s.failWith
		}
		return nil
	})
}

func runLookup(w *core.World) {
	s := &lkState{w: w, bound: -1}
	s.depth = w.Range(1, 3)
	s.names = []string{"app", "sub", "leaf"}[:s.depth]
	s.aliases = [][]string{nil, {"s", "sb"}, {"lf"}}[:s.depth]
	pool := []string{"alpha", "beta", "gamma", "x", "y", "delta", "z", "list", "name", "v", "eps", "zeta", "eta", "u", "q", "w", "p2", "opt"}
	w.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	letters := []string{"a", "b", "c", "d", "e", "f", "g", "i", "j", "k", "m", "n", "longer", "other-name", "al"}
	w.Shuffle(len(letters), func(i, j int) { letters[i], letters[j] = letters[j], letters[i] })
	take := func(l *[]string) string {
		n := (*l)[0]
		*l = (*l)[1:]
		return n
	}
	used := map[string]int{}
	draw := func(ci int, arg bool) *lkOpt {
		o := &lkOpt{ci: ci, arg: arg, words: map[int][][]string{}}
		o.typ = core.Pick(w, "string", "string", "int", "bool", "list", "duration", "float", "map", "other", "other")
		if o.typ == "other" {
			o.kind = core.Pick(w, boundKinds...)
			if arg && !o.kind.scalar || o.kind.name == "map" || o.kind.name == "float64" {
				o.typ = "string"
			}
		}
		hides := false
		if !arg {
			var cand []string
			for _, p := range s.opts {
				if p.ci < ci && !p.arg && used[p.name] < ci {
					cand = append(cand, p.name)
				}
			}
			if len(cand) > 0 && w.Chance(1, 4) {
				o.name = core.Pick(w, cand...)
				w.Probe("hidden flag")
				hides = true
			} else {
				o.name = take(&pool)
			}
			used[o.name] = ci
			for w.Chance(2, 5) && len(letters) > 0 && len(o.aliases) < 2 {
				o.aliases = append(o.aliases, take(&letters))
			}
			o.np = w.Chance(1, 6) && !hides
		} else {
			o.name = take(&pool)
			if o.typ == "bool" {
				o.typ = "string"
			}
		}
		if w.Chance(1, 4) && (o.typ == "string" || o.typ == "int" || o.typ == "duration") {
			o.def = o.draw(w)
		}
		if w.Chance(1, 6) && o.typ != "bool" {
			o.env = o.draw(w)
		}
		o.id = fmt.Sprintf("%s@%d", o.display(), ci)
		o.target = o.value()
		return o
	}
	for ci := range s.depth {
		for range w.Range(0, 3) {
			s.opts = append(s.opts, draw(ci, false))
		}
	}
	last := s.depth - 1
	for i := range w.Range(0, 2) {
		o := draw(last, true)
		o.index = i
		s.opts = append(s.opts, o)
	}
	if len(s.opts) == 0 {
		s.opts = append(s.opts, draw(last, false))
	}
	for range w.Int(3) {
		if len(pool) > 0 {
			o := &lkOpt{name: take(&pool), typ: "string"}
			s.decoys = append(s.decoys, o)
		}
	}
	for i, o := range s.opts {
		if o.env != "" {
			SetEnv(w, fmt.Sprintf("JSIM_L_%d", i), o.env)
		}
	}

	// The words
	line := []string{}
	for ci := range s.depth {
		word := s.names[ci]
		if len(s.aliases[ci]) > 0 && w.Chance(1, 4) {
			word = core.Pick(w, s.aliases[ci]...)
		}
		line = append(line, word)
		var flags []*lkOpt
		for _, o := range s.opts {
			for !o.arg && o.ci <= ci && (!o.np || o.ci == ci) && s.find(ci, o.name) == o && w.Chance(2, 5) {
				flags = append(flags, o)
			}
		}
		w.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
		for i, o := range flags {
			v := o.draw(w)
			name := core.Pick(w, append([]string{o.name}, o.aliases...)...)
			d := "--" + name
			if len(name) == 1 {
				d = "-" + name
			}
			occ := []string{d, v}
			switch many := o.many(); {
			case o.typ == "bool":
				occ[1] = "true"
				line = append(line, d)
			case o.typ == "list" && i+1 < len(flags) && w.Chance(1, 2):
				// It takes the words up to the next flag
				for w.Chance(1, 2) {
					occ = append(occ, o.draw(w))
				}
				line = append(line, occ...)
			case len(name) == 1 && w.Chance(1, 2):
				line = append(line, d+v)
			case len(name) > 1 && (many || w.Chance(1, 2)):
				line = append(line, d+"="+v)
			case many:
				line = append(line, d+v)
			default:
				line = append(line, d, v)
			}
			o.words[ci] = append(o.words[ci], occ)
		}
		// Args come last
		for _, o := range s.opts {
			if !o.arg || o.ci != ci {
				continue
			}
			n := 1
			if o.typ == "list" && o.index == s.nargs()-1 {
				n = w.Range(1, 3)
			}
			if o.index > 0 || s.nargs() == 1 {
				if w.Chance(1, 4) {
					break
				}
			} else if w.Chance(1, 6) {
				break
			}
			for range n {
				v := o.draw(w)
				line = append(line, v)
				o.words[ci] = append(o.words[ci], []string{o.display(), v})
			}
		}
	}

	// The program
	hooks := w.Chance(1, 3)
	uses := func(id string) cli.Action {
		var as []cli.Action
		if w.Chance(1, 4) {
			as = append(as, s.step(id+" uses", true, false))
		}
		if w.Chance(1, 4) {
			as = append(as, cli.Before(s.step(id+" deferred before", false, false)))
		}
		if w.Chance(1, 5) {
			as = append(as, cli.After(s.step(id+" deferred after", false, false)))
		}
		return pipelineOf(as)
	}
	maybe := func(id string, n, d int) any {
		if w.Chance(n, d) {
			return s.step(id, false, false)
		}
		return nil
	}
	cmds := make([]*cli.Command, s.depth)
	for ci := s.depth - 1; ci >= 0; ci-- {
		id := s.names[ci]
		c := &cli.Command{Name: id, Aliases: s.aliases[ci]}
		c.Uses = uses(id)
		c.Before = maybe(id+" before", 2, 3)
		c.After = maybe(id+" after", 1, 2)
		c.Action = s.step(id+" action", false, false)
		for i, o := range s.opts {
			if o.ci != ci {
				continue
			}
			oid := o.id
			var us any = uses(oid)
			if o.env != "" {
				us = cli.Pipeline(us, cli.FromEnv(fmt.Sprintf("JSIM_L_%d", i)))
			}
			var act any
			switch w.Int(3) {
			case 0:
				act = s.step(oid+" action", false, false)
			case 1:
				act = cli.At(cli.ActionTiming, cli.ActionOf(s.step(oid+" nested action", false, false)))
			}
			if o.arg {
				o.a = &cli.Arg{Name: o.name, Value: o.target, Uses: us, Action: act,
					Before: maybe(oid+" before", 1, 3), After: maybe(oid+" after", 1, 3)}
				o.a.NArg = cli.OptionalArg(func(string) bool { return true })
				if o.typ == "list" && o.index == s.nargs()-1 {
					o.a.NArg = cli.TakeUntilNextFlag
				}
				c.Args = append(c.Args, o.a)
				continue
			}
			aliases, each := slices.Clone(o.aliases), false
			if w.Chance(1, 3) && len(aliases) > 0 {
				us = cli.Pipeline(us, cli.Alias(aliases...))
				aliases = nil
			}
			if w.Chance(1, 5) && (o.typ != "other" || !strings.HasPrefix(o.kind.name, "file")) {
				each = true
			}
			o.flag = &cli.Flag{Name: o.name, Aliases: aliases, Value: o.target, Uses: us, Action: act,
				Before: maybe(oid+" before", 1, 3), After: maybe(oid+" after", 1, 3)}
			if each {
				o.flag.Options |= cli.EachOccurrence
				o.flag.Action = s.step(oid+" occurrence", false, true)
			}
			if o.np {
				o.flag.Options |= cli.NonPersistent
			}
			c.Flags = append(c.Flags, o.flag)
		}
		if ci+1 < s.depth {
			sibling := &cli.Command{Name: "another"}
			for _, o := range s.decoys {
				sibling.Flags = append(sibling.Flags, &cli.Flag{Name: o.name, Value: new(string)})
			}
			c.Subcommands = []*cli.Command{cmds[ci+1]}
			if w.Chance(1, 2) {
				c.Subcommands = append(c.Subcommands, sibling)
			} else {
				c.Subcommands = []*cli.Command{sibling, cmds[ci+1]}
			}
		}
		for _, x := range c.Subcommands {
			s.subs[ci] = append(s.subs[ci], x.Name)
		}
		if ci == 0 && s.depth > 1 {
			s.subs[ci] = append(s.subs[ci], "help", "version")
		}
		cmds[ci] = c
	}
	root := cmds[0]
	if hooks {
		root.Uses = cli.Pipeline(root.Uses,
			cli.HookBefore("*", s.step("hook before", false, false)),
			cli.HookAfter("*", s.step("hook after", false, false)))
	}
	if w.Chance(1, 4) {
		s.failAt = w.Range(1, 12)
		s.failWith = &simErr{"step"}
	}
	app := &cli.App{Name: "app", Flags: root.Flags, Args: root.Args, Commands: root.Subcommands, Uses: root.Uses,
		Before: root.Before, After: root.After, Action: root.Action,
		Stdout: &simWriter{w: w}, Stderr: &simWriter{w: w}, Stdin: strings.NewReader("")}
	for _, o := range s.opts {
		w.Ev("%s %v %s default=%q env=%q non-persistent=%v", o.id, o.aliases, o.typ, o.def, o.env, o.np)
	}
	w.Ev("line %q", line)
	var err error
	pv, stack := w.CallStack(func() { err = app.RunContext(context.Background(), line) })
	if w.Failed() {
		return
	}
	switch {
	case pv != nil:
		w.Fail("panic", "%q panics with %v at %s", line, pv, stack)
	case s.after > 0 && err != s.failWith:
		w.Fail("result", "%q ends with %v, although a step failed", line, err)
	case s.after == 0 && err != nil:
		w.Fail("result", "%q ends with %v", line, err)
	}
	w.Nontrivial = s.steps > 3
	_ = os.Args
}

func (s *lkState) nargs() (n int) {
	for _, o := range s.opts {
		if o.arg {
			n++
		}
	}
	return
}

func init() {
	register(&core.Property{
		ID:        "C22",
		QuickRuns: 100000, ThoroughRuns: 3000000,
		Rule:      "at every step each way of looking up an option finds the one in scope, with its state at that time",
		Real:      []string{"parser, lifecycle, command tree, contexts and lookups"},
		Stub:      []string{"the steps (record, look up, may fail)", "environment variables", "standard streams (in memory)"},
		Scenarios: []core.Scenario{{Name: "lookup", Weight: 1, Run: runLookup}},
	})
}

func pipelineOf(as []cli.Action) cli.Action {
	var l []any
	for _, a := range as {
		l = append(l, a)
	}
	return cli.Pipeline(l...)
}
