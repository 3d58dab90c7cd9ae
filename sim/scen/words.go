package scen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"unicode/utf8"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// C25: each word of the line reaches the one option that it is for, through the program's own counters and values.

const (
	wSwitch   = iota // bool
	wOne             // a value of the program which takes a word
	wList            // words until a flag
	wOptional        // an optional value
	wOwn             // counted by the program
	// args
	wMaybe  // NArg 0
	wExact  // NArg n
	wRest   // -1
	wUntil  // -2
	wExcept // -3
	wMatch  // OptionalArg
	wPair   // a name and value, as one word or two
)

var wKinds = []string{"switch", "one", "list", "optional", "own", "NArg 0", "NArg", "NArg -1", "NArg -2", "NArg -3", "OptionalArg", "pair"}

type wOpt struct {
	name    string
	aliases []string
	arg     bool
	root    bool // a persistent flag of the program, in a sub-command's words
	kind    int
	n       int
	own     ownSpec
	list    bool // its value is a list
	set     int  // which call of its value's Set fails, or -1
	setErr  error

	occ  [][]string // the words of its occurrences
	got  []string   // what its value was set to
	pair cli.NameValue
}

// ownSpec says what a counter of the program does.
type ownSpec struct {
	min, max int
	flags    bool // takes words which look like flags
	stop     string
	fail     int // the call of Take that fails, or -1
	done     bool
	err      error
}

type ownCounter struct {
	ownSpec
	s     *wState
	n     int
	calls int
}

var errTooFew = errors.New("too few")

func (c *ownCounter) Take(arg string, possibleFlag bool) error {
	c.s.w.Step()
	if c.s.model == nil && c.s.failed != nil {
		c.s.late = "Take"
	}
	c.calls++
	if c.fail == c.calls-1 {
		return c.s.counterFails(c.err)
	}
	if c.n >= c.max || arg == c.stop || possibleFlag && !c.flags && len(arg) > 1 && arg[0] == '-' {
		return cli.EndOfArguments
	}
	c.n++
	return nil
}

func (c *ownCounter) Done() error {
	c.s.w.Step()
	if c.done {
		return c.s.counterFails(c.err)
	}
	if c.n < c.min {
		return errTooFew
	}
	return nil
}

// wValue is a value of the program.
type wValue struct {
	s *wState
	o *wOpt
}

func (v *wValue) Set(text string) error {
	v.s.w.Step()
	o := v.o
	o.got = append(o.got, text)
	if v.s.failed != nil && v.s.late == "" {
		v.s.late = fmt.Sprintf("Set(%q)", text)
	}
	if o.set == len(o.got)-1 {
		v.s.w.Fault("value-refuses")
		v.s.failed = o.setErr
		return o.setErr
	}
	return nil
}

func (v *wValue) String() string { return strings.Join(v.o.got, ",") }

type wOwnValue struct{ *wValue }

func (v wOwnValue) NewCounter() cli.ArgCounter { return &ownCounter{ownSpec: v.o.own, s: v.s} }

type wState struct {
	w      *core.World
	opts   []*wOpt
	noMore bool // DisallowFlagsAfterArgs
	again  bool
	first  bool // a run before the one that is looked at
	shared bool // a letter is that of two flags
	rtl    bool // RightToLeft, for lines that have no flags
	log    []string
	model  *wModel // while the model runs
	failed error
	late   string
}

func (s *wState) counterFails(err error) error {
	if s.model == nil {
		s.w.Fault("counter-fails")
	}
	return err
}

// wModel says which words are whose.
type wModel struct {
	s         *wState
	args      []*wOpt
	counters  []func(word string, flag bool) error
	done      []func() error
	at        int
	started   bool
	undecided string
}

var (
	errHard = errors.New("hard") // a word that looks like a flag isn't taken, but the arg goes on
	errWord = errors.New("no place")
)

// counter is how an option takes words.
func (m *wModel) counter(o *wOpt) (func(string, bool) error, func() error) {
	n := 0
	nothing := func() error { return nil }
	looks := func(word string, flag bool) bool { return flag && len(word) > 1 && word[0] == '-' }
	switch o.kind {
	case wSwitch:
		return func(string, bool) error { return cli.EndOfArguments }, nothing
	case wOne:
		return func(word string, flag bool) error {
				if n++; n > 1 {
					return cli.EndOfArguments
				}
				return nil
			}, func() error {
				if n == 0 {
					return errTooFew
				}
				return nil
			}
	case wOptional, wMaybe:
		return func(word string, flag bool) error {
			if n > 0 {
				return cli.EndOfArguments
			}
			if looks(word, flag) {
				return errHard
			}
			n++
			return nil
		}, nothing
	case wList, wUntil:
		return func(word string, flag bool) error {
			if looks(word, flag) {
				return cli.EndOfArguments
			}
			return nil
		}, nothing
	case wExcept:
		return func(word string, flag bool) error {
			if looks(word, flag) {
				return errHard
			}
			return nil
		}, nothing
	case wRest:
		return func(word string, flag bool) error { return nil }, nothing
	case wExact:
		return func(word string, flag bool) error {
				if n == o.n {
					return cli.EndOfArguments
				}
				if looks(word, flag) {
					m.undecided = "a flag in the place of an argument"
				}
				n++
				return nil
			}, func() error {
				if n < o.n {
					return errTooFew
				}
				return nil
			}
	case wMatch:
		return func(word string, flag bool) error {
			n++
			if n == 1 && strings.HasPrefix(word, "m") {
				return nil
			}
			return cli.EndOfArguments
		}, nothing
	}
	if o.kind == wPair {
		return func(word string, flag bool) error {
				switch {
				case n == 2:
					return cli.EndOfArguments
				case n == 0 && strings.Contains(word, "="):
					n++
				}
				n++
				return nil
			}, func() error {
				if n == 0 {
					return errTooFew
				}
				return nil
			}
	}
	c := &ownCounter{ownSpec: o.own, s: m.s}
	return c.Take, c.Done
}

// place finds the arg for a word.
func (m *wModel) place(word string, flag bool) error {
	for m.at < len(m.args) {
		err := m.counters[m.at](word, flag)
		if err == nil {
			m.started = true
			return nil
		}
		if err != cli.EndOfArguments {
			return err
		}
		if err = m.end(); err != nil {
			return err
		}
		m.next()
	}
	return errWord
}

func (m *wModel) next() { m.at++; m.started = false }

func (m *wModel) end() error {
	if m.at < len(m.args) {
		return m.done[m.at]()
	}
	return nil
}

func (m *wModel) flag(name string) *wOpt {
	var inherited *wOpt
	for _, o := range m.s.opts {
		if !o.arg && (o.name == name || slices.Contains(o.aliases, name)) {
			if !o.root {
				return o
			}
			inherited = o
		}
	}
	return inherited
}

// follow takes the words after a flag.
func (m *wModel) follow(o *wOpt, words []string) (int, error) {
	take, done := m.counter(o)
	n := 0
	for n < len(words) {
		err := take(words[n], true)
		if err != nil {
			if err != cli.EndOfArguments && !strings.HasPrefix(words[n], "-") {
				return n, err
			}
			break
		}
		n++
	}
	occ := slices.Clone(words[:n])
	if n == 0 {
		occ = []string{""}
	}
	o.occ = append(o.occ, occ)
	return n, done()
}

func (m *wModel) parse(words []string) error {
	for _, o := range m.s.opts {
		if o.arg {
			t, d := m.counter(o)
			m.args, m.counters, m.done = append(m.args, o), append(m.counters, t), append(m.done, d)
		}
	}
	if m.s.rtl {
		// as many of the last args as there are words
		left, keep := len(words), len(m.args)
		for ; keep > 0 && left > 0; keep-- {
			if o := m.args[keep-1]; o.kind == wExact {
				left -= o.n
			} else {
				left--
			}
		}
		if left < 0 {
			m.undecided = "too few words for an arg in the middle"
		}
		for m.at < keep {
			if err := m.end(); err != nil {
				return err
			}
			m.next()
		}
	}
	only, inArg, any := false, false, false
	for i := 0; i < len(words); i++ {
		word := words[i]
		dash := len(word) > 1 && word[0] == '-'
		if word == "--" && !only || word == "--" && !(m.at < len(m.args) && m.args[m.at].kind == wRest && m.started) {
			if !(inArg && m.at < len(m.args) && m.args[m.at].kind == wRest && m.started) {
				if only || inArg {
					// ends the arg
					if err := m.end(); err != nil {
						return err
					}
					m.next()
				}
				only = true
				inArg = false
				continue
			}
		}
		if !dash || only || inArg {
			err := m.place(word, !only)
			if err == nil {
				o := m.args[m.at]
				o.occ = append(o.occ, []string{word})
				inArg, any = true, true
				continue
			}
			if !dash || only {
				return err
			}
		}
		inArg = false
		if strings.HasPrefix(word, "--") {
			name, value, ok := strings.Cut(word[2:], "=")
			o := m.flag(name)
			switch {
			case o == nil, m.s.noMore && any:
				return errWord
			case ok:
				o.occ = append(o.occ, []string{value})
			default:
				n, err := m.follow(o, words[i+1:])
				if err != nil {
					return err
				}
				i += n
			}
			continue
		}
		if m.s.noMore && any {
			return errWord
		}
		for j, c := range word[1:] {
			o := m.flag(string(c))
			if o == nil {
				return errWord
			}
			_, size := utf8.DecodeRuneInString(word[1+j:])
			rest := word[1+j+size:]
			if rest != "" {
				take, done := m.counter(o)
				err := take(rest, false)
				if err == nil {
					if err = done(); err == nil {
						o.occ = append(o.occ, []string{rest})
						break
					}
				}
				switch {
				case rest[0] == '=':
					return errWord
				case err != cli.EndOfArguments:
					return err
				}
				o.occ = append(o.occ, []string{""})
				continue
			}
			if o.kind == wOptional {
				o.occ = append(o.occ, []string{""})
				continue
			}
			n, err := m.follow(o, words[i+1:])
			if err != nil {
				return err
			}
			i += n
		}
	}
	for ; m.at < len(m.args); m.next() {
		if err := m.end(); err != nil {
			return err
		}
	}
	return nil
}

func runWords(w *core.World) {
	s := &wState{w: w}
	sub := w.Chance(1, 2)
	s.noMore = w.Chance(1, 8)
	s.rtl = w.Chance(1, 12)
	names := []string{"alpha", "beta", "gamma", "delta", "p", "q"}
	letters := []string{"x", "y", "z", "u", "v", "é"}
	w.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	own := func() ownSpec {
		k := ownSpec{min: w.Int(2), max: w.Range(1, 3), flags: w.Chance(1, 4), fail: -1, stop: "stop", err: &simErr{"counter"}}
		if w.Chance(1, 3) {
			k.err = &cli.ParseError{Code: cli.InvalidArgument, Err: k.err}
		}
		switch w.Int(8) {
		case 0:
			k.fail = w.Int(3)
		case 1:
			k.done = true
		}
		return k
	}
	for range w.Range(1, 4) {
		o := &wOpt{name: names[0], kind: core.Pick(w, wSwitch, wSwitch, wOne, wOne, wList, wOptional, wOwn, wPair), root: sub && w.Chance(1, 3)}
		names = names[1:]
		if len(letters) > 0 && w.Chance(2, 3) {
			i := w.Int(len(letters))
			o.aliases = []string{letters[i]}
			letters = slices.Delete(letters, i, i+1)
		}
		s.opts = append(s.opts, o)
	}
	for _, o := range s.opts { // a letter which a flag of the command has too
		if x := core.Pick(w, s.opts...); o.root && !x.root && len(o.aliases) == 0 && len(x.aliases) > 0 && w.Chance(1, 2) {
			o.aliases = slices.Clone(x.aliases)
			s.shared = true
		}
	}
	args := []string{"first", "second", "third", "fourth", "fifth", "sixth"}
	for i := range core.Pick(w, 0, 1, 2, 3, 3, 4, 6) {
		s.opts = append(s.opts, &wOpt{name: args[i], arg: true, kind: w.Range(wOwn, wPair), n: w.Range(1, 3)})
		if o := s.opts[len(s.opts)-1]; s.rtl {
			o.kind, o.n = core.Pick(w, wMaybe, wExact), w.Range(1, 2)
		}
	}
	for _, o := range s.opts {
		o.set = -1
		if o.kind == wOwn {
			o.own = own()
		}
		o.list = o.kind == wList || o.arg && o.kind != wOwn && o.kind != wPair && w.Chance(1, 3)
		if w.Chance(1, 16) && !o.list && o.kind != wSwitch && o.kind != wOptional && o.kind != wPair {
			o.set, o.setErr = w.Int(3), &simErr{"set"}
		}
	}
	// the line
	var words []string
	id := 0
	word := func() string {
		id++
		switch w.Int(24) {
		case 0:
			return "-"
		case 1:
			return ""
		case 2:
			return "stop"
		case 3:
			return "=v"
		case 4:
			return "a=b"
		case 5:
			return "é"
		case 6, 7, 8:
			return fmt.Sprint("m", id)
		}
		return fmt.Sprint("w", id)
	}
	spell := func(o *wOpt) string {
		n := core.Pick(w, append([]string{o.name}, o.aliases...)...)
		if o.root && s.shared {
			n = o.name // the letter may be the other flag's
		}
		if utf8.RuneCountInString(n) == 1 && w.Chance(3, 4) {
			return "-" + n
		}
		return "--" + n
	}
	var flags []*wOpt
	for _, o := range s.opts {
		if !o.arg {
			flags = append(flags, o)
		}
	}
	for range w.Int(7) {
		kind := w.Int(12)
		if s.rtl {
			kind = 0
		}
		switch kind {
		case 0, 1, 2, 3:
			words = append(words, word())
		case 4:
			words = append(words, "--")
		case 5:
			if w.Chance(1, 3) {
				words = append(words, core.Pick(w, "--unknown", "-k", "--unknown=w", "-", "--=w"))
			}
		case 6, 7: // a cluster
			c := "-"
			for range w.Range(1, 3) {
				if f := spell(core.Pick(w, flags...)); f[1] != '-' {
					c += f[1:]
				}
			}
			if w.Chance(1, 3) {
				c += word()
			}
			if c != "-" && c != "--" {
				words = append(words, c)
			}
		case 8:
			o := core.Pick(w, flags...)
			f, v := spell(o), word()
			if o.kind == wSwitch {
				v = core.Pick(w, "true", "false")
			}
			if strings.HasPrefix(f, "--") {
				f += "="
			}
			words = append(words, f+v)
		default:
			words = append(words, spell(core.Pick(w, flags...)))
			if w.Chance(1, 2) {
				words = append(words, word())
			}
		}
	}

	// what becomes of it
	m := &wModel{s: s}
	s.model = m
	merr := m.parse(words)
	s.model = nil
	switch {
	case m.undecided != "":
		w.Probe("undecided")
	case merr == nil:
		w.Probe("accepted")
	}
	if m.undecided != "" {
		w.Ev("undecided: %s", m.undecided)
		return
	}
	var fails []error
	if merr == nil {
		for _, o := range s.opts {
			n := 0
			for _, occ := range o.occ {
				n += len(occ)
			}
			if o.set >= 0 && o.set < n {
				fails = append(fails, o.setErr)
			}
		}
	}

	stateful := false // a counter of the program itself, not of its values
	check := func(c *cli.Context, at string) {
		if s.first {
			return
		}
		for _, o := range s.opts {
			if w.Failed() {
				return
			}
			var got [][]string
			for _, b := range c.BindingLookup().Bindings(o.name) {
				got = append(got, b[1:])
			}
			if !slices.EqualFunc(got, o.occ, slices.Equal) {
				w.Fail("words", "%q: in %s %s has the words %q, expected %q", words, at, o.name, got, o.occ)
			}
			var l []string
			for _, occ := range o.occ {
				l = append(l, occ...)
			}
			if n := len(o.occ); !o.arg && !s.again && (c.Occurrences(o.name) != n || c.Seen(o.name) != (n > 0)) {
				w.Fail("occurrences", "%q: in %s %s was seen %d times (%v), expected %d", words, at, o.name, c.Occurrences(o.name), c.Seen(o.name), n)
			}
			switch {
			case s.again && (o.list || o.kind == wSwitch || o.kind == wOptional || o.kind == wPair):
				// what an earlier run leaves in a value isn't claimed
			case o.kind == wPair:
				want := ""
				if len(o.occ) > 0 && (!o.arg || o.occ[0][0] != "") {
					words := o.occ[len(o.occ)-1]
					if o.arg && len(l) > 1 {
						continue // each word of an arg is an occurrence
					}
					k, v, ok := strings.Cut(words[0], "=")
					if !ok {
						v = "true"
					}
					if len(words) == 2 && k != "" {
						v = words[1]
					} else if len(words) == 2 {
						continue // the name is the second word
					}
					want = k + "=" + v
				} else if len(l) > 0 {
					continue
				}
				if v := o.pair.Name + "=" + o.pair.Value; v != want && (want != "" || v != "=") {
					w.Fail("value", "%q: in %s the value of %s is %q, expected %q", words, at, o.name, v, want)
				}
			case o.list:
				if v := c.List(o.name); !slices.Equal(v, l) {
					w.Fail("value", "%q: in %s the value of %s is %q, expected %q", words, at, o.name, v, l)
				}
			case o.kind == wSwitch:
				want := len(l) > 0 && l[len(l)-1] != "false"
				if v := c.Bool(o.name); v != want {
					w.Fail("value", "%q: in %s the value of %s is %v, expected %v", words, at, o.name, v, want)
				}
			case o.kind == wOptional:
				want := ""
				if len(l) > 0 {
					if want = l[len(l)-1]; want == "" {
						want = "implied"
					}
				}
				if v := c.String(o.name); v != want {
					w.Fail("value", "%q: in %s the value of %s is %q, expected %q", words, at, o.name, v, want)
				}
			default:
				if !slices.Equal(o.got, l) {
					w.Fail("value", "%q: in %s the value of %s was set to %q, expected %q", words, at, o.name, o.got, l)
				}
			}
		}
	}
	step := func(at string) cli.Action {
		return cli.ActionOf(func(c *cli.Context) {
			w.Step()
			s.log = append(s.log, at)
			check(c, at)
		})
	}
	cmd := &cli.Command{Name: "cmd", Before: step("before"), Action: step("action")}
	app := &cli.App{Name: "app", Stdin: strings.NewReader(""), Stdout: io.Discard, Stderr: io.Discard}
	for _, o := range s.opts {
		var v any = &wValue{s, o}
		var uses, narg any
		switch {
		case o.list:
			v = cli.List()
		case o.kind == wPair:
			v = &o.pair
		case o.kind == wSwitch:
			v = cli.Bool()
		case o.kind == wOptional:
			v, uses = cli.String(), cli.OptionalValue("implied")
		case o.kind == wOwn:
			v = wOwnValue{&wValue{s, o}}
		}
		if !o.arg {
			f := &cli.Flag{Name: o.name, Aliases: o.aliases, Value: v, Uses: uses}
			if o.list {
				f.Options = cli.DisableSplitting
			}
			if o.root {
				app.Flags = append(app.Flags, f)
			} else {
				cmd.Flags = append(cmd.Flags, f)
			}
			continue
		}
		switch o.kind {
		case wMaybe:
			if o.kind == wMaybe && w.Chance(1, 2) && !o.list {
				break // implied
			}
			narg = core.Pick[any](w, 0, cli.TakeUnlessFlag, cli.ArgCount(nil))
		case wExact:
			narg = core.Pick[any](w, o.n, o.n, cli.ArgCount(o.n))
		case wRest:
			narg = core.Pick(w, -1, -4, -9)
		case wUntil:
			if o.list && w.Chance(1, 2) {
				break // implied
			}
			narg = -2
		case wExcept:
			narg = -3
		case wMatch:
			narg = cli.OptionalArg(func(s string) bool { return strings.HasPrefix(s, "m") })
		case wOwn:
			if w.Chance(1, 2) {
				narg, v, stateful = &ownCounter{ownSpec: o.own, s: s}, &wValue{s, o}, true
			}
		}
		a := &cli.Arg{Name: o.name, Value: v, NArg: narg}
		if o.list {
			a.Options = cli.DisableSplitting
		}
		cmd.Args = append(cmd.Args, a)
	}
	if s.noMore {
		cmd.Options |= cli.DisallowFlagsAfterArgs
	}
	if s.rtl {
		cmd.Options |= cli.RightToLeft
	}
	line := append([]string{"app"}, words...)
	if sub {
		line = append([]string{"app", "cmd"}, words...)
		app.Commands = []*cli.Command{cmd}
	} else {
		app.Flags, app.Args, app.Before, app.Action, app.Options = cmd.Flags, cmd.Args, cmd.Before, cmd.Action, cmd.Options
	}
	for _, o := range s.opts {
		w.Ev("%s %q %s %d list %v root %v set %d own %v -> %q", o.name, o.aliases, wKinds[o.kind], o.n, o.list, o.root, o.set, fmt.Sprint(o.own.min, o.own.max, o.own.flags, o.own.fail, o.own.done), o.occ)
	}
	w.Ev("%q -> %v fails %d", line, merr, len(fails))
	var err error
	if !stateful && w.Chance(1, 4) { // the app ran before
		var old []wOpt
		for _, o := range s.opts {
			old = append(old, *o)
			o.set = -1
		}
		before := append([]string{}, line...)
		if len(words) > 0 && w.Chance(1, 3) {
			before = before[:len(before)-1-w.Int(len(words))]
		}
		s.first, s.again = true, true
		pv := w.Call(func() { err = app.RunContext(context.Background(), before) })
		w.Ev("ran %q before: %v %v", before, errName(err), pv)
		s.first, s.log, s.failed, s.late = false, nil, nil, ""
		for i, o := range s.opts {
			o.set, o.got = old[i].set, nil
		}
		w.Probe("another run")
	}
	pv := w.Call(func() { err = app.RunContext(context.Background(), line) })
	w.Ev("%v", s.log)
	w.Ev("returned %v", errName(err))
	if w.Failed() {
		return
	}
	w.Nontrivial = len(words) > 1
	var pe *cli.ParseError
	switch {
	case pv != nil:
		w.Fail("panic", "%q panicked: %v", line, pv)
	case (merr != nil || len(fails) > 0) && len(s.log) > 0:
		w.Fail("later", "%q: %q ran although the line isn't valid", line, s.log)
	case s.late != "":
		w.Fail("later", "%q: %s after a value refused its word", line, s.late)
	case merr != nil && err == nil:
		w.Fail("accepted", "%q is accepted", line)
	case merr != nil && (merr == errWord || merr == errHard) && !errors.As(err, &pe):
		w.Fail("error", "%q fails with %v, which isn't a parse error", line, errName(err))
	case merr != nil && merr != errTooFew && merr != errWord && merr != errHard && merr != cli.EndOfArguments && !errors.Is(err, merr):
		w.Fail("error", "%q fails with %v, expected %v", line, errName(err), merr)
	case merr == nil && len(fails) > 0 && !errors.Is(err, s.failed):
		w.Fail("error", "%q ends with %v, expected %v", line, errName(err), s.failed)
	case merr == nil && len(fails) > 0 && s.failed == nil:
		w.Fail("error", "%q ends with %v, without giving the values their words", line, errName(err))
	case merr == nil && len(fails) == 0 && err != nil:
		w.Fail("refused", "%q fails with %v, expected %s", line, errName(err), s.places())
	case merr == nil && len(fails) == 0 && len(s.log) != 2:
		w.Fail("steps", "%q ran %q", line, s.log)
	}
}

func (s *wState) places() string {
	var l []string
	for _, o := range s.opts {
		l = append(l, fmt.Sprintf("%s: %q", o.name, o.occ))
	}
	return strings.Join(l, ", ")
}

func init() {
	register(&core.Property{
		ID:        "C25",
		QuickRuns: 150000, ThoroughRuns: 5000000,
		Rule:      "each word of the line reaches the option that a reference parser says, or the run fails before any step",
		Real:      []string{"cli: parsing, binding, counters, values"},
		Stub:      []string{"the program's own values and counters, which fail"},
		Scenarios: []core.Scenario{{Name: "words", Weight: 1, Run: runWords}},
	})
}
