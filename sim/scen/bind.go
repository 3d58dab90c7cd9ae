package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/bind"
	"github.com/Carbonfrost/joe-cli/extensions/expr"

	"joesim/core"
)

// C20: functions whose parameters are bound to the command line.

type boundType int

const (
	btInt boundType = iota
	btString
	btList
	btBool
	btDuration
	btNameValue
	btOther // one of boundKinds
	btTypes
)

type boundOpt struct {
	name, alias string
	typ         boundType
	kind        *boundKind // of type btOther
	arg         bool
	index       int
	parent      bool // a flag of the app, not of the command
	bare        bool // without a value; the binders give it one of their type
	given       bool
	early       bool // in the words of the app
	words       []string
	want        string
	value       any
	flag        *cli.Flag
	argument    *cli.Arg
	hosts       []*boundFunc
	redirect    *boundOpt // where it sends its value
	constant    *string   // rather than its own value
	sends       boundType // the type of the constant
	indirect    *boundOpt
	direct      int // 0 by the bind extension, 1 and 2 by the actions of the cli package
}

type boundParam struct {
	kind   string // "named", "implied", "exact", "func", "context", "key"
	opt    *boundOpt
	ref    any
	form   int
	binder bind.Binder[any]
	want   func() string
	shared bool
}

type boundFunc struct {
	id     string
	host   *boundOpt // nil for the command
	field  string    // "uses", "action", "before"
	params []*boundParam
	action bool // derives an action
	direct bool // by cli.Bind, not by the bind extension
	active bool
	fault  string // what fails: "", "call", "act", "bind0", "bind1", ...
	panics bool
	err    error
}

// typedBinder forwards to a binder of a particular type.
type typedBinder[T any] struct{ bind.Binder[T] }

func (b typedBinder[T]) Bind(c context.Context) (any, error) { return b.Binder.Bind(c) }

func (b typedBinder[T]) SetName(n any) {
	b.Binder.(interface{ SetName(any) }).SetName(n)
}

func (b typedBinder[T]) Initializer() cli.Action {
	return b.Binder.(interface{ Initializer() cli.Action }).Initializer()
}

type plainBinder[T any] struct{ b bind.Binder[T] }

func (b plainBinder[T]) Bind(c context.Context) (any, error) { return b.b.Bind(c) }

func binderOf[T any](form int, named func(...any) bind.Binder[T], name []any) bind.Binder[any] {
	switch form {
	case 0:
		return typedBinder[T]{named(name...)}
	case 1:
		return typedBinder[T]{bind.Value[T](name...)}
	case 2:
		return typedBinder[T]{bind.For[T](name...)}
	default:
		if len(name) == 0 {
			return typedBinder[T]{bind.Exact[T]()}
		}
		return typedBinder[T]{named(name...)}
	}
}

func (t boundType) binder(form int, name ...any) bind.Binder[any] {
	switch t {
	case btInt:
		return binderOf(form, bind.Int, name)
	case btString:
		return binderOf(form, bind.String, name)
	case btList:
		return binderOf(form, bind.List, name)
	case btBool:
		return binderOf(form, bind.Bool, name)
	case btDuration:
		return binderOf(form, bind.Duration, name)
	default:
		return binderOf(form, bind.NameValue, name)
	}
}

// boundKind is a further type of value, with texts as they are shown.
type boundKind struct {
	name   string
	make   func() any
	zero   string
	binder func(int, []any) bind.Binder[any]
	show   func(string) string
	scalar bool
	texts  []string
	typed  func(cli.Lookup, any) any
}

func kindOf[T any](name string, mk func() any, named func(...any) bind.Binder[T], typed func(cli.Lookup, any) T, zero string, scalar bool, texts ...string) *boundKind {
	return &boundKind{
		name: name, make: mk, zero: zero, scalar: scalar, texts: texts,
		binder: func(form int, name []any) bind.Binder[any] { return binderOf(form, named, name) },
		show:   func(s string) string { return fmt.Sprintf("%T %s", *new(T), s) },
		typed:  func(l cli.Lookup, key any) any { return typed(l, key) },
	}
}

var boundKinds = []*boundKind{
	kindOf("int8", func() any { return cli.Int8() }, bind.Int8, cli.Lookup.Int8, "0", true, "1", "127"),
	kindOf("int16", func() any { return cli.Int16() }, bind.Int16, cli.Lookup.Int16, "0", true, "300", "32767"),
	kindOf("int32", func() any { return cli.Int32() }, bind.Int32, cli.Lookup.Int32, "0", true, "70000", "2147483647"),
	kindOf("int64", func() any { return cli.Int64() }, bind.Int64, cli.Lookup.Int64, "0", true, "9223372036854775807", "4"),
	kindOf("uint", func() any { return cli.Uint() }, bind.Uint, cli.Lookup.Uint, "0", true, "12", "4000000000"),
	kindOf("uint8", func() any { return cli.Uint8() }, bind.Uint8, cli.Lookup.Uint8, "0", true, "255", "7"),
	kindOf("uint16", func() any { return cli.Uint16() }, bind.Uint16, cli.Lookup.Uint16, "0", true, "65535", "7"),
	kindOf("uint32", func() any { return cli.Uint32() }, bind.Uint32, cli.Lookup.Uint32, "0", true, "4294967295", "7"),
	kindOf("uint64", func() any { return cli.Uint64() }, bind.Uint64, cli.Lookup.Uint64, "0", true, "18446744073709551615", "7"),
	kindOf("float32", func() any { return cli.Float32() }, bind.Float32, cli.Lookup.Float32, "0", true, "2.5", "3"),
	kindOf("float64", func() any { return cli.Float64() }, bind.Float64, cli.Lookup.Float64, "0", true, "2.5", "1e+300"),
	kindOf("url", func() any { return cli.URL() }, bind.URL, cli.Lookup.URL, "<nil>", true, "http://h/p?q=1", "rel"),
	kindOf("ip", func() any { return cli.IP() }, bind.IP, cli.Lookup.IP, "<nil>", true, "10.0.0.1", "::1"),
	kindOf("regexp", func() any { return cli.Regexp() }, bind.Regexp, cli.Lookup.Regexp, "<nil>", true, "a+b", "^$"),
	kindOf("bigint", func() any { return cli.BigInt() }, bind.BigInt, cli.Lookup.BigInt, "<nil>", true, "99999999999999999999999", "1"),
	kindOf("bigfloat", func() any { return cli.BigFloat() }, bind.BigFloat, cli.Lookup.BigFloat, "<nil>", true, "2.5", "1"),
	kindOf("bytes", func() any { return cli.Bytes() }, bind.Bytes, cli.Lookup.Bytes, "", false, "beef", "00"),
	kindOf("file", func() any { return new(cli.File) }, bind.File, cli.Lookup.File, "", false, "some/file", "f"),
	kindOf("fileset", func() any { return new(cli.FileSet) }, bind.FileSet, cli.Lookup.FileSet, "", false, "some/file", "f"),
	kindOf("map", func() any { return cli.Map() }, bind.Map, cli.Lookup.Map, "", false, "a=b", "key=v w"),
	kindOf("pairs", func() any { return cli.NameValues() }, bind.NameValues, cli.Lookup.NameValues, "", false, "a=b", "key=v w"),
}

func showOther(v any) string {
	text := ""
	switch x := v.(type) {
	case []byte:
		text = fmt.Sprintf("%x", x)
	case *cli.File:
		text = x.Name
	case *cli.FileSet:
		text = strings.Join(x.Files, ",")
	case map[string]string:
		for k, v := range x {
			text += k + "=" + v
		}
	case []*cli.NameValue:
		for _, v := range x {
			text += v.Name + "=" + v.Value
		}
	default:
		text = fmt.Sprint(v)
	}
	return fmt.Sprintf("%T %s", v, text)
}

func (o *boundOpt) binder(form int, name ...any) bind.Binder[any] {
	if o.typ == btOther {
		return o.kind.binder(form, name)
	}
	return o.typ.binder(form, name...)
}

func showBound(v any) string {
	switch x := v.(type) {
	case int, string, bool, time.Duration, nil:
	case *cli.NameValue:
		if x == nil {
			return "none"
		}
		return fmt.Sprintf("pair %q %q", x.Name, x.Value)
	case []string:
		return fmt.Sprintf("list %q", x)
	case *cli.Context:
		return "context of " + x.Name()
	default:
		return showOther(v)
	}
	return fmt.Sprintf("%T %#v", v, v)
}

// generate gives the option its value on the line.
func (o *boundOpt) generate(w *core.World) {
	var def any
	n := w.Range(1, 2)
	if o.arg && o.typ != btList {
		n = 1
	}
	switch o.typ {
	case btInt:
		v := 0
		if !o.bare {
			v = w.Int(3)
		}
		o.value, def = &v, v
		if o.given {
			for range n {
				i := w.Range(-9, 99)
				if o.arg {
					i = w.Range(0, 99)
				}
				o.words, def = append(o.words, fmt.Sprint(i)), i
			}
		}
	case btString:
		v := ""
		if !o.bare {
			v = core.Pick(w, "", "default")
		}
		o.value, def = &v, v
		if o.given {
			for range n {
				s := core.Pick(w, "a", "b c", "", "x=y", "é", "12")
				o.words, def = append(o.words, s), s
			}
		}
	case btList:
		o.value, def = &[]string{}, []string{}
		if o.given {
			l := []string{}
			for range n {
				s := core.Pick(w, "a", "b", "c", "d e")
				o.words, l = append(o.words, s), append(l, s)
			}
			def = l
		}
	case btBool:
		v := !o.bare && w.Chance(1, 3)
		o.value, def = &v, v
		if o.given {
			for range n {
				b := w.Chance(2, 3)
				o.words, def = append(o.words, fmt.Sprint(b)), b
			}
		}
	case btDuration:
		v := time.Duration(0)
		if !o.bare {
			v = time.Duration(w.Int(3)) * time.Second
		}
		o.value, def = &v, v
		if o.given {
			for range n {
				d := time.Duration(w.Int(500)) * time.Millisecond
				o.words, def = append(o.words, d.String()), d
			}
		}
	case btNameValue:
		v := &cli.NameValue{}
		o.value, def = v, v
		if o.given {
			for range n {
				p := &cli.NameValue{Name: core.Pick(w, "k", "key"), Value: core.Pick(w, "v", "w=x", "")}
				o.words, def = append(o.words, p.Name+"="+p.Value), p
			}
		}
	}
	if o.typ == btOther {
		o.value = o.kind.make()
		text := o.kind.zero
		if o.given {
			text = core.Pick(w, o.kind.texts...)
			o.words = append(o.words, text)
		}
		o.want = o.kind.show(text)
		return
	}
	o.want = showBound(def)
}

// line has the words of the flag.
func (o *boundOpt) line(w *core.World) []string {
	var res []string
	for _, word := range o.words {
		name := o.name
		if o.alias != "" && w.Chance(1, 3) {
			name = o.alias
		}
		switch {
		case o.typ == btBool && word == "true" && w.Chance(2, 3):
			res = append(res, "--"+name)
		case o.typ == btBool || o.parent || word == "" || strings.HasPrefix(word, "-") || w.Chance(1, 2):
			res = append(res, "--"+name+"="+word)
		default:
			res = append(res, "--"+name, word)
		}
	}
	return res
}

type boundKey struct{}

// boundRun is what one run records.
type boundRun struct {
	w     *core.World
	log   []string
	fired bool // the failure was delivered
}

func (r *boundRun) fail(f *boundFunc) error {
	r.fired = true
	r.w.Fault("bound " + strings.TrimRight(f.fault, "012"))
	r.w.Ev("%s fails in %s", f.id, f.fault)
	if f.panics {
		panic(panicText)
	}
	return f.err
}

func (r *boundRun) called(f *boundFunc, args ...any) error {
	r.w.Step()
	var l []string
	for _, a := range args {
		l = append(l, showBound(a))
	}
	r.log = append(r.log, f.id+" call "+strings.Join(l, ", "))
	if f.fault == "call" {
		return r.fail(f)
	}
	return nil
}

// derived is the action that a function made.
func (r *boundRun) derived(f *boundFunc, args ...any) cli.Action {
	if err := r.called(f, args...); err != nil {
		return cli.ActionOf(func() error { return err })
	}
	return cli.ActionOf(func(c *cli.Context) error {
		r.w.Step()
		r.log = append(r.log, f.id+" act "+c.Name())
		if f.fault == "act" {
			return r.fail(f)
		}
		return nil
	})
}

// made is the action with the function.
func (f *boundFunc) made(r *boundRun) cli.Action {
	var b []bind.Binder[any]
	for _, p := range f.params {
		b = append(b, p.binder)
	}
	if f.direct {
		switch f.host.typ {
		case btInt:
			return cli.Bind(func(v int) error { return r.called(f, v) })
		case btBool:
			return cli.Bind(func(v bool) error { return r.called(f, v) })
		default:
			return cli.Bind(func(v string) error { return r.called(f, v) })
		}
	}
	switch {
	case f.action && len(b) == 1:
		return bind.Action(func(x any) cli.Action { return r.derived(f, x) }, b[0])
	case f.action && len(b) == 2:
		return bind.Action2(func(x, y any) cli.Action { return r.derived(f, x, y) }, b[0], b[1])
	case f.action:
		return bind.Action3(func(x, y, z any) cli.Action { return r.derived(f, x, y, z) }, b[0], b[1], b[2])
	case len(b) == 1:
		return bind.Call(func(x any) error { return r.called(f, x) }, b[0])
	case len(b) == 2:
		return bind.Call2(func(x, y any) error { return r.called(f, x, y) }, b[0], b[1])
	default:
		return bind.Call3(func(x, y, z any) error { return r.called(f, x, y, z) }, b[0], b[1], b[2])
	}
}

// segment is what a run of the function records, up to its failure.
func (f *boundFunc) segment(host string) []string {
	var res []string
	var args []string
	for i, p := range f.params {
		if p.kind == "func" {
			res = append(res, fmt.Sprintf("%s bind%d", f.id, i))
			if f.fault == fmt.Sprintf("bind%d", i) {
				return res
			}
		}
		args = append(args, p.want())
	}
	res = append(res, f.id+" call "+strings.Join(args, ", "))
	if f.action && f.fault != "call" {
		res = append(res, f.id+" act "+host)
	}
	return res
}

func runBound(w *core.World) {
	r := &boundRun{w: w}
	sub := w.Chance(1, 2)
	hostName := "app"
	if sub {
		hostName = "cmd"
	}

	// the options
	var opts []*boundOpt
	add := func(o *boundOpt) *boundOpt {
		opts = append(opts, o)
		return o
	}
	for i, n := 0, w.Range(1, 4); i < n; i++ {
		o := add(&boundOpt{name: fmt.Sprintf("f%d", i), typ: boundType(w.Int(int(btTypes))), given: w.Chance(2, 3)})
		if o.typ == btOther {
			o.kind = core.Pick(w, boundKinds...)
		}
		if w.Chance(1, 3) {
			o.alias = fmt.Sprintf("g%d", i)
		}
		o.parent = sub && w.Chance(1, 4)
	}
	nargs := w.Int(4)
	for i := 0; i < nargs; i++ {
		o := add(&boundOpt{name: fmt.Sprintf("a%d", i), arg: true, index: i, typ: boundType(w.Int(int(btTypes)))})
		if o.typ == btList && i < nargs-1 {
			o.typ = btInt
		}
		if o.typ == btOther {
			o.kind = core.Pick(w, boundKinds...)
			if !o.kind.scalar {
				o.typ = btInt
			}
		}
		o.given = i == 0 || opts[len(opts)-2].given
		if o.given && w.Chance(1, 4) {
			o.given = false
		}
		if o.typ == btNameValue && !o.given {
			o.typ = btDuration // such an argument is required
		}
	}
	args := opts[len(opts)-nargs:]

	// the functions
	var funcs []*boundFunc
	var shared []*boundParam
	param := func(f *boundFunc, index int) *boundParam {
		p := &boundParam{form: w.Int(4)}
		if len(shared) > 0 && (f.host == nil || !f.host.parent) && w.Chance(1, 6) {
			return core.Pick(w, shared...)
		}
		switch w.Weighted(4, 3, 2, 4, 1, 1) {
		case 0:
			p.kind, p.opt = "named", core.Pick(w, opts...)
			o := p.opt
			switch {
			case f.host != nil && f.host.parent:
				// others aren't in its scope, or not bound yet
				p.opt = f.host
				o = p.opt
				p.ref = o.name
			case o.arg && f.host == nil && w.Chance(1, 3):
				p.ref = o.index
			case o.arg && w.Chance(1, 3):
				p.ref = "<" + o.name + ">"
			case !o.arg && w.Chance(1, 4):
				p.ref = "--" + o.name
			default:
				p.ref = o.name
			}
			p.binder = o.binder(p.form, p.ref)
			p.want = func() string { return o.want }
			if _, index := p.ref.(int); !index && !o.parent && w.Chance(1, 3) {
				p.shared = true
				shared = append(shared, p)
			}
			return p
		case 1:
			o := f.host
			if o == nil {
				if index >= len(args) {
					break
				}
				o = args[index]
			}
			p.kind, p.opt = "implied", o
			p.binder = o.binder(p.form)
			p.want = func() string { return o.want }
			return p
		case 2:
			break
		case 3:
			p.kind = "func"
			v := fmt.Sprintf("value %d of %s", index, f.id)
			p.binder = plainBinder[string]{bind.Func[string](func(c *cli.Context) (string, error) {
				r.w.Step()
				r.log = append(r.log, fmt.Sprintf("%s bind%d", f.id, index))
				if f.fault == fmt.Sprintf("bind%d", index) {
					return "", r.fail(f)
				}
				return v, nil
			})}
			p.want = func() string { return showBound(v) }
			return p
		case 4:
			p.kind = "context"
			if w.Chance(1, 2) {
				p.binder = plainBinder[*cli.Context]{bind.Context()}
			} else {
				p.binder = plainBinder[*cli.Context]{bind.FromContext(cli.FromContext)}
			}
			p.want = func() string { return "context of " + boundHost(f.host, hostName) }
			return p
		case 5:
			p.kind = "key"
			p.binder = plainBinder[string]{bind.ContextValue[string](boundKey{})}
			p.want = func() string { return showBound("keyed") }
			return p
		}
		p.kind = "exact"
		switch w.Int(3) {
		case 0:
			v := w.Int(100)
			p.binder = typedBinder[int]{bind.Exact(v)}
			p.want = func() string { return showBound(v) }
		case 1:
			v := core.Pick(w, "exact", "")
			p.binder = typedBinder[string]{bind.Exact(v)}
			p.want = func() string { return showBound(v) }
		default:
			v := []string{"x", "y"}[:w.Int(3)]
			p.binder = typedBinder[[]string]{bind.Exact(v)}
			p.want = func() string { return showBound(v) }
		}
		return p
	}
	newFunc := func(host *boundOpt) {
		f := &boundFunc{id: fmt.Sprintf("fn%d", len(funcs)), host: host, field: core.Pick(w, "uses", "uses", "action", "before"), action: w.Chance(1, 3)}
		f.err = &simErr{id: f.id}
		if f.host == nil {
			f.active = true
		} else {
			f.active = host.given
			host.hosts = append(host.hosts, f)
		}
		for i, n := 0, w.Range(1, 3); i < n; i++ {
			f.params = append(f.params, param(f, i))
		}
		funcs = append(funcs, f)
	}
	for range w.Weighted(1, 2, 2, 1) {
		newFunc(nil)
	}
	for range w.Weighted(1, 2, 1, 1) {
		newFunc(core.Pick(w, opts...))
	}

	// options without a value get one of the type of the binders in Uses
	for _, o := range opts {
		if o.parent || !w.Chance(1, 2) {
			continue
		}
		typed, exact := o.typ == btString, false
		for _, f := range funcs {
			for _, p := range f.params {
				switch {
				case f.field != "uses":
				case p.opt == o && f.host == nil:
					typed = true
				case p.opt == o && f.host == o:
					typed = true
				}
				if f.host == o && p.kind == "exact" && f.field == "uses" && o.typ != btBool {
					exact = true // which makes it a switch
				}
			}
		}
		o.bare = typed && !exact
	}
	for _, o := range opts {
		o.generate(w)
	}

	// flags that set others
	var senders []*boundOpt
	if w.Chance(1, 3) {
		t := &boundOpt{name: "target", typ: core.Pick(w, btInt, btString), given: w.Chance(1, 2)}
		if t.typ == btString { // to which setting the value adds
			t.given, t.bare = false, true
		}
		t.generate(w)
		s := &boundOpt{name: "send", typ: t.typ, given: w.Chance(2, 3), redirect: t}
		s.bare = true
		s.generate(w)
		if w.Chance(1, 2) {
			v := map[boundType]string{btInt: "77", btString: "constant"}[t.typ]
			s.constant, s.typ, s.words = &v, btBool, nil
			if s.given {
				s.words = []string{core.Pick(w, "true", "true", "false")}
			}
			s.want = showBound(s.given && s.words[0] == "true")
		}
		if s.given {
			switch {
			case s.constant == nil:
				t.want = s.want
			case t.typ == btInt:
				t.want = showBound(77)
			default:
				t.want = showBound(*s.constant)
			}
		}
		if w.Chance(1, 2) {
			opts = append(opts, t, s)
		} else {
			opts = append(opts, s, t)
		}
		senders = append(senders, s)
		f := &boundFunc{id: fmt.Sprintf("fn%d", len(funcs)), field: "action", active: true, err: &simErr{id: "target"}}
		f.params = []*boundParam{{kind: "named", opt: t, binder: t.typ.binder(0, "target"), want: func() string { return t.want }}}
		funcs = append(funcs, f)
	}
	if w.Chance(1, 3) {
		t := &boundOpt{name: "pair", typ: btNameValue, given: w.Chance(1, 2)}
		t.generate(w)
		s := &boundOpt{name: "via", typ: core.Pick(w, btInt, btString, btBool), given: w.Chance(2, 3), indirect: t, bare: true, direct: w.Int(3)}
		s.generate(w)
		sent := s.want
		if w.Chance(1, 3) { // a constant, for a switch
			v := map[boundType]string{btInt: "77", btString: "constant", btBool: "false"}[s.typ]
			sent = map[boundType]string{btInt: showBound(77), btString: showBound(v), btBool: showBound(false)}[s.typ]
			s.constant, s.words = &v, nil
			s.sends, s.typ = s.typ, btBool
			if s.given {
				s.words = []string{core.Pick(w, "true", "true", "false")}
			}
		}
		opts = append(opts, t, s)
		f := &boundFunc{id: fmt.Sprintf("fn%d", len(funcs)), host: s, field: core.Pick(w, "uses", "action"), active: s.given, err: &simErr{id: "via"}}
		f.params = []*boundParam{{kind: "named", opt: t, want: func() string { return t.want }}, {kind: "implied", opt: s, want: func() string { return sent }}}
		if s.constant != nil && f.field == "action" {
			s.value, s.bare = new(bool), false
		} else {
			s.bare = f.field == "uses" || s.typ == btString
		}
		s.hosts = append(s.hosts, f)
		funcs = append(funcs, f)
	}

	for _, f := range funcs {
		// the actions of the cli package have a prototype, which in an Action replaces the value of a bare option
		if f.host != nil && f.host.bare && f.field != "uses" {
			f.host.direct = 0
			continue
		}
		if f.host != nil && f.host.indirect == nil && !f.action && len(f.params) == 1 && f.params[0].kind == "implied" &&
			(f.host.typ == btInt || f.host.typ == btBool || f.host.typ == btString) {
			f.direct = w.Chance(1, 3)
		}
	}

	// what fails
	fault := core.Pick(w, "", "", "", "", "func", "func", "func", "func", "value", "before")
	var before error
	var invalid *boundOpt
	var faulty *boundFunc
	switch fault {
	case "func":
		if len(funcs) == 0 {
			break
		}
		f := core.Pick(w, funcs...)
		places := []string{"call"}
		if f.action {
			places = append(places, "act")
		}
		for i, p := range f.params {
			if p.kind == "func" && !p.shared {
				at := fmt.Sprintf("bind%d", i)
				places = append(places, at, at)
			}
		}
		f.fault, f.panics = core.Pick(w, places...), w.Chance(1, 4)
		if f.host != nil && f.host.redirect != nil {
			f.fault = ""
		}
		if f.fault != "" && f.active {
			faulty = f
		}
	case "value":
		for _, o := range opts {
			if o.given && (o.typ == btInt || o.typ == btDuration) && o.redirect == nil && !o.arg {
				invalid = o
				o.words[len(o.words)-1] = "wrong"
				break
			}
		}
	case "before":
		before = &simErr{id: "before"}
	}

	// the app
	app := &cli.App{Name: "app", Stdout: new(nullWriter), Stderr: new(nullWriter)}
	cmd := &cli.Command{Name: "cmd"}
	fields := func(host *boundOpt) (uses, before, action []cli.Action) {
		for _, f := range funcs {
			if f.host != host {
				continue
			}
			var a cli.Action
			if host != nil && host.indirect != nil {
				a = host.indirectAction(r, f)
			} else {
				a = f.made(r)
			}
			switch f.field {
			case "uses":
				uses = append(uses, a)
			case "before":
				before = append(before, a)
			default:
				action = append(action, a)
			}
		}
		return
	}
	pipe := func(l []cli.Action) any {
		if len(l) == 0 {
			return nil
		}
		return cli.ActionPipeline(slices.Clone(l))
	}
	for _, o := range opts {
		uses, bef, act := fields(o)
		if o.redirect != nil {
			uses = append(uses, o.redirectAction())
		}
		value := o.value
		if o.bare || o.redirect != nil && o.constant != nil {
			value = nil
		}
		if o.arg {
			o.argument = &cli.Arg{Name: o.name, Value: value, Uses: pipe(uses), Before: pipe(bef), Action: pipe(act)}
			if o.typ == btList {
				o.argument.NArg = cli.TakeUntilNextFlag
			}
			cmd.Args = append(cmd.Args, o.argument)
			continue
		}
		o.flag = &cli.Flag{Name: o.name, Value: value, Uses: pipe(uses), Before: pipe(bef), Action: pipe(act)}
		if o.alias != "" {
			o.flag.Aliases = []string{o.alias}
		}
		if o.parent {
			app.Flags = append(app.Flags, o.flag)
		} else {
			cmd.Flags = append(cmd.Flags, o.flag)
		}
	}
	uses, bef, act := fields(nil)
	if before != nil {
		at := w.Int(len(bef) + 1)
		bef = slices.Insert(bef, at, cli.Action(cli.ActionOf(func() error { return before })))
	}
	cmd.Uses, cmd.Before, cmd.Action = pipe(uses), pipe(bef), pipe(act)
	words := []string{"app"}
	var flagWords, argWords, appWords []string
	for _, o := range opts {
		switch {
		case !o.given:
		case o.arg:
			argWords = append(argWords, o.words...)
		case o.parent && w.Chance(1, 2):
			o.early = true
			appWords = append(appWords, o.line(w)...)
		default:
			flagWords = append(flagWords, o.line(w)...)
		}
	}
	words = append(words, appWords...)
	if sub {
		words = append(words, "cmd")
		app.Commands = []*cli.Command{cmd}
	} else {
		app.Flags, app.Args, app.Uses, app.Before, app.Action = cmd.Flags, cmd.Args, cmd.Uses, cmd.Before, cmd.Action
	}
	words = append(words, flagWords...)
	if len(argWords) > 0 {
		words = append(append(words, "--"), argWords...)
	}
	w.Ev("words %q", words)
	for _, o := range opts {
		w.Ev("option %s type %d parent %v bare %v given %v: %s", o.name, o.typ, o.parent, o.bare, o.given, o.want)
	}
	for _, f := range funcs {
		var ps []string
		for _, p := range f.params {
			s := p.kind
			if p.opt != nil {
				s += " " + p.opt.name + fmt.Sprintf(" %v form %d", p.ref, p.form)
			}
			ps = append(ps, s)
		}
		w.Ev("%s of %s in %s, action %v, active %v, fails %q: %s", f.id, boundHost(f.host, hostName), f.field, f.action, f.active, f.fault, strings.Join(ps, "; "))
	}

	var err error
	ctx := context.WithValue(context.Background(), boundKey{}, "keyed")
	pv, site := w.CallStack(func() { err = app.RunContext(ctx, words) })
	for _, l := range r.log {
		w.Ev("%s", l)
	}
	w.Ev("error %v, panic %v", err, pv)
	w.Nontrivial = len(r.log) > 0

	// the record: each function's part, whole and at most once
	seen := map[*boundFunc]bool{}
	last := map[string]int{}
	log := r.log
	for len(log) > 0 {
		id, _, _ := strings.Cut(log[0], " ")
		i := slices.IndexFunc(funcs, func(f *boundFunc) bool { return f.id == id })
		if i < 0 {
			// a shared binder records nothing of its own
			w.Fail("record", "unexpected %s", log[0])
			return
		}
		f := funcs[i]
		want := f.segment(boundHost(f.host, hostName))
		switch {
		case !f.active:
			w.Fail("inactive", "%s is called, but its flag or argument isn't there", f.id)
			return
		case seen[f]:
			w.Fail("again", "%s is called again: %s", f.id, log[0])
			return
		case len(log) < len(want) || !slices.Equal(log[:len(want)], want):
			w.Fail("values", "%s did %q, expected %q", f.id, log[:min(len(log), len(want))], want)
			return
		}
		key := boundHost(f.host, hostName) + " " + f.field
		if last[key] > i+1 {
			w.Fail("order", "%s after one that follows it", f.id)
			return
		}
		last[key] = i + 1
		seen[f] = true
		log = log[len(want):]
		if f == faulty && len(log) > 0 {
			w.Fail("continued", "%s failed in %s, then %q", f.id, f.fault, log)
			return
		}
	}
	switch {
	case pv == panicText && r.fired && faulty.panics:
	case pv != nil:
		w.Fail("panic", "panic %v at %s", pv, site)
	case invalid != nil:
		for f := range seen { // the app is bound before the command
			if f.host == nil || !f.host.parent || invalid.early {
				w.Fail("invalid", "--%s has a wrong value, but %s is called", invalid.name, f.id)
				return
			}
		}
		if err == nil {
			w.Fail("invalid", "--%s has a wrong value, but the run succeeds", invalid.name)
		}
	case r.fired:
		if !errors.Is(err, faulty.err) {
			w.Fail("error", "%s fails with %v, the run with %v", faulty.id, faulty.err, err)
		}
	case before != nil:
		if !errors.Is(err, before) {
			w.Fail("error", "Before fails with %v, the run with %v", before, err)
			return
		}
		for f := range seen {
			if f.host == nil {
				w.Fail("continued", "%s is called after Before failed", f.id)
				return
			}
		}
	case faulty != nil:
		w.Fail("missed", "%s isn't called; error %v", faulty.id, err)
	case err != nil:
		w.Fail("refused", "%q: %v", words, err)
	default:
		for _, f := range funcs {
			if f.active && !seen[f] {
				w.Fail("missed", "%s isn't called", f.id)
				return
			}
		}
	}
	if invalid == nil && pv == nil && err == nil {
		for _, s := range senders {
			if s.constant != nil && s.given {
				w.Probe("constant redirected")
			}
		}
	}
}

func boundHost(o *boundOpt, cmd string) string {
	switch {
	case o == nil:
		return cmd
	case o.arg:
		return "<" + o.name + ">"
	default:
		return "--" + o.name
	}
}

func (o *boundOpt) redirectAction() cli.Action {
	name := o.redirect.name
	switch {
	case o.redirect.typ == btInt && o.constant != nil:
		return bind.Redirect(name, 77)
	case o.redirect.typ == btInt:
		return bind.Redirect[int](name)
	case o.constant != nil:
		return bind.Redirect(name, *o.constant)
	default:
		return bind.Redirect[string](name)
	}
}

func (o *boundOpt) indirectAction(r *boundRun, f *boundFunc) cli.Action {
	name, typ := o.indirect.name, o.typ
	var i []int
	var s []string
	var b []bool
	pair := func(c context.Context) *cli.NameValue { return cli.FromContext(c).Value(name).(*cli.NameValue) }
	if o.constant != nil {
		typ, i, s, b = o.sends, []int{77}, []string{*o.constant}, []bool{false}
	}
	switch typ {
	case btInt:
		fn := func(t *cli.NameValue, v int) error { return r.called(f, t, v) }
		switch o.direct {
		case 1:
			return cli.BindIndirect(name, fn, i...)
		case 2:
			return cli.BindContext(pair, fn, i...)
		}
		return bind.Indirect(name, fn, i...)
	case btBool:
		fn := func(t *cli.NameValue, v bool) error { return r.called(f, t, v) }
		switch o.direct {
		case 1:
			return cli.BindIndirect(name, fn, b...)
		case 2:
			return cli.BindContext(pair, fn, b...)
		}
		return bind.Indirect(name, fn, b...)
	default:
		fn := func(t *cli.NameValue, v string) error { return r.called(f, t, v) }
		switch o.direct {
		case 1:
			return cli.BindIndirect(name, fn, s...)
		case 2:
			return cli.BindContext(pair, fn, s...)
		}
		return bind.Indirect(name, fn, s...)
	}
}

// boundOp is an operator whose evaluator is bound.
type boundOp struct {
	name   string
	types  []boundType // of its arguments
	params []*boundParam
	kinds  []int // per parameter: argument index, or -1 flag, -2 custom, -3 exact
	uses   bool
	keep   int // yields the value this often
}

type boundInst struct {
	op    *boundOp
	words []string
	want  []string
}

func runBoundEvaluators(w *core.World) {
	r := &boundRun{w: w}
	sub := w.Chance(1, 3)
	flag := &boundOpt{name: "limit", typ: core.Pick(w, btInt, btString), given: w.Chance(2, 3)}
	flag.generate(w)
	custom := "custom"
	failAt, steps := -1, 0
	failure := &boundFunc{id: "evaluation", fault: "eval", err: &simErr{id: "eval"}, panics: w.Chance(1, 5)}
	if w.Chance(1, 2) {
		failAt = w.Int(12)
	}
	step := func(format string, args ...any) error {
		w.Step()
		r.log = append(r.log, fmt.Sprintf(format, args...))
		steps++
		if steps-1 == failAt {
			return r.fail(failure)
		}
		return nil
	}

	var ops []*boundOp
	var exprs []*expr.Expr
	for i, n := 0, w.Range(1, 3); i < n; i++ {
		op := &boundOp{name: fmt.Sprintf("op%d", i), uses: w.Chance(1, 2), keep: w.Weighted(1, 3, 1)}
		prefix := core.Pick(w, "x", "x", "start") // also the name of an argument of the command
		e := &expr.Expr{Name: op.name}
		for j, n := 0, w.Int(3); j < n; j++ {
			t := core.Pick(w, btInt, btString, btBool, btDuration)
			op.types = append(op.types, t)
			o := &boundOpt{typ: t, bare: true}
			o.generate(w)
			e.Args = append(e.Args, &cli.Arg{Name: fmt.Sprintf("%s%d", prefix, j), Value: o.value, NArg: 1})
		}
		var b []bind.Binder[any]
		for j, n := 0, w.Range(1, 3); j < n; j++ {
			k := w.Weighted(3, 2, 1, 2, 1)
			switch {
			case k == 0 && j < len(op.types): // by its position
				op.kinds = append(op.kinds, j)
				b = append(b, op.types[j].binder(w.Int(3)))
			case k <= 1 && len(op.types) > 0:
				x := w.Int(len(op.types))
				op.kinds = append(op.kinds, x)
				b = append(b, op.types[x].binder(w.Int(3), fmt.Sprintf("%s%d", prefix, x)))
			case k == 2:
				op.kinds = append(op.kinds, -1)
				b = append(b, flag.typ.binder(w.Int(3), flag.name))
			case k == 3:
				op.kinds = append(op.kinds, -2)
				b = append(b, plainBinder[string]{bind.Func[string](func(c *cli.Context) (string, error) {
					if err := step("%s binds %d", op.name, j); err != nil {
						return "", err
					}
					return custom, nil
				})})
			default:
				op.kinds = append(op.kinds, -3)
				b = append(b, typedBinder[int]{bind.Exact(7)})
			}
		}
		for j, a := range e.Args {
			if (op.types[j] == btString || slices.Contains(op.kinds, j)) && w.Chance(1, 2) {
				a.Value = nil // which gets the type of the binder
			}
		}
		eval := func(args ...any) expr.Evaluator {
			var l []string
			for _, a := range args {
				l = append(l, showBound(a))
			}
			return expr.EvaluatorFunc(func(_ *cli.Context, v any, yield func(any) error) error {
				if err := step("%s %v with %s", op.name, v, strings.Join(l, ", ")); err != nil {
					return err
				}
				for k := range op.keep {
					if err := yield(fmt.Sprintf("%v.%d", v, k)); err != nil {
						return err
					}
				}
				return nil
			})
		}
		var ev expr.Evaluator
		switch len(b) {
		case 1:
			ev = bind.Evaluator(func(x any) expr.Evaluator { return eval(x) }, b[0])
		case 2:
			ev = bind.Evaluator2(func(x, y any) expr.Evaluator { return eval(x, y) }, b[0], b[1])
		default:
			ev = bind.Evaluator3(func(x, y, z any) expr.Evaluator { return eval(x, y, z) }, b[0], b[1], b[2])
		}
		if op.uses {
			e.Uses = ev
		} else {
			e.Evaluate = ev
		}
		ops, exprs = append(ops, op), append(exprs, e)
	}

	var insts []boundInst
	for range w.Range(1, 4) {
		in := boundInst{op: core.Pick(w, ops...)}
		in.words = []string{"-" + in.op.name}
		var vals []string
		for _, t := range in.op.types {
			o := &boundOpt{typ: t, arg: true, given: true, bare: true}
			o.generate(w)
			in.words = append(in.words, o.words...)
			vals = append(vals, o.want)
		}
		for _, k := range in.op.kinds {
			switch k {
			case -1:
				in.want = append(in.want, flag.want)
			case -2:
				in.want = append(in.want, showBound(custom))
			case -3:
				in.want = append(in.want, showBound(7))
			default:
				in.want = append(in.want, vals[k])
			}
		}
		insts = append(insts, in)
	}
	items := []any{}
	for i := range w.Range(1, 3) {
		items = append(items, fmt.Sprintf("v%d", i))
	}

	// the reference
	var want []string
	var model func(i int, v string) bool
	line := func(s string) bool {
		want = append(want, s)
		return len(want)-1 != failAt
	}
	model = func(i int, v string) bool {
		if i == len(insts) {
			return true
		}
		in := insts[i]
		for j, k := range in.op.kinds {
			if k == -2 && !line(fmt.Sprintf("%s binds %d", in.op.name, j)) {
				return false
			}
		}
		if !line(fmt.Sprintf("%s %s with %s", in.op.name, v, strings.Join(in.want, ", "))) {
			return false
		}
		for k := range in.op.keep {
			if !model(i+1, fmt.Sprintf("%s.%d", v, k)) {
				return false
			}
		}
		return true
	}
	for _, v := range items {
		if !model(0, v.(string)) {
			break
		}
	}

	flag.flag = &cli.Flag{Name: flag.name, Value: flag.value}
	flags := []*cli.Flag{flag.flag}
	args := []*cli.Arg{{Name: "start0", NArg: -2}, {Name: "expression", Value: &expr.Expression{Exprs: exprs}}}
	starts := []string{".", "5", "x"}[:w.Range(1, 3)]
	var evalErr error
	ran := 0
	action := func(c *cli.Context) error {
		ran++
		if l := c.List("start0"); !slices.Equal(l, starts) {
			w.Fail("argument", "the argument before the expression is %q, not %q", l, starts)
		}
		evalErr = expr.FromContext(c, "expression").Evaluate(c, items...)
		return evalErr
	}
	app := &cli.App{Name: "app", Stdout: new(nullWriter), Stderr: new(nullWriter)}
	words := []string{"app"}
	if sub {
		flag.parent = w.Chance(1, 2)
		cmd := &cli.Command{Name: "cmd", Args: args, Action: action}
		app.Commands = []*cli.Command{cmd}
		if flag.parent {
			app.Flags = flags
			words = append(append(words, flag.line(w)...), "cmd")
		} else {
			cmd.Flags = flags
			words = append(append(words, "cmd"), flag.line(w)...)
		}
	} else {
		app.Flags, app.Args, app.Action = flags, args, action
		words = append(words, flag.line(w)...)
	}
	words = append(words, starts...)
	for _, in := range insts {
		words = append(words, in.words...)
	}
	w.Ev("words %q, items %v, fails at %d, panics %v", words, items, failAt, failure.panics)
	for _, op := range ops {
		w.Ev("%s %v binds %v, uses %v, yields %d", op.name, op.types, op.kinds, op.uses, op.keep)
	}
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), words) })
	for _, l := range r.log {
		w.Ev("%s", l)
	}
	w.Ev("error %v, panic %v", err, pv)
	w.Nontrivial = len(r.log) > 1
	if w.Failed() {
		return
	}
	switch {
	case pv != nil && !(pv == panicText && r.fired && failure.panics):
		w.Fail("panic", "panic %v at %s", pv, site)
	case !slices.Equal(r.log, want):
		w.Fail("values", "%q did %q, expected %q", words, r.log, want)
	case pv != nil:
	case ran != 1:
		w.Fail("refused", "the action ran %d times, error %v", ran, err)
	case r.fired && (!errors.Is(evalErr, failure.err) || !errors.Is(err, failure.err)):
		w.Fail("error", "fails with %v, the evaluation with %v, the run with %v", failure.err, evalErr, err)
	case !r.fired && err != nil:
		w.Fail("refused", "%q: %v", words, err)
	}
}

func init() {
	register(&core.Property{
		ID:        "C20",
		QuickRuns: 60000, ThoroughRuns: 1500000,
		Rule: "a bound function gets the values of the line, once, and not at all when a value or a binder fails",
		Real: []string{"extensions/bind", "extensions/expr", "cli: parsing, binding, pipelines"},
		Stub: []string{"the bound functions and some binders (record, fail or panic on demand)"},
		Scenarios: []core.Scenario{
			{Name: "bound", Weight: 3, Run: runBound},
			{Name: "evaluators", Weight: 1, Run: runBoundEvaluators},
		},
	})
}
