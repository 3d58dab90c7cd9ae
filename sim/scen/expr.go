package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"

	"joesim/core"
)

// exprOp is an operator; exprInst is one use of it on the command line.
type exprOp struct {
	name  string
	alias string
	args  []exprArg
	kind  int
	shape int // which function signature
}

type exprArg struct {
	name    string
	typ     int  // 0 int, 1 string, 2 list, 3 optional string, 4 optional int, 5 the program's own
	counter bool // NArg is a counter
	def     int  // default of an optional one
}

type exprInst struct {
	op    *exprOp
	alias bool
	vals  []string // the text of each argument's value, as an observation shows it
	n     int      // first number, or the length of the text
	at    int      // where its words begin
	words int      // how many it has
}

// exprText is a value of the program, with a counter of its own, which takes one word.
type exprText struct{ text string }

var errExprText = &simErr{"argument"}

func (x *exprText) Set(s string) error {
	if s == "failset" {
		return errExprText
	}
	x.text = s
	return nil
}

func (x *exprText) String() string             { return x.text }
func (x *exprText) Reset()                     { x.text = "" }
func (x *exprText) NewCounter() cli.ArgCounter { return &exprCounter{} }

type exprCounter struct {
	n    int
	fail bool
}

func (c *exprCounter) Take(s string, _ bool) error {
	if s == "failtake" {
		return errExprText
	}
	if c.n == 1 {
		return cli.EndOfArguments
	}
	c.n, c.fail = 1, s == "faildone"
	return nil
}

func (c *exprCounter) Done() error {
	if c.n == 0 || c.fail {
		return errExprText
	}
	return nil
}

const (
	exKeep = iota // keep some of the values
	exMap
	exFan    // yields several values
	exTwice  // yields and goes on after an error
	exNone   // a predicate that is always true or false
	exVisit  // a function without any result
	exCheck  // a function that can only fail
	exCustom // a binding added by the program
)

type exprTrace struct {
	w     *core.World
	lines []string
	fail  int // index of the observation that fails, -1 none
	err   error
}

func (t *exprTrace) add(format string, a ...any) error {
	t.w.Step()
	t.lines = append(t.lines, fmt.Sprintf(format, a...))
	if len(t.lines)-1 == t.fail {
		return t.err
	}
	return nil
}

// apply is the behaviour of an operator, shared by the reference model and the
// evaluators; n and obs say what the operator sees of its arguments.
func (op *exprOp) apply(t *exprTrace, v int, n func() int, obs func() string, yield func(int) error) error {
	if err := t.add("%s(%d) %s", op.name, v, obs()); err != nil {
		return err
	}
	switch op.kind {
	case exKeep:
		if (v+n())%3 != 0 {
			if err := yield(v); err != nil {
				return err
			}
		}
	case exMap:
		if err := yield(v*10 + n()%10); err != nil {
			return err
		}
	case exFan:
		for i := 0; i < 1+n()%3; i++ {
			if err := yield(v + i); err != nil {
				return err
			}
			if err := t.add("%s(%d) again %s", op.name, v, obs()); err != nil {
				return err
			}
		}
	case exTwice:
		e1 := yield(v)
		e2 := yield(v + 1)
		t.add("%s(%d) after %v %v %s", op.name, v, e1, e2, obs())
	}
	return nil
}

// model evaluates the instances over one value.
func exprModel(t *exprTrace, insts []exprInst, i, v int, out bool) error {
	if i == len(insts) {
		if !out {
			return nil
		}
		return t.add("out %d", v)
	}
	in := insts[i]
	obs := func() string { return strings.Join(in.vals, ",") }
	next := func(v int) error { return exprModel(t, insts, i+1, v, out) }
	switch in.op.kind {
	case exNone:
		if in.op.shape%2 == 0 {
			return next(v)
		}
		return nil
	case exVisit:
		t.add("%s(%d) visit", in.op.name, v)
		return next(v)
	case exCheck:
		if err := t.add("%s(%d) check", in.op.name, v); err != nil || in.op.shape == 3 {
			return err // one that isn't given the value has nothing to pass on
		}
		return next(v)
	}
	if in.op.shape >= 2 && in.op.kind == exKeep {
		// a plain predicate: no arguments seen, no failure of its own
		t.add("%s(%d) plain", in.op.name, v)
		if v%3 != 0 {
			return next(v)
		}
		return nil
	}
	return in.op.apply(t, v, func() int { return in.n }, obs, next)
}

// evaluator makes the operator for the program.
func (op *exprOp) evaluator(t *exprTrace) any {
	obs := func(c *cli.Context) string {
		var res []string
		for _, a := range op.args {
			seen := fmt.Sprintf(" x%d %v %q", c.Occurrences(a.name), c.Seen(a.name), c.RawOccurrences(a.name))
			switch a.typ {
			case 0, 4:
				res = append(res, fmt.Sprint(c.Int(a.name))+seen)
			case 2:
				res = append(res, fmt.Sprint(c.List(a.name))+seen)
			case 5:
				res = append(res, fmt.Sprintf("%q", c.Value(a.name))+seen)
			default:
				res = append(res, fmt.Sprintf("%q", c.String(a.name))+seen)
			}
		}
		return strings.Join(res, ",")
	}
	num := func(c *cli.Context) int {
		for _, a := range op.args {
			switch a.typ {
			case 0, 4:
				return c.Int(a.name)
			case 2:
				return len(c.List(a.name))
			case 5:
				return len(c.Value(a.name).(*exprText).text)
			default:
				return len(c.String(a.name))
			}
		}
		return 0
	}
	f := func(c *cli.Context, v any, y func(any) error) error {
		return op.apply(t, v.(int), func() int { return num(c) }, func() string { return obs(c) }, func(i int) error { return y(i) })
	}
	switch op.kind {
	case exNone:
		if op.shape == 0 {
			return true
		} else if op.shape == 1 {
			return false
		} else if op.shape == 4 {
			return nil
		}
		return func() bool { return op.shape%2 == 0 }
	case exVisit:
		switch op.shape {
		case 0:
			return func(v any) { t.add("%s(%d) visit", op.name, v) }
		case 1:
			return func(_ context.Context, v any) { t.add("%s(%d) visit", op.name, v) }
		case 2:
			return func(_ *cli.Context, v any) { t.add("%s(%d) visit", op.name, v) }
		}
		return func(_ *cli.Context, v any) bool { t.add("%s(%d) visit", op.name, v); return true }
	case exCheck:
		switch op.shape {
		case 0:
			return func(v any) error { return t.add("%s(%d) check", op.name, v) }
		case 1:
			return func(_ context.Context, v any) error { return t.add("%s(%d) check", op.name, v) }
		case 2:
			return func(_ *cli.Context, v any) error { return t.add("%s(%d) check", op.name, v) }
		}
		return func(_ context.Context, v any, y func(any) error) error {
			if err := t.add("%s(%d) check", op.name, v); err != nil || op.shape == 3 {
				return err
			}
			return y(v)
		}
	case exKeep:
		pred := func(v any) bool { t.add("%s(%d) plain", op.name, v); return v.(int)%3 != 0 }
		switch op.shape {
		case 2:
			return pred
		case 3:
			return expr.Predicate(pred)
		case 4:
			return func(_ context.Context, v any) bool { return pred(v) }
		}
	}
	switch op.shape {
	case 0:
		return f
	case 1:
		return func(c context.Context, v any, y func(any) error) error { return f(cli.FromContext(c), v, y) }
	}
	return expr.EvaluatorFunc(f)
}

func runExpr(w *core.World) {
	// operators
	var ops []*exprOp
	for i := range w.Range(1, 4) {
		op := &exprOp{name: fmt.Sprintf("op%d", i), kind: w.Weighted(4, 4, 6, 2, 2, 2, 2), shape: w.Int(5)}
		if w.Chance(1, 3) {
			op.alias = fmt.Sprintf("alias%d", i)
		}
		for k := range w.Weighted(3, 4, 2) {
			a := exprArg{name: fmt.Sprintf("a%d", k), typ: w.Int(6), counter: w.Chance(1, 4)}
			if (a.typ == 3 || a.typ == 4) && w.Chance(1, 2) {
				a.def = 5
			}
			if k > 0 && op.args[k-1].typ >= 2 && op.args[k-1].typ < 5 {
				break // nothing can follow a list or an optional argument
			}
			op.args = append(op.args, a)
		}
		ops = append(ops, op)
	}
	// the expression on the command line
	args := []string{"app"}
	starts := w.Range(1, 2)
	for range starts {
		args = append(args, "s")
	}
	var insts []exprInst
	for range w.Weighted(1, 3, 4, 4, 2) {
		in := exprInst{op: ops[w.Int(len(ops))], at: len(args)}
		in.alias = in.op.alias != "" && w.Chance(1, 2)
		if in.alias {
			args = append(args, "-"+in.op.alias)
		} else {
			args = append(args, "-"+in.op.name)
		}
		for k, a := range in.op.args {
			n := 0
			var given []string
			var val string
			switch a.typ {
			case 0:
				n = w.Range(0, 12)
				given = []string{fmt.Sprint(n)}
				val = fmt.Sprint(n)
			case 4:
				n = a.def
				if w.Chance(1, 2) {
					n = w.Range(0, 12)
					given = []string{fmt.Sprint(n)}
				}
				val = fmt.Sprint(n)
			case 2:
				var l []string
				for i := range w.Range(1, 3) {
					l = append(l, fmt.Sprintf("l%d", i))
				}
				n = len(l)
				given = l
				val = fmt.Sprint(l)
			default:
				s := strings.Repeat("v", w.Range(1, 4))
				if a.typ == 3 && w.Chance(1, 2) {
					s = strings.Repeat("d", a.def)
				} else {
					given = []string{s}
				}
				n = len(s)
				val = fmt.Sprintf("%q", s)
			}
			args = append(args, given...)
			in.vals = append(in.vals, fmt.Sprintf("%s x%d %v %q", val, len(given), len(given) > 0, given))
			if k == 0 {
				in.n = n
			}
		}
		in.words = len(args) - in.at
		insts = append(insts, in)
	}
	bad := ""
	if w.Chance(1, 8) {
		bad = drawBadExpr(w, &args, insts, 1+starts)
	}
	prepend, appendB := w.Chance(1, 5), w.Chance(2, 3)
	custom := func(name string) *exprOp { return &exprOp{name: name, kind: exMap} }
	all := insts
	if prepend {
		all = append([]exprInst{{op: custom("first")}}, all...)
	}
	items := w.Range(0, 3)
	rounds := w.Range(1, 2)
	inj := &simErr{"evaluator"}

	// what should happen
	mod := &exprTrace{w: w, fail: -1, err: inj}
	model := func() []error {
		var res []error
		for range rounds {
			var err error
			for i := 0; i < items && err == nil; i++ {
				err = exprModel(mod, all, 0, i, appendB)
			}
			res = append(res, err)
		}
		return res
	}
	model()
	if len(mod.lines) > 0 && w.Chance(1, 2) {
		fail := w.Int(len(mod.lines))
		l := mod.lines[fail]
		if !strings.Contains(l, "visit") && !strings.Contains(l, "plain") && !strings.Contains(l, "after") {
			mod.fail = fail
		}
	}
	mod.lines = nil
	want := model()
	if mod.fail >= 0 {
		w.Fault("evaluator-error")
	}

	// the program
	got := &exprTrace{w: w, fail: mod.fail, err: inj}
	e := &expr.Expression{}
	byUses := w.Chance(1, 4)
	var extra []*expr.Expr
	for _, op := range ops {
		x := &expr.Expr{Name: op.name, Evaluate: op.evaluator(got)}
		if op.alias != "" {
			x.Aliases = []string{op.alias}
		}
		for _, a := range op.args {
			c := &cli.Arg{Name: a.name, NArg: 1}
			if a.counter {
				c.NArg = cli.ArgCount(1)
			}
			switch a.typ {
			case 0:
				c.Value = new(int)
			case 1:
				c.Value = new(string)
			case 2:
				c.Value, c.NArg = new([]string), cli.TakeUntilNextFlag
			case 3:
				p := new(string)
				*p = strings.Repeat("d", a.def)
				c.Value, c.NArg = p, 0
				if a.counter {
					c.NArg = cli.OptionalArg(func(s string) bool { return s == "" || s[0] != '-' })
				}
			case 5:
				c.Value, c.NArg = new(exprText), nil
			case 4:
				p := new(int)
				*p = a.def
				c.Value, c.NArg = p, 0
				if a.counter {
					c.NArg = cli.OptionalArg(func(s string) bool { return s == "" || s[0] != '-' })
				}
			}
			x.Args = append(x.Args, c)
		}
		if byUses {
			extra = append(extra, x)
		} else {
			e.Exprs = append(e.Exprs, x)
		}
	}
	var results []error
	xarg := &cli.Arg{Name: "e", Value: e}
	if byUses {
		xarg.Uses = expr.AddExprs(extra...)
	}
	names := ""
	app := &cli.App{
		Name: "app",
		Args: []*cli.Arg{{Name: "start", NArg: cli.TakeUntilNextFlag, Value: new([]string)}, xarg},
		Action: func(c *cli.Context) {
			ex := expr.FromContext(c, "e")
			var nn []string
			for b := range ex.Bindings() {
				nn = append(nn, b.Expr().Name)
			}
			names = strings.Join(nn, " ")
			if prepend {
				op := custom("first")
				ex.Prepend(expr.NewBinding(expr.EvaluatorOf(op.evaluator(got))))
			}
			if appendB {
				ex.Append(expr.NewBinding(expr.EvaluatorOf(func(v any, y func(any) error) error {
					if err := got.add("out %d", v); err != nil {
						return err
					}
					return y(v)
				})))
			}
			var in []any
			for i := range items {
				in = append(in, i)
			}
			for range rounds {
				results = append(results, ex.Evaluate(c, in...))
			}
		},
	}
	w.Ev("args %q ops %v items %d rounds %d", args, describeOps(ops), items, rounds)
	var err error
	pv := w.Call(func() { err = app.RunContext(context.Background(), args) })
	if bad != "" {
		w.Fault("malformed-expression")
		switch {
		case pv != nil:
			w.Fail("panic", "%q (%s) panicked: %v", args, bad, pv)
		case err == nil:
			w.Fail("accepted", "%q was accepted although it has %s", args, bad)
		case len(got.lines) > 0 || len(results) > 0:
			w.Fail("accepted", "%q was evaluated although it has %s", args, bad)
		case bad == exprRefused && !errors.Is(err, errExprText):
			w.Fail("result", "%q failed with %s, expected %v", args, errName(err), errExprText)
		}
		return
	}
	var wantNames []string
	for _, in := range insts {
		wantNames = append(wantNames, in.op.name)
	}
	for i := range max(len(mod.lines), len(got.lines)) {
		a, b := "(nothing)", "(nothing)"
		if i < len(mod.lines) {
			a = mod.lines[i]
		}
		if i < len(got.lines) {
			b = got.lines[i]
		}
		if a == b {
			w.Ev("%s", a)
			continue
		}
		w.Fail("evaluation", "%q: evaluation %d was %s, expected %s (result %v, panic %v)", args, i, b, a, err, pv)
		return
	}
	switch {
	case pv != nil:
		w.Fail("panic", "%q panicked: %v", args, pv)
	case err != nil:
		w.Fail("result", "%q failed: %v", args, err)
	case names != strings.Join(wantNames, " "):
		w.Fail("bindings", "%q has the operators %s", args, names)
	default:
		for i := range want {
			if i >= len(results) || want[i] != results[i] {
				w.Fail("result", "%q: evaluation round %d returned %v, expected %v", args, i, results, want)
				return
			}
		}
	}
	if len(insts) > 1 {
		w.Nontrivial = true
	}
}

const exprRefused = "an argument which the program's value refuses"

// drawBadExpr makes the command line one that has to be refused.
func drawBadExpr(w *core.World, args *[]string, insts []exprInst, from int) string {
	a := *args
	at := len(a)
	var ops []int
	for i := from; i < len(a); i++ {
		if strings.HasPrefix(a[i], "-") {
			ops = append(ops, i)
		}
	}
	if len(ops) > 0 && w.Chance(1, 2) {
		at = ops[w.Int(len(ops))]
	}
	insert := func(s ...string) {
		*args = append(append(append([]string{}, a[:at]...), s...), a[at:]...)
	}
	last := exprArg{typ: -1}
	if len(insts) > 0 {
		in := insts[len(insts)-1]
		if len(in.op.args) > 0 {
			last = in.op.args[len(in.op.args)-1]
		}
	}
	switch w.Int(5) {
	case 4:
		for _, in := range insts {
			if k := len(in.op.args) - 1; k >= 0 && in.op.args[k].typ == 5 {
				*args = slices.Clone(a)
				words := []string{"failtake", "failset", "failset"}
				if in.at+in.words == len(a) {
					words = append(words, "faildone")
				}
				(*args)[in.at+in.words-1] = core.Pick(w, words...)
				return exprRefused
			}
		}
	case 0:
		if len(insts) > 0 && at == len(a) {
			if last.typ < 2 || last.typ == 5 {
				insert(core.Pick(w, "zz", ""))
				return "a stray argument"
			}
		}
	case 1:
		if len(insts) > 0 && (last.typ == 0 || last.typ == 1 || last.typ == 5) && w.Chance(1, 2) {
			*args = a[:len(a)-1]
			return "a missing argument"
		}
		for _, in := range insts { // none of its arguments
			if len(in.op.args) > 0 && (in.op.args[0].typ < 2 || in.op.args[0].typ == 5) {
				*args = append(append([]string{}, a[:in.at+1]...), a[in.at+in.words:]...)
				return "no arguments of an operator that needs some"
			}
		}
	case 2:
		if len(insts) > 0 && last.typ == 0 && len(insts[len(insts)-1].op.args) == 1 {
			*args = append(a[:len(a)-1:len(a)-1], "x1")
			return "an invalid number"
		}
	}
	if len(insts) == 0 {
		at = len(a)
	}
	insert(core.Pick(w, "-nope", "-op", "-opx"))
	return "an unknown operator"
}

func describeOps(ops []*exprOp) string {
	var b strings.Builder
	for _, op := range ops {
		fmt.Fprintf(&b, "%s(kind %d shape %d args %v) ", op.name, op.kind, op.shape, op.args)
	}
	return b.String()
}

func init() {
	register(&core.Property{
		ID:        "C11",
		QuickRuns: 150000, ThoroughRuns: 3000000,
		Rule:      "the sequence of evaluations, the arguments each operator sees at every moment, and the results equal a recursive model of the pipeline",
		Real:      []string{"expr extension: parsing, bindings, evaluation", "cli package: raw parsing, values, contexts"},
		Scenarios: []core.Scenario{{Name: "expression", Weight: 1, Run: runExpr}},
	})
}
