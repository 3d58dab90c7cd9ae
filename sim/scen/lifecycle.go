package scen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"regexp"
	"strings"
	"syscall"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// ---- specification of a generated program ------------------------------------

type itemKind int

const (
	kEv        itemKind = iota // a step that records itself
	kPipe                      // nested pipeline
	kBefore                    // cli.Before(...)
	kAction                    // cli.At(ActionTiming, ...)
	kAfter                     // cli.After(...)
	kInit                      // cli.Initializer(...)
	kValidator                 // cli.At(ValidatorTiming, ...)
	kSetup                     // cli.Setup{...}
	kHookBefore
	kHookAfter
	kCustomize
	kMiddleware
	kSuppress
	kAddFlag
	kIfMatch
	kProto
	kCtxCall // c.Before/c.After/c.Action/c.Do called from inside a step
	kRecover
	kSleep    // the step takes simulated time
	kTimeout  // cli.Timeout
	kSignal   // cli.HandleSignal
	kCtxValue // cli.ContextValue
	kSetCtx   // cli.SetContext with a context of the caller's
	kCheck    // a step that stops when its context has ended
	kRaise    // a signal arrives while the step runs
	kValue    // ProvideValueInitializer
	kAddArg
	kAddCmd
	kRename  // Named: the target has had another name so far
	kTrigger // Trigger: the action of the option runs even if it's not given

	// only in the model: effects registered by the above
	kTimeoutNow
	kSignalNow
	kCancelNode
)

type item struct {
	kind    itemKind
	id      string
	form    int // variation of how the same thing is written
	n       int // middleware: how often next is called; ifmatch: 0 false, 1 true
	pattern string
	items   []*item
	// setup
	uses, before, action, after []*item
	optional                    bool
	args                        []*optSpec
	opt                         *optSpec
	cmd                         *cmdSpec
	timing                      cli.Timing
	swallow                     bool
	post                        string // middleware: step recorded after next
	dur                         time.Duration
	key, val                    string
	sigs                        []os.Signal
	node                        *mctx // model
}

type optSpec struct {
	name                        string
	first                       *string // the name before kRename
	arg                         bool
	nonPersistent               bool
	trigger, no                 bool
	noAt                        []int // like givenAt, for the mirror flag
	mirrorOf                    *optSpec
	uses, before, action, after []*item
	givenAt                     []int // per level of the invoked path: occurrences
	given                       int   // total, filled by the generator
}

type cmdSpec struct {
	name                        string
	first                       *string
	alias                       string
	uses, before, action, after []*item
	opts                        []*optSpec
	subs                        []*cmdSpec
	selected                    *cmdSpec
}

// ---- generation ------------------------------------------------------------------

type lgen struct {
	w       *core.World
	nID     int
	nFlag   int
	nCmd    int
	nVal    int
	inVal   bool
	inOpt   bool
	nArg    int
	level   int
	budget  int
	suppOK  bool
	exprs   bool
	allOpts []*optSpec
	ctx     bool // steps also watch and change the context
	sig     bool
}

func (g *lgen) id(prefix string) string {
	g.nID++
	return fmt.Sprintf("%s%d", prefix, g.nID)
}

// steps generates a pipeline for the given phase of a target.
func (g *lgen) steps(phase cli.Timing, isCmd bool, depth, maxLen int) []*item {
	n := g.w.Int(maxLen + 1)
	var res []*item
	for i := 0; i < n && g.budget > 0; i++ {
		g.budget--
		res = append(res, g.step(phase, isCmd, depth))
	}
	return res
}

func (g *lgen) step(phase cli.Timing, isCmd bool, depth int) *item {
	w := g.w
	ev := func() *item { return &item{kind: kEv, id: g.id("s"), form: w.Int(7)} }
	mw := func() *item {
		return &item{kind: kMiddleware, id: g.id("m"), n: core.Pick(w, 1, 1, 1, 0, 2), form: w.Int(3), post: core.Pick(w, "", "post"), swallow: g.suppOK && w.Chance(1, 3)}
	}
	if depth >= 3 {
		if w.Chance(1, 4) {
			return mw()
		}
		return ev()
	}
	sub := func(p cli.Timing) []*item {
		l := g.steps(p, isCmd, depth+1, 2)
		if len(l) == 0 {
			l = []*item{ev()}
		}
		return l
	}
	later := func(t cli.Timing) cli.Timing {
		if phase > t {
			return phase
		}
		return t
	}
	if g.ctx && w.Chance(2, 5) {
		if it := g.ctxStep(phase, isCmd); it != nil {
			return it
		}
	}
	switch k := w.Weighted(40, 8, 8, 6, 8, 3, 3, 8, 6, 6, 6, 8, 5, 5, 4, 4, 8, 2, 4, 3, 3, 3); k {
	case 1:
		it := &item{kind: kPipe, items: sub(phase), form: w.Int(3)}
		if w.Chance(1, 4) {
			// nested once more, with steps after it
			it = &item{kind: kPipe, items: []*item{it, ev()}, form: w.Int(3)}
			it = &item{kind: kPipe, items: []*item{it, ev()}, form: w.Int(3)}
		}
		return it
	case 2:
		if phase <= cli.BeforeTiming {
			return &item{kind: kBefore, items: sub(cli.BeforeTiming), form: w.Int(2)}
		}
	case 3:
		if phase <= cli.ActionTiming {
			return &item{kind: kAction, items: sub(cli.ActionTiming), form: w.Int(2)}
		}
	case 4:
		return &item{kind: kAfter, items: sub(cli.AfterTiming), form: w.Int(2)}
	case 5:
		if phase == cli.InitialTiming {
			return &item{kind: kInit, items: sub(phase), form: w.Int(2)}
		}
	case 6:
		if phase <= cli.BeforeTiming {
			return &item{kind: kValidator, items: sub(cli.BeforeTiming)}
		}
	case 7:
		s := &item{kind: kSetup, form: w.Int(2)}
		if phase <= cli.InitialTiming {
			s.uses = g.steps(cli.InitialTiming, isCmd, depth+1, 1)
		} else if w.Chance(1, 3) {
			s.optional = true
			s.uses = []*item{ev()}
		}
		if phase <= cli.BeforeTiming {
			s.before = g.steps(cli.BeforeTiming, isCmd, depth+1, 2)
		}
		if phase <= cli.ActionTiming {
			s.action = g.steps(cli.ActionTiming, isCmd, depth+1, 2)
		}
		s.after = g.steps(cli.AfterTiming, isCmd, depth+1, 2)
		if phase > cli.ActionTiming {
			// an action is always registered by Setup, which is too late here
			return ev()
		}
		if phase > cli.BeforeTiming {
			s.before = nil
		}
		return s
	case 8:
		if !g.inVal && phase <= cli.BeforeTiming {
			return &item{kind: kHookBefore, pattern: g.pattern(), items: []*item{ev()}, form: w.Int(2)}
		}
	case 9:
		if !g.inVal && phase <= cli.ActionTiming {
			return &item{kind: kHookAfter, pattern: g.pattern(), items: []*item{ev()}, form: w.Int(2)}
		}
	case 10:
		if !g.inVal && phase == cli.InitialTiming {
			l := []*item{ev()}
			if w.Chance(1, 2) {
				l = g.hookable()
			}
			return &item{kind: kCustomize, pattern: g.pattern(), items: l}
		}
	case 11:
		return mw()
	case 12:
		return &item{kind: kSuppress, items: sub(phase)}
	case 13:
		if phase == cli.InitialTiming && (isCmd && depth == 0 || !isCmd && !g.inVal && depth == 1) {
			o := g.opt(false)
			return &item{kind: kAddFlag, opt: o, form: w.Int(3)}
		}
	case 14:
		it := &item{kind: kIfMatch, n: w.Int(2), items: sub(phase), form: w.Int(4), timing: phase}
		if it.form == 3 {
			it.n = w.Int(len(filterModes))
		} else {
			it.optional = it.n == 1 && w.Chance(1, 3) // asserted
		}
		return it
	case 15:
		if phase == cli.InitialTiming {
			s := &item{kind: kProto}
			s.uses = g.steps(cli.InitialTiming, isCmd, depth+1, 1)
			s.before = g.steps(cli.BeforeTiming, isCmd, depth+1, 1)
			s.action = g.steps(cli.ActionTiming, isCmd, depth+1, 1)
			s.after = g.steps(cli.AfterTiming, isCmd, depth+1, 1)
			return s
		}
	case 16:
		t := later(core.Pick(w, cli.AfterTiming, cli.ActionTiming, cli.BeforeTiming))
		return &item{kind: kCtxCall, id: g.id("c"), timing: t, items: sub(t), form: w.Int(2)}
	case 17:
		return &item{kind: kRecover, items: sub(phase)}
	case 18:
		if phase == cli.InitialTiming && g.nVal < 6 && !g.inVal {
			g.nVal++
			g.inVal = true
			defer func(v bool) { g.inOpt = v }(g.inOpt)
			g.inOpt = false
			it := &item{kind: kValue, id: fmt.Sprintf("v%d", g.nVal), form: w.Int(2)}
			it.items = g.steps(cli.InitialTiming, false, max(2, depth+1), 3)
			for n := w.Weighted(4, 2, 1); n > 0; n-- {
				// the value can have args of its own
				it.args = append(it.args, g.opt(true))
			}
			onceAround(it.items)
			g.inVal = false
			return it
		}
	case 19:
		if isCmd && phase == cli.InitialTiming && depth == 0 && g.level < 2 && g.nCmd < 3 {
			g.nCmd++
			return &item{kind: kAddCmd, cmd: g.cmd(fmt.Sprintf("c%d", 5+g.nCmd), g.level+1), form: w.Int(2)}
		}
	case 20:
		if phase == cli.InitialTiming && (isCmd && depth == 0 || !isCmd && !g.inVal && depth == 1 || g.inVal && !g.inOpt && depth == 2) {
			return &item{kind: kAddArg, opt: g.opt(true), form: w.Int(2)}
		}
	case 21:
		if !isCmd && !g.inVal && phase <= cli.BeforeTiming {
			return &item{kind: kTrigger, form: w.Int(2)}
		}
	}
	return ev()
}

var simSignals = []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1}

func (g *lgen) ctxStep(phase cli.Timing, isCmd bool) *item {
	w := g.w
	at := func(it *item) *item {
		if phase == cli.InitialTiming {
			return &item{kind: kBefore, items: []*item{it}}
		}
		return it
	}
	switch w.Weighted(10, 6, 5, 2, 4, 5, 5) {
	case 0:
		return at(&item{kind: kSleep, id: g.id("z"), dur: time.Duration(w.Range(1, 12)) * 10 * time.Millisecond})
	case 1:
		if isCmd && phase <= cli.BeforeTiming {
			return &item{kind: kTimeout, dur: time.Duration(w.Range(0, 20))*10*time.Millisecond + 3*time.Millisecond}
		}
	case 2:
		return at(&item{kind: kCtxValue, key: core.Pick(w, "k1", "k2"), val: g.id("v"), form: w.Int(2)})
	case 3:
		return at(&item{kind: kSetCtx, key: core.Pick(w, "k1", "k2"), val: g.id("v"), form: w.Int(2)})
	case 4:
		return at(&item{kind: kCheck, id: g.id("q")})
	case 5:
		if g.sig && isCmd && phase <= cli.BeforeTiming {
			it := &item{kind: kSignal}
			for i, n := 0, w.Int(3); i < n; i++ {
				it.sigs = append(it.sigs, core.Pick(w, simSignals...))
			}
			return it
		}
	case 6:
		if g.sig {
			return at(&item{kind: kRaise, id: g.id("r"), sigs: []os.Signal{core.Pick(w, simSignals...)}})
		}
	}
	return nil
}

// hookable generates handlers that register further steps on whatever they match.
func (g *lgen) hookable() []*item {
	ev := func() *item { return &item{kind: kEv, id: g.id("h")} }
	switch g.w.Int(3) {
	case 0:
		return []*item{{kind: kBefore, items: []*item{ev()}}}
	case 1:
		return []*item{{kind: kAfter, items: []*item{ev()}}}
	default:
		return []*item{{kind: kAction, items: []*item{ev()}}, ev()}
	}
}

func (g *lgen) pattern() string {
	return core.Pick(g.w, "*", "-", "<>", "--f1", "c1", "c2", "root", "root c1", "--f2", "c1 -", "<a>", "<->", "<-v1>", "d1", "c3", "--f3", "--g1", "<b>", "* *", "c1 <a>")
}

func (g *lgen) opt(arg bool) *optSpec {
	w := g.w
	defer func(v bool) { g.inOpt = v }(g.inOpt)
	g.inOpt = true
	g.nFlag++
	o := &optSpec{arg: arg, name: fmt.Sprintf("f%d", g.nFlag)}
	if arg {
		o.name = "a"
		if n := g.nArg; n > 0 {
			o.name = fmt.Sprintf("a%d", n)
		}
		g.nArg++
	} else {
		o.nonPersistent = w.Chance(1, 4)
		o.no = w.Chance(1, 6)
	}
	o.trigger = w.Chance(1, 12) || g.inVal && w.Chance(1, 2)
	o.uses = g.steps(cli.InitialTiming, false, 1, 2)
	onceAround(o.uses)
	if w.Chance(1, 6) {
		o.first, o.uses = g.rename(o.name, strings.NewReplacer("f", "g", "a", "b").Replace(o.name), o.uses)
	}
	o.before = g.steps(cli.BeforeTiming, false, 1, 2)
	o.action = g.steps(cli.ActionTiming, false, 1, 2)
	o.after = g.steps(cli.AfterTiming, false, 1, 2)
	g.allOpts = append(g.allOpts, o)
	return o
}

// rename lets a target be defined with another name than it has in the end.
func (g *lgen) rename(name, first string, uses []*item) (*string, []*item) {
	w := g.w
	if w.Chance(1, 4) {
		first = ""
	}
	i := w.Int(len(uses) + 1)
	it := &item{kind: kRename, val: name, form: w.Int(2)}
	uses = append(append(append([]*item{}, uses[:i]...), it), uses[i:]...)
	onceAround(uses)
	return &first, uses
}

// onceAround makes middleware around the definition of a flag, arg or command run
// it once.
func onceAround(l []*item) {
	fl := flat(l)
	for i := len(fl) - 1; i >= 0; i-- {
		if k := fl[i].kind; k == kAddFlag || k == kAddArg || k == kAddCmd || k == kRename {
			for _, it := range fl[:i] {
				if it.kind == kMiddleware {
					it.n, it.swallow = 1, false
				}
			}
			return
		}
	}
}

func (g *lgen) cmd(name string, depth int) *cmdSpec {
	w := g.w
	level, nArg := g.level, g.nArg
	g.level, g.nArg = depth, 0
	defer func() { g.level, g.nArg = level, nArg }()
	c := &cmdSpec{name: name}
	if depth > 0 && w.Chance(1, 5) {
		c.alias = name + "x"
	}
	c.uses = g.steps(cli.InitialTiming, true, 0, 3)
	onceAround(c.uses)
	if depth > 0 && w.Chance(1, 8) {
		c.first, c.uses = g.rename(name, strings.Replace(name, "c", "d", 1), c.uses)
	}
	c.before = g.steps(cli.BeforeTiming, true, 0, 3)
	c.action = g.steps(cli.ActionTiming, true, 0, 3)
	c.after = g.steps(cli.AfterTiming, true, 0, 3)
	c.action = append(c.action, &item{kind: kEv, id: g.id("main")})
	for i, n := 0, w.Int(3); i < n; i++ {
		c.opts = append(c.opts, g.opt(false))
	}
	if depth < 2 {
		for i, n := 0, w.Int(3); i < n; i++ {
			c.subs = append(c.subs, g.cmd(fmt.Sprintf("c%d", i+1), depth+1))
		}
	}
	if len(subsOf(c)) > 0 {
		// args are for leaf commands here
		noArgs := func(l []*item) {
			for _, it := range flat(l) {
				if it.kind == kAddArg {
					*it = item{kind: kEv, id: g.id("s")}
				}
			}
		}
		noArgs(c.uses)
		for _, o := range flagsOf(c) {
			noArgs(o.uses)
		}
	} else if w.Chance(1, 3) {
		c.opts = append(c.opts, g.opt(true))
	}
	return c
}

// invocation decides the command line.
func (g *lgen) invocation(root *cmdSpec) ([]string, []*cmdSpec) {
	w := g.w
	path := []*cmdSpec{root}
	for c := root; len(subsOf(c)) > 0 && w.Chance(3, 4); {
		l := subsOf(c)
		c.selected = l[w.Int(len(l))]
		c = c.selected
		path = append(path, c)
	}
	args := []string{"root"}
	type vis struct {
		o     *optSpec
		level int
	}
	var visible []vis
	for lvl, c := range path {
		if lvl > 0 {
			if c.alias != "" && w.Chance(1, 2) {
				args = append(args, c.alias)
			} else {
				args = append(args, c.name)
			}
		}
		for _, o := range flagsOf(c) {
			if !o.arg {
				visible = append(visible, vis{o, lvl})
			}
		}
		for _, v := range visible {
			if len(v.o.givenAt) == 0 {
				v.o.givenAt = make([]int, len(path))
			}
			if v.level != lvl && v.o.nonPersistent {
				continue
			}
			k := w.Weighted(4, 3, 1)
			if v.o.no {
				if len(v.o.noAt) == 0 {
					v.o.noAt = make([]int, len(path))
				}
				n := w.Weighted(4, 3, 1)
				if v.level != lvl && k > 0 {
					n = 0
				}
				v.o.noAt[lvl] = n
				for ; n > 0; n-- {
					args = append(args, "--no-"+v.o.name)
				}
			}
			v.o.givenAt[lvl] = k
			v.o.given += k
			for ; k > 0; k-- {
				args = append(args, "--"+v.o.name)
			}
		}
		if c.selected == nil {
			for _, o := range flagsOf(c) {
				if o.arg {
					if !w.Chance(1, 2) {
						break
					}
					o.given = 1
					args = append(args, "v")
				}
			}
		}
	}
	return args, path
}

// flagsOf lists the flags and then the args of a command in definition order, with
// those added during initialization at the end.
func flagsOf(c *cmdSpec) []*optSpec {
	var flags, args []*optSpec
	put := func(o *optSpec) {
		if o.arg {
			args = append(args, o)
		} else {
			flags = append(flags, o)
		}
	}
	add := func(l []*item) {
		for _, it := range flat(l) {
			if it.kind == kAddFlag || it.kind == kAddArg {
				put(it.opt)
			}
		}
	}
	for _, o := range c.opts {
		put(o)
	}
	add(c.uses)
	for i, j := 0, 0; i < len(flags) || j < len(args); {
		for k := len(flags); i < k; i++ {
			add(flags[i].uses)
		}
		for k := len(args); j < k; j++ {
			add(args[j].uses)
		}
	}
	return append(flags, args...)
}

// subsOf lists the sub-commands of a command in definition order.
func subsOf(c *cmdSpec) []*cmdSpec {
	res := append([]*cmdSpec{}, c.subs...)
	for _, it := range flat(c.uses) {
		if it.kind == kAddCmd {
			res = append(res, it.cmd)
		}
	}
	return res
}

// ---- execution against the real library ---------------------------------------------

type recorder struct {
	w     *core.World
	log   []string
	n     int
	fail  int // index of the step that fails, -1 none
	err   error
	panik any
	onEv  func(k int)
	model bool
	watch bool // record the state of the context too
	start time.Time
	base  context.Context
	ctxs  []watched
	raise func(os.Signal) string
}

type watched struct {
	ctx   context.Context
	where string
}

// userTarget matches the places where steps count: the parts of the generated
// program, not the help and version commands and flags the library adds itself.
var userTarget = regexp.MustCompile(`(^|\s)(root|[cd][0-9]+|--[fg][0-9]+|<[ab][0-9]*>|<-v[0-9]+>) (init|before|action|after)$`)

// flagAction matches the steps that also tell the value of their flag.
var flagAction = regexp.MustCompile(`--f[0-9]+ action$`)

func (r *recorder) step(id, where, state string) error {
	if !userTarget.MatchString(where) {
		return nil
	}
	r.log = append(r.log, id+" @ "+where+state)
	k := r.n
	r.n++
	if !r.model {
		r.w.Step()
		r.w.Ev("step %s @ %s%s", id, where, state)
		if r.onEv != nil {
			r.onEv(k)
		}
	}
	if k == r.fail {
		if !r.model {
			r.w.Fault("step-error")
		}
		if r.panik != nil {
			panic(r.panik)
		}
		return r.err
	}
	return nil
}

func whereOf(c *cli.Context) string {
	return strings.Join(c.Path(), " ") + " " + timingWord(c.Timing())
}

type ctxKey string

// state describes what a step sees of its context.
func (r *recorder) state(c *cli.Context) string {
	if flagAction.MatchString(whereOf(c)) {
		return fmt.Sprint(" =", c.Bool(""), r.watched(c))
	}
	return r.watched(c)
}

func (r *recorder) watched(c *cli.Context) string {
	if !r.watch || !userTarget.MatchString(whereOf(c)) {
		return ""
	}
	dl := "-"
	if d, ok := c.Deadline(); ok {
		dl = d.Sub(r.start).String()
	}
	done := false
	select {
	case <-c.Done():
		done = true
	default:
	}
	r.ctxs = append(r.ctxs, watched{c.Context(), whereOf(c)})
	return ctxState(time.Since(r.start), dl, done, c.Err(), context.Cause(c), c.Value(ctxKey("k1")), c.Context().Value(ctxKey("k2")))
}

func ctxState(now time.Duration, dl string, done bool, err, cause error, k1, k2 any) string {
	return fmt.Sprintf(" | t=%v deadline=%s done=%v err=%v k1=%v k2=%v", now, dl, done, err, k1, k2)
}

func timingWord(t cli.Timing) string {
	switch t {
	case cli.InitialTiming:
		return "init"
	case cli.BeforeTiming:
		return "before"
	case cli.ActionTiming:
		return "action"
	case cli.AfterTiming:
		return "after"
	}
	return fmt.Sprint(int(t))
}

type legacyStep struct {
	f func(*cli.Context) error
}

func (l legacyStep) Execute(c *cli.Context) error { return l.f(c) }

type customAction struct {
	f func(context.Context) error
}

func (a customAction) Execute(c context.Context) error { return a.f(c) }

func (r *recorder) build(items []*item) []cli.Action {
	res := make([]cli.Action, 0, len(items))
	for _, it := range items {
		res = append(res, r.one(it))
	}
	return res
}

func pipeOf(l []cli.Action) cli.ActionPipeline {
	args := make([]any, len(l))
	for i := range l {
		args[i] = l[i]
	}
	return cli.Pipeline(args...)
}

// anyOf gives the value for a Uses/Before/Action/After field.
func (r *recorder) anyOf(items []*item) any {
	if len(items) == 0 {
		return nil
	}
	return pipeOf(r.build(items))
}

func (r *recorder) one(it *item) cli.Action {
	switch it.kind {
	case kBefore, kAction, kAfter, kInit, kCtxCall:
		if directly(it) {
			return r.direct(it)
		}
	}
	switch it.kind {
	case kEv:
		do := func(c *cli.Context) error { return r.step(it.id, whereOf(c), r.state(c)) }
		switch it.form {
		case 1:
			return cli.ActionOf(do)
		case 2:
			return cli.ActionOf(func(c context.Context) error { return do(cli.FromContext(c)) })
		case 3:
			return cli.ActionOf(legacyStep{do})
		case 4:
			return customAction{func(c context.Context) error { return do(cli.FromContext(c)) }}
		case 5:
			return cli.ActionFunc(func(c *cli.Context) error { return c.Do(cli.ActionFunc(do)) })
		case 6:
			return cli.ActionFunc(func(c *cli.Context) error {
				return cli.Do(c, cli.ActionOf(func(ctx context.Context) error { return do(cli.FromContext(ctx)) }))
			})
		}
		return cli.ActionFunc(do)
	case kPipe:
		l := r.build(it.items)
		switch it.form {
		case 1:
			p := cli.Pipeline()
			for _, a := range l {
				p = p.Append(a)
			}
			return p
		case 2:
			return cli.ActionPipeline(l)
		}
		return pipeOf(l)
	case kBefore:
		if it.form == 1 {
			return cli.At(cli.BeforeTiming, pipeOf(r.build(it.items)))
		}
		return cli.Before(pipeOf(r.build(it.items)))
	case kAction:
		return cli.At(cli.ActionTiming, pipeOf(r.build(it.items)))
	case kAfter:
		if it.form == 1 {
			return cli.At(cli.AfterTiming, pipeOf(r.build(it.items)))
		}
		return cli.After(pipeOf(r.build(it.items)))
	case kInit:
		if it.form == 1 {
			return cli.At(cli.InitialTiming, pipeOf(r.build(it.items)))
		}
		return cli.Initializer(pipeOf(r.build(it.items)))
	case kValidator:
		return cli.At(cli.ValidatorTiming, pipeOf(r.build(it.items)))
	case kSetup:
		s := cli.Setup{Uses: r.anyOf(it.uses), Before: r.anyOf(it.before), Action: r.anyOf(it.action), After: r.anyOf(it.after), Optional: it.optional}
		if it.form == 1 && it.uses == nil {
			return s
		}
		return s
	case kProto:
		return cli.Prototype{Setup: cli.Setup{Uses: r.anyOf(it.uses), Before: r.anyOf(it.before), Action: r.anyOf(it.action), After: r.anyOf(it.after)}}
	case kHookBefore:
		h := pipeOf(r.build(it.items))
		if it.form == 1 {
			return cli.Hook(cli.BeforeTiming, cli.IfMatch(cli.PatternFilter(it.pattern), h))
		}
		return cli.HookBefore(it.pattern, h)
	case kHookAfter:
		h := pipeOf(r.build(it.items))
		if it.form == 1 {
			return cli.ActionFunc(func(c *cli.Context) error { return c.HookAfter(it.pattern, h) })
		}
		return cli.HookAfter(it.pattern, h)
	case kCustomize:
		return cli.Customize(it.pattern, pipeOf(r.build(it.items)))
	case kMiddleware:
		body := func(c *cli.Context, next cli.Action) error {
			if err := r.step(it.id, whereOf(c), r.state(c)); err != nil {
				return err
			}
			for i := 0; i < it.n; i++ {
				err := cli.Do(c, next)
				if err != nil && !it.swallow {
					return err
				}
			}
			if it.post != "" {
				return r.step(it.id+"post", whereOf(c), r.state(c))
			}
			return nil
		}
		switch it.form {
		case 1:
			return cli.ActionOf(func(next cli.Action) cli.Action {
				return cli.ActionFunc(func(c *cli.Context) error { return body(c, next) })
			})
		case 2:
			return customMiddleware{body}
		}
		return cli.ActionOf(body)
	case kSuppress:
		return cli.SuppressError(pipeOf(r.build(it.items)))
	case kRecover:
		return cli.Recover(pipeOf(r.build(it.items)))
	case kAddFlag:
		f := r.flag(it.opt)
		switch it.form {
		case 1:
			return cli.AddFlags(f)
		case 2:
			return cli.ActionFunc(func(c *cli.Context) error { return c.AddFlag(f) })
		}
		return cli.AddFlag(f)
	case kAddArg:
		return cli.ActionFunc(func(c *cli.Context) error {
			// each time an arg of its own
			if it.form == 1 {
				return c.AddArg(r.arg(it.opt))
			}
			return c.Do(cli.AddArg(r.arg(it.opt)))
		})
	case kAddCmd:
		cmd := r.command(it.cmd)
		if it.form == 1 {
			return cli.ActionFunc(func(c *cli.Context) error { return c.AddCommand(cmd) })
		}
		return cli.AddCommand(cmd)
	case kTrigger:
		if it.form == 1 {
			return cli.ActionFunc((*cli.Context).Trigger)
		}
		return cli.Trigger
	case kRename:
		if it.form == 1 {
			return cli.ActionFunc(func(c *cli.Context) error { return c.SetName(it.val) })
		}
		return cli.Named(it.val)
	case kValue:
		p := pipeOf(r.build(it.items))
		if it.form == 1 {
			return cli.ActionFunc(func(c *cli.Context) error { return c.ProvideValueInitializer(r.value(it), it.id, p...) })
		}
		if it.withArgs() {
			// each time with a value of its own
			return cli.ActionFunc(func(c *cli.Context) error { return c.Do(cli.ProvideValueInitializer(r.value(it), it.id, p)) })
		}
		return cli.ProvideValueInitializer(r.value(it), it.id, p)
	case kIfMatch:
		p := pipeOf(r.build(it.items))
		var f cli.ContextFilter
		switch {
		case it.form == 3:
			f = filterModes[it.n].mode
		case it.form == 1:
			f = cli.ContextFilterFunc(func(*cli.Context) bool { return it.n == 1 })
		case it.n == 1:
			f = it.timing
		default:
			f = otherTiming(it.timing)
		}
		if it.optional {
			return cli.Assert(f, p)
		}
		return cli.IfMatch(f, p)
	case kSleep:
		return cli.ActionFunc(func(c *cli.Context) error {
			if err := r.step(it.id, whereOf(c), r.state(c)); err != nil {
				return err
			}
			time.Sleep(it.dur)
			return r.step(it.id+"post", whereOf(c), r.state(c))
		})
	case kCheck:
		return cli.ActionOf(func(ctx context.Context) error {
			c := cli.FromContext(ctx)
			if err := r.step(it.id, whereOf(c), r.state(c)); err != nil {
				return err
			}
			return ctx.Err()
		})
	case kRaise:
		return cli.ActionFunc(func(c *cli.Context) error {
			what := r.raise(it.sigs[0])
			return r.step(it.id, whereOf(c), r.state(c)+what)
		})
	case kTimeout:
		return cli.Timeout(it.dur)
	case kSignal:
		return cli.HandleSignal(it.sigs...)
	case kCtxValue:
		if it.form == 1 {
			return cli.ActionFunc(func(c *cli.Context) error { return c.SetContextValue(ctxKey(it.key), it.val) })
		}
		return cli.ContextValue(ctxKey(it.key), it.val)
	case kSetCtx:
		if it.form == 1 {
			return cli.ActionFunc(func(c *cli.Context) error {
				return c.SetContext(context.WithValue(c.Context(), ctxKey(it.key), it.val))
			})
		}
		return cli.SetContext(context.WithValue(r.base, ctxKey(it.key), it.val))
	case kCtxCall:
		p := pipeOf(r.build(it.items))
		return cli.ActionFunc(func(c *cli.Context) error {
			if err := r.step(it.id, whereOf(c), r.state(c)); err != nil {
				return err
			}
			switch it.timing {
			case cli.BeforeTiming:
				return c.Before(p)
			case cli.ActionTiming:
				return c.Action(p)
			case cli.AfterTiming:
				return c.After(p)
			}
			return c.At(it.timing, p)
		})
	}
	panic("unreachable")
}

// value is what ProvideValueInitializer initializes.
func (r *recorder) value(it *item) any {
	if !it.withArgs() {
		return new(int)
	}
	v := new(valueWithArgs)
	for _, o := range it.args {
		v.args = append(v.args, r.arg(o))
	}
	return v
}

type valueWithArgs struct{ args []*cli.Arg }

func (v *valueWithArgs) LocalArgs() []*cli.Arg { return v.args }

func (v *valueWithArgs) SetLocalArgs(args []*cli.Arg) error {
	v.args = args
	return nil
}

func (it *item) withArgs() bool {
	for _, x := range flat(it.items) {
		if x.kind == kAddArg {
			return true
		}
	}
	return len(it.args) > 0
}

// directly tells that the only step of an item is handed over by itself rather
// than as a pipeline, which matters for middleware.
func directly(it *item) bool {
	return it.form == 1 && len(it.items) == 1 && (it.kind != kCtxCall || it.timing == cli.ActionTiming)
}

func (r *recorder) direct(it *item) cli.Action {
	a := r.one(it.items[0])
	if p, ok := a.(cli.ActionPipeline); ok {
		a = cli.Pipeline(p)
	}
	switch it.kind {
	case kBefore:
		return cli.Before(a)
	case kAction:
		return cli.At(cli.ActionTiming, a)
	case kAfter:
		return cli.After(a)
	case kInit:
		return cli.Initializer(a)
	}
	return cli.ActionFunc(func(c *cli.Context) error {
		if err := r.step(it.id, whereOf(c), r.state(c)); err != nil {
			return err
		}
		return c.Action(a)
	})
}

type customMiddleware struct {
	f func(*cli.Context, cli.Action) error
}

func (m customMiddleware) Execute(c context.Context) error { return m.f(cli.FromContext(c), nil) }
func (m customMiddleware) ExecuteWithNext(c context.Context, next cli.Action) error {
	return m.f(cli.FromContext(c), next)
}

// filterModes are the filters by the kind of target.
var filterModes = []struct {
	mode  cli.FilterModes
	match func(*mTarget) bool
}{
	{cli.Anything, func(t *mTarget) bool { return true }},
	{cli.AnyFlag, func(t *mTarget) bool { return !t.isCmd && !t.isArg && !t.isVal }},
	{cli.AnyArg, func(t *mTarget) bool { return t.isArg }},
	{cli.AnyCommand, func(t *mTarget) bool { return t.isCmd }},
	{cli.HasValue, func(t *mTarget) bool { return !t.isCmd }},
	{cli.RootCommand, func(t *mTarget) bool { return t.isCmd && t.parent == nil }},
}

func otherTiming(t cli.Timing) cli.Timing {
	if t == cli.AfterTiming {
		return cli.BeforeTiming
	}
	return cli.AfterTiming
}

func initialName(name string, first *string) string {
	if first != nil {
		return *first
	}
	return name
}

func (r *recorder) flag(o *optSpec) *cli.Flag {
	f := &cli.Flag{Name: initialName(o.name, o.first), Value: new(bool), Uses: r.anyOf(o.uses), Before: r.anyOf(o.before), Action: r.anyOf(o.action), After: r.anyOf(o.after)}
	if o.nonPersistent {
		f.Options = cli.NonPersistent
	}
	if o.no {
		f.Options |= cli.No
	}
	if o.trigger {
		f.Options |= cli.Trigger
	}
	return f
}

func (r *recorder) arg(o *optSpec) *cli.Arg {
	var opts cli.Option
	if o.trigger {
		opts = cli.Trigger
	}
	return &cli.Arg{Options: opts, Name: initialName(o.name, o.first), Value: new(string), NArg: 0, Uses: r.anyOf(o.uses), Before: r.anyOf(o.before), Action: r.anyOf(o.action), After: r.anyOf(o.after)}
}

func (r *recorder) command(c *cmdSpec) *cli.Command {
	cmd := &cli.Command{Name: initialName(c.name, c.first), Uses: r.anyOf(c.uses), Before: r.anyOf(c.before), Action: r.anyOf(c.action), After: r.anyOf(c.after)}
	if c.alias != "" {
		cmd.Aliases = []string{c.alias}
	}
	for _, o := range c.opts {
		if o.arg {
			cmd.Args = append(cmd.Args, r.arg(o))
		} else {
			cmd.Flags = append(cmd.Flags, r.flag(o))
		}
	}
	for _, s := range c.subs {
		cmd.Subcommands = append(cmd.Subcommands, r.command(s))
	}
	return cmd
}

// ---- the reference model ---------------------------------------------------------------

var errTooLate = errors.New("model: too late")

type mTarget struct {
	name   string
	isCmd  bool
	isArg  bool
	isVal  bool
	cmd    *cmdSpec
	opt    *optSpec
	parent *mTarget
	flags  []*mTarget
	args   []*mTarget
	subs   []*mTarget
	vals   []*mTarget

	defInit                        []*item
	defValid, defBefore            []*item
	defAction, defAfter            []*item
	hookInit, hookBefore, hookAftr []*item
	recovered                      string
	trigger                        bool
	mirrorOf                       *mTarget
	ref                            *mctx
}

type model struct {
	r *recorder
	// the panic that Recover swallowed is reported by the command's after phase

	level int // of the command on the invoked path whose phases run
	on    map[*optSpec]bool
	base  *mctx
	now   time.Duration
	sigOn []*mctx // signal registrations in force
	nodes []*mctx
	refs  []*mctx // what each step saw, in order

	async     os.Signal // arrives at an instant rather than at a step
	asyncAt   time.Duration
	asyncFate string
}

// mctx is a context in the model: what ends it, and when.
type mctx struct {
	parent   *mctx
	key, val string
	deadline time.Duration // -1 none
	ended    time.Duration // -1 not yet
	sigs     []os.Signal
	isSig    bool
}

func (m *model) newCtx(parent *mctx) *mctx {
	n := &mctx{parent: parent, deadline: -1, ended: -1}
	m.nodes = append(m.nodes, n)
	return n
}

func (n *mctx) value(k string) any {
	for ; n != nil; n = n.parent {
		if n.key == k {
			return n.val
		}
	}
	return nil
}

func (n *mctx) endedBy(now time.Duration) error {
	first, err := time.Duration(-1), error(nil)
	for ; n != nil; n = n.parent {
		if n.ended >= 0 && n.ended <= now && (err == nil || n.ended < first) {
			first, err = n.ended, context.Canceled
		}
		if n.deadline >= 0 && n.deadline <= now && (err == nil || n.deadline < first) {
			first, err = n.deadline, context.DeadlineExceeded
		}
	}
	return err
}

func (m *model) state(t *mTarget, at cli.Timing) string {
	if where := strings.Join(t.path(), " ") + " " + timingWord(at); flagAction.MatchString(where) {
		return fmt.Sprint(" =", m.on[t.opt], m.watched(t, at))
	}
	return m.watched(t, at)
}

func (m *model) watched(t *mTarget, at cli.Timing) string {
	if !m.r.watch || !userTarget.MatchString(strings.Join(t.path(), " ")+" "+timingWord(at)) {
		return ""
	}
	dl := time.Duration(-1)
	for n := t.ref; n != nil; n = n.parent {
		if n.deadline >= 0 && (dl < 0 || n.deadline < dl) {
			dl = n.deadline
		}
	}
	ds := "-"
	if dl >= 0 {
		ds = dl.String()
	}
	err := t.ref.endedBy(m.now)
	m.refs = append(m.refs, t.ref)
	return ctxState(m.now, ds, err != nil, err, nil, t.ref.value("k1"), t.ref.value("k2"))
}

func (m *model) cancel(n *mctx) {
	if n.ended < 0 {
		n.ended = m.now
	}
	for i, x := range m.sigOn {
		if x == n {
			m.sigOn = append(append([]*mctx{}, m.sigOn[:i]...), m.sigOn[i+1:]...)
			break
		}
	}
}

// arrive delivers a signal in the model and tells whether anyone handles it.
func (m *model) arrive(sig os.Signal) string {
	handled := false
	for _, n := range m.sigOn {
		match := len(n.sigs) == 0
		for _, s := range n.sigs {
			match = match || s == sig
		}
		if match {
			handled = true
			if n.ended < 0 {
				n.ended = m.now
			}
		}
	}
	return signalFate(handled)
}

func signalFate(handled bool) string {
	if handled {
		return " signal handled"
	}
	return " signal ends the process"
}

func (t *mTarget) path() []string {
	var p []string
	for x := t; x != nil; x = x.parent {
		p = append([]string{x.name}, p...)
	}
	return p
}

func matchPat(pattern string, path []string) bool {
	parts := strings.Fields(pattern)
	for i, j := len(parts)-1, len(path)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
		p, f := parts[i], path[j]
		ok := false
		switch p {
		case "*":
			ok = !strings.HasPrefix(f, "-") && !strings.HasPrefix(f, "<")
		case "-":
			ok = strings.HasPrefix(f, "-")
		case "<>":
			ok = strings.HasPrefix(f, "<") && !strings.HasPrefix(f, "<-")
		case "<->":
			ok = strings.HasPrefix(f, "<-")
		default:
			ok = p == f
		}
		if !ok {
			return false
		}
	}
	return true
}

// run executes a pipeline as a list, where middleware controls what follows it.
func (m *model) run(items []*item, t *mTarget, at cli.Timing) error {
	items = flat(items)
	for i, it := range items {
		if it.kind == kMiddleware {
			return m.middleware(it, t, at, func() error { return m.run(items[i+1:], t, at) })
		}
		if err := m.one(it, t, at); err != nil {
			return err
		}
	}
	return nil
}

func flat(items []*item) []*item {
	var res []*item
	for _, it := range items {
		if it.kind == kPipe {
			res = append(res, flat(it.items)...)
		} else {
			res = append(res, it)
		}
	}
	return res
}

func (m *model) step(id string, t *mTarget, at cli.Timing) error {
	return m.r.step(id, strings.Join(t.path(), " ")+" "+timingWord(at), m.state(t, at))
}

func (m *model) middleware(it *item, t *mTarget, at cli.Timing, next func() error) error {
	if err := m.step(it.id, t, at); err != nil {
		return err
	}
	for i := 0; i < it.n; i++ {
		if err := next(); err != nil && !it.swallow {
			return err
		}
	}
	if it.post != "" {
		return m.step(it.id+"post", t, at)
	}
	return nil
}

// act registers or runs steps for a phase.
func (m *model) act(t *mTarget, at, want cli.Timing, validator, direct bool, items []*item) error {
	if at < want {
		fl := flat(items)
		switch {
		case validator:
			t.defValid = append(t.defValid, fl...)
		case want == cli.BeforeTiming:
			t.defBefore = append(t.defBefore, fl...)
		case want == cli.ActionTiming && direct && len(items) == 1 && items[0].kind == kMiddleware:
			// middleware registered by itself wraps what is registered already
			t.defAction = append(append([]*item{}, fl...), t.defAction...)
		case want == cli.ActionTiming:
			t.defAction = append(t.defAction, fl...)
		case want == cli.AfterTiming:
			t.defAfter = append(t.defAfter, fl...)
		}
		return nil
	}
	if at == want {
		return m.run(items, t, at)
	}
	return errTooLate
}

func (m *model) one(it *item, t *mTarget, at cli.Timing) error {
	switch it.kind {
	case kEv:
		return m.step(it.id, t, at)
	case kBefore:
		return m.act(t, at, cli.BeforeTiming, false, directly(it), it.items)
	case kAction:
		return m.act(t, at, cli.ActionTiming, false, directly(it), it.items)
	case kAfter:
		return m.act(t, at, cli.AfterTiming, false, directly(it), it.items)
	case kInit:
		return m.act(t, at, cli.InitialTiming, false, directly(it), it.items)
	case kValidator:
		return m.act(t, at, cli.BeforeTiming, true, false, it.items)
	case kSetup, kProto:
		if it.uses != nil {
			if at == cli.InitialTiming {
				if err := m.run(it.uses, t, at); err != nil {
					return err
				}
			} else if !it.optional {
				return errTooLate
			}
		}
		if it.before != nil {
			if err := m.act(t, at, cli.BeforeTiming, false, false, it.before); err != nil {
				return err
			}
		}
		if err := m.act(t, at, cli.ActionTiming, false, false, it.action); err != nil {
			return err
		}
		return m.act(t, at, cli.AfterTiming, false, false, it.after)
	case kHookBefore:
		t.hookBefore = append(t.hookBefore, it)
	case kHookAfter:
		t.hookAftr = append(t.hookAftr, it)
	case kCustomize:
		t.hookInit = append(t.hookInit, it)
	case kMiddleware:
		return m.middleware(it, t, at, func() error { return nil })
	case kSuppress:
		m.run(it.items, t, at)
	case kRecover:
		return m.recovering(it, t, at)
	case kAddFlag:
		owner := t.owner()
		owner.flags = append(owner.flags, m.option(it.opt, owner))
	case kAddArg:
		owner := t
		if !t.isVal {
			owner = t.owner()
		}
		owner.args = append(owner.args, m.option(it.opt, owner))
	case kAddCmd:
		t.subs = append(t.subs, m.target(it.cmd, t))
	case kTrigger:
		t.trigger = true
	case kRename:
		t.name = it.val
		if !t.isCmd {
			t.name = optName(it.val, t.isArg)
		}
	case kValue:
		v := &mTarget{name: "<-" + it.id + ">", isVal: true, parent: t, opt: &optSpec{uses: it.items}}
		for _, o := range it.args {
			v.args = append(v.args, m.option(o, v))
		}
		t.vals = append(t.vals, v)
	case kIfMatch:
		if it.form == 3 {
			if filterModes[it.n].match(t) {
				return m.run(it.items, t, at)
			}
			return nil
		}
		if it.n == 1 {
			return m.run(it.items, t, at)
		}
	case kSleep:
		if err := m.step(it.id, t, at); err != nil {
			return err
		}
		end := m.now + it.dur
		if m.async != nil && m.asyncAt > m.now && m.asyncAt < end {
			m.now = m.asyncAt
			m.asyncFate += m.arrive(m.async)
		}
		m.now = end
		return m.step(it.id+"post", t, at)
	case kCheck:
		if err := m.step(it.id, t, at); err != nil {
			return err
		}
		return t.ref.endedBy(m.now)
	case kRaise:
		what := m.arrive(it.sigs[0])
		return m.r.step(it.id, strings.Join(t.path(), " ")+" "+timingWord(at), m.state(t, at)+what)
	case kTimeout:
		return m.act(t, at, cli.BeforeTiming, false, false, []*item{{kind: kTimeoutNow, dur: it.dur}})
	case kSignal:
		return m.act(t, at, cli.BeforeTiming, false, false, []*item{{kind: kSignalNow, sigs: it.sigs}})
	case kTimeoutNow:
		t.ref = m.newCtx(t.ref)
		t.ref.deadline = m.now + it.dur
		return m.act(t, at, cli.AfterTiming, false, false, []*item{{kind: kCancelNode, node: t.ref}})
	case kSignalNow:
		t.ref = m.newCtx(t.ref)
		t.ref.sigs, t.ref.isSig = it.sigs, true
		m.sigOn = append(m.sigOn, t.ref)
		return m.act(t, at, cli.AfterTiming, false, false, []*item{{kind: kCancelNode, node: t.ref}})
	case kCancelNode:
		m.cancel(it.node)
	case kCtxValue:
		t.ref = m.newCtx(t.ref)
		t.ref.key, t.ref.val = it.key, it.val
	case kSetCtx:
		from := m.base
		if it.form == 1 {
			from = t.ref
		}
		t.ref = m.newCtx(from)
		t.ref.key, t.ref.val = it.key, it.val
	case kCtxCall:
		if err := m.step(it.id, t, at); err != nil {
			return err
		}
		return m.act(t, at, it.timing, false, directly(it), it.items)
	}
	return nil
}

var errRecovered = errors.New("recovered a panic")

const panicText = "injected %v panic 100%"

func (m *model) recovering(it *item, t *mTarget, at cli.Timing) (err error) {
	defer func() {
		if p := recover(); p != nil {
			owner := t.owner()
			owner.recovered = fmt.Sprint(p)
			err = nil
		}
	}()
	return m.run(it.items, t, at)
}

func (m *model) hooks(hooks []*item, t *mTarget, at cli.Timing) error {
	for _, h := range hooks {
		if matchPat(h.pattern, t.path()) {
			if err := m.run(h.items, t, at); err != nil {
				return err
			}
		}
	}
	return nil
}

func optName(n string, arg bool) string {
	if arg {
		return "<" + n + ">"
	}
	return "--" + n
}

func (m *model) option(o *optSpec, parent *mTarget) *mTarget {
	return &mTarget{name: optName(initialName(o.name, o.first), o.arg), opt: o, parent: parent, isArg: o.arg}
}

func (m *model) target(c *cmdSpec, parent *mTarget) *mTarget {
	t := &mTarget{name: initialName(c.name, c.first), isCmd: true, cmd: c, parent: parent}
	for _, o := range c.opts {
		if n := m.option(o, t); o.arg {
			t.args = append(t.args, n)
		} else {
			t.flags = append(t.flags, n)
		}
	}
	for _, s := range c.subs {
		t.subs = append(t.subs, m.target(s, t))
	}
	return t
}

// owner is the command t belongs to.
func (t *mTarget) owner() *mTarget {
	for !t.isCmd {
		t = t.parent
	}
	return t
}

func (t *mTarget) ancestors() []*mTarget { // outermost first
	var res []*mTarget
	for p := t.parent; p != nil; p = p.parent {
		res = append([]*mTarget{p}, res...)
	}
	return res
}

func (m *model) init(t *mTarget) error {
	t.ref = m.base
	at := cli.InitialTiming
	for _, a := range t.ancestors() {
		if err := m.hooks(a.hookInit, t, at); err != nil {
			return err
		}
	}
	if !t.isCmd {
		if err := m.run(t.opt.uses, t, at); err != nil {
			return err
		}
		if t.opt.no {
			owner := t.owner()
			no := m.option(&optSpec{name: "no-" + t.opt.name, givenAt: t.opt.noAt}, owner)
			no.mirrorOf = t
			owner.flags = append(owner.flags, no)
		}
		t.trigger = t.trigger || t.opt.trigger
		if err := m.each(t.args, m.initPart); err != nil {
			return err
		}
		return m.each(t.vals, m.init)
	}
	if err := m.run(t.cmd.uses, t, at); err != nil {
		return err
	}
	// the parts the library adds to the root command itself carry no steps of
	// their own, but hooks see them
	if t.parent == nil {
		for _, n := range []string{"--help", "--version", "--zsh-completion"} {
			t.flags = append(t.flags, m.option(&optSpec{name: n[2:]}, t))
		}
	}
	if len(t.subs) > 0 {
		if t.parent == nil {
			for _, n := range []string{"help", "version"} {
				t.subs = append(t.subs, &mTarget{name: n, isCmd: true, parent: t, cmd: &cmdSpec{}})
			}
		}
		t.args = append(t.args, m.option(&optSpec{name: "command", arg: true}, t))
	}
	for i, j := 0, 0; i < len(t.flags) || j < len(t.args); {
		flags := t.flags[i:]
		i = len(t.flags)
		if err := m.each(flags, m.initPart); err != nil {
			return err
		}
		args := t.args[j:]
		j = len(t.args)
		if err := m.each(args, m.initPart); err != nil {
			return err
		}
	}
	if err := m.each(t.subs, m.initPart); err != nil {
		return err
	}
	return m.each(t.vals, m.init)
}

// initPart initializes a flag, arg or sub-command; the customizations apply again
// when it has got another name.
func (m *model) initPart(t *mTarget) error {
	name := t.name
	if err := m.init(t); err != nil || t.name == name {
		return err
	}
	for _, a := range t.ancestors() {
		if err := m.hooks(a.hookInit, t, cli.InitialTiming); err != nil {
			return err
		}
	}
	return nil
}

func (m *model) each(l []*mTarget, f func(*mTarget) error) error {
	for _, t := range l {
		if err := f(t); err != nil {
			return err
		}
	}
	return nil
}

func (m *model) before(t *mTarget) error {
	at := cli.BeforeTiming
	if !t.isCmd {
		t.ref = t.parent.ref
	}
	if t.isCmd {
		if err := m.hooks(t.hookBefore, t, at); err != nil {
			return err
		}
	}
	if err := m.run(append(append([]*item{}, t.defValid...), t.defBefore...), t, at); err != nil {
		return err
	}
	user := []*item{}
	if t.isCmd {
		user = t.cmd.before
	} else {
		user = t.opt.before
	}
	if err := m.run(user, t, at); err != nil {
		return err
	}
	if t.isCmd {
		// the words of the command may give flags of its ancestors
		for _, a := range t.ancestors() {
			for _, o := range a.flags {
				if len(o.opt.givenAt) <= m.level || o.opt.givenAt[m.level] == 0 {
					continue
				}
				view := *o
				view.parent, view.ref = t, t.ref
				err := m.run(o.defValid, &view, at)
				o.defAction, o.defAfter, o.hookBefore, o.hookAftr = view.defAction, view.defAfter, view.hookBefore, view.hookAftr
				if err != nil {
					return err
				}
			}
		}
	}
	if f := t.mirrorOf; f != nil && len(t.opt.givenAt) > m.level && t.opt.givenAt[m.level] > 0 {
		f.trigger = true
		m.on[f.opt] = false
	}
	if err := m.eachOption(t, m.before); err != nil {
		return err
	}
	for p := t.parent; p != nil; p = p.parent {
		if err := m.hooks(p.hookBefore, t, at); err != nil {
			return err
		}
	}
	return nil
}

func (m *model) eachOption(t *mTarget, f func(*mTarget) error) error {
	for _, l := range [][]*mTarget{t.flags, t.args, t.vals} {
		if err := m.each(l, f); err != nil {
			return err
		}
	}
	return nil
}

func (m *model) after(t *mTarget) error {
	at := cli.AfterTiming
	if !t.isCmd {
		t.ref = t.parent.ref
	}
	for _, a := range t.ancestors() {
		if err := m.hooks(a.hookAftr, t, at); err != nil {
			return err
		}
	}
	if t.isCmd {
		if err := m.hooks(t.hookAftr, t, at); err != nil {
			return err
		}
	}
	if err := m.run(t.defAfter, t, at); err != nil {
		return err
	}
	if t.isCmd {
		if err := m.run(t.cmd.after, t, at); err != nil {
			return err
		}
		if err := m.eachOption(t, m.after); err != nil {
			return err
		}
		for p := t; p != nil; p = p.parent {
			if p.recovered != "" {
				return errRecovered
			}
		}
		return nil
	}
	if err := m.run(t.opt.after, t, at); err != nil {
		return err
	}
	return m.eachOption(t, m.after)
}

func (m *model) optionAction(o *mTarget, under *mTarget) error {
	// a persistent flag given to a sub-command acts in the sub-command's context
	view := *o
	view.parent, view.ref = under, under.ref
	items := append(append([]*item{}, o.defAction...), flat(o.opt.action)...)
	err := m.run(items, &view, cli.ActionTiming)
	o.defAfter, o.hookAftr = view.defAfter, view.hookAftr
	if err != nil {
		return err
	}
	return m.valueActions(o.vals, &view)
}

func (m *model) valueActions(vals []*mTarget, under *mTarget) error {
	for _, v := range vals {
		view := *v
		view.parent, view.ref = under, under.ref
		for _, o := range v.args {
			if o.trigger {
				if err := m.optionAction(o, &view); err != nil {
					return err
				}
			}
		}
		err := m.run(v.defAction, &view, cli.ActionTiming)
		v.defAfter = view.defAfter
		if err != nil {
			return err
		}
	}
	return nil
}

func (m *model) execute(t *mTarget, level int) error {
	t.ref = m.base
	if t.parent != nil {
		t.ref = t.parent.ref
	}
	m.level = level
	for _, a := range append(t.ancestors(), t) {
		for _, o := range a.flags {
			if len(o.opt.givenAt) > level && o.opt.givenAt[level] > 0 {
				m.on[o.opt] = true
			}
		}
	}
	if err := m.before(t); err != nil {
		return err
	}
	for _, a := range append(t.ancestors(), t) {
		for _, o := range a.flags {
			if f := o.mirrorOf; f != nil {
				if a == t || len(o.opt.givenAt) <= level || o.opt.givenAt[level] == 0 {
					continue
				}
				o = f
				m.on[f.opt] = false
			} else if a == t && o.trigger {
				// due in any case
			} else if len(o.opt.givenAt) <= level || o.opt.givenAt[level] == 0 {
				continue
			}
			if err := m.optionAction(o, t); err != nil {
				return err
			}
		}
	}
	for _, o := range t.args {
		if o.opt.given > 0 || o.trigger {
			if err := m.optionAction(o, t); err != nil {
				return err
			}
		}
	}
	if t.cmd.selected != nil {
		for _, s := range t.subs {
			if s.cmd == t.cmd.selected {
				if err := m.execute(s, level+1); err != nil {
					return err
				}
			}
		}
	}
	if err := m.valueActions(t.vals, t); err != nil {
		return err
	}
	if t.cmd.selected == nil {
		if err := m.run(t.defAction, t, cli.ActionTiming); err != nil {
			return err
		}
		if err := m.run(t.cmd.action, t, cli.ActionTiming); err != nil {
			return err
		}
	}
	return m.after(t)
}

// ---- scenarios ----------------------------------------------------------------------

func injectable(w *core.World) error {
	return core.Pick[error](w, &simErr{"e"}, cli.Exit("bad", 7), &cli.ParseError{Code: cli.InvalidArgument, Err: errors.New("pe")},
		fs.ErrNotExist, io.EOF, context.Canceled, cli.ErrSkipCommand, cli.Exit(0), cli.ErrImplicitValueAlreadySet, cli.EndOfArguments,
		&fs.PathError{Op: "open", Path: "", Err: fs.ErrNotExist}, fmt.Errorf("wrapped: %w", cli.ErrSkipCommand), io.ErrUnexpectedEOF)
}

func runModel(root *cmdSpec, fail int, err error, panik any) (*recorder, error, any) {
	r, _, e, p := runModelWith(root, fail, err, panik, nil)
	return r, e, p
}

func runModelWith(root *cmdSpec, fail int, err error, panik any, prep func(*model)) (*recorder, *model, error, any) {
	r := &recorder{model: true, fail: fail, err: err, panik: panik}
	m := &model{r: r, on: map[*optSpec]bool{}}
	m.base = m.newCtx(nil)
	if prep != nil {
		prep(m)
	}
	t := m.target(root, nil)
	var res error
	var pv any
	func() {
		defer func() {
			if p := recover(); p != nil {
				pv = p
			}
		}()
		if res = m.init(t); res != nil {
			return
		}
		res = m.execute(t, 0)
	}()
	return r, m, res, pv
}

type realRun struct {
	log   []string
	err   error
	panik any
	site  string
}

func runReal(w *core.World, root *cmdSpec, args []string, r *recorder, ctx context.Context) realRun {
	app := &cli.App{Stdout: new(nullWriter), Stderr: new(nullWriter), Stdin: strings.NewReader("")}
	cmd := r.command(root)
	app.Name, app.Flags, app.Args, app.Commands = cmd.Name, cmd.Flags, cmd.Args, cmd.Subcommands
	app.Uses, app.Before, app.Action, app.After = cmd.Uses, cmd.Before, cmd.Action, cmd.After
	if w.Chance(1, 3) {
		app = cli.NewApp(cmd)
		app.Stdout, app.Stderr = new(nullWriter), new(nullWriter)
	}
	var res realRun
	res.panik, res.site = w.CallStack(func() { res.err = app.RunContext(ctx, args) })
	res.log = r.log
	return res
}

func firstDiff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, x := "<nothing>", "<nothing>"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			x = want[i]
		}
		if g != x {
			return fmt.Sprintf("step %d is %q, expected %q", i, g, x)
		}
	}
	return ""
}

func lifecycleOrder(w *core.World) {
	g := &lgen{w: w, budget: w.Range(4, 40), suppOK: true}
	root := g.cmd("root", 0)
	args, _ := g.invocation(root)
	dumpCmd(root, "", w.Ev)
	w.Ev("args %v", args)
	_, merr, mpv := runModel(root, -1, nil, nil)
	if merr != nil || mpv != nil {
		panic(fmt.Sprint("generator made a failing program: ", merr, mpv))
	}
	// faults that must not disturb the order: the caller's context ends at some step
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r := &recorder{w: w, fail: -1}
	if w.Chance(1, 2) {
		at := w.Int(20)
		r.onEv = func(k int) {
			if k == at {
				w.Fault("caller-cancel")
				cancel()
			}
		}
	}
	m, _, _ := runModel(root, -1, nil, nil)
	res := runReal(w, root, args, r, ctx)
	switch {
	case res.panik != nil:
		w.Fail("panic", "run panicked: %v at %s", res.panik, res.site)
	case res.err != nil:
		w.Fail("unexpected-error", "run without a failing step returned %s", errName(res.err))
	default:
		if d := firstDiff(res.log, m.log); d != "" {
			w.Fail("order", "%s", d)
		}
	}
	if len(res.log) >= 3 {
		w.Nontrivial = true
	}
}

func failingStep(w *core.World) {
	g := &lgen{w: w, budget: w.Range(4, 40), suppOK: w.Chance(1, 3)}
	root := g.cmd("root", 0)
	args, _ := g.invocation(root)
	dumpCmd(root, "", w.Ev)
	w.Ev("args %v", args)
	base, merr, mpv := runModel(root, -1, nil, nil)
	if merr != nil || mpv != nil {
		panic(fmt.Sprint("generator made a failing program: ", merr, mpv))
	}
	if len(base.log) == 0 {
		return
	}
	k := w.Int(len(base.log))
	want := injectable(w)
	var panik any
	if w.Chance(1, 5) {
		panik = panicText
	}
	m, werr, wpv := runModel(root, k, want, panik)
	r := &recorder{w: w, fail: k, err: want, panik: panik}
	res := runReal(w, root, args, r, context.Background())
	if d := firstDiff(res.log, m.log); d != "" {
		w.Fail("after-failure", "step %d (%s) failed with %s: %s", k, m.log[k], errName(want), d)
		return
	}
	if panik != nil {
		if wpv != nil && res.panik != wpv {
			w.Fail("panic-lost", "a step panicked with %v; the caller saw panic %v (%s), error %s", wpv, res.panik, res.site, errName(res.err))
		}
		if wpv != nil {
			return
		}
	}
	if res.panik != nil {
		w.Fail("panic", "run panicked: %v at %s", res.panik, res.site)
		return
	}
	if werr == nil && res.err != nil {
		w.Fail("unexpected-error", "the failure was suppressed, but the run returned %s", errName(res.err))
	}
	if werr == errRecovered {
		var ie *cli.InternalError
		if !errors.As(res.err, &ie) || !strings.Contains(ie.Error(), panicText) {
			w.Fail("recovered-panic", "a panic (%q) was recovered; the caller got %s", panicText, errName(res.err))
		}
		return
	}
	if werr != nil && res.err != werr {
		w.Fail("error-identity", "step %s failed with %s; the caller got %s", m.log[k], errName(werr), errName(res.err))
	}
}

func init() {
	register(&core.Property{
		ID: "C01", QuickRuns: 200000, ThoroughRuns: 3000000,
		Rule:      "A random program (commands, flags, args, nested pipelines, deferrals, hooks, customizations, middleware, dynamic flags) is run on a random command line; the recorded steps are compared with an executable model of the lifecycle.",
		Real:      []string{"cli package: initialization, parsing, pipelines, hooks, sub-command dispatch"},
		Stub:      []string{"user actions (record themselves)", "stdin/stdout/stderr"},
		Scenarios: []core.Scenario{{Name: "order", Run: lifecycleOrder}},
	})
	register(&core.Property{
		ID: "C02", QuickRuns: 200000, ThoroughRuns: 3000000,
		Rule:      "The program and command line of C01, with one randomly chosen executed step failing with an error (13 kinds, some with meaning elsewhere in the library) or a panic.",
		Real:      []string{"cli package: initialization, parsing, pipelines, hooks, sub-command dispatch"},
		Stub:      []string{"user actions (record themselves, fail on demand)", "stdin/stdout/stderr"},
		Scenarios: []core.Scenario{{Name: "failing-step", Run: failingStep}},
	})
}
