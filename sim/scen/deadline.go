package scen

import (
	"context"
	"errors"
	"os"
	"os/signal"
	"syscall"
	"testing/synctest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

type callerKey struct{}

// contextRun runs a random program whose steps take simulated time, set and watch
// contexts, and receive signals.
func contextRun(w *core.World, withSignals bool) {
	g := &lgen{w: w, budget: w.Range(4, 40), suppOK: w.Chance(1, 3), ctx: true, sig: withSignals}
	root := g.cmd("root", 0)
	args, _ := g.invocation(root)
	dumpCmd(root, "", w.Ev)
	w.Ev("args %v", args)

	// the caller's own context
	start := time.Now()
	base, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey("k1"), "caller"))
	defer cancel()
	callerEnd, callerDeadline := time.Duration(-1), time.Duration(-1)
	if w.Chance(1, 3) {
		callerEnd = time.Duration(w.Range(0, 30))*10*time.Millisecond + 7*time.Millisecond
	}
	if w.Chance(1, 4) {
		callerDeadline = time.Duration(w.Range(0, 30))*10*time.Millisecond + 5*time.Millisecond
		c2, cancel2 := context.WithDeadline(base, start.Add(callerDeadline))
		defer cancel2()
		base = c2
	}
	w.Ev("caller cancels at %v, deadline %v", callerEnd, callerDeadline)
	var async os.Signal
	asyncAt, asyncFate := time.Duration(-1), ""
	if withSignals && w.Chance(1, 2) {
		async, asyncAt = core.Pick(w, simSignals...), time.Duration(w.Range(0, 20))*10*time.Millisecond+time.Millisecond
		w.Ev("%v arrives at %v", async, asyncAt)
	}
	prep := func(m *model) {
		m.async, m.asyncAt = async, asyncAt
		m.r.watch = true
		m.base.key, m.base.val = "k1", "caller"
		m.base.ended, m.base.deadline = callerEnd, callerDeadline
	}
	m, mm, merr, mpv := runModelWith(root, -1, nil, nil, prep)
	if mpv != nil {
		panic(mpv)
	}

	r := &recorder{w: w, fail: -1, watch: true, start: start, base: base}
	enabled := map[int]bool{}
	if withSignals {
		signal.JoesimKernel = func(op string, sig int) bool {
			switch op {
			case "enable":
				enabled[sig] = true
			case "disable", "ignore":
				delete(enabled, sig)
			}
			return false
		}
	}
	r.raise = func(s os.Signal) string {
		sig := s.(syscall.Signal)
		on := enabled[int(sig)]
		w.Fault("signal " + sig.String())
		if on {
			signal.JoesimDeliver(sig)
			if s != async || time.Since(start) != asyncAt {
				synctest.Wait()
			}
		}
		return signalFate(on)
	}
	if async != nil {
		t := time.AfterFunc(asyncAt, func() { asyncFate += r.raise(async) })
		defer t.Stop()
	}
	if callerEnd >= 0 {
		t := time.AfterFunc(callerEnd, func() {
			w.Fault("caller-cancel")
			cancel()
		})
		defer t.Stop()
	}
	res := runReal(w, root, args, r, base)
	for _, it := range mm.nodes {
		if it.deadline >= 0 && it.deadline <= mm.now && it != mm.base {
			w.Fault("timeout-expired")
		}
	}
	if d := firstDiff(res.log, m.log); d != "" {
		w.Fail("context", "%s", d)
		return
	}
	if asyncFate != mm.asyncFate {
		w.Fail("async-signal", "a signal at %v: got %q, expected %q", asyncAt, asyncFate, mm.asyncFate)
		return
	}
	if res.panik != nil {
		w.Fail("panic", "run panicked: %v at %s", res.panik, res.site)
		return
	}
	if !errors.Is(res.err, merr) || (merr == nil && res.err != nil) {
		w.Fail("context-error", "expected the run to end with %s, got %s", errName(merr), errName(res.err))
		return
	}
	if err := base.Err(); (err != nil) != (mm.base.endedBy(mm.now) != nil) {
		w.Fail("caller-context", "after the run, the caller's own context has err %v", err)
	}
	if len(r.ctxs) != len(mm.refs) {
		panic("different number of observations")
	}
	synctest.Wait()
	for i, c := range r.ctxs {
		if want := mm.refs[i].endedBy(mm.now); c.ctx.Err() != want {
			w.Fail("released", "after the run (error %v), the context seen at %s has err %v, expected %v", res.err, c.where, c.ctx.Err(), want)
			return
		}
	}
	if merr == nil {
		// a run that ends well leaves nothing behind
		synctest.Wait()
		if len(enabled) > 0 && len(mm.sigOn) == 0 {
			w.Fail("signal-leak", "after a successful run, %d signals are still caught", len(enabled))
		}
		mm.now += time.Hour
		active := 0
		for _, n := range mm.nodes {
			if n != mm.base && (n.deadline >= 0 || n.isSig) {
				active++
			}
		}
		if active > 0 {
			w.Probe("covered-by-timeout-or-signal")
		}
	} else {
		// whatever was registered must not block the end of the simulation
		cancel()
		synctest.Wait()
	}
	if len(res.log) > 3 && w.Elapsed() > 0 {
		w.Nontrivial = true
	}
}

func init() {
	real := []string{"cli package: Timeout, HandleSignal, ContextValue, SetContext, context propagation through hooks, middleware, options and sub-commands", "context and os/signal of the standard library"}
	stub := []string{"the clock (simulated)", "signal delivery and registration with the kernel (simulated)", "user actions (watch the context)", "stdin/stdout/stderr"}
	register(&core.Property{
		ID: "C04", QuickRuns: 200000, ThoroughRuns: 3000000,
		Rule:      "Random programs whose steps take simulated time, with timeouts, context values and replacement contexts at random places, the caller's own deadline and an asynchronous cancellation by the caller; every step's view of its context is compared with a model.",
		Real:      real,
		Stub:      stub,
		Scenarios: []core.Scenario{{Name: "deadlines", Run: func(w *core.World) { contextRun(w, false) }}},
	})
	register(&core.Property{
		ID: "C05", QuickRuns: 200000, ThoroughRuns: 3000000,
		Rule:      "The programs of C04 with signal handling attached to random commands; signals arrive while random steps run.",
		Real:      real,
		Stub:      stub,
		Scenarios: []core.Scenario{{Name: "signals", Run: func(w *core.World) { contextRun(w, true) }}},
	})
}

var _ = cli.Timeout
