// Package core is the simulator: one integer decides a run.  Every choice a
// scenario makes (program generated, fault injected, task scheduled, chunk
// delivered, instant of a signal or cancellation) is drawn from the World, which
// records it on a tape.  Replaying the tape repeats the run exactly; shrinking
// edits the tape.  By convention the value 0 is always the simplest choice.
package core

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Violation describes the property being broken in one run.
type Violation struct {
	Class   string `json:"class"`
	Message string `json:"message"`
}

// World is the source of all nondeterminism in one simulated run.
type World struct {
	rng     uint64
	replay  []uint64
	useTape bool
	Tape    []uint64

	Events     []string
	Faults     map[string]int
	Probes     map[string]int
	Sched      int
	Nontrivial bool
	Viol       *Violation
	HarnessErr string

	steps    int
	MaxSteps int
	exceeded bool
	start    time.Time
	SimTime  time.Duration
	cleanup  []func()

	// OnStep is called by Step: every simulated operation may be a point at
	// which another task runs.
	OnStep func()

	// Scrub removes what differs between processes (a scratch directory's name)
	// from the history.
	Scrub *strings.Replacer
}

const maxEvents = 4000

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// SeedFor derives the seed of run i of a property from the batch seed.
func SeedFor(batch uint64, prop string, i uint64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", batch, prop, i)
	return mix(h.Sum64())
}

func (w *World) next() uint64 {
	w.rng += 0x9e3779b97f4a7c15
	x := w.rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// draw is the only place a choice comes from.
func (w *World) draw(n uint64, gen func(r uint64) uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if w.useTape {
		if len(w.Tape) < len(w.replay) {
			v = w.replay[len(w.Tape)] % n
		}
	} else {
		v = gen(w.next()) % n
	}
	w.Tape = append(w.Tape, v)
	return v
}

// Int draws uniformly from 0..n-1.
func (w *World) Int(n int) int {
	return int(w.draw(uint64(n), func(r uint64) uint64 { return r >> 11 % uint64(n) }))
}

// Range draws uniformly from lo..hi inclusive; lo is the simplest.
func (w *World) Range(lo, hi int) int { return lo + w.Int(hi-lo+1) }

// Chance is true with probability num/den; false is the simplest.
func (w *World) Chance(num, den int) bool {
	return w.draw(2, func(r uint64) uint64 {
		if int((r>>11)%uint64(den)) < num {
			return 1
		}
		return 0
	}) == 1
}

// Weighted draws an index with the given weights; 0 is the simplest.
func (w *World) Weighted(weights ...int) int {
	total := 0
	for _, x := range weights {
		total += x
	}
	return int(w.draw(uint64(len(weights)), func(r uint64) uint64 {
		k := int((r >> 11) % uint64(total))
		for i, x := range weights {
			if k < x {
				return uint64(i)
			}
			k -= x
		}
		return 0
	}))
}

// U64 draws a 32-bit value (used for map seeds).
func (w *World) U64() uint64 {
	return w.draw(1<<32, func(r uint64) uint64 { return r >> 20 })
}

// Pick draws one of the items.
func Pick[T any](w *World, items ...T) T { return items[w.Int(len(items))] }

// Shuffle permutes n items; the identity is the simplest.
func (w *World) Shuffle(n int, swap func(i, j int)) {
	for i := 0; i+1 < n; i++ {
		j := i + w.Int(n-i)
		if j != i {
			swap(i, j)
		}
	}
}

// Ev appends to the event log.
func (w *World) Ev(format string, args ...any) {
	if len(w.Events) < maxEvents {
		w.Events = append(w.Events, w.scrub(fmt.Sprintf(format, args...)))
	}
}

func (w *World) scrub(s string) string {
	if w.Scrub != nil {
		return w.Scrub.Replace(s)
	}
	return s
}

// Fault records that a fault was actually delivered.
func (w *World) Fault(kind string) {
	w.Faults[kind]++
	w.Nontrivial = true
	w.Ev("!fault %s", kind)
}

// Probe counts that a rare condition was reached.
func (w *World) Probe(name string) { w.Probes[name]++ }

// Fail records a violation; the first one counts.
func (w *World) Fail(class, format string, args ...any) {
	if w.Viol == nil {
		w.Viol = &Violation{class, w.scrub(fmt.Sprintf(format, args...))}
		w.Ev("VIOLATION %s: %s", class, w.Viol.Message)
	}
}

// Failed reports whether a violation was recorded.
func (w *World) Failed() bool { return w.Viol != nil }

type budgetExceeded struct{}

// Step bounds the run; exceeding it is a lack of progress.
func (w *World) Step() {
	w.steps++
	if w.steps > w.MaxSteps {
		if !w.exceeded {
			w.exceeded = true
			w.Fail("no-progress", "more than %d simulated operations", w.MaxSteps)
		}
		panic(budgetExceeded{})
	}
	if w.OnStep != nil {
		w.OnStep()
	}
}

// Exceeded reports whether the step budget ran out.
func (w *World) Exceeded() bool { return w.exceeded }

// Cleanup registers f to run after the run, last first.
func (w *World) Cleanup(f func()) { w.cleanup = append(w.cleanup, f) }

// Elapsed is the simulated time since the start of the run.
func (w *World) Elapsed() time.Duration { return time.Since(w.start) }

// Call runs code under test.  A panic is returned as a value.
func (w *World) Call(f func()) (pv any) {
	defer func() {
		if r := recover(); r != nil {
			pv = r
		}
	}()
	f()
	return nil
}

// CallStack is Call, with the stack of a panic.
func (w *World) CallStack(f func()) (pv any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			pv, stack = r, PanicSite(string(buf))
		}
	}()
	f()
	return nil, ""
}

// PanicSite names the function that panicked: the first frame below the
// runtime's.
func PanicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "sync") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		return l
	}
	return "?"
}

// Hash identifies the history of the run.
func (w *World) Hash() uint64 {
	h := fnv.New64a()
	for _, e := range w.Events {
		h.Write([]byte(e))
		h.Write([]byte{'\n'})
	}
	return h.Sum64()
}

// SortedKeys is a helper for deterministic iteration in harness code.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
