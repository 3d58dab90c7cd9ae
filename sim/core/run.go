package core

import (
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"syscall"
	"testing/synctest"
	"time"
)

// Scenario is one workload with its oracle.
type Scenario struct {
	Name   string
	Weight int
	Run    func(w *World)
}

// Property groups the scenarios that decide one listed property.
type Property struct {
	ID           string
	QuickRuns    int
	ThoroughRuns int
	MaxSteps     int
	Rule         string
	Real, Stub   []string
	Assumptions  []string
	Scenarios    []Scenario
}

// ResetGlobals is installed by the scenario package to put the code under
// test's process-wide state back between runs.
var ResetGlobals = func() {}

// Run executes one simulated run.
func Run(p *Property, sc *Scenario, seed uint64, tape []uint64, useTape bool) *World {
	w := &World{
		rng:      mix(seed),
		replay:   tape,
		useTape:  useTape,
		Faults:   map[string]int{},
		Probes:   map[string]int{},
		MaxSteps: p.MaxSteps,
	}
	if w.MaxSteps == 0 {
		w.MaxSteps = 20000
	}
	resetSeams()
	ResetGlobals()
	mapSeed := w.U64()
	func() {
		defer func() {
			runtime.JoesimRand(false, 0)
			if r := recover(); r != nil {
				// goroutines of the code under test still blocked when everything else is done
				w.Fail("stuck", "%v", r)
			}
		}()
		runtime.JoesimRand(true, mapSeed)
		synctest.JoesimRun(func() {
			w.start = time.Now()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(budgetExceeded); ok {
						return
					}
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, false)]
					w.HarnessErr = fmt.Sprintf("%v\n%s", r, buf)
				}
			}()
			sc.Run(w)
			w.SimTime = w.Elapsed()
			w.Ev("end t=%v", w.SimTime)
		})
	}()
	resetSeams()
	for i := len(w.cleanup) - 1; i >= 0; i-- {
		w.cleanup[i]()
	}
	ResetGlobals()
	return w
}

func resetSeams() {
	os.JoesimHook = nil
	os.JoesimDone = nil
	os.JoesimExit = nil
	os.JoesimStart = nil
	os.JoesimWait = nil
	os.JoesimSignal = func(int, os.Signal) error { return os.ErrProcessDone } // never a real process
	signal.JoesimKernel = func(string, int) bool { return false }
	signal.Reset()
	signal.JoesimKernel = nil
	_ = syscall.SIGINT
}

// Shrink minimises the tape of a failing run while the same class of violation
// persists.
func Shrink(p *Property, sc *Scenario, w *World, deadline time.Time) *World {
	best := w
	class := w.Viol.Class
	seen := map[string]bool{}
	try := func(t []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		key := fmt.Sprint(t)
		if seen[key] {
			return false
		}
		seen[key] = true
		r := Run(p, sc, 0, t, true)
		if r.HarnessErr != "" || r.Viol == nil || r.Viol.Class != class {
			return false
		}
		// trailing zeros are implied
		rt := trim(r.Tape)
		r.Tape = rt
		if less(rt, trim(best.Tape)) {
			best = r
			return true
		}
		return false
	}
	best.Tape = trim(best.Tape)
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		for size := len(best.Tape) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Tape); {
				t := append(append([]uint64{}, best.Tape[:i]...), best.Tape[i+size:]...)
				if try(t) {
					improved = true
					continue
				}
				i += max(1, size/2)
			}
		}
		for size := len(best.Tape) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Tape); i += size {
				t := append([]uint64{}, best.Tape...)
				changed := false
				for k := i; k < i+size; k++ {
					if t[k] != 0 {
						t[k], changed = 0, true
					}
				}
				if changed && try(t) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best.Tape); i++ {
			for i < len(best.Tape) && best.Tape[i] > 0 {
				t := append([]uint64{}, best.Tape...)
				t[i] /= 2
				if try(t) {
					improved = true
					continue
				}
				t = append([]uint64{}, best.Tape...)
				t[i]--
				if try(t) {
					improved = true
					continue
				}
				break
			}
			// drop one choice and lower an earlier count at once
			if i+1 < len(best.Tape) && best.Tape[i] > 0 && len(best.Tape) < 400 {
				for j := i + 1; j < len(best.Tape) && j < i+24; j++ {
					t := append([]uint64{}, best.Tape[:j]...)
					t = append(t, best.Tape[j+1:]...)
					t[i]--
					if try(t) {
						improved = true
						break
					}
				}
			}
		}
	}
	return best
}

func trim(t []uint64) []uint64 {
	n := len(t)
	for n > 0 && t[n-1] == 0 {
		n--
	}
	return t[:n]
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
