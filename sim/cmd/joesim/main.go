// Command joesim runs simulated executions of joe-cli and checks the listed
// properties.
//
//	joesim check -prop C01 [-tier quick] [-seed 1]     search, report, write evidence
//	joesim replay FILE                                 repeat a recorded violation
//	joesim hashes -prop C01 -seed 1 -n 200 -stride k   history hashes (determinism test)
//	joesim list
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"joesim/core"
	"joesim/scen"
)

type replayFile struct {
	Property  string         `json:"property"`
	Scenario  string         `json:"scenario"`
	BatchSeed uint64         `json:"batch_seed"`
	Run       uint64         `json:"run"`
	Seed      uint64         `json:"seed"`
	Violation core.Violation `json:"violation"`
	Original  int            `json:"choices_before_minimisation"`
	Tape      []uint64       `json:"tape"`
	Prelude   []uint64       `json:"runs_before_in_the_same_process,omitempty"`
	Crash     bool           `json:"process_dies_or_hangs,omitempty"`
	Hash      string         `json:"history_hash"`
	Events    []string       `json:"schedule_and_fault_trace"`
}

type workerResult struct {
	Runs       int
	Nontrivial int
	Choices    int
	Sched      int
	SimNanos   int64
	Events     int
	Faults     map[string]int
	Probes     map[string]int
	Scenarios  map[string]int
	Known      map[string]int
	Samples    []sample
	Violation  string // path of the replay file
	Class      string
	Message    string
	Err        string
	Rechecked  int
	Unrepeated int
	First      string // why the first of these
	At         uint64 // run that violates
	TimedOut   bool
}

type sample struct {
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	History  []string `json:"history"`
}

func pickScenario(p *core.Property, seed uint64) *core.Scenario {
	total := 0
	for _, s := range p.Scenarios {
		total += max(1, s.Weight)
	}
	k := int((seed >> 7) % uint64(total))
	for i := range p.Scenarios {
		k -= max(1, p.Scenarios[i].Weight)
		if k < 0 {
			return &p.Scenarios[i]
		}
	}
	panic("unreachable")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownClasses(prop string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return res
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		line := strings.TrimSpace(s.Text())
		rest, ok := strings.CutPrefix(line, "finding: property="+prop+" class=")
		if !ok {
			continue
		}
		class, text, _ := strings.Cut(rest, " ")
		res[class] = text
	}
	return res
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: joesim check|worker|replay|hashes|list")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "hashes":
		hashes(os.Args[2:])
	case "solo":
		solo(os.Args[2:])
	case "list":
		for _, p := range scen.All() {
			fmt.Println(p.ID)
		}
	default:
		fatal("unknown command")
	}
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "joesim: "+format+"\n", args...)
	os.Exit(3)
}

func find(id string) *core.Property {
	for _, p := range scen.All() {
		if p.ID == id {
			return p
		}
	}
	fatal("no property %q", id)
	return nil
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	batch := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	to := fs.Uint64("to", 0, "")
	stride := fs.Uint64("stride", 1, "")
	secs := fs.Float64("secs", 600, "")
	recheck := fs.Int("recheck", 0, "")
	hashFile := fs.String("hashes", "", "")
	only := fs.String("scenario", "", "")
	progress := fs.String("progress", "", "")
	fs.Parse(args)
	p := find(*prop)
	known := knownClasses(p.ID)
	var prog *os.File
	if *progress != "" {
		var err error
		if prog, err = os.Create(*progress); err != nil {
			fatal("%v", err)
		}
	}
	// at tells the parent what runs, so that it knows if the process dies
	at := func(i uint64) {
		if prog != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], i+1)
			prog.WriteAt(b[:], 0)
		}
	}
	res := &workerResult{Faults: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]bool{}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	scen.Start()
	defer scen.Stop()
	for i := *from; i < *to; i += *stride {
		if time.Now().After(deadline) {
			res.TimedOut = true
			break
		}
		seed := core.SeedFor(*batch, p.ID, i)
		sc := pickScenario(p, seed)
		if *only != "" && sc.Name != *only {
			continue
		}
		at(i)
		w := core.Run(p, sc, seed, nil, false)
		res.Runs++
		res.Scenarios[sc.Name]++
		res.Choices += len(w.Tape)
		res.Sched += w.Sched
		res.Events += len(w.Events)
		res.SimNanos += int64(w.SimTime)
		for k, v := range w.Faults {
			res.Faults[k] += v
		}
		for k, v := range w.Probes {
			res.Probes[k] += v
		}
		if w.HarnessErr != "" {
			res.Err = fmt.Sprintf("scenario %s seed %d: %s", sc.Name, seed, w.HarnessErr)
			break
		}
		h := w.Hash()
		if res.Rechecked < *recheck {
			res.Rechecked++
			w2 := core.Run(p, sc, seed, w.Tape, true)
			if w2.Hash() != h && w.Viol == nil {
				// What runs has a memory; if that breaks a property, its check says so.
				if res.Unrepeated++; res.First == "" {
					res.First = fmt.Sprintf("scenario %s seed %d (run %d) does not repeat in one process: %s", sc.Name, seed, i, diff(w.Events, w2.Events))
				}
			}
		}
		if w.Viol != nil {
			if _, ok := known[w.Viol.Class]; ok {
				res.Known[w.Viol.Class]++
				continue
			}
			orig := len(w.Tape)
			rf := replayFile{
				Property: p.ID, Scenario: sc.Name, BatchSeed: *batch, Run: i, Seed: seed,
				Violation: *w.Viol, Original: orig, Tape: w.Tape,
				Hash: fmt.Sprintf("%016x", w.Hash()), Events: w.Events,
			}
			path := replayPath(p.ID, sc.Name, i)
			if err := rf.write(path + ".full"); err != nil {
				res.Err = err.Error()
				break
			}
			at(noRun - 1)
			min := core.Shrink(p, sc, w, time.Now().Add(40*time.Second))
			rf.Violation, rf.Tape, rf.Hash, rf.Events = *min.Viol, min.Tape, fmt.Sprintf("%016x", min.Hash()), min.Events
			if err := rf.write(path); err != nil {
				res.Err = err.Error()
				break
			}
			res.Violation, res.Class, res.Message, res.At = path, min.Viol.Class, min.Viol.Message, i
			break
		}
		if w.Nontrivial {
			res.Nontrivial++
			if len(distinct) < 3_000_000 {
				distinct[h] = true
			}
			if len(res.Samples) < 1 && i >= 20 {
				ev := w.Events
				if len(ev) > 60 {
					ev = append(append([]string{}, ev[:60]...), "...")
				}
				res.Samples = append(res.Samples, sample{sc.Name, seed, ev})
			}
		}
	}
	if *hashFile != "" {
		f, err := os.Create(*hashFile)
		if err != nil {
			fatal("%v", err)
		}
		bw := bufio.NewWriter(f)
		for h := range distinct {
			binary.Write(bw, binary.LittleEndian, h)
		}
		bw.Flush()
		f.Close()
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// noRun marks that no run is in progress.
const noRun = 1 << 62

func replayPath(prop, sc string, i uint64) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	return filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, sc, i))
}

func (rf *replayFile) write(path string) error {
	b, _ := json.MarshalIndent(rf, "", " ")
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// repeats runs a replay file in a fresh process: does it show the violation?
func repeats(path string) (string, bool) {
	cmd := exec.Command(os.Args[0], "replay", path)
	out, err := cmd.CombinedOutput()
	ee, ok := err.(*exec.ExitError)
	return string(out), ok && ee.ExitCode() == 1
}

// withPrelude looks for runs that have to come before, in the same process,
// for the violation to repeat; it minimises them.
func withPrelude(path string, before []uint64) (string, bool) {
	b, err := os.ReadFile(path + ".full")
	if err != nil {
		return "", false
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil {
		return "", false
	}
	os.WriteFile(path, b, 0o644)
	deadline := time.Now().Add(150 * time.Second)
	var last string
	try := func(pre []uint64) bool {
		rf.Prelude = pre
		if time.Now().After(deadline) || rf.write(path+".try") != nil {
			return false
		}
		out, ok := repeats(path + ".try")
		if ok {
			last = out
			os.Rename(path+".try", path)
		}
		return ok
	}
	defer os.Remove(path + ".try")
	if try(nil) {
		return last, true // but not as minimised
	}
	var cur []uint64
	found := false
	for n := 1; n <= len(before) && !found; n *= 2 {
		for _, pre := range [][]uint64{before[len(before)-n:], before[:n]} {
			if try(pre) {
				cur, found = pre, true
				break
			}
		}
	}
	if !found {
		if !try(before) {
			return "", false
		}
		cur = before
	}
	for size := (len(cur) + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(cur) && len(cur) > 1; {
			t := append(append([]uint64{}, cur[:i]...), cur[i+size:]...)
			if try(t) {
				cur = t
			} else {
				i += size
			}
		}
	}
	return last, true
}

func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("event %d: %q / %q", i, x, y)
		}
	}
	return "same events"
}

// stall is how long one run can take.
const stall = 60 * time.Second

// runWorker runs a worker process.  at is the run that was in progress when
// the process died or made no progress, plus one.
func runWorker(timeout time.Duration, args ...string) (_ *workerResult, at uint64, _ error) {
	pf, err := os.CreateTemp("", "joesim-progress-")
	if err != nil {
		return nil, 0, err
	}
	defer os.Remove(pf.Name())
	defer pf.Close()
	current := func() uint64 {
		var b [8]byte
		pf.ReadAt(b[:], 0)
		return binary.LittleEndian.Uint64(b[:])
	}
	cmd := exec.Command(os.Args[0], append([]string{"worker", "-progress", pf.Name()}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=400")
	var stderr strings.Builder
	cmd.Stderr = &stderr
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	defer timer.Stop()
	done := make(chan bool)
	defer close(done)
	go func() {
		last, since := uint64(0), time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			if c := current(); c != last || c > noRun-1 {
				last, since = c, time.Now()
			} else if time.Since(since) > stall && c > 0 {
				cmd.Process.Kill()
				return
			}
		}
	}()
	out, err := cmd.Output()
	if err != nil {
		s := stderr.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		return nil, current(), fmt.Errorf("worker: %v\n%s", err, s)
	}
	var r workerResult
	if err := json.Unmarshal(out, &r); err != nil {
		return nil, current(), fmt.Errorf("worker output: %v: %.400s", err, out)
	}
	return &r, 0, nil
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	seedStr := fs.String("seed", envOr("VERIF_SEED", "1"), "")
	runs := fs.Int("runs", 0, "")
	secs := fs.Float64("secs", 0, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	only := fs.String("scenario", "", "")
	noev := fs.Bool("noevidence", false, "")
	fs.Parse(args)
	p := find(*prop)
	batch, err := strconv.ParseUint(*seedStr, 10, 64)
	if err != nil {
		batch = 1
	}
	total := p.QuickRuns
	limit := 150.0
	if *tier == "thorough" {
		total, limit = p.ThoroughRuns, 800
	}
	if *runs > 0 {
		total = *runs
	}
	if *secs > 0 {
		limit = *secs
	}
	fmt.Printf("seed=%d property=%s tier=%s runs=%d workers=%d\n", batch, p.ID, *tier, total, *workers)
	start := time.Now()
	tmp, err := os.MkdirTemp("", "joesim-check-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	results := make([]*workerResult, *workers)
	errs := make([]error, *workers)
	died := make([]uint64, *workers)
	var wg sync.WaitGroup
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[k], died[k], errs[k] = runWorker(time.Duration((limit+60)*float64(time.Second)),
				"-prop", p.ID, "-seed", fmt.Sprint(batch), "-from", fmt.Sprint(k), "-to", fmt.Sprint(total),
				"-stride", fmt.Sprint(*workers), "-secs", fmt.Sprint(limit), "-recheck", "60",
				"-scenario", *only,
				"-hashes", filepath.Join(tmp, fmt.Sprintf("h%d", k)))
		}()
	}
	wg.Wait()

	// A violation confirmed in a fresh process comes before everything else.
	var viol []*workerResult
	for k, r := range results {
		if r != nil && r.Violation != "" {
			viol = append(viol, r)
		}
		if i := died[k] - 1; errs[k] != nil && died[k] > 0 && i < noRun-1 {
			seed := core.SeedFor(batch, p.ID, i)
			sc := pickScenario(p, seed)
			msg := errs[k].Error()
			if len(msg) > 600 {
				msg = msg[:600]
			}
			rf := replayFile{Property: p.ID, Scenario: sc.Name, BatchSeed: batch, Run: i, Seed: seed, Crash: true,
				Violation: core.Violation{Class: "crash", Message: "the process died or hung: " + msg}}
			path := replayPath(p.ID, sc.Name, i)
			rf.write(path + ".full")
			rf.write(path)
			viol = append(viol, &workerResult{Violation: path, Class: "crash", Message: rf.Violation.Message, At: i})
		}
	}
	confirmed := ""
	unconfirmed := ""
	for pass := 0; pass < 2 && confirmed == ""; pass++ {
		for _, r := range viol {
			out, ok := "", false
			if pass == 0 {
				out, ok = repeats(r.Violation)
			} else {
				// not alone, but perhaps after what ran before it
				var before []uint64
				for i := r.At % uint64(*workers); i < r.At; i += uint64(*workers) {
					before = append(before, i)
				}
				if out, ok = withPrelude(r.Violation, before); !ok && r != viol[len(viol)-1] && time.Since(start) > 400*time.Second {
					continue
				}
			}
			if ok {
				fmt.Printf("violation class=%s: %s\n", r.Class, r.Message)
				fmt.Printf("%s", out)
				confirmed = r.Violation
				break
			}
			if pass == 0 {
				unconfirmed = fmt.Sprintf("violation %s (%s) did not repeat in a fresh process:\n%s", r.Class, r.Violation, out)
			} else if time.Since(start) > 400*time.Second {
				break
			}
		}
	}
	for _, r := range viol {
		os.Remove(r.Violation + ".full")
	}

	sum := &workerResult{Faults: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]bool{}
	for k, r := range results {
		if r == nil {
			continue
		}
		sum.Runs += r.Runs
		sum.Nontrivial += r.Nontrivial
		sum.Choices += r.Choices
		sum.Sched += r.Sched
		sum.Events += r.Events
		sum.SimNanos += r.SimNanos
		sum.Rechecked += r.Rechecked
		sum.Unrepeated += r.Unrepeated
		if sum.First == "" {
			sum.First = r.First
		}
		sum.TimedOut = sum.TimedOut || r.TimedOut
		add(sum.Faults, r.Faults)
		add(sum.Probes, r.Probes)
		add(sum.Scenarios, r.Scenarios)
		add(sum.Known, r.Known)
		if len(sum.Samples) < 3 {
			sum.Samples = append(sum.Samples, r.Samples...)
		}
		b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("h%d", k)))
		if err == nil {
			for len(b) >= 8 {
				distinct[binary.LittleEndian.Uint64(b)] = true
				b = b[8:]
			}
		}
	}
	wall := time.Since(start).Seconds()
	if !*noev {
		cov := map[string]any{
			"evaluations":                   sum.Runs,
			"distinct_nontrivial":           len(distinct),
			"rule":                          p.Rule + " One run = one seed = one simulated execution. Non-trivial: at least one injected fault was actually delivered or at least one scheduling decision between two ready tasks was taken. Distinct: different hash of the whole event log (schedule, faults, observed steps and results).",
			"samples":                       sum.Samples,
			"nontrivial_runs":               sum.Nontrivial,
			"seeds_per_hour":                int(float64(sum.Runs) / wall * 3600),
			"simulated_seconds":             float64(sum.SimNanos) / 1e9,
			"choices_drawn":                 sum.Choices,
			"scheduling_decisions":          sum.Sched,
			"events_logged":                 sum.Events,
			"faults_injected":               sum.Faults,
			"rare_conditions_reached":       sum.Probes,
			"runs_per_scenario":             sum.Scenarios,
			"runs_repeated_for_determinism": sum.Rechecked,
			"of_these_not_repeated":         sum.Unrepeated,
			"known_findings_hit":            sum.Known,
			"stopped_by_time_limit":         sum.TimedOut,
			"components_real":               p.Real,
			"components_stub":               p.Stub,
		}
		ev := map[string]any{
			"property": p.ID, "tier": *tier, "seed": batch, "level": "exploration",
			"coverage": cov, "assumptions": append([]string{}, p.Assumptions...), "wall_s": wall,
			"violations": map[bool]int{true: 1, false: 0}[confirmed != ""],
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		dir := filepath.Join(verifDir(), "evidence")
		os.MkdirAll(dir, 0o755)
		if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("runs=%d distinct=%d faults=%v scenarios=%v sim=%.0fs wall=%.1fs\n", sum.Runs, len(distinct), sum.Faults, sum.Scenarios, float64(sum.SimNanos)/1e9, wall)
	if len(sum.Probes) > 0 {
		fmt.Printf("probes=%v\n", sum.Probes)
	}
	if sum.First != "" {
		fmt.Printf("note: %s\n", sum.First)
	}
	known := knownClasses(p.ID)
	for _, k := range core.SortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[k])
	}
	if confirmed != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, confirmed)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if unconfirmed != "" {
		os.RemoveAll(tmp)
		fatal("%s", unconfirmed)
	}
	for k := range results {
		if errs[k] != nil {
			os.RemoveAll(tmp)
			fatal("worker %d: %v", k, errs[k])
		}
		if results[k].Err != "" {
			os.RemoveAll(tmp)
			fatal("worker %d: %s", k, results[k].Err)
		}
	}
	if sum.Runs == 0 || (*only == "" && len(distinct) == 0) {
		fatal("nothing explored")
	}
}

func add(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func replay(args []string) {
	if len(args) < 1 {
		fatal("replay FILE")
	}
	if os.Getenv("GOMAXPROCS") != "1" {
		cmd := exec.Command(os.Args[0], append([]string{"replay"}, args...)...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=400")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err := cmd.Run()
		if ee, ok := err.(*exec.ExitError); ok {
			os.Exit(ee.ExitCode())
		}
		if err != nil {
			fatal("%v", err)
		}
		return
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	p := find(rf.Property)
	var sc *core.Scenario
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == rf.Scenario {
			sc = &p.Scenarios[i]
		}
	}
	if sc == nil {
		fatal("no scenario %q", rf.Scenario)
	}
	if rf.Crash && os.Getenv("JOESIM_INNER") == "" {
		cmd := exec.Command(os.Args[0], append([]string{"replay"}, args...)...)
		cmd.Env = append(os.Environ(), "JOESIM_INNER=1")
		timer := time.AfterFunc(stall, func() { cmd.Process.Kill() })
		out, err := cmd.CombinedOutput()
		ended := !timer.Stop()
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 1 && ee.ExitCode() != 3 || ended {
			fmt.Printf("replay: class=crash exact=true: the process died or hung (%v)\n%.2000s\n", err, out)
			os.Exit(1)
		}
		fmt.Printf("replay: the process ended normally\n")
		return
	}
	scen.Start()
	defer scen.Stop()
	for _, i := range rf.Prelude {
		seed := core.SeedFor(rf.BatchSeed, p.ID, i)
		core.Run(p, pickScenario(p, seed), seed, nil, false)
	}
	w := core.Run(p, sc, rf.Seed, rf.Tape, !rf.Crash)
	for _, e := range w.Events {
		fmt.Println("  ", e)
	}
	if w.HarnessErr != "" {
		fatal("%s", w.HarnessErr)
	}
	if w.Viol == nil {
		fmt.Println("replay: no violation")
		return
	}
	same := w.Viol.Class == rf.Violation.Class && fmt.Sprintf("%016x", w.Hash()) == rf.Hash
	fmt.Printf("replay: class=%s exact=%v: %s\n", w.Viol.Class, same, w.Viol.Message)
	if !same {
		scen.Stop()
		fatal("the replay differs from the recorded run\n%s", diff(rf.Events, w.Events))
	}
	scen.Stop()
	os.Exit(1)
}

// solo runs a part of a scenario in this process: solo PROP SCENARIO FROM
func solo(args []string) {
	p := find(args[0])
	var tape []uint64
	if err := json.NewDecoder(os.Stdin).Decode(&tape); err != nil {
		fatal("%v", err)
	}
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == args[1] {
			scen.Solo, _ = strconv.Atoi(args[2])
			scen.Start()
			w := core.Run(p, &p.Scenarios[i], 0, tape, true)
			scen.Stop()
			if w.HarnessErr != "" {
				fatal("%s", w.HarnessErr)
			}
			json.NewEncoder(os.Stdout).Encode(scen.SoloHistory)
		}
	}
}

func hashes(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	batch := fs.Uint64("seed", 1, "")
	n := fs.Uint64("n", 200, "")
	stride := fs.Uint64("stride", 1, "")
	offset := fs.Uint64("offset", 0, "")
	dump := fs.Int64("dump", -1, "")
	fs.Parse(args)
	p := find(*prop)
	scen.Start()
	defer scen.Stop()
	var lines []string
	for i := *offset; i < *n; i += *stride {
		seed := core.SeedFor(*batch, p.ID, i)
		sc := pickScenario(p, seed)
		w := core.Run(p, sc, seed, nil, false)
		lines = append(lines, fmt.Sprintf("%06d %s %016x", i, sc.Name, w.Hash()))
		if int64(i) == *dump {
			fmt.Println(strings.Join(w.Events, "\n"))
			if w.HarnessErr != "" {
				fmt.Println(w.HarnessErr)
			}
		}
	}
	sort.Strings(lines)
	for _, l := range lines {
		fmt.Println(l)
	}
}
