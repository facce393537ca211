// Command simrun runs simulated executions of the instrumented module and
// decides the properties.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"ustack/zzsim"
)

type workerMsg struct {
	Fail    *zzsim.Failure `json:"fail,omitempty"`
	Plan    *Plan          `json:"plan,omitempty"`
	Stats   *workerStats   `json:"stats,omitempty"`
	Trouble string         `json:"trouble,omitempty"`
}

type workerStats struct {
	Runs       int              `json:"runs"`
	Nontrivial []uint64         `json:"nontrivial"`
	Pairs      []uint64         `json:"pairs"`
	Counts     map[string]int64 `json:"counts"`
	SimNanos   int64            `json:"sim_nanos"`
	Steps      uint64           `json:"steps"`
	Switches   uint64           `json:"switches"`
	Preempts   uint64           `json:"preempts"`
	DetRuns    int              `json:"det_runs"`
	DetBad     int              `json:"det_bad"`
	Strategies map[string]int   `json:"strategies"`
	Sample     *Plan            `json:"sample,omitempty"`
	Failures   map[string]int   `json:"failures,omitempty"`
}

// Known finding: a genuine defect that is recorded rather than repaired.
type Known struct {
	Property string         `json:"property"`
	Status   string         `json:"status"` // "known" or "fixed"
	Class    string         `json:"class,omitempty"`
	Contains string         `json:"contains,omitempty"`
	Where    map[string]int `json:"where,omitempty"` // plan parameters that identify the failing input
	What     string         `json:"what"`
	Commit   string         `json:"commit,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun check|worker|replay|minimise|list ...")
		os.Exit(2)
	}
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "check":
		os.Exit(check(args))
	case "worker":
		worker(args)
	case "minimise":
		doMinimise(args)
	case "replay":
		os.Exit(replay(args))
	case "one":
		one(args)
	case "classes":
		classes(args)
	case "list":
		var ids []string
		for id := range scenarios {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		os.Exit(2)
	}
}

var runStart int64

func watchdog(limit time.Duration, onHang func()) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := atomic.LoadInt64(&runStart)
			if s != 0 && time.Since(time.Unix(0, s)) > limit {
				onHang()
				return
			}
		}
	}()
}

func timed(p *Plan, verbose bool) *Result {
	atomic.StoreInt64(&runStart, time.Now().UnixNano())
	r := runPlan(p, verbose)
	atomic.StoreInt64(&runStart, 0)
	return r
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	to := fs.Int("to", 0, "")
	secs := fs.Float64("secs", 20, "")
	keep := fs.Bool("keep", false, "keep going after a failure")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var mu sync.Mutex
	cur := -1
	watchdog(90*time.Second, func() {
		mu.Lock()
		enc.Encode(workerMsg{Trouble: fmt.Sprintf("run %d of %s hangs in real time", cur, *prop)})
		out.Flush()
		os.Exit(3)
	})
	st := &workerStats{Counts: map[string]int64{}, Strategies: map[string]int{}, Failures: map[string]int{}}
	hashes := map[uint64]bool{}
	pairs := map[uint64]bool{}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	for i := *from; i < *to && time.Now().Before(end); i += *stride {
		cur = i
		p := genPlan(*prop, *base, i)
		r := timed(p, false)
		w := r.World
		st.Runs++
		st.Strategies[p.Sched.Strategy]++
		if w.Stats["observations"] > 0 && w.Switches > 0 {
			hashes[w.SwitchHash] = true
		}
		for k := range w.Pairs {
			pairs[k] = true
		}
		for k, v := range w.Stats {
			st.Counts[k] += v
		}
		st.SimNanos += w.NowN()
		st.Steps += w.Steps()
		st.Switches += w.Switches
		st.Preempts += w.Preempts
		if st.Runs%61 == 1 {
			st.DetRuns++
			r2 := timed(p, false)
			if r2.World.EventHash != w.EventHash || r2.World.SwitchHash != w.SwitchHash {
				st.DetBad++
			}
		}
		if r.Fail != nil {
			st.Failures[failKey(r.Fail)]++
			if st.Failures[failKey(r.Fail)] <= 2 {
				mu.Lock()
				enc.Encode(workerMsg{Fail: r.Fail, Plan: p})
				out.Flush()
				mu.Unlock()
			}
			if !*keep {
				break
			}
		} else if st.Sample == nil {
			st.Sample = p
		}
	}
	for h := range hashes {
		st.Nontrivial = append(st.Nontrivial, h)
	}
	for h := range pairs {
		st.Pairs = append(st.Pairs, h)
	}
	mu.Lock()
	enc.Encode(workerMsg{Stats: st})
	out.Flush()
}

func readPlan(file string) (*Plan, *zzsim.Failure, uint64) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Plan == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		os.Exit(2)
	}
	h, _ := strconv.ParseUint(rf.EventHash, 16, 64)
	return rf.Plan, rf.Violation, h
}

type replayFile struct {
	Property  string         `json:"property"`
	Violation *zzsim.Failure `json:"violation"`
	EventHash string         `json:"event_hash"`
	Note      string         `json:"note"`
	Original  struct {
		Seed      uint64 `json:"verif_seed"`
		Index     int    `json:"index"`
		Ops       int    `json:"ops"`
		Decisions int    `json:"decisions"`
	} `json:"original"`
	Tries int      `json:"minimiser_runs"`
	Plan  *Plan    `json:"plan"`
	Log   []string `json:"log"`
}

func doMinimise(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	in := fs.String("in", "", "")
	outf := fs.String("out", "", "")
	secs := fs.Float64("secs", 30, "")
	fs.Parse(args)
	watchdog(90*time.Second, func() { os.Exit(3) })
	p, f, _ := readPlan(*in)
	r := timed(p, false)
	if !sameFailure(r.Fail, f) {
		fmt.Fprintf(os.Stderr, "not reproducible: got %v want %v\n", r.Fail, f)
		os.Exit(4)
	}
	atomic.StoreInt64(&runStart, 0)
	rf := replayFile{Property: p.Prop}
	rf.Original.Index = p.Index
	rf.Original.Ops = len(p.Ops)
	rf.Original.Decisions = len(r.World.Trace)
	q, qf, tries := minimise(p, f, time.Duration(*secs*float64(time.Second)))
	r = runPlan(q, true)
	if !sameFailure(r.Fail, qf) {
		fmt.Fprintln(os.Stderr, "minimised plan does not reproduce")
		os.Exit(4)
	}
	rf.Plan, rf.Violation, rf.Tries = q, r.Fail, tries
	rf.EventHash = fmt.Sprintf("%016x", r.World.EventHash)
	rf.Note = "replay with /verif/replay.sh FILE; the schedule is plan.decisions (scheduling step -> candidate), the fault and operation sequence is plan.ops"
	l := prettyLog(r.World.Log)
	if len(l) > 400 {
		l = append(append([]string{}, l[:100]...), append([]string{"..."}, l[len(l)-300:]...)...)
	}
	rf.Log = l
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(*outf, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func replay(args []string) int {
	verbose := false
	if len(args) > 1 && args[0] == "-v" {
		verbose = true
		args = args[1:]
	}
	p, f, h := readPlan(args[0])
	r := runPlan(p, true)
	if verbose {
		for _, l := range prettyLog(r.World.Log) {
			fmt.Println(l)
		}
	}
	if r.Fail == nil {
		fmt.Println("no violation: the property held on this replay")
		return 0
	}
	same := sameFailure(r.Fail, f) && r.World.EventHash == h
	fmt.Printf("violation reproduced (%s): %s: %s\n", map[bool]string{true: "identical execution", false: "execution differs from the recorded one"}[same], r.Fail.Class, r.Fail.Detail)
	if !same {
		fmt.Printf("recorded: %+v hash %016x, now: hash %016x\n", f, h, r.World.EventHash)
		return 3
	}
	return 1
}

func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	i := fs.Int("i", 0, "")
	fs.Parse(args)
	p := genPlan(*prop, *base, *i)
	r := runPlan(p, true)
	for _, l := range prettyLog(r.World.Log) {
		fmt.Println(l)
	}
	b, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(b))
	fmt.Println("fail:", r.Fail, "stats:", r.World.Stats, "steps", r.World.Steps(), "sim s", float64(r.World.NowN())/1e9)
}

// classes prints how often each failure class occurs (for development).
func classes(args []string) {
	fs := flag.NewFlagSet("classes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	fs.Parse(args)
	m := map[string]int{}
	first := map[string]string{}
	t0 := time.Now()
	var steps uint64
	counts := map[string]int64{}
	for i := 0; i < *n; i++ {
		p := genPlan(*prop, *base, i)
		r := runPlan(p, false)
		steps += r.World.Steps()
		for k, v := range r.World.Stats {
			counts[k] += v
		}
		if r.Fail != nil {
			k := failKey(r.Fail)
			m[k]++
			if m[k] == 1 {
				first[k] = fmt.Sprintf("i=%d %s", i, r.Fail.Detail)
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%6d %s   e.g. %s\n", m[k], k, first[k])
	}
	fmt.Printf("%s: %d runs, %.1f runs/s, %d steps/run, counts %v\n", *prop, *n, float64(*n)/time.Since(t0).Seconds(), steps/uint64(*n), counts)
}

func siteName(s int32) string {
	if s >= 0 && int(s) < len(siteTable) {
		return siteTable[s]
	}
	return strconv.Itoa(int(s))
}

func prettyLog(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = zzsim.ReplaceSites(s, siteName)
	}
	return out
}

// ---------------------------------------------------------------- check

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	evid := fs.String("evidence", "", "")
	reps := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	secs := fs.Float64("secs", 0, "")
	t0s := fs.Int64("t0", 0, "start of the check, unix milliseconds")
	fs.Parse(args)
	t0 := time.Now()
	if *t0s > 0 {
		t0 = time.UnixMilli(*t0s)
	}
	sc := scenarios[*prop]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	runs := sc.Runs[*tier]
	if runs == 0 {
		runs = map[string]int{"quick": 1000000, "thorough": 100000000}[*tier]
	}
	wall := *secs
	if wall == 0 {
		wall = map[string]float64{"quick": 40, "thorough": 600}[*tier]
	}
	var findings []Known
	if *known != "" {
		b, err := os.ReadFile(*known)
		if err == nil {
			var kf struct{ Findings []Known }
			if err := json.Unmarshal(b, &kf); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				return 2
			}
			findings = kf.Findings
		}
	}
	isKnown := func(f *zzsim.Failure, p *Plan) *Known {
		for i := range findings {
			k := &findings[i]
			if k.Status != "known" || k.Property != *prop || k.Class != f.Class {
				continue
			}
			if k.Contains != "" && !contains(f.Detail, k.Contains) {
				continue
			}
			ok := true
			for a, b := range k.Where {
				if p.P[a] != b {
					ok = false
				}
			}
			if ok {
				return k
			}
		}
		return nil
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	type res struct {
		msgs []workerMsg
		err  error
	}
	ch := make(chan res, n)
	var procs []*exec.Cmd
	var once sync.Once
	killAll := func() {
		for _, c := range procs {
			c.Process.Kill()
		}
	}
	var stop int32
	searchStart := time.Now()
	for k := 0; k < n; k++ {
		a := []string{"worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(k), "-stride", fmt.Sprint(n), "-to", fmt.Sprint(runs), "-secs", fmt.Sprint(wall)}
		if hasKnown(findings, *prop) {
			a = append(a, "-keep")
		}
		c := exec.Command(self, a...)
		c.Stderr = os.Stderr
		pipe, err := c.StdoutPipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		procs = append(procs, c)
		go func(c *exec.Cmd, r io.Reader) {
			var out res
			d := json.NewDecoder(r)
			for {
				var m workerMsg
				if err := d.Decode(&m); err != nil {
					if err != io.EOF && atomic.LoadInt32(&stop) == 0 {
						out.err = err
					}
					break
				}
				out.msgs = append(out.msgs, m)
				if m.Fail != nil && isKnown(m.Fail, m.Plan) == nil {
					once.Do(func() {
						// let the others finish what they have, briefly
						time.AfterFunc(1500*time.Millisecond, func() { atomic.StoreInt32(&stop, 1); killAll() })
					})
				}
			}
			if err := c.Wait(); err != nil && out.err == nil && atomic.LoadInt32(&stop) == 0 {
				out.err = err
			}
			ch <- out
		}(c, pipe)
	}
	total := &workerStats{Counts: map[string]int64{}, Strategies: map[string]int{}}
	hashes := map[uint64]bool{}
	pairs := map[uint64]bool{}
	var fails []workerMsg
	knownHit := map[string]int{}
	trouble := ""
	for k := 0; k < n; k++ {
		r := <-ch
		if r.err != nil && trouble == "" {
			trouble = r.err.Error()
		}
		for _, m := range r.msgs {
			if m.Trouble != "" {
				trouble = m.Trouble
			}
			if m.Fail != nil {
				if kf := isKnown(m.Fail, m.Plan); kf != nil {
					knownHit[kf.What]++
				} else {
					fails = append(fails, m)
				}
			}
			if s := m.Stats; s != nil {
				total.Runs += s.Runs
				for _, h := range s.Nontrivial {
					hashes[h] = true
				}
				for _, h := range s.Pairs {
					pairs[h] = true
				}
				for a, b := range s.Counts {
					total.Counts[a] += b
				}
				for a, b := range s.Strategies {
					total.Strategies[a] += b
				}
				total.SimNanos += s.SimNanos
				total.Steps += s.Steps
				total.Switches += s.Switches
				total.Preempts += s.Preempts
				total.DetRuns += s.DetRuns
				total.DetBad += s.DetBad
				if total.Sample == nil {
					total.Sample = s.Sample
				}
			}
		}
	}
	searchSecs := time.Since(searchStart).Seconds()
	violations := 0
	path := ""
	var rf *replayFile
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].Plan.Index < fails[j].Plan.Index })
		os.MkdirAll(*reps, 0755)
		for _, f := range fails {
			tmp := filepath.Join(*reps, fmt.Sprintf("%s-%d-%d.raw.json", *prop, *seed, f.Plan.Index))
			path = filepath.Join(*reps, fmt.Sprintf("%s-seed%d-run%d.json", *prop, *seed, f.Plan.Index))
			b, _ := json.Marshal(replayFile{Property: *prop, Violation: f.Fail, Plan: f.Plan})
			if err := os.WriteFile(tmp, b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			ms := "40"
			if *tier == "thorough" {
				ms = "120"
			}
			c := exec.Command(self, "minimise", "-in", tmp, "-out", path, "-secs", ms)
			c.Stderr = os.Stderr
			merr := c.Run()
			os.Remove(tmp)
			if merr != nil {
				trouble = fmt.Sprintf("failure of run %d (%s: %s) could not be replayed: %v", f.Plan.Index, f.Fail.Class, f.Fail.Detail, merr)
				continue
			}
			// the replay file must reproduce the execution in a fresh process
			c = exec.Command(self, "replay", path)
			if err := c.Run(); err == nil || c.ProcessState.ExitCode() != 1 {
				trouble = fmt.Sprintf("replay of %s is not exact", path)
				continue
			}
			rb, _ := os.ReadFile(path)
			rf = &replayFile{}
			json.Unmarshal(rb, rf)
			rf.Original.Seed = *seed
			rb, _ = json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, rb, 0644)
			violations = 1
			break
		}
	}
	// evidence
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range total.Counts {
		if len(k) > 6 && k[:6] == "fault." {
			faults[k[6:]] = v
		} else {
			other[k] = v
		}
	}
	var samples []interface{}
	if total.Sample != nil {
		samples = append(samples, total.Sample)
	}
	if rf != nil {
		samples = append(samples, map[string]interface{}{"violation": rf.Violation, "replay": path})
	}
	cov := map[string]interface{}{
		"evaluations":         total.Runs,
		"distinct_nontrivial": len(hashes),
		"rule": "one evaluation is one simulated run of a plan (configuration, operations, faults, network behaviour, scheduling strategy) generated from VERIF_SEED and the run's index; " +
			"a run counts as non-trivial if at least one context switch happened and the oracle compared at least one observation; distinct means a different sequence of context switches (task, code site, next task)",
		"samples":                  samples,
		"seeds_per_hour":           int(float64(total.Runs) / searchSecs * 3600),
		"simulated_seconds":        float64(total.SimNanos) / 1e9,
		"scheduling_steps":         total.Steps,
		"context_switches":         total.Switches,
		"preemptions":              total.Preempts,
		"distinct_switch_sites":    len(pairs),
		"distinct_switch_sites_is": "pairs (code site left, code site resumed) at which a context switch happened",
		"faults_injected":          faults,
		"events":                   other,
		"strategies":               total.Strategies,
		"determinism_rechecks":     total.DetRuns,
		"determinism_mismatches":   total.DetBad,
		"real_code":                append([]string{"every non-test, non-main package of /repo as it is in the working tree, instrumented at build time"}, sc.Real...),
		"stubs":                    append([]string{"goroutine scheduler, channels wait queues, sync, sync/atomic, time, math/rand, log, console output, sockets, socket files: simulator"}, sc.Stubs...),
		"known_findings_hit":       knownHit,
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": []string{
			"sequentially consistent memory: effects of weak memory ordering on unsynchronised accesses are not simulated; preemption happens at statement boundaries, inside read-modify-write updates, stores to shared memory, map updates and at every synchronisation operation",
			"standard library code called by the repository runs uninstrumented and atomically except where it calls back",
			"search is seeded random sampling: no claim beyond the executions run",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if *evid != "" {
		os.MkdirAll(filepath.Dir(*evid), 0755)
		if err := os.WriteFile(*evid, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, k := range findings {
		if k.Status == "known" && k.Property == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (hit %d times in this run)\n", *prop, k.What, knownHit[k.What])
		}
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial schedules), %.0f simulated s, %.1f s wall, faults %v\n", *prop, *tier, total.Runs, len(hashes), float64(total.SimNanos)/1e9, time.Since(t0).Seconds(), faults)
	if violations > 0 {
		fmt.Printf("%s: %s\n", rf.Violation.Class, rf.Violation.Detail)
		fmt.Printf("minimised to %d operations and %d scheduling decisions\n", len(rf.Plan.Ops), len(rf.Plan.Decisions))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		return 1
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "trouble:", trouble)
		return 2
	}
	if total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no run completed")
		return 2
	}
	return 0
}

func hasKnown(f []Known, prop string) bool {
	for _, k := range f {
		if k.Status == "known" && k.Property == prop {
			return true
		}
	}
	return false
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}
