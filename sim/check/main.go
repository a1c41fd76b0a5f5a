package check

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"alda.sim/world"
)

var (
	fProp    = flag.String("property", "", "property to check")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRuns    = flag.Int("runs", 0, "number of runs (0: default of the tier)")
	fSeed    = flag.Uint64("seed", 1, "base seed")
	fWorker  = flag.Bool("worker", false, "worker mode")
	fReplay  = flag.String("replay", "", "replay a file")
	fTrace   = flag.Bool("trace", false, "print the event log")
	fOne     = flag.Int("one", -1, "run one index and print everything")
	fVerif   = flag.String("verif", "/verif", "directory of the framework")
	fJobs    = flag.Int("j", 8, "worker processes")
	fWall    = flag.Float64("wall", 0, "seconds after which no more runs are started")
	fDeterm  = flag.Bool("determinism", false, "run every index twice and compare")
	fVerbose = flag.Bool("v", false, "print every violation")
	fNoMin   = flag.Bool("nomin", false, "do not minimise")
	fBuildMs = flag.Int("buildms", 0, "time spent building, for the evidence")
)

// Main is the entry point of the built checker.
func Main() {
	flag.Parse()
	switch {
	case *fWorker:
		worker()
	case *fReplay != "":
		os.Exit(replayFile(*fReplay))
	case *fOne >= 0:
		r := runJob(&Job{Prop: *fProp, Index: *fOne, Seed: *fSeed, Tier: *fTier, Trace: true, Full: true})
		pl, _ := json.MarshalIndent(r.Plan, "", " ")
		fmt.Println(string(pl))
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		r.Trace, r.Plan, r.Sparse = nil, nil, nil
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(parent())
	}
}

func worker() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j Job
		if err := json.Unmarshal(line, &j); err != nil {
			fmt.Fprintln(os.Stderr, "bad job:", err)
			os.Exit(71)
		}
		r := runJob(&j)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// wproc is a worker process seen from the parent.
type wproc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tailBuf
	runs int
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[:1<<15]...)
	}
	return len(p), nil
}

func startWorker() *wproc {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-worker")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	w := &wproc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), errb: &tailBuf{}}
	cmd.Stderr = w.errb
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start a worker:", err)
		os.Exit(3)
	}
	return w
}

func (w *wproc) stop() {
	if w == nil {
		return
	}
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

const runWatchdog = 150 * time.Second

// do runs one job; a worker that dies or hangs yields a result saying so, and
// the worker must be replaced (dead = true).
func (w *wproc) do(j *Job) (r *Result, dead bool) {
	b, _ := json.Marshal(j)
	b = append(b, '\n')
	type reply struct {
		line []byte
		err  error
	}
	ch := make(chan reply, 1)
	go func() {
		if _, err := w.in.Write(b); err != nil {
			ch <- reply{nil, err}
			return
		}
		l, err := w.out.ReadBytes('\n')
		ch <- reply{l, err}
	}()
	w.runs++
	select {
	case rep := <-ch:
		if rep.err == nil {
			r = &Result{}
			if err := json.Unmarshal(rep.line, r); err == nil {
				return r, false
			}
		}
		w.cmd.Wait()
		msg := string(w.errb.b)
		r = &Result{Prop: j.Prop, Index: j.Index, Outcome: "worker died"}
		plan := j.Plan
		if plan == nil {
			plan = genPlan(j.Prop, j.Seed, j.Index, j.Tier)
		}
		r.Plan, r.Scn = plan, plan.Scn
		if i := strings.Index(msg, "stack overflow"); i >= 0 && !strings.Contains(msg, "HARNESS PANIC") {
			// An unbounded recursion of the code under test cannot be caught
			// inside the process; it kills the real program in the same way.
			r.Viol = []Viol{{"fatal-stack-overflow", "the process dies of a stack overflow: " + clip(msg, 300)}}
		} else {
			r.Err = "worker died: " + clip(msg, 1500)
		}
		return r, true
	case <-time.After(runWatchdog):
		w.cmd.Process.Kill()
		w.cmd.Wait()
		return &Result{Prop: j.Prop, Index: j.Index, Outcome: "watchdog", Err: "a run did not finish within the watchdog time"}, true
	}
}

// pool runs jobs on n workers; results come back in index order.
func pool(n int, jobs []*Job, wall time.Duration, each func(j *Job, r *Result)) (started int) {
	type item struct {
		j *Job
		r *Result
	}
	in := make(chan *Job)
	out := make(chan item)
	stopAt := time.Now().Add(wall)
	done := make(chan bool)
	for k := 0; k < n; k++ {
		go func() {
			w := startWorker()
			for j := range in {
				r, dead := w.do(j)
				if dead || w.runs > 3000 {
					if !dead {
						w.stop()
					}
					w = startWorker()
				}
				out <- item{j, r}
			}
			w.stop()
			done <- true
		}()
	}
	go func() {
		for _, j := range jobs {
			if wall > 0 && time.Now().After(stopAt) {
				break
			}
			in <- j
		}
		close(in)
		for k := 0; k < n; k++ {
			<-done
		}
		close(out)
	}()
	for it := range out {
		started++
		each(it.j, it.r)
	}
	return started
}

// Known is one entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // commit that repaired it: suppresses nothing
}

func loadKnown() []Known {
	var out struct {
		Findings []Known `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &out); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(3)
		}
	}
	return out.Findings
}

func parent() int {
	start := time.Now()
	prop := *fProp
	if len(scenariosOf(prop)) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	tn := tuning[prop]
	runs, wall := tn.quick, 300.0
	if *fTier == "thorough" {
		runs, wall = tn.thorough, 780.0
		if runs == 0 {
			runs = tn.quick * 20
		}
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fWall > 0 {
		wall = *fWall
	}
	fmt.Printf("property %s: tier %s, VERIF_SEED %d, %d runs planned\n", prop, *fTier, *fSeed, runs)

	known := map[string]*Known{}
	seenKnown := map[string]int{}
	for _, k := range loadKnown() {
		k := k
		if k.Property == prop && k.Fixed == "" {
			known[k.Class] = &k
		}
	}
	var jobs []*Job
	for i := 0; i < runs; i++ {
		jobs = append(jobs, &Job{Prop: prop, Index: i, Seed: *fSeed, Tier: *fTier})
	}
	dup := 2 * *fJobs
	if *fDeterm {
		dup = runs
	}
	if dup > runs {
		dup = runs
	}
	// The first runs are repeated in other processes to check that a seed is
	// one execution.
	for i := 0; i < dup; i++ {
		jobs = append(jobs, &Job{Prop: prop, Index: i, Seed: *fSeed, Tier: *fTier})
	}
	first := map[int]*Result{}
	var ag agg
	ag.init()
	mismatch := 0
	var bad []*Result
	errs := map[string]int{}
	capped := 0
	stopEarly := false
	n := pool(*fJobs, jobs, time.Duration(wall*float64(time.Second)), func(j *Job, r *Result) {
		if f := first[r.Index]; f != nil {
			ag.repeated++
			if f.Hash != r.Hash && f.Err == "" && r.Err == "" {
				mismatch++
				fmt.Fprintf(os.Stderr, "run %d is not repeatable: %x %x (%s)\n", r.Index, f.Hash, r.Hash, r.Scn)
			}
			return
		}
		first[r.Index] = r
		ag.add(r)
		if r.Err != "" {
			errs[fmt.Sprintf("%s: %s", r.Scn, clip(r.Err, 1500))]++
		}
		if r.Outcome == "step limit" {
			capped++
		}
		isBad := false
		for _, v := range r.Viol {
			if known[v.Class] != nil {
				seenKnown[v.Class]++
			} else {
				isBad = true
			}
		}
		if isBad {
			bad = append(bad, r)
			if len(bad) >= 40 {
				stopEarly = true
			}
		}
	})
	_ = n
	_ = stopEarly
	wallRuns := time.Since(start).Seconds()
	for e, k := range errs {
		fmt.Fprintf(os.Stderr, "harness trouble in %d run(s): %s\n", k, e)
	}
	code := 0
	nviol := 0
	var violLine string
	if len(bad) > 0 {
		sort.Slice(bad, func(a, b int) bool { return bad[a].Index < bad[b].Index })
		classes := map[string]int{}
		for _, r := range bad {
			for _, v := range r.Viol {
				if known[v.Class] == nil {
					classes[v.Class]++
				}
			}
		}
		nviol = len(bad)
		if *fVerbose {
			for _, r := range bad {
				for _, v := range r.Viol {
					fmt.Printf("run %d %s: %s: %s\n", r.Index, r.Scn, v.Class, v.Msg)
				}
			}
		}
		for c, k := range classes {
			fmt.Printf("violation class %s in %d run(s)\n", c, k)
		}
		// One report, for the first run whose violation reproduces.
		tried := 0
		for _, r := range bad {
			if tried >= 6 {
				break
			}
			tried++
			class := ""
			for _, v := range r.Viol {
				if known[v.Class] == nil {
					class = v.Class
					break
				}
			}
			path := reportViolation(prop, r, class)
			if path != "" {
				violLine = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
				break
			}
			fmt.Fprintf(os.Stderr, "run %d: violation %s did not reproduce in a fresh process\n", r.Index, class)
		}
		if violLine == "" {
			code = 3
		} else {
			code = 1
		}
	}
	if code == 0 {
		bads := 0
		for _, k := range errs {
			bads += k
		}
		if bads > 0 && bads*50 > len(first) {
			fmt.Fprintln(os.Stderr, "too many runs ended in harness trouble")
			code = 3
		}
		if capped*10 > len(first) {
			fmt.Fprintf(os.Stderr, "%d of %d runs reached the step limit\n", capped, len(first))
			code = 3
		}
		if len(first) < runs && len(first) < 50 {
			fmt.Fprintf(os.Stderr, "only %d runs within the time limit\n", len(first))
			code = 3
		}
		if int64(mismatch)*5 > ag.repeated {
			fmt.Fprintf(os.Stderr, "%d of %d repeated runs differed\n", mismatch, ag.repeated)
			code = 3
		}
	}
	writeEvidence(prop, &ag, nviol, mismatch, capped, errs, time.Since(start).Seconds(), wallRuns, known, seenKnown)
	fmt.Printf("%d runs, %d distinct schedules, %d checks, %.0f s simulated, %.1f s real; %d repeated runs, %d differed\n",
		len(first), len(ag.scheds), ag.checks, float64(ag.simns)/1e9, time.Since(start).Seconds(), ag.repeated, mismatch)
	var ks []string
	for c := range known {
		ks = append(ks, c)
	}
	sort.Strings(ks)
	for _, c := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen in %d runs)\n", prop, c, known[c].What, seenKnown[c])
	}
	if violLine != "" {
		fmt.Println(violLine)
	}
	return code
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Version  string   `json:"alda_version"`
	Plan     *Plan    `json:"plan"`
	Choices  []string `json:"choices"`
	Fatal    bool     `json:"fatal,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

func hasClass(r *Result, class string) (string, bool) {
	for _, v := range r.Viol {
		if v.Class == class {
			return v.Msg, true
		}
	}
	return "", false
}

func reportViolation(prop string, r *Result, class string) string {
	mn := &minimiser{class: class, deadline: time.Now().Add(60 * time.Second)}
	if *fTier == "thorough" {
		mn.deadline = time.Now().Add(90 * time.Second)
	}
	defer mn.close()
	best := mn.minimise(r)
	if best == nil {
		return ""
	}
	// a last time in a fresh process, with the trace
	w := startWorker()
	defer w.stop()
	fin, _ := w.do(&Job{Prop: prop, Plan: best.plan, Sparse: best.sparse, Replay: true, Full: true, Trace: true})
	msg, ok := hasClass(fin, class)
	if !ok {
		return ""
	}
	rf := &ReplayFile{Property: prop, Class: class, Message: msg, Seed: *fSeed, Index: r.Index, Version: AldaVersion,
		Plan: best.plan, Choices: best.sparse, Fatal: fin.Outcome == "worker died", Trace: tail(fin.Trace, 400)}
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, class, r.Index))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write the replay file:", err)
		return ""
	}
	fmt.Printf("%s: %s\n  (%d of %d steps left, %d choices; found by run %d, minimised in %d runs)\n", class, msg,
		len(best.plan.Ops), mn.origOps, countChoices(best.sparse), r.Index, mn.runs)
	return path
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func countChoices(sp []string) int {
	n := 0
	for _, s := range sp {
		n += len(strings.Fields(s))
	}
	return n
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w := startWorker()
	defer w.stop()
	r, _ := w.do(&Job{Prop: rf.Property, Plan: rf.Plan, Sparse: rf.Choices, Replay: true, Full: true, Trace: true})
	for _, l := range r.Trace {
		if *fTrace {
			fmt.Println(l)
		}
	}
	if r.Err != "" {
		fmt.Fprintln(os.Stderr, "harness trouble:", r.Err)
	}
	for _, v := range r.Viol {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
	}
	if _, ok := hasClass(r, rf.Class); ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	fmt.Println("the violation does not occur")
	return 0
}

// ---------------------------------------------------------------- minimising

type cand struct {
	plan   *Plan
	sparse []string
}

type minimiser struct {
	class    string
	w        *wproc
	runs     int
	origOps  int
	deadline time.Time
}

func (m *minimiser) close() { m.w.stop() }

// try runs a candidate; replay=false regenerates the choices from the seed.
func (m *minimiser) try(p *Plan, sp []string, replay bool) *cand {
	if m.w == nil {
		m.w = startWorker()
	}
	m.runs++
	r, dead := m.w.do(&Job{Prop: p.Prop, Plan: p, Sparse: sp, Replay: replay, Full: true})
	if dead {
		m.w = startWorker()
	}
	if _, ok := hasClass(r, m.class); !ok {
		return nil
	}
	if dead { // no recorded choices
		return &cand{p, sp}
	}
	return &cand{p, trimSparse(r.Sparse)}
}

func trimSparse(s []string) []string { return s }

func (m *minimiser) over() bool { return time.Now().After(m.deadline) || m.runs > 1500 }

func (m *minimiser) minimise(r *Result) *cand {
	m.origOps = len(r.Plan.Ops)
	var best *cand
	if r.Sparse != nil {
		best = m.try(r.Plan, r.Sparse, true)
	} else {
		best = m.try(r.Plan, nil, false)
		if best != nil && best.sparse == nil {
			// fatal: can only be replayed with generated choices; try benign ones
			best = m.try(r.Plan, []string{}, true)
			if best == nil {
				return nil
			}
		}
	}
	if best == nil || *fNoMin {
		return best
	}
	accept := func(c *cand) bool {
		if c != nil {
			best = c
			return true
		}
		return false
	}
	// no special choices at all?
	accept(m.try(best.plan, []string{}, true))
	for round := 0; round < 3 && !m.over(); round++ {
		before := len(best.plan.Ops)*100000 + countChoices(best.sparse)
		// drop steps
		for size := (len(best.plan.Ops) + 1) / 2; size >= 1 && !m.over(); size /= 2 {
			for i := 0; i < len(best.plan.Ops) && !m.over(); {
				p := best.plan.clone()
				j := i + size
				if j > len(p.Ops) {
					j = len(p.Ops)
				}
				p.Ops = append(p.Ops[:i], p.Ops[j:]...)
				if accept(m.try(p, best.sparse, true)) {
					continue
				}
				if round == 0 && accept(m.try(p, nil, false)) {
					continue
				}
				i += size
			}
			if size == 1 {
				break
			}
		}
		// simpler texts: drop words
		for i := 0; i < len(best.plan.Ops) && !m.over(); i++ {
			for {
				o := best.plan.Ops[i]
				f := strings.Fields(o.S)
				if len(f) < 3 || len(f) > 40 {
					break
				}
				ok := false
				for k := len(f) - 1; k > 0 && !m.over(); k-- {
					p := best.plan.clone()
					g := append(append([]string{}, f[:k]...), f[k+1:]...)
					p.Ops[i].S = strings.Join(g, " ")
					if accept(m.try(p, best.sparse, true)) {
						ok = true
						break
					}
				}
				if !ok {
					break
				}
			}
		}
		// parameters to zero
		for _, k := range sortedKeys(best.plan.I) {
			if best.plan.I[k] == 0 || m.over() {
				continue
			}
			p := best.plan.clone()
			p.I[k] = 0
			accept(m.try(p, best.sparse, true))
		}
		// choices: whole streams, then parts
		for st := 0; st < len(best.sparse) && !m.over(); st++ {
			if best.sparse[st] == "" {
				continue
			}
			sp := append([]string(nil), best.sparse...)
			sp[st] = ""
			if accept(m.try(best.plan, sp, true)) {
				continue
			}
			d := dense(best.sparse)
			var idx []int
			for k, v := range d[st] {
				if v != 0 {
					idx = append(idx, k)
				}
			}
			for size := (len(idx) + 1) / 2; size >= 1 && !m.over(); size /= 2 {
				for i := 0; i < len(idx) && !m.over(); {
					j := i + size
					if j > len(idx) {
						j = len(idx)
					}
					nd := dense(best.sparse)
					for _, k := range idx[i:j] {
						if k < len(nd[st]) {
							nd[st][k] = 0
						}
					}
					sp := sparse(*nd)
					if c := m.try(best.plan, sp, true); c != nil && countChoices(c.sparse) < countChoices(best.sparse) {
						best = c
						idx = nil
						for k, v := range dense(best.sparse)[st] {
							if v != 0 {
								idx = append(idx, k)
							}
						}
						continue
					}
					i += size
				}
				if size == 1 {
					break
				}
			}
		}
		after := len(best.plan.Ops)*100000 + countChoices(best.sparse)
		if after >= before {
			break
		}
	}
	return best
}

// ---------------------------------------------------------------- evidence

type agg struct {
	runs, nontriv, checks, repeated int64
	simns, steps, switches          int64
	scheds, sigs, hashes            map[uint64]bool
	faults, probes, counters        map[string]int64
	byScn                           map[string]int64
	maxSim                          int64
	procs                           int64
	samples                         []string
	outcomes                        map[string]int64
}

func (a *agg) init() {
	a.scheds, a.sigs, a.hashes = map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	a.faults, a.probes, a.counters, a.byScn, a.outcomes = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
}

func (a *agg) add(r *Result) {
	a.runs++
	if r.NonTriv && !a.hashes[r.Hash] {
		a.nontriv++
	}
	a.hashes[r.Hash] = true
	a.checks += r.Checks
	a.simns += r.SimNS
	if r.SimNS > a.maxSim {
		a.maxSim = r.SimNS
	}
	a.steps += int64(r.Steps)
	a.switches += int64(r.Switches)
	a.procs += int64(r.Procs)
	a.scheds[r.SHash] = true
	a.sigs[r.Sig] = true
	for k, v := range r.Faults {
		a.faults[k] += v
	}
	for k, v := range r.Probes {
		a.probes[k] += v
	}
	for k, v := range r.Counters {
		a.counters[k] += v
	}
	a.byScn[r.Scn]++
	a.outcomes[r.Outcome]++
	if len(a.samples) < 4 && r.NonTriv {
		a.samples = append(a.samples, fmt.Sprintf("run %d: %s", r.Index, r.Sample))
	}
}

func writeEvidence(prop string, a *agg, nviol, mismatch, capped int, errs map[string]int, total, wallRuns float64, known map[string]*Known, seen map[string]int) {
	tn := tuning[prop]
	hours := wallRuns / 3600
	if hours <= 0 {
		hours = 1
	}
	if len(a.samples) == 0 {
		a.samples = []string{"none"}
	}
	var kf []string
	for c := range known {
		kf = append(kf, fmt.Sprintf("%s (seen in %d runs)", c, seen[c]))
	}
	sort.Strings(kf)
	ev := map[string]interface{}{
		"property": prop, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"wall_s": total, "violations": nviol,
		"coverage": map[string]interface{}{
			"evaluations":               a.runs,
			"distinct_nontrivial":       a.nontriv,
			"rule":                      "one evaluation is one simulated execution from one seed (workload, schedule, faults); it counts as non-trivial if its scenario reached what it is for (" + tn.nontrivial + ") and as distinct if its complete event log differs from those of all earlier runs",
			"samples":                   a.samples,
			"oracle_checks":             a.checks,
			"runs_per_hour":             int64(float64(a.runs) / hours),
			"simulated_seconds":         float64(a.simns) / 1e9,
			"longest_run_simulated_s":   float64(a.maxSim) / 1e9,
			"scheduling_steps":          a.steps,
			"task_switches":             a.switches,
			"distinct_interleavings":    len(a.scheds),
			"interleaving_measure":      "hash of the sequence of tasks the scheduler ran",
			"distinct_workloads":        len(a.sigs),
			"runs_by_scenario":          a.byScn,
			"simulated_processes":       a.procs,
			"faults_fired":              a.faults,
			"rare_conditions_reached":   a.probes,
			"runtime_counters":          a.counters,
			"run_outcomes":              a.outcomes,
			"runs_repeated":             a.repeated,
			"repeated_runs_that_differ": mismatch,
			"runs_at_step_limit":        capped,
			"harness_errors":            len(errs),
			"known_findings":            kf,
			"components_real":           "all Go code of the alda client (every package under /repo/client), cobra, zerolog, go-osc, bencode-go, mpb, etree, gabs, xdg, uuid: rewritten from the current tree so that goroutines, channels, selects, map order, clocks, randomness, files, sockets, processes and signals go to the simulator",
			"components_stub":           "the Kotlin player (a model of its OSC, state-file and export behaviour), the alda.io HTTP service, the interactive terminal, the operating system (file system, loopback TCP, processes)",
			"build_seconds":             float64(*fBuildMs) / 1000,
			"worker_processes":          *fJobs,
		},
		"assumptions": []string{
			"the simulated operating system behaves like Linux for the calls the client makes (short reads and writes, errno values, non-atomic writes, atomic rename, kernel-buffered sockets)",
			"the player model follows player/src/main/kotlin",
			"preemption happens between statements of the client, not inside them",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644)
}

var _ = strconv.Itoa
var _ = world.Epoch
