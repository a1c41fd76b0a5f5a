// Package check runs the real alda client inside the simulator, decides the
// properties, minimises failures and replays them.
package check

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"alda.sim/rt"
	"alda.sim/world"
)

// AldaVersion is the version of the code under test (set by the linker).
var AldaVersion string

const (
	us  = int64(1_000)
	ms  = int64(1_000_000)
	sec = int64(1_000_000_000)
)

// Op is one step of a plan.
type Op struct {
	K  string   `json:"k"`
	C  int      `json:"c,omitempty"`  // actor (client, player, ...)
	S  string   `json:"s,omitempty"`  // text
	T  string   `json:"t,omitempty"`  // second text
	N  int64    `json:"n,omitempty"`  // number
	M  int64    `json:"m,omitempty"`  // second number
	At int64    `json:"at,omitempty"` // delay before it, or absolute time
	X  []string `json:"x,omitempty"`
}

// Cfg holds the swarm parameters of a run.
type Cfg struct {
	PSwitch  float64 `json:"pswitch,omitempty"`
	PReorder float64 `json:"preorder,omitempty"`
	Gap      int     `json:"gap,omitempty"`
	PMap     float64 `json:"pmap,omitempty"`
	PSeg     float64 `json:"pseg,omitempty"`
	PDelay   float64 `json:"pdelay,omitempty"`
	MaxDelay int64   `json:"maxdelay,omitempty"`
	PCoal    float64 `json:"pcoal,omitempty"`
	BufSize  int     `json:"bufsize,omitempty"`
}

// Plan is everything about a run that is not a choice stream.
type Plan struct {
	Prop string            `json:"prop"`
	Scn  string            `json:"scn"`
	Seed uint64            `json:"seed"`
	Cfg  Cfg               `json:"cfg"`
	I    map[string]int64  `json:"i,omitempty"`
	T    map[string]string `json:"t,omitempty"`
	Ops  []Op              `json:"ops,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// Scenario is one workload with its oracle.
type Scenario struct {
	Prop   string
	Name   string
	Weight int
	Gen    func(g *Gen)
	Run    func(c *Ctx)
	// MaxSteps, if set, replaces the default step limit.
	MaxSteps uint64
}

var scenarios []*Scenario

func register(s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	scenarios = append(scenarios, s)
}

func scenariosOf(prop string) []*Scenario {
	var out []*Scenario
	for _, s := range scenarios {
		if s.Prop == prop {
			out = append(out, s)
		}
	}
	return out
}

func findScenario(prop, name string) *Scenario {
	for _, s := range scenarios {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Gen generates plans.
type Gen struct {
	R        *rt.Rand
	P        *Plan
	Thorough bool
}

func (g *Gen) I(k string, v int64)       { g.P.I[k] = v }
func (g *Gen) Op(o Op)                   { g.P.Ops = append(g.P.Ops, o) }
func (g *Gen) N(lo, hi int) int          { return g.R.Range(lo, hi) }
func (g *Gen) Bool(p float64) bool       { return g.R.Bool(p) }
func (g *Gen) Dur(lo, hi int64) int64    { return lo + int64(g.R.Uint64()%uint64(hi-lo+1)) }
func (g *Gen) OneOf(xs ...string) string { return xs[g.R.Intn(len(xs))] }
func (g *Gen) OneI(xs ...int64) int64    { return xs[g.R.Intn(len(xs))] }

// Swarm picks the scheduling parameters.
func (g *Gen) Swarm() {
	r := g.R
	c := &g.P.Cfg
	c.PSwitch = []float64{0, 0.02, 0.1, 0.3, 0.5}[r.Intn(5)]
	c.PReorder = []float64{0, 0.1, 0.4, 0.8}[r.Intn(4)]
	c.Gap = []int{0, 0, 50000, 5000, 800}[r.Intn(5)]
	c.PMap = []float64{0, 0.5, 1}[r.Intn(3)]
	c.PSeg = []float64{0, 0, 0.1, 0.5}[r.Intn(4)]
	c.PDelay = []float64{0, 0, 0.1, 0.5}[r.Intn(4)]
	c.MaxDelay = []int64{1 * ms, 20 * ms, 200 * ms}[r.Intn(3)]
	c.PCoal = []float64{0, 0, 0.3}[r.Intn(3)]
	c.BufSize = []int{1 << 16, 1 << 16, 4096}[r.Intn(3)]
	if c.BufSize < 1<<16 && c.MaxDelay > 20*ms {
		// 4 KB per 400 ms would be slower than any loopback interface, and the
		// server may give up on clients that read so slowly
		c.MaxDelay = 20 * ms
	}
}

// Viol is one violation; Class identifies what failed.
type Viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Ctx is the context of one run.
type Ctx struct {
	S    *rt.Sim
	W    *world.World
	P    *Plan
	Viol []Viol
	Err  string
	// NonTrivial is set by a scenario once the run exercised what it is for.
	NonTrivial bool
	Sig        []string // what the run did, for counting distinct runs
	Players    []*Player
	playerIDs  map[string]bool
	PB         PlayerBehaviour
	Home       string
	Version    string
	env        map[string]string
	faultsOn   bool
	checks     int64
}

func (c *Ctx) I(k string) int64 { return c.P.I[k] }
func (c *Ctx) Bool(k string) bool {
	return c.P.I[k] != 0
}

// Fail records a violation.
func (c *Ctx) Fail(class, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	c.S.Tracef("VIOLATION %s: %s", class, m)
	if len(c.Viol) < 20 {
		c.Viol = append(c.Viol, Viol{class, m})
	}
}

// Check counts an evaluated oracle and records a violation if cond is false.
func (c *Ctx) Check(cond bool, class, format string, a ...interface{}) bool {
	c.checks++
	if !cond {
		c.Fail(class, format, a...)
	}
	return cond
}

// Harness reports a problem of the harness itself.
func (c *Ctx) Harness(format string, a ...interface{}) {
	if c.Err == "" {
		c.Err = fmt.Sprintf(format, a...)
	}
}

func (c *Ctx) Did(s string) { c.Sig = append(c.Sig, s) }

// Sleep passes simulated time.
func (c *Ctx) Sleep(d int64) { rt.Sleep(d) }
func (c *Ctx) Now() int64    { return c.S.Now() }

// Task runs f as a task of the harness.
func (c *Ctx) Task(name string, f func()) *Join {
	j := &Join{}
	c.S.Spawn(c.S.Procs[0], name, func() { f(); j.done = true; j.q.WakeAll() })
	return j
}

// Join waits for a task.
type Join struct {
	done bool
	q    rt.WaitQ
}

// Done tells whether the task is done.
func (j *Join) Done() bool { return j.done }

func (j *Join) Wait(d int64) bool {
	end := rt.S.Now() + d
	for !j.done {
		if !j.q.WaitUntil("join", end-rt.S.Now()) {
			return j.done
		}
	}
	return true
}

// Until polls cond every step ns, at most d ns.
func (c *Ctx) Until(d, step int64, cond func() bool) bool {
	end := c.Now() + d
	for {
		if cond() {
			return true
		}
		if c.Now() >= end {
			return false
		}
		rt.Sleep(step)
	}
}

// Result of one run.
type Result struct {
	Prop     string           `json:"prop"`
	Scn      string           `json:"scn"`
	Index    int              `json:"index"`
	Viol     []Viol           `json:"viol,omitempty"`
	Err      string           `json:"err,omitempty"`
	Hash     uint64           `json:"hash"`
	SHash    uint64           `json:"shash"`
	Sig      uint64           `json:"sig"`
	SimNS    int64            `json:"sim"`
	Steps    uint64           `json:"steps"`
	Switches uint64           `json:"sw"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Probes   map[string]int64 `json:"probes,omitempty"`
	Counters map[string]int64 `json:"counters,omitempty"`
	Outcome  string           `json:"outcome"`
	NonTriv  bool             `json:"nt"`
	Checks   int64            `json:"checks"`
	Procs    int              `json:"procs"`
	WallUS   int64            `json:"wall"`
	Trace    []string         `json:"trace,omitempty"`
	Plan     *Plan            `json:"plan,omitempty"`
	Choices  *[6][]uint32     `json:"-"`
	Sparse   []string         `json:"choices,omitempty"`
	Sample   string           `json:"sample,omitempty"`
}

// Job is one unit of work for a worker process.
type Job struct {
	Prop    string   `json:"prop"`
	Index   int      `json:"index"`
	Seed    uint64   `json:"seed"`
	Tier    string   `json:"tier"`
	Plan    *Plan    `json:"plan,omitempty"`
	Sparse  []string `json:"choices,omitempty"`
	Replay  bool     `json:"replay,omitempty"` // use Sparse instead of generating
	Full    bool     `json:"full,omitempty"`   // return plan, choices
	Trace   bool     `json:"trace,omitempty"`
	Seconds float64  `json:"-"`
}

func mix(a, b uint64) uint64 {
	x := rt.NewRand(a*0x9E3779B97F4A7C15 ^ b)
	x.Uint64()
	return x.Uint64()
}

func strSeed(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// genPlan makes the plan of run index.
func genPlan(prop string, base uint64, index int, tier string) *Plan {
	seed := mix(mix(base, strSeed(prop)), uint64(index)+1)
	r := rt.NewRand(seed)
	sc := scenariosOf(prop)
	w := make([]int, len(sc))
	for i, s := range sc {
		w[i] = s.Weight
	}
	s := sc[r.Pick(w...)]
	p := &Plan{Prop: prop, Scn: s.Name, Seed: seed, I: map[string]int64{}, T: map[string]string{}}
	g := &Gen{R: r, P: p, Thorough: tier == "thorough"}
	g.Swarm()
	s.Gen(g)
	return p
}

func sparse(ch [6][]uint32) []string {
	out := make([]string, len(ch))
	for i, c := range ch {
		var sb strings.Builder
		last := -1
		for k, v := range c {
			if v != 0 {
				if sb.Len() > 0 {
					sb.WriteByte(' ')
				}
				fmt.Fprintf(&sb, "%d:%d", k-last-1, v)
				last = k
			}
		}
		out[i] = sb.String()
	}
	return out
}

func dense(sp []string) *[6][]uint32 {
	var out [6][]uint32
	for i := range out {
		if i >= len(sp) || sp[i] == "" {
			continue
		}
		for _, f := range strings.Fields(sp[i]) {
			var gap, v int
			fmt.Sscanf(f, "%d:%d", &gap, &v)
			for ; gap > 0; gap-- {
				out[i] = append(out[i], 0)
			}
			out[i] = append(out[i], uint32(v))
		}
	}
	return &out
}

// runJob executes one run.
func runJob(j *Job) *Result {
	start := time.Now()
	plan := j.Plan
	if plan == nil {
		plan = genPlan(j.Prop, j.Seed, j.Index, j.Tier)
	}
	scn := findScenario(plan.Prop, plan.Scn)
	res := &Result{Prop: plan.Prop, Scn: plan.Scn, Index: j.Index}
	if scn == nil {
		res.Err = "no scenario " + plan.Prop + "/" + plan.Scn
		return res
	}
	cfg := rt.Config{Seed: plan.Seed, PSwitch: plan.Cfg.PSwitch, PReorder: plan.Cfg.PReorder, PreemptGap: plan.Cfg.Gap,
		PMap: plan.Cfg.PMap, KeepTrace: j.Trace, MaxSteps: scn.MaxSteps}
	ch := rt.NewChoices(plan.Seed)
	if j.Replay {
		ch.Replay = dense(j.Sparse)
	}
	s := rt.New(cfg, ch)
	w := world.New(s)
	w.Net.PSeg, w.Net.PDelay, w.Net.MaxDelay, w.Net.PCoalesce = plan.Cfg.PSeg, plan.Cfg.PDelay, plan.Cfg.MaxDelay, plan.Cfg.PCoal
	if plan.Cfg.BufSize > 0 {
		w.Net.BufSize = plan.Cfg.BufSize
	}
	c := &Ctx{S: s, W: w, P: plan, Home: "/home/user", Version: AldaVersion}

	s.OnPanic = func(p *rt.Proc, msg string) {
		if strings.Contains(msg, "simulation:") {
			c.Harness("%s: %s", p, msg)
		}
		if strings.Contains(msg, "stack overflow") || strings.Contains(msg, "out of memory") {
			w.Probe("fatal")
		}
	}
	s.Run(func() { c.setup(); scn.Run(c) })
	res.Outcome = s.Outcome
	if i := strings.IndexByte(res.Outcome, ':'); i > 0 {
		res.Outcome = res.Outcome[:i]
		c.Harness("%s", s.Outcome)
	}
	res.Viol, res.Err = c.Viol, c.Err
	if res.Outcome == "step limit" {
		res.Viol = nil
	}
	res.Hash, res.SHash, res.SimNS, res.Steps, res.Switches = s.Hash(), s.ScheduleHash(), s.Now(), s.Steps, s.Switches
	res.Faults, res.Probes, res.Counters = w.Faults, w.Probes, s.Counters
	res.NonTriv, res.Checks, res.Procs = c.NonTrivial, c.checks, len(s.Procs)-1
	h := fnv.New64a()
	h.Write([]byte(plan.Scn + strings.Join(c.Sig, "|")))
	res.Sig = h.Sum64()
	res.Sample = plan.Scn + ": " + clip(strings.Join(c.Sig, " | "), 600)
	if j.Trace {
		res.Trace = s.Trace()
	}
	if j.Full || len(res.Viol) > 0 {
		res.Plan = plan
		rec := ch.Recorded()
		res.Sparse = sparse(rec)
	}
	res.WallUS = time.Since(start).Microseconds()
	return res
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func init() {
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	_ = os.Getenv
}
