// Package rt is a deterministic cooperative runtime: every goroutine of the
// program under test is a Task, exactly one Task runs at any time, and every
// decision (who runs next, when timers fire, which select case is taken, in
// which order a map is traversed) is taken from recorded choice streams.
package rt

import (
	"container/heap"
	"fmt"
	"hash"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- choices

// Stream names one independent sequence of choices. Keeping scheduling, faults
// and so on apart keeps a minimised run close to the original one.
type Stream int

const (
	Sched   Stream = iota // which task runs
	Preempt               // distance to the next forced preemption
	Net                   // segmentation and delays
	Fault                 // injected faults
	MapOrd                // map iteration order
	Misc                  // everything else
	nStreams
)

var StreamNames = [nStreams]string{"sched", "preempt", "net", "fault", "map", "misc"}

// Choices is a set of choice streams: generated from a PRNG, or replayed.
type Choices struct {
	rng    [nStreams]*Rand
	rec    [nStreams][]uint32
	Replay *[nStreams][]uint32 // non-nil: replay these; exhausted = 0
}

func NewChoices(seed uint64) *Choices {
	c := &Choices{}
	for i := range c.rng {
		c.rng[i] = NewRand(seed*0x9E3779B97F4A7C15 + uint64(i)*0xD1B54A32D192ED03 + 1)
	}
	return c
}

func (c *Choices) Recorded() [nStreams][]uint32 { return c.rec }

// choose returns a number in [0,n); 0 is the benign default, taken with
// probability 1-p when generating.
func (c *Choices) choose(st Stream, n int, p float64) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	i := len(c.rec[st])
	if c.Replay != nil {
		r := c.Replay[st]
		if i < len(r) {
			v = r[i]
			if v >= uint32(n) {
				v = 0
			}
		}
	} else if p > 0 && c.rng[st].Float64() < p {
		v = uint32(1 + c.rng[st].Intn(n-1))
	}
	c.rec[st] = append(c.rec[st], v)
	return int(v)
}

// Rand is a small, stable PRNG (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Float64() float64    { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool { return r.Float64() < p }
func (r *Rand) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}
func (r *Rand) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	x := r.Intn(t)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// ---------------------------------------------------------------- sim

// Config holds the per-run scheduling parameters (swarm style).
type Config struct {
	Seed       uint64
	PSwitch    float64 // probability of switching task at a yield point
	PReorder   float64 // probability of not taking the oldest runnable task
	PreemptGap int     // mean statements between forced preemptions; 0 = off
	PRepeat    float64 // probability that a random source repeats an earlier sequence
	PMap       float64 // probability that a map traversal is shuffled
	PNet       float64
	MaxSteps   uint64
	SpinTicks  int64
	KeepTrace  bool
}

type Sim struct {
	Cfg      Config
	C        *Choices
	Rng      *Rand // values for the program's own random numbers
	now      int64
	seq      uint64
	runq     []*Task
	cur      *Task
	live     int
	nextID   int
	timers   timerHeap
	chans    map[uintptr]*hchan
	driver   chan struct{}
	Steps    uint64
	Switches uint64
	Procs    []*Proc
	nextPID  int
	stop     bool
	Outcome  string
	trace    []string
	hash     hash.Hash64
	schedH   hash.Hash64
	spin     int64
	gap      int64
	OnPanic  func(p *Proc, msg string)
	OnExit   func(p *Proc)
	OnStep   func()
	Counters map[string]int64
	evseq    uint64
}

// S is the simulation currently running in this OS process.
var S *Sim

// ticks is decremented at every instrumented statement.
var ticks int64 = 1 << 60

func New(cfg Config, c *Choices) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	if cfg.SpinTicks == 0 {
		cfg.SpinTicks = 30_000_000
	}
	s := &Sim{Cfg: cfg, C: c, Rng: NewRand(cfg.Seed ^ 0xABCDEF), chans: map[uintptr]*hchan{},
		driver: make(chan struct{}), hash: fnv.New64a(), schedH: fnv.New64a(), Counters: map[string]int64{}, nextPID: 1000}
	return s
}

const chunk = 200_000

func (s *Sim) armPreempt() {
	s.gap = 0
	ticks = chunk
	if s.Cfg.PreemptGap > 0 {
		// choice v: 0 = no preemption within this chunk, otherwise after a
		// geometrically distributed number of statements.
		v := s.C.choose(Preempt, 4096, 0.9)
		if v > 0 {
			s.gap = int64(float64(s.Cfg.PreemptGap) * (float64(v) / 2048.0) * (float64(v) / 2048.0))
			if s.gap < 1 {
				s.gap = 1
			}
			if s.gap < chunk {
				ticks = s.gap
			} else {
				s.gap = 0
			}
		}
	}
}

// P is called before statements of the code under test.
func P() {
	ticks--
	if ticks < 0 {
		slowP()
	}
}

func slowP() {
	s := S
	if s == nil || s.cur == nil {
		ticks = 1 << 60
		return
	}
	t := s.cur
	t.checkKilled()
	used := int64(chunk)
	if s.gap > 0 {
		used = s.gap
	}
	t.spun += used
	if t.spun > s.Cfg.SpinTicks {
		s.spins(t)
	}
	pre := s.gap > 0
	s.armPreempt()
	if pre {
		s.Count("preemptions", 1)
		s.schedule(t, true, true)
	}
}

// maxBusy is how many operations in a row a task may do without ever waiting
// for anything: it is in an endless loop.
const maxBusy = 50_000

func (s *Sim) spins(t *Task) {
	s.Count("spin", 1)
	s.Tracef("task %s of %s never waits (endless loop)", t.name, t.proc)
	t.proc.Spun = true
	s.armPreempt()
	t.block("spinning")
	t.checkKilled()
	for {
		t.block("spinning")
	}
}

func (s *Sim) Now() int64        { return s.now }
func (s *Sim) NextEvent() uint64 { s.evseq++; return s.evseq }

func (s *Sim) Count(k string, n int64) { s.Counters[k] += n }

// Tracef appends to the event log; it never influences the schedule.
func (s *Sim) Tracef(format string, args ...interface{}) {
	line := fmt.Sprintf("%12.6f ", float64(s.now)/1e9) + fmt.Sprintf(format, args...)
	s.hash.Write([]byte(line))
	if s.Cfg.KeepTrace {
		if len(s.trace) < 200000 {
			s.trace = append(s.trace, line)
		}
	}
	if debugTrace {
		fmt.Fprintln(os.Stderr, line)
	}
}

var debugTrace = os.Getenv("SIM_TRACE") != ""

func (s *Sim) Trace() []string      { return s.trace }
func (s *Sim) Hash() uint64         { return s.hash.Sum64() }
func (s *Sim) ScheduleHash() uint64 { return s.schedH.Sum64() }

// Run starts main as the first task and runs the simulation until main
// returns, nothing can ever happen again, or the step limit is reached.
func (s *Sim) Run(main func()) {
	S = s
	p := s.NewProc("orchestrator")
	p.Harness = true
	s.armPreempt()
	s.Spawn(p, "main", func() {
		main()
		s.Outcome = "done"
		s.stop = true
	})
	s.cur = nil
	go s.dispatch(nil)
	<-s.driver
	// Tear down: unwind every remaining task.
	for _, p := range s.Procs {
		p.Dead = true
		s.unwind(p, nil)
	}
	s.cur = nil
	ticks = 1 << 60
	S = nil
}

// ---------------------------------------------------------------- tasks

type Task struct {
	id       int
	name     string
	proc     *Proc
	wake     chan struct{}
	doneCh   chan struct{}
	started  bool
	finished bool
	killed   bool
	unwind   bool
	queued   bool
	blocked  string
	spun     int64
	busy     int // operations since it last waited for anything for a while
	prio     int
}

type Proc struct {
	ID      int
	PID     int
	Name    string
	Args    []string
	Env     map[string]string
	Cwd     string
	Harness bool
	Dead    bool
	Exited  bool // ended by itself (exit or crash), as opposed to killed
	Killed  bool
	Spun    bool
	Code    int
	Crash   string
	Stalled bool
	tasks   []*Task
	parked  []*Task
	onExit  []func()
	Ext     interface{} // world data
	Data    map[string]interface{}
	ExitAt  int64
	StartAt int64
}

func (p *Proc) String() string {
	if p == nil {
		return "-"
	}
	return fmt.Sprintf("%s#%d", p.Name, p.ID)
}

func (s *Sim) NewProc(name string) *Proc {
	s.nextPID += 1 + len(s.Procs)%3
	p := &Proc{ID: len(s.Procs), PID: s.nextPID, Name: name, Env: map[string]string{}, Cwd: "/", Data: map[string]interface{}{}, StartAt: s.now}
	s.Procs = append(s.Procs, p)
	return p
}

// CurProc returns the process of the running task (nil outside simulations).
func CurProc() *Proc {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.proc
}

func CurTask() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

func (p *Proc) AtExit(f func()) { p.onExit = append(p.onExit, f) }

// Spawn adds a task to process p.
func (s *Sim) Spawn(p *Proc, name string, f func()) *Task {
	s.nextID++
	t := &Task{id: s.nextID, name: name, proc: p, wake: make(chan struct{}, 1), doneCh: make(chan struct{})}
	p.tasks = append(p.tasks, t)
	s.live++
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			if r != nil && !t.killed {
				msg := machineWords.ReplaceAllString(fmt.Sprint(r), "$1?")
				st := shortStack(string(debug.Stack()))
				s.crash(t, msg, st)
			}
			t.finished = true
			s.live--
			for i, x := range p.tasks {
				if x == t {
					p.tasks = append(p.tasks[:i:i], p.tasks[i+1:]...)
					break
				}
			}
			if t.unwind {
				t.doneCh <- struct{}{}
				return
			}
			s.cur = nil
			s.dispatch(t)
		}()
		t.checkKilled()
		f()
	}()
	s.ready(t)
	return t
}

func shortStack(st string) string {
	lines := strings.Split(st, "\n")
	out := []string{}
	skip := true
	for _, l := range lines {
		if skip {
			if strings.HasPrefix(l, "panic(") {
				skip = false
			}
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 14 {
			break
		}
	}
	return machineWords.ReplaceAllString(strings.Join(out, " | "), "$1?")
}

// What differs between two executions of the same run: addresses and the
// numbers of real goroutines.
var machineWords = regexp.MustCompile(`(0x|goroutine )[0-9a-f]+`)

func (t *Task) checkKilled() {
	if t.killed {
		runtime.Goexit()
	}
}

// Enter is called by every shim operation: tasks of dead processes end here.
func Enter() *Task {
	s := S
	if s == nil || s.cur == nil {
		return nil
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	return s.cur
}

// Go starts a goroutine of the program under test.
func Go(f func()) {
	t := Enter()
	if t == nil {
		panic("rt.Go outside a simulation")
	}
	S.Count("goroutines", 1)
	S.Spawn(t.proc, "goroutine", f)
	Yield()
}

func (s *Sim) ready(t *Task) {
	if t.queued || t.finished {
		return
	}
	t.queued = true
	t.blocked = ""
	if t.proc.Stalled && !t.killed {
		t.proc.parked = append(t.proc.parked, t)
		return
	}
	s.runq = append(s.runq, t)
}

// Yield is a scheduling point: the current task stays runnable.
func Yield() {
	t := Enter()
	if t == nil {
		return
	}
	t.spun = 0
	t.busy++
	if t.busy > maxBusy && !t.proc.Harness {
		S.spins(t)
	}
	S.now += 2000 // every operation takes a little time
	S.schedule(t, true, false)
}

// block suspends the current task until ready is called for it.
func (t *Task) block(reason string) {
	t.blocked = reason
	t.spun = 0
	since := S.now
	S.schedule(t, false, false)
	if S.now-since >= 100_000 {
		t.busy = 0
	}
}

// schedule passes control on from the running task t.
func (s *Sim) schedule(t *Task, runnable bool, forced bool) {
	s.Steps++
	if s.OnStep != nil {
		s.OnStep()
	}
	if runnable {
		s.fireTimers()
		if t.proc.Stalled && !t.killed {
			t.queued = true
			t.proc.parked = append(t.proc.parked, t)
		} else {
			if s.Steps >= s.Cfg.MaxSteps || s.stop {
				// fall through to dispatch, which ends the run
				s.ready(t)
			} else {
				n := len(s.runq)
				if n == 0 {
					return
				}
				p := s.Cfg.PSwitch
				if forced {
					p = 0.97
				}
				i := s.C.choose(Sched, n+1, p)
				if i == 0 {
					return
				}
				next := s.runq[i-1]
				s.runq = append(s.runq[:i-1], s.runq[i:]...)
				t.queued = true
				s.runq = append(s.runq, t)
				s.switchTo(next)
				<-t.wake
				t.checkKilled()
				return
			}
		}
	}
	s.dispatch(t)
	<-t.wake
	t.checkKilled()
}

func (s *Sim) switchTo(next *Task) {
	next.queued = false
	next.blocked = ""
	s.Switches++
	var b [2]byte
	b[0], b[1] = byte(next.id), byte(next.id>>8)
	s.schedH.Write(b[:])
	s.cur = next
	next.wake <- struct{}{}
}

// dispatch picks the next task to run; the caller no longer runs.
func (s *Sim) dispatch(from *Task) {
	for {
		if s.stop || s.Steps >= s.Cfg.MaxSteps {
			if !s.stop {
				s.Outcome = "step limit"
			}
			s.cur = nil
			s.driver <- struct{}{}
			return
		}
		s.fireTimers()
		if len(s.runq) > 0 {
			break
		}
		if len(s.timers) == 0 {
			s.Outcome = "deadlock: " + s.describe()
			s.cur = nil
			s.driver <- struct{}{}
			return
		}
		if at := s.timers[0].at; at > s.now {
			s.now = at
		}
		s.Steps++
	}
	n := len(s.runq)
	i := s.C.choose(Sched, n, s.Cfg.PReorder)
	next := s.runq[i]
	s.runq = append(s.runq[:i], s.runq[i+1:]...)
	s.switchTo(next)
}

// Describe lists the tasks and what they wait for.
func (s *Sim) Describe() string { return s.describe() }

func (s *Sim) describe() string {
	var out []string
	for _, p := range s.Procs {
		for _, t := range p.tasks {
			out = append(out, fmt.Sprintf("%s/%s:%s", p, t.name, t.blocked))
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, ", ")
}

// unwind ends every task of p except self, running no effects.
func (s *Sim) unwind(p *Proc, self *Task) {
	saved := s.cur
	for {
		var t *Task
		for _, x := range p.tasks {
			if x != self && !x.finished {
				t = x
				break
			}
		}
		if t == nil {
			break
		}
		t.killed = true
		t.unwind = true
		if t.queued {
			s.runq = removeTask(s.runq, t)
			p.parked = removeTask(p.parked, t)
			t.queued = false
		}
		s.cur = t
		t.wake <- struct{}{}
		<-t.doneCh
	}
	s.cur = saved
}

func removeTask(q []*Task, t *Task) []*Task {
	for i, x := range q {
		if x == t {
			return append(q[:i:i], q[i+1:]...)
		}
	}
	return q
}

func (s *Sim) crash(t *Task, msg, stack string) {
	p := t.proc
	if p.Harness {
		fmt.Fprintf(os.Stderr, "HARNESS PANIC in %s/%s: %s\n%s\n", p, t.name, msg, stack)
		os.Exit(70)
	}
	p.Crash = msg + " @ " + stack
	s.Tracef("%s panicked: %s", p, msg)
	if s.OnPanic != nil {
		s.OnPanic(p, msg+"\n"+stack)
	}
	p.Exited = true
	p.Code = 2
	s.finishProc(p, t)
}

func (s *Sim) finishProc(p *Proc, self *Task) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.ExitAt = s.now
	if self != nil {
		self.killed = true
	}
	s.unwind(p, self)
	for _, f := range p.onExit {
		f()
	}
	if s.OnExit != nil {
		s.OnExit(p)
	}
}

// Exit ends the current process with the given code.
func Exit(code int) {
	t := Enter()
	if t == nil {
		panic("exit outside a simulation")
	}
	p := t.proc
	p.Code = code
	p.Exited = true
	S.Tracef("%s exits with %d", p, code)
	S.finishProc(p, t)
	runtime.Goexit()
}

// Kill ends process p at once (kill -9): nothing else it would do happens.
func (s *Sim) Kill(p *Proc) {
	if p.Dead {
		return
	}
	s.Tracef("%s is killed", p)
	p.Killed = true
	p.Code = 137
	self := s.cur
	if self != nil && self.proc == p {
		s.finishProc(p, self)
		runtime.Goexit()
	}
	s.finishProc(p, nil)
}

// Stall stops every task of p from running (SIGSTOP, a slow machine) until
// Resume.
func (s *Sim) Stall(p *Proc) {
	if p.Stalled || p.Dead {
		return
	}
	s.Tracef("%s stalls", p)
	p.Stalled = true
	var keep []*Task
	for _, t := range s.runq {
		if t.proc == p {
			p.parked = append(p.parked, t)
		} else {
			keep = append(keep, t)
		}
	}
	s.runq = keep
}

func (s *Sim) Resume(p *Proc) {
	if !p.Stalled {
		return
	}
	s.Tracef("%s resumes", p)
	p.Stalled = false
	s.runq = append(s.runq, p.parked...)
	p.parked = nil
}

// ---------------------------------------------------------------- time

type Timer struct {
	at   int64
	seq  uint64
	f    func()
	idx  int
	dead bool
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// At runs f (which must not block) at d from now.
func (s *Sim) At(d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &Timer{at: s.now + d, seq: s.seq, f: f}
	heap.Push(&s.timers, t)
	return t
}

func (s *Sim) Cancel(t *Timer) bool {
	if t == nil || t.idx < 0 || t.dead {
		return false
	}
	t.dead = true
	heap.Remove(&s.timers, t.idx)
	return true
}

func (s *Sim) fireTimers() {
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		t := heap.Pop(&s.timers).(*Timer)
		t.dead = true
		t.f()
	}
}

// Sleep suspends the current task for d nanoseconds of simulated time.
func Sleep(d int64) {
	t := Enter()
	if t == nil {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	S.At(d, func() { S.ready(t) })
	t.block("sleep")
}

// ---------------------------------------------------------------- waiting

// WaitQ is a list of tasks waiting for something.
type WaitQ struct{ q []*Task }

func (w *WaitQ) Wait(reason string) {
	t := Enter()
	w.q = append(w.q, t)
	t.block(reason)
}

// WaitUntil waits until woken or d nanoseconds passed; false on timeout.
func (w *WaitQ) WaitUntil(reason string, d int64) bool {
	t := Enter()
	if d <= 0 {
		return false
	}
	timedOut := false
	tm := S.At(d, func() {
		for i, x := range w.q {
			if x == t {
				w.q = append(w.q[:i:i], w.q[i+1:]...)
				timedOut = true
				S.ready(t)
				return
			}
		}
	})
	w.q = append(w.q, t)
	t.block(reason)
	S.Cancel(tm)
	return !timedOut
}

func (w *WaitQ) WakeAll() {
	q := w.q
	w.q = nil
	for _, t := range q {
		S.ready(t)
	}
}

func (w *WaitQ) WakeOne() bool {
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if t.finished || t.killed {
			continue
		}
		S.ready(t)
		return true
	}
	return false
}

// Choose draws a choice for the harness or the world.
func Choose(st Stream, n int, p float64) int {
	if S == nil {
		return 0
	}
	return S.C.choose(st, n, p)
}
