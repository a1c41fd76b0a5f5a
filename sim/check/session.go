package check

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"alda.sim/rt"
)

// A session is a REPL server with clients whose requests are sent one at a
// time, followed by the reference interpreter.

type gotPacket struct {
	pl       *Player
	idx      int
	at       int64
	notes    []PNote
	tempos   [][2]float64
	play     bool
	stop     bool
	shutdown bool
	offset   int
	hasOff   bool
	export   string
	other    []string
	used     bool
	matched  int
}

func (g *gotPacket) String() string {
	var out []string
	if g.play {
		out = append(out, "play")
	}
	if g.stop {
		out = append(out, "stop")
	}
	if g.shutdown {
		out = append(out, "shutdown")
	}
	if g.hasOff {
		out = append(out, fmt.Sprintf("offset %d", g.offset))
	}
	if g.export != "" {
		out = append(out, "export")
	}
	for _, t := range g.tempos {
		out = append(out, fmt.Sprintf("tempo %g@%g", t[1], t[0]))
	}
	for _, n := range g.notes {
		out = append(out, noteStr(n))
	}
	return fmt.Sprintf("packet %d of %s at %.3fs [%s]", g.idx, g.pl, float64(g.at)/1e9, clip(strings.Join(append(out, g.other...), ", "), 400))
}

func noteStr(n PNote) string {
	return fmt.Sprintf("track %d note %d at %d for %d/%d vel %d patch %d tvol %d pan %d", n.Track, n.Num, n.Rel, n.Dur, n.Aud, n.Vel, n.Patch, n.TrackVol, n.Pan)
}

// packets lists what a player received, without pings.
func (pl *Player) packets() []*gotPacket {
	var out []*gotPacket
	byIdx := map[int]*gotPacket{}
	for _, m := range pl.Msgs {
		if m.Addr == "/ping" {
			continue
		}
		g := byIdx[m.Packet]
		if g == nil {
			g = &gotPacket{pl: pl, idx: m.Packet, at: m.At}
			byIdx[m.Packet] = g
			out = append(out, g)
		}
		switch m.Addr {
		case "/system/play":
			g.play = true
		case "/system/stop":
			g.stop = true
		case "/system/shutdown":
			if m.Int(0) == 0 {
				g.shutdown = true
			} else {
				g.other = append(g.other, m.String())
			}
		case "/system/offset":
			g.offset, g.hasOff = m.Int(0), true
		case "/system/midi/export":
			g.export = fmt.Sprint(m.Args...)
		case "/system/tempo":
			v := 0.0
			if len(m.Args) > 1 {
				f, _ := m.Args[1].(float32)
				v = float64(f)
			}
			g.tempos = append(g.tempos, [2]float64{float64(m.Int(0)), v})
		default:
			if !strings.HasPrefix(m.Addr, "/track/") {
				g.other = append(g.other, m.String())
			}
		}
	}
	for _, n := range pl.Notes {
		if g := byIdx[n.Packet]; g != nil {
			g.notes = append(g.notes, n)
		}
	}
	return out
}

// expPacket is a packet that must arrive.
type expPacket struct {
	what   string
	op     int
	after  int64 // when its request was sent
	got    *gotPacket
	epoch  int
	notes  []RefNote // Off is relative
	tempos [][2]float64
	play   bool
	stop   bool
	hasOff bool
	offset float64
	export bool
	shut   bool
	lossy  bool // may be missing: its player was hit by a fault
	one    bool // one-off: a shutdown message for after the score
}

// rounded tells whether got is what x is rounded to.
func rounded(got int, x float64) bool { return math.Abs(float64(got)-x) <= 0.5+1e-3 }

func within1(got int, x float64) bool { return math.Abs(float64(got)-math.Round(x)) <= 1 }

// matchNotes compares the notes of a packet with those expected.
func matchNotes(got []PNote, want []RefNote, track bool) string {
	near := rounded
	if !track { // MIDI files count from the first note
		near = within1
	}
	used := make([]bool, len(got))
	var missing []string
	for _, w := range want {
		found := false
		for i, g := range got {
			if used[i] || track && g.Track != w.Track || g.Num != w.Num || g.Vel != w.Vel || w.Patch >= 0 && g.Patch != w.Patch || track && (w.Patch < 0) != (g.Chan == 9) || g.TrackVol != w.TVol || g.Pan != w.Pan {
				continue
			}
			if near(g.Rel, w.Off) && near(g.Dur, w.Dur) && near(g.Aud, w.Aud) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			missing = append(missing, fmt.Sprintf("track %d note %d at %d for %d/%d vel %d patch %d tvol %d pan %d", w.Track, w.Num, rnd(w.Off), rnd(w.Dur), rnd(w.Aud), w.Vel, w.Patch, w.TVol, w.Pan))
		}
	}
	var extra []string
	for i, g := range got {
		if !used[i] {
			extra = append(extra, noteStr(g))
		}
	}
	if len(missing)+len(extra) == 0 {
		return ""
	}
	return fmt.Sprintf("%d of %d notes missing: %s; %d unexpected: %s", len(missing), len(want), clip(strings.Join(missing, ", "), 240), len(extra), clip(strings.Join(extra, ", "), 240))
}

func matchTempos(got, want [][2]float64) string {
	ok := len(got) == len(want)
	if ok {
		for i := range got {
			if math.Abs(got[i][0]-want[i][0]) > 1 || math.Abs(got[i][1]-want[i][1]) > 0.01 {
				ok = false
			}
		}
	}
	if ok {
		return ""
	}
	return fmt.Sprintf("tempos %v instead of %v", got, want)
}

// diff tells how a received packet differs from the expected one.
func (e *expPacket) diff(g *gotPacket) string {
	if e.play != g.play || e.stop != g.stop || e.hasOff != g.hasOff || e.export != (g.export != "") || e.shut != g.shutdown || len(g.other) > 0 {
		return fmt.Sprintf("different kind (expected play=%v stop=%v offset=%v export=%v shutdown=%v)", e.play, e.stop, e.hasOff, e.export, e.shut)
	}
	if e.hasOff && !rounded(g.offset, e.offset) {
		return fmt.Sprintf("offset %d instead of %d", g.offset, rnd(e.offset))
	}
	if s := matchTempos(g.tempos, e.tempos); s != "" {
		return s
	}
	return matchNotes(g.notes, e.notes, true)
}

// tempoList is the list of tempo messages for an excerpt.
func (r *RefScore) tempoList(from, to float64) [][2]float64 {
	t := r.Tempos()
	var offs []float64
	for o := range t {
		offs = append(offs, o)
	}
	sort.Float64s(offs)
	first := 0.0
	for _, o := range offs {
		if o <= from {
			first = o
		}
	}
	var out [][2]float64
	for _, o := range offs {
		if o < first || o >= to {
			continue
		}
		out = append(out, [2]float64{math.Round(math.Max(0, o-from)), t[o]})
	}
	return out
}

// excerpt lists the notes of an excerpt, relative to its start.
func (r *RefScore) excerpt(from, to float64) []RefNote {
	var out []RefNote
	for _, n := range r.Notes {
		if n.Off < from || n.Off >= to {
			continue
		}
		n.Off -= from
		out = append(out, n)
	}
	return out
}

// Sess is a session.
type Sess struct {
	c          *Ctx
	srv        *rt.Proc
	port       int
	cl         []*NClient
	ref        *RefScore
	exp        []*expPacket
	epoch      int
	limit      int64
	opn        int
	opAt       int64
	faultUntil int64 // requests may fail because of injected faults
	settle     int64 // how long packets may take to reach a player
	strict     bool  // compare everything the server tells after each error
	before     map[string]string
	canon      string
	errs       int
	oks        int
	evals      int
	Unsure     bool // a request got no answer; what the score is, is unknown
	lastRef    *RefScore
	soft       map[int]bool // epochs after a failure: the player may be the same
	failed     [][2]int64   // when requests that start afresh failed
	healthy    int64        // when all injected faults have ended
}

// newSession starts a server and connects n clients.
func (c *Ctx) newSession(n int) *Sess {
	s := &Sess{c: c, port: 4500, ref: NewRef(), limit: 150 * sec, faultUntil: -1, settle: 3 * sec, soft: map[int]bool{}}
	s.srv = c.startServer(s.port, workDir)
	if !c.Until(20*sec, 20*ms, func() bool { return c.W.Net.Listening(s.port) != nil }) {
		c.Fail("no-server", "the REPL server does not listen after 20 s")
		return nil
	}
	for i := 0; i < n; i++ {
		x := c.connect(fmt.Sprintf("client%d", i), s.port, 5*sec)
		if x == nil {
			c.Fail("no-connect", "cannot connect to the server")
			return nil
		}
		s.cl = append(s.cl, x)
	}
	return s
}

func (s *Sess) client(o Op) *NClient {
	k := o.C
	if k < 0 || k >= len(s.cl) {
		k = 0
	}
	return s.cl[k]
}

// cur is the player the server pinged last.
func (s *Sess) cur() *Player {
	var best *Player
	var at int64 = -1
	for _, p := range s.c.Players {
		for i := len(p.Msgs) - 1; i >= 0; i-- {
			if p.Msgs[i].Addr == "/ping" {
				if p.Msgs[i].At > at {
					best, at = p, p.Msgs[i].At
				}
				break
			}
		}
	}
	return best
}

// do sends a request and waits for the answer.
func (s *Sess) do(n *NClient, m map[string]interface{}) *NResp {
	r := n.Do(s.limit, m)
	if r == nil {
		s.Unsure = true
		s.c.Check(false, "no-response", "%v got no response within %d s (connection closed: %v)", m["op"], s.limit/sec, n.Closed())
	}
	return r
}

func (s *Sess) expect(e *expPacket) {
	e.op, e.epoch, e.after = s.opn, s.epoch, s.opAt
	s.exp = append(s.exp, e)
}

// settled compares the answer to a request that may change the score with the
// reference's opinion and tells whether the server accepted it.
func (s *Sess) settled(what string, r *NResp, refErr error) bool {
	c := s.c
	if r == nil {
		return false
	}
	if r.OK() {
		s.oks++
		if !c.Check(refErr == nil, "invalid-accepted", "%s was accepted, but it is invalid: %v", what, refErr) {
			s.Unsure = true
			return false
		}
		return true
	}
	s.errs++
	if refErr == nil && r.At > s.faultUntil {
		c.Check(false, "valid-rejected", "%s was answered with an error although it is valid and nothing failed: %s", what, r.Problems())
	}
	return false
}

// run executes one operation of a plan.
func (s *Sess) run(o Op) {
	c := s.c
	s.opn++
	if o.At > 0 {
		c.Sleep(o.At)
	}
	n := s.client(o)
	s.lastRef = s.ref
	s.opAt = c.Now()
	if errs := s.errs; o.K == "load" || o.K == "replay" || o.K == "export" || o.K == "new" {
		defer func() {
			// after a failure the server goes on with another player
			if s.errs > errs {
				s.softEpoch()
				s.failed = append(s.failed, [2]int64{s.opAt, c.Now()})
			}
		}()
	}
	switch o.K {
	case "eval":
		s.evals++
		next, err := s.ref.Try(o.S)
		if s.fuzzy(next) {
			return
		}
		r := s.do(n, req("eval-and-play", "code", o.S))
		c.Did("eval")
		if s.settled(fmt.Sprintf("input %q", o.S), r, err) {
			e := &expPacket{what: fmt.Sprintf("eval %q", o.S), play: true}
			for _, x := range next.New() {
				x.Off -= next.Base(x.Part)
				e.notes = append(e.notes, x)
			}
			if len(s.ref.parts) == 0 {
				e.tempos = next.tempoList(0, math.MaxFloat64)
			}
			s.ref = next
			s.expect(e)
		}
	case "load":
		next, err := NewRef().Try(o.S)
		if s.fuzzy(next) {
			return
		}
		r := s.do(n, req("load", "code", o.S))
		c.Did("load")
		if s.settled(fmt.Sprintf("loading %q", o.S), r, err) {
			s.ref = next
			s.loaded("load")
		}
	case "replay":
		kv := []string{}
		from, to, okF, okT := 0.0, math.MaxFloat64, true, true
		if o.S != "" {
			kv = append(kv, "from", o.S)
			from, okF = s.ref.Offset(o.S)
		}
		if o.T != "" {
			kv = append(kv, "to", o.T)
			to, okT = s.ref.Offset(o.T)
		}
		if s.ref.Ambiguous(from, to) {
			s.Unsure = true
			return
		}
		var err error
		if !okF || !okT {
			err = fmt.Errorf("invalid offset reference")
		}
		r := s.do(n, req("replay", kv...))
		c.Did("replay")
		if s.settled(fmt.Sprintf("replay from %q to %q", o.S, o.T), r, err) {
			s.epoch++
			s.expect(&expPacket{what: fmt.Sprintf("replay from %q to %q", o.S, o.T), play: true, notes: s.ref.excerpt(from, to), tempos: s.ref.tempoList(from, to)})
		}
	case "export":
		r := s.do(n, req("export"))
		c.Did("export")
		if s.settled("export", r, nil) {
			s.loaded("export")
			s.expect(&expPacket{what: "export", export: true})
			s.checkMIDI("the export response", r.Str("binary-data"))
		}
	case "new":
		r := s.do(n, req("new-score"))
		c.Did("new")
		if s.settled("new-score", r, nil) {
			s.ref = NewRef()
			s.epoch++
		}
	case "stop":
		r := s.do(n, req("stop"))
		c.Did("stop")
		if s.settled("stop", r, nil) {
			s.expect(&expPacket{what: "stop", stop: true})
		}
	case "raw": // a request that must be refused
		m := req(o.S)
		if o.T != "" {
			m["code"] = int64(7)
		}
		c.Did("raw")
		s.settled("request "+o.S, s.do(n, m), fmt.Errorf("invalid request"))
	case "read":
		c.Did("read")
		s.verify("read")
	case "sleep":
		c.Did("sleep")
		c.Sleep(o.N)
	case "kill", "rmstate", "garble", "kill-other", "kill-all", "stall":
		c.Did(o.K)
		s.fault(o)
	case "outage":
		// for N ns no player can be started, and those that run are gone
		c.Did("outage")
		c.Sleep(s.settle)
		s.faulty(o.N + 180*sec)
		until := c.Now() + o.N
		c.W.SpawnHook = func(p *rt.Proc, path string, args []string) error {
			if c.Now() < until && strings.HasSuffix(path, "alda-player") {
				c.W.Fault("spawn-fails")
				return errSpawn
			}
			return nil
		}
		for _, p := range c.livePlayers() {
			c.W.Fault("player-killed")
			c.S.Kill(p.P)
		}
	}
	if s.strict && !s.Unsure {
		s.unchanged(o)
	}
}

// fuzzy ends the comparison if what the score is depends on rounding errors.
func (s *Sess) fuzzy(r *RefScore) bool {
	if r.Fuzzy {
		s.Unsure = true
		s.c.W.Probe("rounding-matters")
	}
	return r.Fuzzy
}

func (s *Sess) softEpoch() {
	s.epoch++
	s.soft[s.epoch] = true
}

var errSpawn = fmt.Errorf("fork/exec: resource temporarily unavailable")

// faulty: requests may fail during the next d ns.
func (s *Sess) faulty(d int64) {
	if t := s.c.Now() + d; t > s.faultUntil {
		s.faultUntil = t
	}
	s.softEpoch()
}

// fault hits a player once everything sent has arrived.
func (s *Sess) fault(o Op) {
	c := s.c
	c.Sleep(s.settle)
	p := s.cur()
	if p == nil || p.Dead() {
		return
	}
	switch o.K {
	case "kill":
		s.faulty(180 * sec)
		c.W.Fault("player-killed")
		c.S.Kill(p.P)
	case "kill-all":
		s.faulty(180 * sec)
		for _, q := range c.livePlayers() {
			c.W.Fault("player-killed")
			c.S.Kill(q.P)
		}
	case "kill-other":
		s.faulty(180 * sec)
		for _, q := range c.livePlayers() {
			if q != p {
				c.W.Fault("player-killed")
				c.S.Kill(q.P)
				return
			}
		}
	case "rmstate":
		s.faulty(180 * sec)
		c.W.Fault("state-file-removed")
		c.W.FS.Delete(p.Path)
	case "garble":
		s.faulty(180 * sec)
		c.W.Fault("state-file-garbled")
		c.W.FS.Put(p.Path, []byte(o.S), 0644)
	case "stall":
		s.faulty(o.N + 180*sec)
		c.W.Fault("player-stalled")
		c.S.Stall(p.P)
		c.Task("resume", func() { c.Sleep(o.N); c.S.Resume(p.P) })
	}
}

// unchanged compares all that can be read with what was read before, if the
// operation did not change the score.
func (s *Sess) unchanged(o Op) {
	now := s.reads()
	if s.before != nil && s.ref == s.lastRef && o.K != "load" && o.K != "new" && o.K != "replay" && o.K != "export" {
		for _, k := range []string{"score-text", "score-events", "score-ast", "score-data"} {
			s.c.Check(s.before[k] == now[k], "changed-"+strings.TrimPrefix(k, "score-"), "after %s %q, which was answered with an error or changes nothing, %s is different: %s", o.K, o.S, k, firstDiff(s.before[k], now[k]))
		}
	}
	s.before = now
	s.verify("state")
}

func (s *Sess) loaded(what string) {
	s.epoch++
	s.expect(&expPacket{what: what, notes: s.ref.excerpt(0, math.MaxFloat64), tempos: s.ref.tempoList(0, math.MaxFloat64)})
	s.expect(&expPacket{what: what + " (offset)", hasOff: true, offset: s.ref.End()})
}

// verify compares the score the server has with the reference.
func (s *Sess) verify(class string) {
	if s.Unsure {
		return
	}
	c := s.c
	n := s.cl[0]
	if r := s.do(n, req("score-text")); r != nil {
		c.Check(r.OK() && strings.TrimSpace(r.Str("text")) == strings.TrimSpace(s.ref.Text()), class+"-text", "score-text is %q, the accepted inputs are %q (%s)", r.Str("text"), s.ref.Text(), r.Problems())
	}
	if r := s.do(n, req("score-data")); r != nil {
		d := "no data: " + r.Problems()
		if r.OK() {
			d = s.ref.diffData(r.Str("data"))
		}
		c.Check(d == "", class+"-data", "score-data does not match the text %q: %s", s.ref.Text(), d)
	}
}

// data reads the canonical form of the whole score.
func (s *Sess) data() string {
	r := s.do(s.cl[0], req("score-data"))
	if r == nil || !r.OK() {
		return ""
	}
	x, err := canonData(r.Str("data"))
	if err != nil {
		s.c.Check(false, "bad-data", "score-data: %v", err)
	}
	return x
}

// reads is everything the server tells about the score.
func (s *Sess) reads() map[string]string {
	out := map[string]string{}
	for op, k := range map[string]string{"score-text": "text", "score-events": "events", "score-ast": "ast"} {
		_ = k
		out[op] = ""
	}
	for _, op := range []string{"score-text", "score-events", "score-ast"} {
		r := s.do(s.cl[0], req(op))
		if r == nil {
			continue
		}
		out[op] = r.Str("text") + r.Str("events") + r.Str("ast") + r.Problems()
	}
	out["score-data"] = s.data()
	return out
}

// checkMIDI compares an exported file with the score.
func (s *Sess) checkMIDI(what, data string) {
	checkMIDI(s.c, s.ref, what, data)
}

func checkMIDI(c *Ctx, ref *RefScore, what, data string) {
	lines, err := ParseMIDI([]byte(data))
	if !c.Check(err == nil, "incomplete-midi", "%s is not a complete MIDI file: %v (%d bytes)", what, err, len(data)) {
		return
	}
	min := math.MaxFloat64
	for _, n := range ref.Notes {
		min = math.Min(min, n.Off)
	}
	var got []PNote
	for _, l := range lines {
		var n PNote
		if k, _ := fmt.Sscanf(l, "note %d %d %d %d %d %d", &n.Rel, &n.Patch, &n.Num, &n.Dur, &n.Aud, &n.Vel); k == 6 {
			n.TrackVol, n.Pan = -7, -7
			got = append(got, n)
		}
	}
	var want []RefNote
	for _, n := range ref.Notes {
		n.Off -= min
		n.TVol, n.Pan = -7, -7
		want = append(want, n)
	}
	d := matchNotes(got, want, false)
	c.Check(d == "", "foreign-midi", "%s is not the MIDI file of the current score %q: %s", what, clip(ref.Text(), 300), d)
}

// players compares what the players received with what the session sent.
func (s *Sess) players(settle int64) {
	c := s.c
	if s.Unsure {
		return
	}
	c.Sleep(settle)
	var got []*gotPacket
	for _, p := range c.Players {
		got = append(got, p.packets()...)
		c.Check(p.Bad == 0, "bad-packet", "%s received %d undecodable packets", p, p.Bad)
	}
	sort.SliceStable(got, func(i, j int) bool { return got[i].at < got[j].at })
	m := &matcher{s: s, got: got, ep: map[*Player]int{}, idx: map[*Player]int{}, of: map[int]*Player{}, best: -1}
	m.strict = true
	if m.match(0) {
		c.checks += int64(len(s.exp))
		return
	}
	if m.steps > matchLimit {
		return // too ambiguous
	}
	if m.extra != nil {
		c.Check(false, "extra-packet", "no accepted request explains %s", m.extra)
		return
	}
	e := s.exp[m.best]
	// find out what is wrong, by dropping the restrictions on the player
	r := &matcher{s: s, got: got, ep: map[*Player]int{}, idx: map[*Player]int{}, of: map[int]*Player{}, best: -1}
	if r.match(0) || r.extra != nil {
		c.Check(false, m.class, "%s: %s", e.what, m.why)
		return
	}
	c.Check(false, "not-played", "%s reached no player; the nearest packet is %s", s.exp[r.best].what, s.nearest(s.exp[r.best], got))
}

const matchLimit = 20000

// matcher explains the packets which players received by the requests, with
// backtracking, as packets may look alike.
type matcher struct {
	s      *Sess
	got    []*gotPacket
	strict bool
	ep     map[*Player]int // the epoch a player is in
	idx    map[*Player]int // the last packet accounted for
	of     map[int]*Player // the player of an epoch
	steps  int
	best   int // the first expectation without a packet
	class  string
	why    string
	extra  *gotPacket
}

func (m *matcher) match(i int) bool {
	s := m.s
	if m.steps++; m.steps > matchLimit {
		return false
	}
	if i == len(s.exp) {
		for _, g := range m.got {
			if !g.used && !m.excused(g) {
				if m.extra == nil {
					m.extra = g
				}
				return false
			}
		}
		return true
	}
	e := s.exp[i]
	class, why := "not-played", ""
	for _, g := range m.got {
		if g.used || g.at < e.after || e.diff(g) != "" {
			continue
		}
		ep, had := m.ep[g.pl]
		idx, seen := m.idx[g.pl]
		pl, other := m.of[e.epoch]
		if m.strict {
			if had && !s.same(ep, e.epoch) {
				class, why = "old-player", fmt.Sprintf("it went to %s, which had the previous score (%s)", g.pl, g)
				continue
			}
			if other && pl != g.pl && e.after > s.faultUntil {
				class, why = "switched-player", fmt.Sprintf("it went to %s, although the score was being played by %s", g.pl, pl)
				continue
			}
			if seen && g.idx < idx {
				class, why = "played-out-of-order", fmt.Sprintf("it overtook an earlier packet: %s", g)
				continue
			}
		}
		g.used, m.ep[g.pl], m.idx[g.pl], m.of[e.epoch], e.got = true, e.epoch, g.idx, g.pl, g
		if m.match(i + 1) {
			return true
		}
		g.used = false
		if m.ep[g.pl] = ep; !had {
			delete(m.ep, g.pl)
		}
		if m.idx[g.pl] = idx; !seen {
			delete(m.idx, g.pl)
		}
		if m.of[e.epoch] = pl; !other {
			delete(m.of, e.epoch)
		}
	}
	if e.lossy && m.match(i+1) {
		return true
	}
	if i > m.best {
		m.best, m.class, m.why = i, class, why
	}
	return false
}

// excused packets need no explanation: shutdowns; and what a load, replay or
// export that failed later sent to a player which was then shut down.
func (m *matcher) excused(g *gotPacket) bool {
	if g.shutdown || g.stop && len(g.notes) == 0 {
		return true
	}
	if g.pl.Dead() || g.pl.ShutReq >= 0 {
		_, had := m.ep[g.pl]
		for _, t := range m.s.failed {
			if !had && g.at >= t[0] && g.at <= t[1]+m.s.settle {
				return true
			}
		}
	}
	return false
}

// nearest describes the packet which is most like the expected one.
func (s *Sess) nearest(e *expPacket, got []*gotPacket) string {
	best, str := -1, "none"
	for _, g := range got {
		if g.at < e.after || g.shutdown {
			continue
		}
		k := 0
		if g.play == e.play && g.stop == e.stop && g.hasOff == e.hasOff && (g.export != "") == e.export {
			k += 4
		}
		if len(g.notes) == len(e.notes) {
			k += 2
		}
		if len(g.tempos) == len(e.tempos) {
			k++
		}
		if k > best {
			best, str = k, g.String()+": "+e.diff(g)
		}
	}
	return str
}

// same tells whether two epochs may be played by the same player.
func (s *Sess) same(a, b int) bool {
	for i := a + 1; i <= b; i++ {
		if !s.soft[i] {
			return false
		}
	}
	return a <= b
}
