package check

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

func init() {
	tuning["C06"] = tune{900, 60000, "a player was lost, and after the faults a request that needs a player was accepted"}
	register(&Scenario{Prop: "C06", Name: "recover", Weight: 3, Gen: genC06, Run: runC06})
	tuning["C08"] = tune{3000, 150000, "the score was replaced at least once and what each player received was compared"}
	register(&Scenario{Prop: "C06", Name: "swift", Weight: 1, Gen: genC06Swift, Run: runC06Swift})
	register(&Scenario{Prop: "C08", Name: "fresh", Weight: 3, Gen: genC08, Run: runC08})
	register(&Scenario{Prop: "C08", Name: "lost", Weight: 1, Gen: genC08Lost, Run: runC08Lost})
	register(&Scenario{Prop: "C08", Name: "race", Weight: 1, Gen: genC08Race, Run: runC08Race})
	tuning["C09"] = tune{1500, 100000, "a MIDI file was returned and compared, or an export had to fail"}
	register(&Scenario{Prop: "C09", Name: "export", Weight: 4, Gen: genC09, Run: runC09})
}

// ---------------------------------------------------------------- C06

func genC06(g *Gen) {
	g.Swarm()
	s := newSong(g)
	n := g.N(2, 7)
	if g.Thorough {
		n = g.N(2, 16)
	}
	g.I("clients", int64(g.N(1, 2)))
	g.I("players", g.OneI(0, 1, 3))
	g.I("gap", g.OneI(0, 0, 5*ms, 40*ms))
	sessionOps(g, s, n, []int{40, 3, 8, 6, 3, 4, 4, 2, 0, 12, 0}, nil)
	// faults come at any time, whatever the requests do
	at := g.Dur(0, 3*sec)
	for i := g.N(1, 4); i > 0; i-- {
		o := Op{K: "fault", At: at, S: g.OneOf("kill", "kill", "kill-all", "stall", "stall", "stall-all", "rmstate", "garble", "rmdir", "lose", "lose", "outage", "nolisten", "reset", "restart", "noready")}
		o.N = g.Dur(100*ms, 100*sec)
		if o.S == "garble" {
			o.T = g.OneOf("", "{", "garbage", `{"port":0}`, `{"port":"x"}`, `[]`, "null")
		}
		g.Op(o)
		at += g.Dur(0, 40*sec)
	}
}

// hurt applies one fault of C06.
func (s *Sess) hurt(o Op) {
	c := s.c
	p := s.cur()
	until := c.Now() + o.N
	s.faulty(o.N + 180*sec)
	stall := func(q *Player) {
		if q.P.Dead || q.P.Stalled {
			return
		}
		c.W.Fault("player-stalled")
		c.S.Stall(q.P)
		c.Task("resume", func() { c.Sleep(o.N); c.S.Resume(q.P) })
	}
	end := func() {
		if t := c.Now() + o.N; t > s.healthy {
			s.healthy = t
		}
	}
	if s.healthy < c.Now() {
		s.healthy = c.Now()
	}
	switch o.S {
	case "kill", "restart":
		if p != nil && !p.Dead() {
			c.W.Fault("player-killed")
			port := p.Port
			c.S.Kill(p.P)
			if o.S == "restart" {
				c.W.Fault("player-restarted")
				c.W.StartProgram(world.Spec{Name: "player", Args: []string{"alda-player", "run", "-p", strconv.Itoa(port)}, Env: c.env, Cwd: "/home/user", Exe: exePlay, Pipe: true}, c.playerMain)
			}
		}
	case "kill-all":
		for _, q := range c.livePlayers() {
			c.W.Fault("player-killed")
			c.S.Kill(q.P)
		}
	case "stall":
		if p != nil {
			stall(p)
			end()
		}
	case "stall-all":
		for _, q := range c.livePlayers() {
			stall(q)
		}
		end()
	case "rmstate":
		if p != nil {
			c.W.Fault("state-file-removed")
			c.W.FS.Delete(p.Path)
		}
	case "lose":
		// for good: the player cannot write there any more
		if p != nil && !p.Dead() {
			c.W.Fault("state-file-lost-for-good")
			p.NoState, p.lostAt = true, c.Now()
			c.W.FS.Delete(p.Path)
		}
	case "rmdir":
		c.W.Fault("state-directory-removed")
		for _, f := range c.W.FS.List(c.playersDir()) {
			c.W.FS.Delete(c.playersDir() + "/" + f)
		}
		c.W.FS.Delete(c.playersDir())
	case "garble":
		if p != nil {
			c.W.Fault("state-file-garbled")
			c.W.FS.Put(p.Path, []byte(o.T), 0644)
		}
	case "outage":
		end()
		c.W.SpawnHook = func(_ *rt.Proc, path string, args []string) error {
			// everything fails, or just starting a player
			if c.Now() < until && strings.HasSuffix(path, "alda-player") && (o.N%3 > 0 || len(args) > 1 && args[1] == "run") {
				c.W.Fault("spawn-fails")
				return errSpawn
			}
			return nil
		}
		if p != nil && !p.Dead() {
			c.W.Fault("player-killed")
			c.S.Kill(p.P)
		}
	case "nolisten", "noready":
		// players that come up during this time are unusable
		end()
		c.PB.Decide = func(pl *Player) {
			if c.Now() < until {
				if o.S == "nolisten" {
					c.W.Fault("player-does-not-listen")
					pl.NoListen = true
				} else {
					c.W.Fault("player-dies-at-start")
					rt.Sleep(50 * ms)
					rt.Exit(1)
				}
			}
		}
		for _, q := range c.livePlayers() {
			c.W.Fault("player-killed")
			c.S.Kill(q.P)
		}
	case "reset":
		end()
		c.W.Net.DialHook = func(pr *rt.Proc, port int) error {
			if pr == s.srv && c.Now() < until && port != s.port {
				c.W.Fault("connect-fails")
				return syscall.ECONNREFUSED
			}
			return nil
		}
	}
}

func runC06(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 1500*ms
	c.PB.StateGap = c.I("gap")
	c.startPlayers(int(c.I("players")))
	s := c.newSession(int(c.I("clients")))
	if s == nil {
		return
	}
	nf := 0
	hurting := c.Task("faults", func() {
		for _, o := range c.P.Ops {
			if o.K == "fault" {
				if d := o.At - c.Now(); d > 0 {
					c.Sleep(d)
				}
				c.Did("fault " + o.S)
				nf++
				s.hurt(o)
			}
		}
	})
	for _, o := range c.P.Ops {
		if o.K == "fault" {
			continue
		}
		s.faultUntil = 1 << 62 // faults are not synchronised with the requests
		s.run(o)
		if s.Unsure || len(c.Viol) > 0 {
			return
		}
	}
	if !hurting.Wait(600 * sec) {
		c.Harness("faults do not end")
		return
	}
	if d := s.healthy - c.Now(); d > 0 {
		c.Sleep(d)
	}
	// Now players can be started and reached. Requests succeed again within a
	// bounded time: stale state of dead players goes away after two minutes,
	// hung players are noticed when their queues are full.
	t0 := c.Now()
	const bound = 200 * sec
	ok := false
	for !ok && c.Now()-t0 < bound {
		k := s.oks
		s.run(Op{K: "eval", S: "tuba: c8"})
		if s.Unsure || len(c.Viol) > 0 {
			return
		}
		ok = s.oks > k
		if !ok {
			c.Sleep(1 * sec)
		}
	}
	c.W.Probe(fmt.Sprintf("recovery-within-%d-s", ((c.Now()-t0)/sec/30+1)*30))
	if !c.Check(ok, "no-recovery", "no request that needs a player succeeded within %d s after the last fault", bound/sec) {
		return
	}
	// What is accepted from now on is heard.
	c.Sleep(150 * sec)
	s.faultUntil = -1
	t1 := c.Now()
	s.run(Op{K: "eval", S: "tuba: (quant 90) o5 d8 e"})
	if s.Unsure || len(c.Viol) > 0 {
		return
	}
	want := map[int]bool{} // pitches depend on what was set earlier on
	if len(s.exp) > 0 {
		if len(s.exp[len(s.exp)-1].notes) != 2 {
			return // earlier input leaves nothing to hear
		}
		for _, n := range s.exp[len(s.exp)-1].notes {
			want[n.Num] = true
		}
	}
	c.Sleep(s.settle)
	heard := 0
	for _, p := range c.Players {
		for _, n := range p.Notes {
			if !p.Dead() && p.Playing && want[n.Num] {
				for _, m := range p.Msgs {
					if m.Packet == n.Packet && m.At >= t1 {
						heard++
						c.Check(!p.NoState, "kept-lost-player", "%s lost its state file %d s ago, but the server still uses it", p, (t1-p.lostAt)/sec)
						break
					}
				}
			}
		}
	}
	c.Check(heard == 2, "not-heard", "after recovery, an accepted input of two notes made %d notes sound at live players", heard)
	s.verify("recovered")
	c.NonTrivial = nf > 0
}

// A player that is gone is noticed soon, request or no request.
func genC06Swift(g *Gen) {
	g.Swarm()
	g.I("players", g.OneI(1, 3, 5))
	g.I("gap", g.OneI(0, 0, 5*ms, 40*ms))
	for i := g.N(1, 4); i > 0; i-- {
		g.Op(Op{K: "fault", S: g.OneOf("kill", "kill", "kill", "restart", "rmstate", "lose", "garble-kill"), T: g.OneOf("", "{", `{"port":0}`), At: g.Dur(0, 3*sec), N: g.Dur(0, 20*sec)})
	}
}

func runC06Swift(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 1500*ms
	c.PB.ReadyMin, c.PB.ReadyMax = 50*ms, 1500*ms
	c.PB.StateGap = c.I("gap")
	c.startPlayers(int(c.I("players")))
	s := c.newSession(1)
	if s == nil {
		return
	}
	ask := func(what string) *NResp {
		r := s.do(s.cl[0], req("eval-and-play", "code", "piano: c16"))
		if r != nil && r.OK() {
			s.oks++
		}
		return r
	}
	if r := ask("at first"); r == nil || !r.OK() {
		return // no player in time
	}
	for _, o := range c.P.Ops {
		c.Sleep(o.At)
		p := s.cur()
		if p == nil || p.Dead() {
			break
		}
		c.Did("fault " + o.S)
		switch o.S {
		case "garble-kill":
			c.W.FS.Put(p.Path, []byte(o.T), 0644)
			o.S = "kill"
		}
		s.hurt(Op{K: "fault", S: o.S})
		if o.S == "lose" || o.S == "rmstate" {
			c.Sleep(o.N)
		}
		c.Sleep(30 * sec)
		var before []int
		for _, q := range c.Players {
			before = append(before, len(q.Notes))
		}
		r := ask("afterwards")
		if r == nil {
			return
		}
		c.NonTrivial = true
		if !c.Check(r.OK(), "slow-recovery", "%d s after the player was lost (%s; others were there or could be started) a request still fails: %v", 30, o.S, r.Problems()) {
			return
		}
		c.Sleep(1 * sec)
		heard := 0
		for k, q := range c.Players {
			n := len(q.Notes)
			if k < len(before) {
				n -= before[k]
			}
			if !q.Dead() && q.Playing {
				heard += n
			}
		}
		c.Check(heard == 1, "slow-recovery", "%d s after the player was lost (%s; others were there or could be started) a note that was accepted was played %d times", 30, o.S, heard)
	}
}

// ---------------------------------------------------------------- C08

func genC08(g *Gen) {
	g.Swarm()
	s := newSong(g)
	n := g.N(3, 10)
	if g.Thorough {
		n = g.N(3, 25)
	}
	g.I("clients", int64(g.N(1, 3)))
	g.I("players", g.OneI(0, 1, 3, 5))
	g.I("shut", g.OneI(0, 50*ms, 1*sec, 5*sec, 30*sec))
	g.I("gap", g.OneI(0, 5*ms, 40*ms))
	g.I("ready", g.OneI(100*ms, 3*sec, 9*sec))
	sessionOps(g, s, n, []int{40, 4, 14, 14, 16, 3, 4, 0, 0, 6, 0}, nil)
}

func (s *Sess) shutdowns() {
	c := s.c
	// after a player was told to shut down it gets nothing more to play
	for _, p := range c.Players {
		down := int64(-1)
		for _, g := range p.packets() {
			if down >= 0 && (len(g.notes) > 0 || g.play || g.export != "" || g.hasOff || len(g.tempos) > 0) {
				c.Check(false, "after-shutdown", "%s was told to shut down at %.3f s and then got %s", p, float64(down)/1e9, g)
				return
			}
			if g.shutdown && down < 0 {
				down = g.at
			}
		}
		c.checks++
	}
}

func runC08(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, c.I("ready")
	c.PB.ShutDelay, c.PB.StateGap = c.I("shut"), c.I("gap")
	c.startPlayers(int(c.I("players")))
	s := c.newSession(int(c.I("clients")))
	if s == nil {
		return
	}
	fresh := 0
	for _, o := range c.P.Ops {
		k := s.oks
		s.run(o)
		if s.Unsure || len(c.Viol) > 0 {
			return
		}
		if s.oks > k && (o.K == "load" || o.K == "new" || o.K == "replay") {
			fresh++
		}
	}
	s.players(s.settle)
	s.shutdowns()
	// each player that had a score which has been replaced was told to shut down
	for _, e := range s.exp {
		if e.got == nil || s.same(e.epoch, s.epoch) {
			continue
		}
		p := e.got.pl
		if !p.Dead() && p.ShutReq < 0 {
			// A packet just like it may belong to the present score, and the two
			// may have been taken for each other.
			left, present := map[*Player]bool{}, false
			for _, f := range s.exp {
				if f.got != nil && f.diff(e.got) == "" {
					present = present || s.same(f.epoch, s.epoch)
					if q := f.got.pl; !q.Dead() && q.ShutReq < 0 {
						left[q] = true
					}
				}
			}
			if present && len(left) == 1 {
				continue
			}
		}
		c.Check(p.Dead() || p.ShutReq >= 0, "not-shut-down", "the score that %s was playing has been replaced, but it was not told to shut down", p)
	}
	c.NonTrivial = fresh > 0
}

func genC08Race(g *Gen) {
	g.Swarm()
	nc := g.N(2, 3)
	g.I("clients", int64(nc))
	g.I("players", g.OneI(1, 3, 5))
	g.I("shut", g.OneI(50*ms, 1*sec, 10*sec))
	g.I("gap", g.OneI(0, 5*ms, 40*ms))
	g.I("ready", g.OneI(0, 0, 3*sec, 18*sec, 40*sec)) // how long a player takes to get ready
	g.I("nospawn", g.OneI(0, 0, 0, 1, 2))             // no further player can be started: always, sometimes
	if g.Bool(0.3) {
		g.I("shut", g.OneI(25*sec, 60*sec))
	}
	for i := g.N(6, 16); i > 0; i-- {
		o := Op{K: "req", C: g.N(0, nc-1), S: g.OneOf("eval-and-play", "eval-and-play", "eval-and-play", "new-score", "load", "replay", "stop", "export"), T: g.OneOf("piano: c8", "violin: e f", "piano: g/c")}
		if g.Bool(0.5) {
			o.At = g.Dur(0, 1500*ms)
		}
		g.Op(o)
	}
}

func runC08Race(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.PB.ShutDelay, c.PB.StateGap = c.I("shut"), c.I("gap")
	if r := c.I("ready"); r > 0 {
		c.PB.ReadyMin, c.PB.ReadyMax = r/4, r
	}
	c.startPlayers(int(c.I("players")))
	s := c.newSession(int(c.I("clients")))
	if s == nil {
		return
	}
	s.limit = 400 * sec // requests may have to wait for each other
	if k := c.I("nospawn"); k > 0 {
		c.W.SpawnHook = func(_ *rt.Proc, p string, args []string) error {
			if strings.HasSuffix(p, "alda-player") && len(args) > 1 && args[1] == "run" && (k == 1 || rt.Choose(rt.Fault, 2, 0.5) == 1) {
				c.W.Fault("spawn-fails")
				return errSpawn
			}
			return nil
		}
	}
	var js []*Join
	fresh := 0
	for k := range s.cl {
		k := k
		js = append(js, c.Task("client", func() {
			for _, o := range c.P.Ops {
				if o.C != k {
					continue
				}
				c.Sleep(o.At)
				m := req(o.S)
				if o.S == "eval-and-play" || o.S == "load" {
					m["code"] = o.T
				}
				c.Did(o.S)
				r := s.do(s.cl[k], m)
				if r == nil {
					return
				}
				if r.OK() && o.S != "eval-and-play" && o.S != "stop" {
					fresh++
				}
			}
		}))
	}
	for _, j := range js {
		j.Wait(2000 * sec)
	}
	c.Sleep(s.settle)
	s.shutdowns()
	c.NonTrivial = fresh > 0
}

// Messages to the players get lost now and then. A request may fail then, but
// whatever was answered, no player gets notes of two scores.
func genC08Lost(g *Gen) {
	g.Swarm()
	g.I("players", g.OneI(1, 3, 5))
	g.I("any", g.OneI(0, 0, 1, 2, 2)) // which messages: those to shut down, all, all but pings
	g.I("prob", g.OneI(20, 50, 80))
	g.I("how", g.OneI(0, 1, 2))
	g.I("shut", g.OneI(0, 1*sec, 30*sec))
	s := newSong(g)
	n := g.N(4, 12)
	if g.Thorough {
		n = g.N(4, 30)
	}
	sessionOps(g, s, n, []int{40, 4, 12, 14, 20, 3, 8, 0, 0, 6, 0}, nil)
}

func runC08Lost(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.PB.ShutDelay = c.I("shut")
	c.startPlayers(int(c.I("players")))
	s := c.newSession(1)
	if s == nil {
		return
	}
	lost := 0
	c.W.Net.WriteHook = func(cn *world.Conn, b []byte) error {
		if rt.CurProc() != s.srv || cn.Port == s.port || cn.Side != "c" {
			return nil
		}
		if c.I("any") == 0 && !bytes.Contains(b, []byte("shutdown")) || c.I("any") == 2 && bytes.Contains(b, []byte("/ping")) {
			return nil
		}
		if rt.Choose(rt.Fault, 2, float64(c.I("prob"))/100) == 0 {
			return nil
		}
		c.W.Fault("message-lost")
		lost++
		switch c.I("how") {
		case 0:
			return syscall.ECONNRESET
		case 1:
			return syscall.EPIPE
		}
		return syscall.ETIMEDOUT
	}
	// which score a player got notes of
	of := map[*Player]int{}
	seen := map[*Player]int{}
	look := func(epoch int, op string) bool {
		for _, p := range c.Players {
			ps := p.packets()
			for _, g := range ps[seen[p]:] {
				if len(g.notes) == 0 {
					continue
				}
				if e, ok := of[p]; ok && e != epoch {
					c.Check(false, "mixed", "%s had got notes of the score before, and %s sent it %s", p, op, g)
					return false
				}
				of[p] = epoch
			}
			seen[p] = len(ps)
		}
		c.checks++
		return true
	}
	epoch, next, fresh := 0, 1, 0
	for i, o := range c.P.Ops {
		if o.K == "sleep" {
			c.Did("sleep")
			c.Sleep(o.N / 4)
			continue
		}
		m := map[string]interface{}{}
		switch o.K {
		case "eval":
			m = req("eval-and-play", "code", o.S)
		case "load":
			m = req("load", "code", o.S)
		case "replay":
			m = req("replay")
		case "new":
			m = req("new-score")
		default:
			m = req(o.K)
		}
		c.Did(o.K)
		before := lost
		r := s.do(s.cl[0], m)
		if r == nil {
			return
		}
		c.Sleep(s.settle)
		what := fmt.Sprintf("request %d (%s, answered %v)", i, o.K, r.Status)
		e := epoch
		if o.K == "load" || o.K == "replay" || o.K == "new" || o.K == "export" {
			e = next
			next++
			if r.OK() {
				epoch = e
				fresh++
				if c.I("any") == 0 {
					for _, p := range c.Players {
						if x, ok := of[p]; ok && x != epoch && !p.Dead() {
							c.Check(p.ShutReq >= 0, "not-shut-down", "%s said that the score was replaced, but %s, which played it, was not told to shut down", what, p)
						}
					}
				}
			} else if lost == before && o.K == "new" {
				c.Check(false, "new-fails", "%s failed although every message arrived: %s", what, r.Problems())
			}
		}
		if !look(e, what) || len(c.Viol) > 0 {
			return
		}
	}
	s.shutdowns()
	c.NonTrivial = fresh > 0
}

// ---------------------------------------------------------------- C09

func genC09(g *Gen) {
	g.Swarm()
	s := newSong(g)
	n := g.N(2, 7)
	if g.Thorough {
		n = g.N(2, 15)
	}
	g.I("clients", 1)
	g.I("players", g.OneI(0, 1, 3))
	sessionOps(g, s, n, []int{40, 3, 4, 10, 4, 2, 30, 2, 0, 4, 0}, nil)
	g.I("delay", g.OneI(0, 5*ms, 300*ms, 4*sec, 12*sec, 19*sec, 30*sec))
	g.I("chunk", g.OneI(0, 1, 7, 14, 22, 50, 400))
	g.I("gap", g.OneI(0, 0, 1*ms, 20*ms, 150*ms, 400*ms, 3*sec))
	g.I("mode", g.OneI(0, 0, 0, 0, 0, 1, 2, 3, 4))
	g.I("die", int64(g.N(1, 300)))
	g.I("vary", g.OneI(0, 1))
}

func runC09(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.startPlayers(int(c.I("players")))
	s := c.newSession(1)
	if s == nil {
		return
	}
	s.limit = 120 * sec
	good := 0
	switch c.I("mode") {
	case 3: // the server cannot read or create files in the temporary directory
		c.W.FS.Hook = func(op *world.FSOp) world.FSAction {
			if op.P == s.srv && strings.HasPrefix(op.Path, "/tmp/") && rt.Choose(rt.Fault, 2, 0.3) == 1 {
				c.W.Fault("disk-error")
				return world.FSAction{Err: syscall.EIO}
			}
			return world.FSAction{}
		}
		s.faulty(1 << 60)
	case 4: // the disk is full for the player
		c.W.FS.Hook = func(op *world.FSOp) world.FSAction {
			if op.P != s.srv && op.Op == "write" && strings.HasSuffix(op.Path, ".mid") && rt.Choose(rt.Fault, 2, 0.5) == 1 {
				c.W.Fault("disk-full")
				return world.FSAction{Err: syscall.ENOSPC}
			}
			return world.FSAction{}
		}
		s.faulty(1 << 60)
	}
	for _, o := range c.P.Ops {
		if o.K == "export" {
			c.PB.ExportDelay, c.PB.ExportChunk, c.PB.ExportGap = c.I("delay"), int(c.I("chunk")), c.I("gap")
			c.PB.ExportDie, c.PB.ExportNever = 0, false
			if c.I("vary") == 1 && s.opn%2 == 1 {
				// every other export is a fast one
				c.PB.ExportDelay, c.PB.ExportChunk, c.PB.ExportGap = 1*ms, 0, 0
			} else if c.I("mode") == 1 {
				c.PB.ExportDie = int(c.I("die"))
				s.faulty(60 * sec)
			} else if c.I("mode") == 2 {
				c.PB.ExportNever = true
				s.faulty(60 * sec)
			}
			if t := c.PB.ExportDelay + s.size()*c.PB.ExportGap; t > 15*sec {
				s.faulty(60 * sec)
			}
		}
		k := s.oks
		s.run(o)
		if s.Unsure || len(c.Viol) > 0 {
			return
		}
		if o.K == "export" && s.oks > k {
			good++
		}
	}
	c.NonTrivial = good > 0 || c.I("mode") > 0 && s.errs > 0
}

// size estimates how many pieces a MIDI file is written in.
func (s *Sess) size() int64 {
	n := int64(40 + 40*len(s.ref.Notes) + 40*len(s.ref.Tempos()))
	if c := s.c.PB.ExportChunk; c > 0 {
		return n/int64(c) + 1
	}
	return 1
}
