package check

import (
	"fmt"
	"path"
	"strings"

	"alda.sim/rt"
	"alda.sim/world"
)

func init() {
	tuning["C12"] = tune{5000, 80000, "a command had to choose among players, at least one of which was not usable"}
	register(&Scenario{Prop: "C12", Name: "choose", Gen: genC12, Run: runC12})
}

// ---------------------------------------------------------------- C12

func genC12(g *Gen) {
	g.Swarm()
	kinds := poolKinds
	switch g.N(0, 5) {
	case 0:
		kinds = []string{"ready", "dead", "active", "starting"}
	case 1:
		kinds = []string{"dead", "dead", "nolisten", "full", "garbage", "active", "stale"}
	}
	g.I("startingfor", g.OneI(0, 100*ms, 2*sec, 8*sec))
	g.pool(0, 6, kinds...)
	g.I("spawn", g.OneI(0, 1, 1, 1, 2)) // 0 disabled, 1 healthy, 2 fails
	g.I("start", g.OneI(100*ms, 1*sec, 3*sec))
	g.I("readyin", g.OneI(50*ms, 1*sec, 3*sec))
	g.I("info", g.OneI(0, 0, 500*ms, 2*sec))
	g.I("gap", g.OneI(0, 0, 5*ms, 40*ms))
	for i := g.N(1, 3); i > 0; i-- {
		o := Op{K: "play", S: g.OneOf("play", "play", "play", "export"), C: g.N(0, 1)}
		if g.Bool(0.15) {
			o.K, o.N = "vanish", g.Dur(0, 3*sec)
		}
		g.Op(o)
	}
}

func runC12(c *Ctx) {
	c.PB.StateGap = c.I("gap")
	entries := c.pool()
	if c.Err != "" {
		return
	}
	c.PB.StartMin, c.PB.StartMax = 50*ms, c.I("start")
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, c.I("readyin")
	c.PB.InfoDelay = c.I("info")
	switch c.I("spawn") {
	case 0:
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	case 2:
		c.W.SpawnHook = func(_ *rt.Proc, p string, args []string) error {
			if strings.HasSuffix(p, "alda-player") && len(args) > 1 && args[1] == "run" {
				c.W.Fault("spawn-fails")
				return errSpawn
			}
			return nil
		}
	}
	// who was asked, who was removed
	type key struct {
		p    *rt.Proc
		port int
	}
	dialled := map[key]int64{}
	c.W.Net.DialHook = func(p *rt.Proc, port int) error {
		k := key{p, port}
		if _, ok := dialled[k]; !ok {
			dialled[k] = c.Now()
		}
		return nil
	}
	pre := c.W.FS.Hook
	c.W.FS.Hook = func(op *world.FSOp) world.FSAction {
		if op.Op == "remove" && isClient(op.P) && path.Dir(op.Path) == c.playersDir() {
			if pl := c.playerByID(strings.TrimSuffix(path.Base(op.Path), ".json")); pl != nil {
				age := world.Wall() - c.W.FS.Mtime(op.Path)
				c.Check(!pl.Alive() || age > 60*sec, "live-entry-removed", "%s removes the entry of %s, which is alive (state %s)", op.P, pl, pl.State)
			}
		}
		if pre != nil {
			return pre(op)
		}
		return world.FSAction{}
	}
	mixed, hung := false, false
	for _, e := range entries {
		// a player that hung and comes back may first see a request to shut down
		hung = hung || e.Kind == "hung"
		if e.Kind != "ready" {
			mixed = true
		}
	}
	hurt := c.P.has("vanish")
	type cmdrun struct {
		o       Op
		d       *Done
		t0      int64
		must    bool
		mustNot bool
		bound   int64
		seen    map[*Player]int // packets each player had before
	}
	delivered := func(r *cmdrun) []*Player {
		var out []*Player
		for _, pl := range c.Players {
			n := 0
			for _, m := range pl.Msgs {
				if strings.HasSuffix(m.Addr, "/midi/note") && m.Int(2) == 60+int(r.o.M) {
					n++
				}
			}
			for ; n > 0; n-- {
				out = append(out, pl)
			}
		}
		return out
	}
	var runs []*cmdrun
	var conc []*Join
	nplay, total := 0, 0
	for _, o := range c.P.Ops {
		if o.K == "play" {
			total++
		}
	}
	for _, o := range c.P.Ops {
		switch o.K {
		case "vanish":
			o := o

			conc = append(conc, c.Task("vanish", func() {
				c.Sleep(o.N)
				for _, pl := range c.livePlayers() {
					if pl.State == "ready" {
						c.W.Fault("player-killed")
						c.S.Kill(pl.P)
						return
					}
				}
			}))
		case "play":
			nplay++
			o.M = int64(nplay)
			r := &cmdrun{o: o, t0: c.Now()}
			runs = append(runs, r)
			// what is there to choose from? (a player that was already asked
			// may become active any moment)
			asked := map[int]bool{}
			for k := range dialled {
				asked[k.port] = true
			}
			good, maybe, wait, unreach, starting, badstart := 0, 0, 0, 0, 0, 0
			for _, pl := range c.Players {
				age := world.Wall() - c.W.FS.Mtime(pl.Path)
				if pl.Version != c.Version || !c.W.FS.Exists(pl.Path) || age > 110*sec {
					continue
				}
				switch {
				case pl.State == "ready" && pl.Alive():
					if !asked[pl.Port] {
						good++
					} else {
						maybe++
					}
				case pl.State == "active" && pl.ActiveAt < 0:
					maybe++ // its file still says ready
				case pl.State == "starting" && pl.Alive():
					starting++
					if pl.ReadyIn > 20*sec {
						badstart++
					}
				case pl.State == "ready" && !pl.P.Stalled:
					unreach++
				case pl.State == "ready" && pl.P.Stalled && pl.L != nil && pl.L.MaxBacklog < 0:
					unreach++
				case pl.State == "ready" && pl.P.Stalled:
					wait++
				case pl.State == "starting":
					badstart++
				}
			}
			busy := 0
			for _, q := range runs[:len(runs)-1] {
				if q.d == nil {
					busy++
				}
			}
			others := busy
			if o.C == 1 { // those to come may be faster than this one
				busy += total - nplay
			}
			slow := 22*sec*int64(unreach+2) + 60*sec
			r.bound = slow
			r.must = !hurt && !(wait > 0 && o.S == "export") && (good > busy || c.I("spawn") == 1 && badstart == 0 && others == 0)
			r.mustNot = !hurt && good+maybe+wait+starting == 0 && c.I("spawn") != 1
			c.Did(fmt.Sprintf("%s good%d busy%d unreach%d starting%d bad%d spawn%d", o.S, good, busy, unreach, starting, badstart, c.I("spawn")))
			args := []string{"play", "-c", fmt.Sprintf("piano: %s", refPitch(60+int(o.M)))}
			if o.S == "export" {
				args = []string{"export", "-c", fmt.Sprintf("piano: %s", refPitch(60+int(o.M))), "-o", fmt.Sprintf("out%d.mid", nplay)}
				r.bound += 60 * sec
			}
			run := func() { r.d = c.RunAlda(r.bound+100*sec, args...) }
			if o.C == 1 {
				conc = append(conc, c.Task("command", run))
				c.Sleep(100 * ms)
			} else {
				run()
				if !c.Check(r.d.Ended, "hangs", "%s", r.d) {
					return
				}
			}
		}
	}
	for _, j := range conc {
		if !j.Wait(1000 * sec) {
			c.Harness("command task hangs")
			return
		}
	}
	for _, e := range entries { // hung ones come back: did they get anything?
		if e.PL != nil && e.PL.P.Stalled && e.Kind == "hung" {
			c.S.Resume(e.PL.P)
		}
	}
	c.Sleep(5 * sec)
	for _, r := range runs {
		if !c.Check(r.d.Ended && r.d.Took < r.bound, "hangs", "%s", r.d) {
			return
		}
		who := delivered(r)
		if r.d.OK() {
			if !c.Check(len(who) == 1 || (hurt || hung) && len(who) == 0, "not-delivered-once", "%s: the score was delivered to %d players %v", r.d, len(who), who) {
				return
			}
			for _, pl := range who {
				c.Check(pl.ReadyAt >= 0 && (pl.ActiveAt < 0 || pl.ActiveAt >= r.t0), "bad-choice", "%s chose %s, which was not ready (became ready at %.3f s, active at %.3f s; the command started at %.3f s)",
					r.d, pl, float64(pl.ReadyAt)/1e9, float64(pl.ActiveAt)/1e9, float64(r.t0)/1e9)
				c.Check(pl.Version == c.Version, "bad-choice", "%s chose %s of version %s", r.d, pl, pl.Version)
			}
			// a dead player that it tried is forgotten
			for _, e := range entries {
				if e.PL == nil || !(e.Kind == "dead" || e.Kind == "nolisten") {
					continue
				}
				if _, ok := dialled[key{r.d.P, e.PL.Port}]; ok && !hurt {
					b, _ := c.W.FS.Get(e.Path)
					c.Check(!c.W.FS.Exists(e.Path), "dead-entry-kept", "%s tried %s (%s) in vain, but left its entry %q", r.d, e.PL, e.Kind, b)
				}
			}
		} else {
			c.Check(!r.must, "no-player-found", "%s although a player was or could be made available; players: %s", r.d, c.describePool())
			c.Check(r.d.Stderr != "", "no-error", "%s fails without a message", r.d)
		}
		c.Check(!r.mustNot || !r.d.OK(), "false-success", "%s although there is no usable player: %s", r.d, c.describePool())
		c.Check(!strings.Contains(r.d.Stderr, "goroutine ") && !strings.Contains(r.d.Stderr, "panic"), "crash", "%s", r.d)
	}
	c.NonTrivial = mixed && len(runs) > 0
}

func (c *Ctx) describePool() string {
	var out []string
	for _, p := range c.Players {
		out = append(out, fmt.Sprintf("%s %s dead=%v stalled=%v listening=%v", p.ID, p.State, p.Dead(), p.P.Stalled, p.Listening))
	}
	return strings.Join(out, "; ")
}

// refPitch is a pitch in the default octave or the one above.
func refPitch(num int) string {
	names := []string{"c", "c+", "d", "d+", "e", "f", "f+", "g", "g+", "a", "a+", "b"}
	return fmt.Sprintf("o%d %s8", num/12-1, names[num%12])
}
