package check

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"alda.sim/rt"
	"alda.sim/world"
)

// C13: the player pool fills up and stays bounded.

func init() {
	tuning["C13"] = tune{4000, 150000, "at least one player was spawned by a command, or a spawn was due to be refused"}
	register(&Scenario{Prop: "C13", Name: "pool", Gen: genC13, Run: runC13})
}

// commands that fill the pool in the background
var fillers = []string{"version", "parse", "instruments", "telemetry", "format", "import", "help", "bogus", "badflag", "none", "stop", "play", "play", "export", "resume", "message"}

// commands that do not
var nofill = []string{"ps", "shutdown", "doctor"}

func genC13(g *Gen) {
	g.Swarm()
	g.pool(0, 5, "ready", "ready", "starting", "active", "dead", "deadstart", "garbage", "empty", "types", "dir", "other", "stale", "hung", "full")
	g.I("startingfor", g.OneI(100*ms, 2*sec, 8*sec))
	g.I("disable", g.OneI(0, 0, 0, 0, 1))
	g.I("gap", g.OneI(0, 0, 5*ms, 40*ms))
	g.I("start", g.OneI(100*ms, 1*sec, 4*sec))
	g.I("readyin", g.OneI(50*ms, 1*sec, 4*sec))
	g.I("info", g.OneI(0, 0, 500*ms, 5*sec))
	g.I("idle", g.OneI(0, 1))
	n := g.N(2, 8)
	if g.Thorough {
		n = g.N(2, 20)
	}
	for i := 0; i < n; i++ {
		o := Op{}
		switch k := g.N(0, 19); {
		case k < 10:
			o.K, o.S, o.C = "cmd", fillers[g.N(0, len(fillers)-1)], g.N(0, 1)
		case k < 12:
			o.K, o.S, o.C = "cmd", nofill[g.N(0, len(nofill)-1)], g.N(0, 1)
		case k < 13:
			o.K, o.S = "server", g.OneOf("server", "interactive")
		case k < 15:
			o.K, o.S = "hurt", g.OneOf("kill", "kill-all", "stall", "rmstate", "kill-starting")
		case k < 17:
			o.K, o.S, o.N = "trouble", g.OneOf("spawn", "spawn", "info", "infohang", "infotext", "gone", "dies", "version"), g.Dur(1*sec, 60*sec)
		default:
			o.K, o.N = "sleep", g.Dur(0, 20*sec)
			if g.Bool(0.2) {
				o.N = g.Dur(60*sec, 200*sec)
			}
		}
		g.Op(o)
	}
}

func commandArgs(s string) []string {
	switch s {
	case "parse":
		return []string{"parse", "-c", "piano: c d e"}
	case "telemetry":
		return []string{"telemetry"}
	case "format":
		return []string{"format", "-f", "/nowhere.alda"}
	case "import":
		return []string{"import", "-f", "/nowhere.xml", "-i", "musicxml"}
	case "help":
		return []string{"--help"}
	case "bogus":
		return []string{"no-such-command"}
	case "badflag":
		return []string{"play", "--no-such-flag"}
	case "none":
		return []string{}
	case "play":
		return []string{"play", "-c", "piano: c8"}
	case "resume":
		return []string{"play"}
	case "export":
		return []string{"export", "-c", "piano: c8", "-o", "out.mid"}
	case "message":
		return []string{"repl", "--client", "--port", "1", "--message", `{"op":"describe"}`}
	case "doctor":
		return []string{"doctor", "--no-audio"}
	}
	return []string{s}
}

type c13child struct {
	at int64
	p  *rt.Proc
}

type c13snap struct {
	at  int64
	ids map[string]bool
}

func runC13(c *Ctx) {
	c.PB.StateGap = c.I("gap")
	c.pool()
	if c.Err != "" {
		return
	}
	c.PB.StartMin, c.PB.StartMax = 50*ms, c.I("start")
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, c.I("readyin")
	c.PB.InfoDelay = c.I("info")
	disabled := c.I("disable") == 1
	if disabled {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	failing := map[string]int{}
	c.W.SpawnHook = func(_ *rt.Proc, p string, args []string) error {
		if !strings.HasSuffix(p, "alda-player") || len(args) < 2 {
			return nil
		}
		if failing["spawn"] > 0 && args[1] == "run" || failing["info"] > 0 && args[1] == "info" {
			c.W.Fault("spawn-fails")
			return errSpawn
		}
		return nil
	}

	// the entries that count as available, over time
	var snaps []c13snap
	now := func() map[string]bool {
		ids := map[string]bool{}
		for _, f := range c.W.FS.List(c.playersDir()) {
			b, _ := c.W.FS.Get(c.playersDir() + "/" + f)
			var st struct {
				State  string `json:"state"`
				Port   int    `json:"port"`
				Expiry int64  `json:"expiry"`
				PID    int    `json:"pid"`
			}
			if json.Unmarshal(b, &st) == nil && (st.State == "ready" || st.State == "starting") {
				ids[strings.TrimSuffix(f, ".json")] = true
			}
		}
		return ids
	}
	snaps = append(snaps, c13snap{c.Now(), now()})
	c.W.FS.After = func(op *world.FSOp) {
		if path.Dir(op.Path) == c.playersDir() && op.Op != "read" && op.Op != "stat" {
			snaps = append(snaps, c13snap{c.Now(), now()})
			if len(snaps) > 4000 {
				snaps = snaps[2000:]
			}
		}
	}
	const window = 1 * sec
	spawned := map[*rt.Proc][]*c13child{}
	nspawn, seen := 0, false
	c.W.OnSpawn = func(child *rt.Proc) {
		parent := world.Parent(child)
		if parent == nil || !isClient(parent) || len(child.Args) < 2 || child.Args[1] != "run" {
			return
		}
		for _, a := range child.Args {
			if a == "-p" || a == "--port" { // doctor's own
				return
			}
		}
		nspawn++
		t := c.Now()
		spawned[parent] = append(spawned[parent], &c13child{t, child})
		name := strings.Join(parent.Args[1:], " ")
		if len(parent.Args) > 1 {
			switch parent.Args[1] {
			case "ps", "shutdown":
				c.Fail("spawns", "`alda %s` spawned a player", name)
				return
			}
		}
		if !c.Check(!disabled, "spawns-disabled", "`alda %s` spawned a player although ALDA_DISABLE_SPAWNING=yes", name) {
			return
		}
		if len(parent.Args) > 1 && parent.Args[1] == "doctor" {
			return
		}
		// those the command spawned just now, which it must know about
		own := 0
		for _, x := range spawned[parent] {
			listed := false
			for _, pl := range c.Players {
				listed = listed || pl.P == x.p && c.W.FS.Exists(pl.Path)
			}
			if x.at >= t-window || x.at >= t-4*sec && !x.p.Dead && !listed {
				own++
			}
		}
		snaps = append(snaps, c13snap{t, now()})
		// available throughout the time in which the command looked
		var all map[string]bool
		for i := len(snaps) - 1; i >= 0; i-- {
			if all == nil {
				all = map[string]bool{}
				for id := range snaps[i].ids {
					all[id] = true
				}
			} else {
				for id := range all {
					if !snaps[i].ids[id] {
						delete(all, id)
					}
				}
			}
			if snaps[i].at < t-window {
				break
			}
		}
		c.Check(own+len(all) <= 3, "too-many", "`alda %s` spawned %d players at %.3f s although %d were starting or ready: %s", name, own, float64(t)/1e9, len(all), keys(all))
	}

	var conc []*Join
	var servers []*rt.Proc
	troubleEnd := int64(0)
	run := func(s string, args []string) {
		d := c.RunAlda(400*sec, args...)
		if !c.Check(d.Ended, "hangs", "%s", d) {
			return
		}
	}
	for _, o := range c.P.Ops {
		o := o
		switch o.K {
		case "cmd":
			seen = true
			if o.S == "doctor" && c.P.has("trouble") {
				continue // it would ask whether to install the player
			}
			c.Did(o.S)
			args := commandArgs(o.S)
			if o.C == 1 && len(conc)-doneJoins(conc) < 2 {
				conc = append(conc, c.Task("command", func() { run(o.S, args) }))
				c.Sleep(20 * ms)
			} else {
				run(o.S, args)
			}
		case "server":
			if len(servers) > 0 {
				continue
			}
			seen = true
			c.Did("server")
			c.W.FS.PutDir("/home/user/srv")
			args := []string{"repl", "--server", "--port", "4499"}
			if o.S == "interactive" {
				args = []string{"repl"}
			}
			servers = append(servers, c.AldaIn("/home/user/srv", nil, args...))
			c.Sleep(o.N)
		case "hurt":
			var l []*Player
			for _, p := range c.livePlayers() {
				if p.Version == c.Version {
					l = append(l, p)
				}
			}
			if o.S == "kill-starting" {
				l = nil
				for _, p := range c.Players {
					if !p.Dead() && p.State == "starting" {
						l = append(l, p)
					}
				}
			}
			for i, p := range l {
				switch o.S {
				case "kill-all", "kill-starting":
					c.W.Fault("player-killed")
					c.S.Kill(p.P)
				case "kill":
					if i == 0 {
						c.W.Fault("player-killed")
						c.S.Kill(p.P)
					}
				case "stall":
					if i == 0 {
						c.W.Fault("player-stalled")
						c.S.Stall(p.P)
					}
				case "rmstate":
					// the file is gone, the player goes on: it cannot be
					// found any more
					if i == 0 {
						c.W.Fault("state-file-removed")
						p.NoState = true
						c.W.FS.Delete(p.Path)
						snaps = append(snaps, c13snap{c.Now(), now()})
					}
				}
			}
		case "trouble":
			if t := c.Now() + o.N; t > troubleEnd {
				troubleEnd = t
			}
			k := o.S
			failing[k]++
			switch k {
			case "infohang":
				c.W.Fault("player-info-hangs")
				c.PB.InfoDelay = 3600 * sec
			case "infotext":
				c.PB.InfoText = []string{"Unable to access jarfile\n"}
			case "gone":
				c.W.Fault("player-missing")
				c.W.FS.SetMode(exePlay, 0644)
			case "dies":
				c.PB.PFailStart = 0.7
			case "version":
				c.W.Fault("player-of-another-version")
				c.W.FS.Put(exePlay, world.MakeProgram("alda-player 1.9.9", 100), 0755)
			}
			conc = append(conc, c.Task("trouble", func() {
				c.Sleep(o.N)
				failing[k]--
				if failing[k] > 0 {
					return
				}
				switch k {
				case "infohang":
					c.PB.InfoDelay = c.I("info")
				case "infotext":
					c.PB.InfoText = nil
				case "gone":
					c.W.FS.SetMode(exePlay, 0755)
				case "dies":
					c.PB.PFailStart = 0
				case "version":
					c.W.FS.Put(exePlay, world.MakeProgram("alda-player "+c.Version, 300), 0755)
				}
			}))
		case "sleep":
			c.Sleep(o.N)
		}
	}
	for _, j := range conc {
		if !j.Wait(1000 * sec) {
			c.Harness("command task hangs")
			return
		}
	}
	c.NonTrivial = nspawn > 0 || seen && disabled
	if disabled || c.I("idle") == 0 {
		return
	}
	// Everything works again. What is dead or hung is forgotten after two
	// minutes; then the next command, or the server, fills the pool.
	ready := func() int {
		n := 0
		for _, p := range c.livePlayers() {
			if p.Version == c.Version && p.State == "ready" && !p.NoState && c.W.FS.Exists(p.Path) {
				n++
			}
		}
		return n
	}
	// alda doctor may leave a player that never gets ready as it does not
	// initialise its audio. It counts as about to be ready until it gives up.
	lazy := func() (n int) {
		for _, p := range c.livePlayers() {
			if p.Lazy && p.State == "starting" && c.W.FS.Exists(p.Path) {
				n++
			}
		}
		return n
	}
	enough := func() bool { return ready()+lazy() >= 3 }
	up := false
	for _, s := range servers {
		up = up || !s.Dead
	}
	if up {
		if c.Until(130*sec+60*sec+4*c.I("info"), 100*ms, enough) {
			return
		}
	} else {
		c.Sleep(130 * sec)
		c.NonTrivial = true
		for i := 0; i < 2; i++ { // players give up after some minutes, perhaps right now
			d := c.RunAlda(100*sec, commandArgs([]string{"version", "parse", "bogus", "none", "instruments"}[c.P.Seed%5])...)
			if !c.Check(d.Ended, "hangs", "%s", d) {
				return
			}
			if c.Until(30*sec, 50*ms, enough) {
				return
			}
		}
	}
	c.Fail("not-filled", "the pool is not filled (%d ready): %s", ready(), c.describePool())
}

func doneJoins(l []*Join) int {
	n := 0
	for _, j := range l {
		if j.Done() {
			n++
		}
	}
	return n
}

func keys(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}
