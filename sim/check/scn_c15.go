package check

import (
	"fmt"
	"path"
	"strconv"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C15: stop, shutdown and resume reach every player they should.

func init() {
	tuning["C15"] = tune{8000, 200000, "a command had at least one player to reach"}
	register(&Scenario{Prop: "C15", Name: "tell", Gen: genC15, Run: runC15})
}

func genC15(g *Gen) {
	g.Swarm()
	g.I("startingfor", g.OneI(2*sec, 20*sec))
	g.I("gap", g.OneI(0, 0, 5*ms, 40*ms))
	g.I("spawn", g.OneI(0, 0, 1))
	g.pool(1, 7, "ready", "ready", "active", "active", "active", "starting", "dead", "deadstart", "nolisten", "full", "hung", "garbage", "empty", "null", "types", "dir", "unreadable", "other", "ago")
	n := g.N(1, 4)
	if g.Thorough {
		n = g.N(1, 8)
	}
	for i := 0; i < n; i++ {
		o := Op{K: "tell", S: g.OneOf("stop", "shutdown", "resume", "resume"), M: int64(g.N(0, 9))}
		switch g.N(0, 9) {
		case 0:
			o.T = "id"
		case 1:
			o.T = "port"
		case 2:
			o.T = "unknown"
		}
		if g.Bool(0.3) {
			g.Op(Op{K: "trouble", S: g.OneOf("kill", "kill", "refuse", "reset", "stall", "full", "rmstate", "unlisten"), M: int64(g.N(0, 9)), N: g.OneI(0, 1, 1, 2, 3)})
		}
		if g.Bool(0.12) {
			g.Op(Op{K: "disk", S: g.OneOf("eio", "eacces", "emfile"), T: g.OneOf("readdir", "readdir", "open", "open", "read", "stat"), N: g.OneI(1, 1, 2, 3, 5)})
		}
		g.Op(o)
	}
}

func runC15(c *Ctx) {
	c.PB.StateGap = c.I("gap")
	if c.I("spawn") == 0 {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	unreadable := map[string]bool{}
	var hung []*Player
	for _, e := range c.pool() {
		if e.Kind == "unreadable" {
			unreadable[e.Path] = true
		}
		if e.Kind == "hung" {
			hung = append(hung, e.PL)
		}
	}
	if c.Err != "" {
		return
	}
	wrote := map[string][]int64{}
	c.W.FS.After = func(op *world.FSOp) {
		if path.Dir(op.Path) == c.playersDir() && (op.Op == "write" || op.Op == "truncate" || op.Op == "create") {
			wrote[op.Path] = append(wrote[op.Path], c.Now())
		}
	}
	// a file that is being rewritten when the command looks may be missed
	rewritten := func(p string, from, to int64) bool {
		for _, t := range wrote[p] {
			if t >= from && t <= to {
				return true
			}
		}
		return false
	}
	// trouble comes when the command has dialled the Nth player
	var trouble []Op
	tainted := map[*Player]bool{}
	dials := 0
	var first int64
	var cmdProc *rt.Proc
	refuse, reset := -1, -1
	hurt := func(o Op, port int) {
		var pl *Player
		if o.K == "" {
			return
		}
		l := c.livePlayers()
		if len(l) == 0 {
			return
		}
		pl = l[int(o.M)%len(l)]
		switch o.S {
		case "kill":
			tainted[pl] = true
			c.W.Fault("player-killed")
			c.S.Kill(pl.P)
		case "stall":
			tainted[pl] = true
			c.W.Fault("player-stalled")
			c.S.Stall(pl.P)
			hung = append(hung, pl)
		case "full":
			tainted[pl] = true
			c.W.Fault("player-hung")
			if pl.L != nil {
				pl.L.MaxBacklog = -1
			}
			c.S.Stall(pl.P)
		case "rmstate":
			tainted[pl] = true
			c.W.Fault("state-file-removed")
			pl.NoState = true
			c.W.FS.Delete(pl.Path)
		case "unlisten":
			if pl.L != nil {
				tainted[pl] = true
				c.W.Fault("player-stops-listening")
				pl.L.Close()
			}
		case "refuse":
			tainted[c.playerByPort(port)] = true
			refuse = port
		case "reset":
			tainted[c.playerByPort(port)] = true
			reset = port
		}
	}
	c.W.Net.DialHook = func(p *rt.Proc, port int) error {
		if p != cmdProc {
			return nil
		}
		dials++
		if dials == 1 {
			first = c.Now()
		}
		for i := range trouble {
			if trouble[i].K != "" && int(trouble[i].N) == dials {
				hurt(trouble[i], port)
				trouble[i].K = ""
			}
		}
		if refuse == port {
			c.W.Fault("connection-refused")
			return syscall.ECONNREFUSED
		}
		return nil
	}
	c.W.Net.WriteHook = func(cn *world.Conn, b []byte) error {
		if reset >= 0 && cn.Side == "c" && cn.Port == reset && rt.CurProc() == cmdProc {
			c.W.Fault("connection-reset")
			cn.Reset()
			return syscall.ECONNRESET
		}
		return nil
	}
	addr := map[string]string{"stop": "/system/stop", "shutdown": "/system/shutdown", "resume": "/system/play"}
	count := func(pl *Player, a string) int {
		n := 0
		for _, m := range pl.Msgs {
			if m.Addr == a {
				n++
			}
		}
		return n
	}
	// trouble with the disk: either the list of players cannot be had, or one
	// of them is unreadable
	var disk Op
	unlisted := false
	c.W.FS.Hook = func(op *world.FSOp) (act world.FSAction) {
		if disk.K == "" || op.P != cmdProc || op.Op != disk.T || !strings.HasPrefix(op.Path, c.playersDir()) {
			return
		}
		disk.N--
		if disk.N > 0 {
			return
		}
		disk.K = ""
		c.W.Fault("disk-" + disk.S)
		if op.Path == c.playersDir() {
			unlisted = true
		}
		for _, pl := range c.Players {
			if pl.Path == op.Path {
				tainted[pl] = true
			}
		}
		act.Err = map[string]error{"eio": syscall.EIO, "eacces": syscall.EACCES, "emfile": syscall.EMFILE}[disk.S]
		return
	}
	for _, o := range c.P.Ops {
		switch o.K {
		case "disk":
			disk = o
		case "trouble":
			if o.N == 0 {
				hurt(o, -1)
			} else {
				trouble = append(trouble, o)
			}
		case "tell":
			c.Sleep(200*ms + c.I("gap"))
			args := []string{o.S}
			if o.S == "resume" {
				args = []string{"play"}
			}
			var only *Player
			everyone := true
			if o.T != "" {
				everyone = false
				var l []*Player
				for _, pl := range c.Players {
					if pl.Version == c.Version && pl.Alive() && !pl.NoState && c.W.FS.Exists(pl.Path) && !unreadable[pl.Path] {
						l = append(l, pl)
					}
				}
				if len(l) > 0 && o.T != "unknown" {
					only = l[int(o.M)%len(l)]
				}
				switch {
				case only == nil:
					id := "zzzz"
					if len(l) > 0 && o.M%5 > 0 {
						// similar to one that is there
						like := l[int(o.M)%len(l)].ID
						like = []string{"", like[:len(like)-1], like + "x", strings.ToUpper(like), like[1:]}[o.M%5]
						if !c.W.FS.Exists(c.playersDir() + "/" + like + ".json") {
							id = like
						}
					}
					args = append(args, "--player-id", id)
				case o.T == "id":
					args = append(args, "--player-id", only.ID)
				case o.T == "port":
					args = append(args, "--port", strconv.Itoa(only.Port))
				}
			}
			type pre struct {
				pl               *Player
				n, other         int
				must, may, avail bool
			}
			var pres []pre
			unreach := false
			for _, pl := range c.Players {
				ex := c.W.FS.Exists(pl.Path) && !pl.NoState && pl.Version == c.Version && !unreadable[pl.Path]
				age := world.Wall() - c.W.FS.Mtime(pl.Path)
				b, _ := c.W.FS.Get(pl.Path)
				s := pre{pl: pl, n: count(pl, addr[o.S]), other: len(pl.packets()), avail: pl.Alive() && !tainted[pl] && count(pl, "/system/shutdown") == 0}
				listed := ex && age < 110*sec && len(b) > 0
				active := strings.Contains(string(b), `"state" : "active"`)
				if o.S == "resume" && everyone {
					listed = listed && active
				}
				s.must = listed && s.avail && everyone || pl == only && s.avail && (listed || o.T == "port")
				s.may = ((ex || tainted[pl]) && everyone || pl == only) && !pl.P.Dead
				if listed && everyone && !pl.Alive() {
					unreach = true
				}
				pres = append(pres, s)
			}
			t0 := c.Now()
			dials, first = 0, 0
			unlisted = false
			p := c.Alda(args...)
			cmdProc = p
			d := c.wait(p, 15*sec*int64(len(pres)+4)+60*sec)
			if !c.Check(d.Ended, "hangs", "%s", d) {
				return
			}
			if first == 0 {
				first = c.Now()
			}
			refuse, reset = -1, -1
			trouble, disk = nil, Op{}
			if unlisted && d.Code != 0 {
				c.Check(d.Stderr != "", "no-error", "%s", d)
				for i := range pres {
					pres[i].must = false
				}
			}
			for _, pl := range hung { // they may have been told, too
				if !pl.P.Dead && pl.P.Stalled && (pl.L == nil || pl.L.MaxBacklog >= 0) {
					c.S.Resume(pl.P)
				}
			}
			c.Sleep(300*ms + c.I("gap"))
			must := 0
			for _, s := range pres {
				n := count(s.pl, addr[o.S]) - s.n
				all := len(s.pl.packets()) - s.other
				uncertain := rewritten(s.pl.Path, t0, first) || tainted[s.pl] || s.pl.Dead() && o.S != "shutdown"
				if s.must && !uncertain {
					must++
					if !c.Check(n == 1, "not-told", "%s: %s (%s, port %d) got the message %d times; players: %s", d, s.pl, s.pl.State, s.pl.Port, n, c.describePool()) {
						return
					}
				}
				if !c.Check(n <= 1, "told-twice", "%s: %s got the message %d times", d, s.pl, n) {
					return
				}
				if !c.Check(s.may || n == 0, "wrong-player-told", "%s: %s got the message", d, s.pl) {
					return
				}
				if !c.Check(all == n, "other-message", "%s: %s got something else", d, s.pl) {
					return
				}
				if o.S == "resume" && everyone && !s.must && s.avail && !uncertain && s.pl.ActiveAt < 0 {
					c.Check(n == 0, "wrong-player-told", "%s: %s got the message although it is %s", d, s.pl, s.pl.State)
				}
				if o.S == "shutdown" && n == 1 && !tainted[s.pl] && s.avail && s.pl.Ready {
					c.Check(c.Until(1*sec, 10*ms, func() bool { return s.pl.Dead() }), "not-shut-down", "%s: %s still runs", d, s.pl)
				}
			}
			if o.T != "" && only == nil {
				c.Check(d.Code != 0 && d.Stderr != "", "no-error", "%s although there is no such player", d)
			} else if unlisted && d.Code != 0 {
				// it could not know whom to tell
			} else if o.S != "resume" && (everyone || must > 0) {
				c.Check(d.Code == 0, "fails", "%s", d)
			} else if len(tainted) == 0 && everyone {
				quiet := true
				for _, s := range pres {
					quiet = quiet && !rewritten(s.pl.Path, t0, first)
				}
				if quiet && len(hung) == 0 && len(unreadable) == 0 && !c.P.hasEntry("ago") {
					c.Check((d.Code != 0) == unreach, "exit-code", "%s; unreachable active players: %v; players: %s", d, unreach, c.describePool())
				}
			} else if only != nil && !tainted[only] && must > 0 {
				c.Check(d.Code == 0, "fails", "%s", d)
			}
			c.Did(fmt.Sprintf("%s %s must%d", o.S, o.T, must))
			if must > 0 {
				c.NonTrivial = true
			}
		}
	}
}

// hasEntry tells whether the plan has an entry of the given kind.
func (p *Plan) hasEntry(kind string) bool {
	for _, o := range p.Ops {
		if o.K == "entry" && o.S == kind {
			return true
		}
	}
	return false
}
