package check

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// Entry is one entry of the directory with the states of the players.
type Entry struct {
	Op   Op
	Kind string
	PL   *Player
	Path string
	Data []byte
}

// kinds of entries
//
//	ready, starting, active   healthy players
//	dead, deadstart           look ready/starting, but the process was killed
//	nolisten                  ready, but does not listen
//	full                      ready, accepts no connections any more (hung)
//	hung                      ready, accepts connections, but does nothing
//	garbage, empty, half, types, list, null, dir, unreadable, link, loop   no players
//	other                     a player of another version
//	stale                     a file nobody touched for a long time
//	ago                       a file nobody touched for op.N
var poolKinds = []string{"ready", "ready", "ready", "starting", "active", "dead", "dead", "deadstart", "nolisten", "full", "hung", "garbage", "empty", "half", "types", "list", "null", "dir", "unreadable", "link", "loop", "other", "stale"}

func (g *Gen) pool(lo, hi int, kinds ...string) {
	for i := g.N(lo, hi); i > 0; i-- {
		o := Op{K: "entry", S: kinds[g.N(0, len(kinds)-1)]}
		o.M = int64(g.N(0, 17575)) // name of a file without a player
		switch o.S {
		case "stale":
			o.N = g.OneI(121*sec, 130*sec, 600*sec, 86400*sec, 3*86400*sec, 400*86400*sec, 19000*86400*sec)
			o.T = g.OneOf("ready", "starting", "active", "garbage", "empty", "sub")
		case "ago":
			o.N = g.OneI(0, 30*sec, 90*sec, 110*sec)
			o.T = g.OneOf("ready", "starting", "active", "garbage", "empty", "sub")
		}
		g.Op(o)
	}
}

func stateJSON(expiry int64, port int, state string) []byte {
	return []byte(fmt.Sprintf(`{"expiry" : %d, "pid" : 4242, "port" : %d, "state" : "%s"}`, expiry/ms, port, state))
}

// pool makes the entries of the plan. It returns when they have the state
// they shall have.
func (c *Ctx) pool() []*Entry {
	fs := c.W.FS
	mkdir := func(p string) { fs.PutDir(p) }
	mkdir(c.playersDir())
	var out []*Entry
	decide := c.PB.Decide
	c.PB.Decide = func(pl *Player) {
		switch pl.P.Env["SIMKIND"] {
		case "nolisten":
			pl.NoListen = true
		case "starting", "deadstart":
			pl.ReadyIn = c.I("startingfor")
			if pl.ReadyIn == 0 || pl.P.Env["SIMKIND"] == "deadstart" {
				pl.ReadyIn = 3600 * sec
			}
		case "":
			if decide != nil {
				decide(pl)
			}
			return
		}
		// these are up quickly
	}
	smin, smax, rmin, rmax, pf, pn := c.PB.StartMin, c.PB.StartMax, c.PB.ReadyMin, c.PB.ReadyMax, c.PB.PFailStart, c.PB.PNoListen
	c.PB.StartMin, c.PB.StartMax, c.PB.ReadyMin, c.PB.ReadyMax, c.PB.PFailStart, c.PB.PNoListen = 10*ms, 50*ms, 10*ms, 50*ms, 0, 0
	used := map[string]bool{}
	for _, o := range c.P.Ops {
		if o.K != "entry" {
			continue
		}
		e := &Entry{Op: o, Kind: o.S}
		out = append(out, e)
		name := string([]byte{byte('0' + o.M%10), byte('a' + o.M/26%26), byte('a' + o.M/676%26)})
		for used[name] {
			name += "x"
		}
		used[name] = true
		if c.playerIDs == nil {
			c.playerIDs = map[string]bool{}
		}
		c.playerIDs[name] = true
		e.Path = path.Join(c.playersDir(), name+".json")
		switch o.S {
		case "garbage":
			e.Data = []byte("\x00\xffgarbage")
		case "empty":
			e.Data = []byte{}
		case "half":
			d := stateJSON(world.Wall()+300*sec, 30000, "ready")
			e.Data = d[:len(d)/2]
		case "types":
			e.Data = []byte(`{"expiry":"soon","pid":[],"port":"x","state":7}`)
		case "list":
			e.Data = []byte(`[1,2]`)
		case "null":
			e.Data = []byte(`null`)
		case "dir":
			mkdir(e.Path)
			continue
		case "unreadable":
			e.Data = stateJSON(world.Wall()+300*sec, 30000, "ready")
		case "link":
			fs.PutLink(e.Path, "/nowhere/at/all")
			continue
		case "loop":
			fs.PutLink(e.Path, e.Path)
			continue
		case "stale", "ago":
			switch o.T {
			case "garbage":
				e.Data = []byte("{")
			case "empty":
				e.Data = []byte{}
			case "sub":
				mkdir(path.Join(path.Dir(c.playersDir()), "1.0.0"))
				e.Path = path.Join(path.Dir(c.playersDir()), "1.0.0", name+".json")
				e.Data = stateJSON(world.Wall()+300*sec, 30000, "ready")
			default:
				e.Data = stateJSON(world.Wall()+300*sec, 30000+int(o.M)%100, o.T)
			}
		default:
			env := map[string]string{"SIMKIND": o.S}
			for k, v := range c.env {
				env[k] = v
			}
			delete(c.playerIDs, name)
			n := len(c.Players)
			exe := exePlay
			if o.S == "other" {
				fs.Put("/opt/old/alda-player", world.MakeProgram("alda-player 1.0.0", 100), 0755)
				exe = "/opt/old/alda-player"
			}
			p := c.W.StartProgram(world.Spec{Name: "player", Args: []string{"alda-player", "run"}, Env: env, Cwd: "/home/user", Exe: exe, Pipe: true}, c.playerMain)
			c.Until(5*sec, 5*ms, func() bool { return len(c.Players) > n })
			for _, pl := range c.Players {
				if pl.P == p {
					e.PL = pl
				}
			}
			if e.PL == nil {
				c.Harness("the player of an entry does not start")
				return out
			}
			e.Path = e.PL.Path
			c.Until(5*sec, 5*ms, func() bool {
				return !e.PL.writing && fs.Exists(e.Path) && (e.PL.Ready || (o.S == "starting" || o.S == "deadstart") && (e.PL.Listening || e.PL.NoListen) && e.PL.ReadyIn > 0)
			})
			continue
		}
		fs.Put(e.Path, e.Data, 0644)
	}
	c.PB.StartMin, c.PB.StartMax, c.PB.ReadyMin, c.PB.ReadyMax, c.PB.PFailStart, c.PB.PNoListen = smin, smax, rmin, rmax, pf, pn
	unreadable := map[string]bool{}
	for _, e := range out {
		switch e.Kind {
		case "active":
			e.PL.setState("active")
		case "dead", "deadstart":
			c.W.Fault("player-killed")
			c.S.Kill(e.PL.P)
		case "hung", "full":
			if e.Kind == "full" {
				e.PL.L.MaxBacklog = -1
			}
			c.W.Fault("player-hung")
			c.S.Stall(e.PL.P)
		case "unreadable":
			c.W.Fault("state-file-unreadable")
			unreadable[e.Path] = true
		case "stale", "ago":
			fs.SetMtime(e.Path, world.Wall()-e.Op.N)
		}
		if e.PL == nil {
			c.W.Fault("entry-" + e.Kind)
		}
	}
	if len(unreadable) > 0 {
		hook := fs.Hook
		fs.Hook = func(op *world.FSOp) world.FSAction {
			if op.Op == "open" && unreadable[op.Path] {
				return world.FSAction{Err: syscall.EACCES}
			}
			if hook != nil {
				return hook(op)
			}
			return world.FSAction{}
		}
	}
	return out
}

// countable counts the entries that look like players that are or will be
// available; those of players for which skip is true are not counted.
func (c *Ctx) countable(skip func(id string) bool) int {
	n := 0
	for _, f := range c.W.FS.List(c.playersDir()) {
		id := strings.TrimSuffix(f, ".json")
		if skip != nil && skip(id) {
			continue
		}
		b, _ := c.W.FS.Get(c.playersDir() + "/" + f)
		var st struct {
			State string `json:"state"`
			Port  int    `json:"port"`
			Exp   int64  `json:"expiry"`
			PID   int    `json:"pid"`
		}
		if json.Unmarshal(b, &st) == nil && (st.State == "ready" || st.State == "starting") {
			n++
		}
	}
	return n
}

// isClient tells whether a process is the alda client.
func isClient(p *rt.Proc) bool { return len(p.Args) > 0 && p.Args[0] == "alda" }

// lookers finds the player with an ID.
func (c *Ctx) playerByID(id string) *Player {
	for _, p := range c.Players {
		if p.ID == id {
			return p
		}
	}
	return nil
}
