package check

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C14: stale state is cleaned up, live state never.

func init() {
	tuning["C14"] = tune{4000, 200000, "there were stale or damaged entries next to recent ones when a command read the state"}
	register(&Scenario{Prop: "C14", Name: "state", Gen: genC14, Run: runC14})
}

func genC14(g *Gen) {
	g.Swarm()
	g.I("startingfor", g.OneI(100*ms, 8*sec))
	g.I("gap", g.OneI(0, 0, 5*ms, 40*ms))
	g.I("spawn", g.OneI(0, 1))
	g.pool(0, 4, "ready", "ready", "starting", "active", "dead", "garbage", "empty", "half", "types", "list", "dir", "unreadable", "link", "loop", "other")
	g.pool(0, 4, "stale", "stale", "ago")
	for i := g.N(0, 3); i > 0; i-- {
		o := Op{K: "srv", S: g.OneOf("valid", "valid", "valid", "garbage", "empty", "half", "types", "list", "dir", "unreadable"), M: int64(g.N(0, 17575))}
		o.N = g.OneI(0, 0, 60*sec, 110*sec, 121*sec, 300*sec, 86400*sec, 8*86400*sec, 1000*86400*sec)
		if g.Bool(0.2) {
			o.T = g.OneOf("bare", "sub", "hidden", "tmp", "other")
		}
		g.Op(o)
	}
	if g.Bool(0.3) {
		g.Op(Op{K: "server"})
	}
	n := g.N(1, 6)
	if g.Thorough {
		n = g.N(1, 14)
	}
	for i := 0; i < n; i++ {
		o := Op{}
		switch k := g.N(0, 19); {
		case k < 8 || i == 0:
			o.K, o.S, o.C = "cmd", "ps", g.N(0, 1)
		case k < 12:
			o.K, o.S, o.C = "cmd", g.OneOf("stop", "shutdown", "version", "parse", "resume", "bogus"), g.N(0, 1)
		case k < 14:
			o.K, o.S, o.N = "hurt", g.OneOf("kill", "stall", "stall"), g.Dur(1*sec, 200*sec)
		case k < 16:
			o.K, o.S, o.N = "vanish", g.OneOf("open", "stat", "remove", "rmdir", "readdir", "readdir"), int64(g.N(0, 5))
		case k < 17:
			o.K, o.N = "noremove", int64(g.N(0, 3))
		case k < 18:
			o.K = "forward" // the file system's clock is ahead
			o.N = g.Dur(1*sec, 3600*sec)
		default:
			o.K, o.N = "sleep", g.Dur(0, 20*sec)
			if g.Bool(0.6) {
				o.N = g.Dur(60*sec, 200*sec)
			}
		}
		g.Op(o)
	}
}

type stateFile struct {
	path string
	data string
	age  int64
	set  int64 // mtime
}

func runC14(c *Ctx) {
	c.PB.StateGap = c.I("gap")
	if c.I("spawn") == 0 {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	fs := c.W.FS
	fs.PutDir(c.serversDir())
	unreadable := map[string]bool{}
	for _, e := range c.pool() {
		if e.Kind == "unreadable" {
			unreadable[e.Path] = true
		}
	}
	if c.Err != "" {
		return
	}
	used := map[string]bool{}
	for _, o := range c.P.Ops {
		if o.K != "srv" {
			continue
		}
		id := string([]byte{byte('a' + o.M%26), byte('a' + o.M/26%26), byte('a' + o.M/676%26)})
		for used[id] {
			id += "y"
		}
		used[id] = true
		p := c.serversDir() + "/" + id + ".json"
		switch o.T { // not the name of a server's file
		case "bare":
			p = c.serversDir() + "/" + id
		case "hidden":
			p = c.serversDir() + "/." + id + ".json"
		case "sub":
			fs.PutDir(c.serversDir() + "/0.1.0")
			p = c.serversDir() + "/0.1.0/" + id + ".json"
		case "tmp":
			fs.PutDir(c.serversDir() + "/tmp")
			p = c.serversDir() + "/tmp/" + id + ".json.7.tmp"
		case "other":
			fs.PutDir(path.Dir(c.serversDir()) + "/players/2.0.0")
			p = path.Dir(c.serversDir()) + "/players/2.0.0/" + id
		}
		good := fmt.Sprintf(`{"port":%d,"id":"%s","pid":%d}`, 20000+o.M%1000, id, 900+o.M%97)
		c.W.Fault("server-entry-" + o.S)
		switch o.S {
		case "valid":
			fs.Put(p, []byte(good), 0644)
		case "garbage":
			fs.Put(p, []byte("\x00}{"), 0644)
		case "empty":
			fs.Put(p, []byte{}, 0644)
		case "half":
			fs.Put(p, []byte(good[:len(good)/2]), 0644)
		case "types":
			fs.Put(p, []byte(`{"port":"x","id":[],"pid":{}}`), 0644)
		case "list":
			fs.Put(p, []byte(`[1]`), 0644)
		case "dir":
			fs.PutDir(p)
			continue
		case "unreadable":
			fs.Put(p, []byte(good), 0644)
			unreadable[p] = true
		}
		fs.SetMtime(p, world.Wall()-o.N)
	}
	if c.P.has("server") {
		fs.PutDir("/home/user/srv")
		c.AldaIn("/home/user/srv", nil, "repl", "--server", "--port", "4499")
		c.Sleep(500 * ms)
	}

	// Who touched what when: a file may be touched between the command's look
	// at it and its removal.
	type touch struct{ at, age int64 }
	touched := map[string][]touch{}
	state := path.Join(c.cacheDir(), "state")
	const limit = 120 * sec
	started := map[*rt.Proc]int64{}
	norem := map[string]bool{}
	var vanish []Op
	hook := fs.Hook
	fs.Hook = func(op *world.FSOp) world.FSAction {
		if strings.HasPrefix(op.Path, state+"/") {
			client := isClient(op.P)
			own := client && len(op.P.Args) > 1 && op.P.Args[1] == "repl"
			file := fs.Kind(op.Path) == "file"
			age := int64(0)
			if file {
				age = world.Wall() - fs.Mtime(op.Path)
			}
			switch op.Op {
			case "remove", "rename":
				if client && file && !(own && (path.Dir(op.Path) == c.playersDir() || age < limit && strings.HasPrefix(op.Path, c.serversDir()))) {
					old := age > limit
					for _, t := range touched[op.Path] {
						old = old || t.at >= started[op.P] && t.age > limit
					}
					b, _ := fs.Get(op.Path)
					if !c.Check(op.Op == "remove" && old, "recent-removed", "`%s` %ss %s, which was touched %.3f s ago: %q", strings.Join(op.P.Args, " "), op.Op, op.Path, float64(age)/1e9, clip(string(b), 100)) {
						return world.FSAction{}
					}
				}
				if client && norem[op.Path] {
					c.W.Fault("remove-fails")
					return world.FSAction{Err: syscall.EACCES}
				}
			case "create", "truncate", "write", "chmod", "chtimes":
				if client && !own {
					c.Fail("altered", "`%s` does %s on %s", strings.Join(op.P.Args, " "), op.Op, op.Path)
					return world.FSAction{}
				}
				if file {
					touched[op.Path] = append(touched[op.Path], touch{c.Now(), age})
				}
			}
			if client && !own && len(vanish) > 0 && file {
				o := &vanish[0]
				match := o.S == op.Op
				if match {
					if o.N--; o.N < 0 {
						vanish = vanish[1:]
						c.W.Fault("file-vanishes")
						fs.Delete(op.Path)
					}
				}
			}
			if client && op.Op == "readdir" && len(vanish) > 0 && vanish[0].S == "readdir" && fs.Kind(op.Path) == "dir" && len(fs.List(op.Path)) == 0 {
				// players remove state directories that are empty
				if o := &vanish[0]; o.N > 0 {
					o.N--
				} else {
					vanish = vanish[1:]
					c.W.Fault("directory-vanishes")
					fs.Delete(op.Path)
				}
			}
			if op.Op == "open" && unreadable[op.Path] {
				c.W.Fault("state-file-unreadable")
				return world.FSAction{Err: syscall.EIO}
			}
		}
		if hook != nil {
			return hook(op)
		}
		return world.FSAction{}
	}
	files := func() map[string]stateFile {
		out := map[string]stateFile{}
		var walk func(d string)
		walk = func(d string) {
			for _, n := range fs.List(d) {
				p := d + "/" + n
				if k := fs.Kind(p); k != "file" {
					if k == "dir" {
						walk(p)
					}
					continue
				}
				b, _ := fs.Get(p)
				out[p] = stateFile{p, string(b), world.Wall() - fs.Mtime(p), fs.Mtime(p)}
			}
		}
		walk(state)
		return out
	}
	playerByState := func(p string) *Player {
		for _, pl := range c.Players {
			if pl.Path == p {
				return pl
			}
		}
		return nil
	}
	changing := func(p string) bool {
		pl := playerByState(p)
		return pl != nil && !pl.P.Dead && !pl.P.Stalled
	}
	check := func(s string, before map[string]stateFile, d *Done, noremBefore map[string]bool, lossy bool) {
		if !c.Check(d.Ended, "hangs", "%s", d) {
			return
		}
		switch s {
		case "bogus":
		case "resume": // fails if a player cannot be reached
			c.Check(d.Code == 0 || d.Code == 1, "crash", "%s", d)
		default:
			if !c.Check(d.Code == 0, "fails", "%s", d) {
				return
			}
		}
		if !c.Check(!strings.Contains(d.Stderr, "goroutine ") && !strings.Contains(d.Stderr, "panic"), "crash", "%s", d) {
			return
		}
		after := files()
		reads := s == "ps" || s == "stop" || s == "shutdown" || s == "resume" || c.I("spawn") == 1
		for _, p := range sortedFiles(before) {
			f := before[p]
			g, ok := after[p]
			if reads && f.age > limit && ok && g.set == f.set && !noremBefore[p] {
				c.Fail("stale-kept", "%s left %s, which nobody touched for %.1f s", d, p, float64(g.age)/1e9)
				return
			}
		}
		if s != "ps" {
			return
		}
		lines := strings.Split(strings.TrimSuffix(d.Stdout, "\n"), "\n")
		listed := map[string][]string{}
		for i, l := range lines {
			f := strings.Split(l, "\t")
			if i == 0 || len(f) < 6 {
				if !c.Check(i == 0, "ps-output", "%s: odd line %q", d, l) {
					return
				}
				continue
			}
			k := f[4] + " " + f[0]
			if !c.Check(listed[k] == nil, "listed-twice", "%s lists %s twice", d, k) {
				return
			}
			listed[k] = f
		}
		for _, p := range sortedFiles(before) {
			f := before[p]
			g, ok := after[p]
			dir := path.Dir(p)
			if dir != c.playersDir() && dir != c.serversDir() || unreadable[p] || changing(p) {
				continue
			}
			id := strings.TrimSuffix(path.Base(p), ".json")
			if dir == c.playersDir() {
				l := listed["player "+id]
				if f.age > limit+sec {
					c.Check(l == nil || noremBefore[p] || ok && g.set != f.set, "stale-listed", "%s lists %s, which nobody touched for %.1f s", d, p, float64(f.age)/1e9)
					continue
				}
				if !ok || g.data != f.data || g.set != f.set || g.age > limit-sec {
					continue
				}
				var st struct {
					State             string
					Port, PID, Expiry int64
				}
				if json.Unmarshal([]byte(f.data), &st) != nil || st.Port == 0 {
					continue
				}
				if !c.Check(l != nil, "not-listed", "%s does not list the player of %s: %s", d, p, f.data) {
					return
				}
				c.Check(l[1] == fmt.Sprint(st.Port) && l[2] == st.State && l[5] == fmt.Sprint(st.PID), "listed-wrong", "%s lists %q for %s: %s", d, strings.Join(l, " "), p, f.data)
			} else {
				l := listed["repl-server "+id]
				if f.age > limit+sec {
					c.Check(l == nil || noremBefore[p] || ok && g.set != f.set, "stale-listed", "%s lists %s, which nobody touched for %.1f s", d, p, float64(f.age)/1e9)
					continue
				}
				if !ok || g.data != f.data || g.age > limit-sec {
					continue
				}
				var st struct {
					ID        string
					Port, PID int64
				}
				if json.Unmarshal([]byte(f.data), &st) != nil || st.Port == 0 {
					continue
				}
				if !c.Check(l != nil, "not-listed", "%s does not list the server of %s: %s", d, p, f.data) {
					return
				}
				c.Check(l[1] == fmt.Sprint(st.Port) && l[5] == fmt.Sprint(st.PID), "listed-wrong", "%s lists %q for %s: %s", d, strings.Join(l, " "), p, f.data)
			}
		}
		// live players in a lasting state are listed
		for _, pl := range c.Players {
			f, ok := before[pl.Path]
			if pl.Version != c.Version || !pl.Alive() || !ok || f.age > 60*sec || c.PB.StateGap > 0 || lossy {
				continue
			}
			if g, ok := after[pl.Path]; !ok || g.data == "" || f.data == "" {
				continue
			}
			l := listed["player "+pl.ID]
			rewritten := unreadable[pl.Path]
			for _, t := range touched[pl.Path] {
				rewritten = rewritten || t.at >= started[d.P]
			}
			if rewritten {
				continue
			}
			if l == nil && (pl.State == "active" || pl.Listening && c.Now()-pl.started > 15*sec) {
				c.Fail("not-listed", "%s does not list %s (%s)", d, pl, pl.State)
				return
			}
		}
	}
	var conc []*Join
	for _, o := range c.P.Ops {
		o := o
		switch o.K {
		case "cmd":
			before := files()
			stale, other := 0, 0
			for _, f := range before {
				if f.age > limit {
					stale++
				} else {
					other++
				}
			}
			if stale > 0 && other > 0 {
				c.NonTrivial = true
			}
			lossy := len(vanish) > 0
			c.Did(fmt.Sprintf("%s stale%v other%v", o.S, stale > 0, other > 0))
			p := c.Alda(commandArgs(o.S)...)
			started[p] = c.Now()
			run := func() { check(o.S, before, c.wait(p, 60*sec), norem, lossy) }
			if o.C == 1 && len(conc)-doneJoins(conc) < 3 {
				conc = append(conc, c.Task("command", run))
			} else {
				run()
			}
		case "hurt":
			l := c.livePlayers()
			if len(l) == 0 {
				continue
			}
			pl := l[0]
			if o.S == "kill" {
				c.W.Fault("player-killed")
				c.S.Kill(pl.P)
			} else {
				c.W.Fault("player-stalled")
				c.S.Stall(pl.P)
				c.Task("resume", func() { c.Sleep(o.N); c.S.Resume(pl.P) })
			}
		case "vanish":
			if o.S == "rmdir" {
				if len(fs.List(c.playersDir())) == 0 {
					c.W.Fault("directory-removed")
					fs.Delete(c.playersDir())
				}
				continue
			}
			vanish = append(vanish, o)
		case "noremove":
			k := int(o.N)
			for _, p := range sortedFiles(files()) {
				if k == 0 {
					norem[p] = true
				}
				k--
			}
		case "forward":
			for _, p := range sortedFiles(files()) {
				if playerByState(p) == nil {
					touched[p] = append(touched[p], touch{c.Now(), world.Wall() - fs.Mtime(p)})
					fs.SetMtime(p, world.Wall()+o.N)
					c.W.Fault("mtime-in-the-future")
					break
				}
			}
		case "sleep":
			c.Sleep(o.N)
		}
		if len(c.Viol) > 0 {
			return
		}
	}
	for _, j := range conc {
		if !j.Wait(300 * sec) {
			c.Harness("command task hangs")
			return
		}
	}
}

func sortedFiles(m map[string]stateFile) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
