package check

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C10: alda ps and the port file tell the truth about REPL servers.

func init() {
	tuning["C10"] = tune{600, 60000, "alda ps ran at least twice while servers came and went"}
	register(&Scenario{Prop: "C10", Name: "servers", Gen: genC10, Run: runC10})
}

func genC10(g *Gen) {
	g.Swarm()
	g.I("players", g.OneI(0, 0, 1))
	g.I("repeat", g.OneI(0, 0, 1))
	n := g.N(4, 10)
	if g.Thorough {
		n = g.N(4, 24)
	}
	for i := 0; i < n; i++ {
		o := Op{}
		switch k := g.N(0, 19); {
		case k < 7 || i == 0:
			o.K = "start"
			o.C = g.N(0, 1)                       // directory
			o.N = g.OneI(0, 4501, 4502, 4502, -1) // port; 0: unspecified; -1: one that is taken
			o.S = g.OneOf("server", "server", "interactive")
		case k < 11:
			o.K = "end"
			o.C = g.N(0, 2)
			o.S = g.OneOf("int", "term", "quit", "eof")
			if g.Bool(0.3) {
				o.T = "twice"
			}
		case k == 11:
			o.K, o.C = "kill", g.N(0, 2)
		case k < 14:
			o.K, o.C = "stall", g.N(0, 2)
			o.N = g.Dur(1*sec, 100*sec)
			if g.Bool(0.5) {
				o.N = g.Dur(100*sec, 900*sec)
			}
		case k == 14:
			o.K, o.S = "run", g.OneOf("stop", "ps", "version", "shutdown")
		case k == 15:
			o.K = "rmstate"
		case k == 16:
			o.K, o.C = "use", g.N(0, 2)
		default:
			o.K = "sleep"
			o.N = g.Dur(0, 30*sec)
			if g.Bool(0.3) {
				o.N = g.Dur(60*sec, 400*sec)
			}
		}
		g.Op(o)
	}
}

type c10srv struct {
	p       *rt.Proc
	dir     string
	port    int
	id      string
	inter   bool
	since   int64 // up, or resumed, since
	until   int64 // stalled until
	ended   int64 // exited normally
	killed  int64
	seen    bool
	stalled bool // has been, at some time
	reused  bool // a later server has its ID
}

func runC10(c *Ctx) {
	c.startPlayers(int(c.I("players")))
	if c.I("repeat") == 1 && !c.P.has("rmstate") {
		c.S.Cfg.PRepeat = 0.5
	}
	var all []*c10srv
	last := map[string]*c10srv{} // started last, per directory
	byProc := func(p *rt.Proc) *c10srv {
		for _, s := range all {
			if s.p == p {
				return s
			}
		}
		return nil
	}
	c.W.FS.After = func(op *world.FSOp) {
		if (op.Op == "create" || op.Op == "open" || op.Op == "write") && path.Dir(op.Path) == c.serversDir() {
			if s := byProc(op.P); s != nil && s.id == "" {
				s.id = strings.TrimSuffix(path.Base(op.Path), ".json")
			}
		}
		if op.Op == "remove" {
			// a server removes only its own files
			if s := byProc(op.P); s != nil && path.Dir(op.Path) == c.serversDir() && !strings.Contains(op.Path, "/"+s.id+".json") {
				for _, o := range all {
					if o != s && o.id != "" && strings.HasSuffix(op.Path, "/"+o.id+".json") && o.running() && o.until == 0 {
						c.Fail("foreign-state-file", "the server on port %d removed the state file of the server on port %d", s.port, o.port)
					}
				}
			}
		}
	}
	// A session that was suspended may give up when it wakes up.
	reap := func() {
		for _, s := range all {
			if s.running() && s.p.Dead {
				c.Check(s.stalled, "died", "the server on port %d exited by itself (code %d): %s", s.port, s.p.Code, clip(world.Data(s.p).Stderr.String(), 300))
				s.ended = c.Now()
			}
		}
	}
	alive := func() []*c10srv {
		reap()
		var out []*c10srv
		for _, s := range all {
			if s.running() {
				out = append(out, s)
			}
		}
		return out
	}
	pick := func(k int) *c10srv {
		if l := alive(); len(l) > 0 {
			return l[k%len(l)]
		}
		return nil
	}
	// the state directory was removed at this time
	wiped := int64(-1 << 60)
	nps := 0
	ps := func() bool {
		reap()
		t0 := c.Now()
		d := c.RunAlda(120*sec, "ps")
		t1 := c.Now()
		reap()
		if !c.Check(d.OK(), "ps-fails", "alda ps fails: %s", d) {
			return false
		}
		nps++
		type row struct {
			id   string
			port int
			pid  string
		}
		rows := map[string]row{}
		for i, l := range strings.Split(strings.TrimRight(d.Stdout, "\n"), "\n") {
			f := strings.Split(l, "\t")
			if i == 0 {
				continue
			}
			if !c.Check(len(f) == 6, "bad-output", "alda ps printed the line %q", l) {
				return false
			}
			if f[4] != "repl-server" {
				continue
			}
			_, dup := rows[f[0]]
			c.Check(!dup, "listed-twice", "alda ps lists the server %s twice", f[0])
			rows[f[0]] = row{f[0], atoi(f[1]), f[5]}
		}
		sort.SliceStable(all, func(i, j int) bool { return !all[i].reused && all[j].reused })
		for _, s := range all {
			if s.reused {
				delete(rows, s.id)
				continue
			}
			r, hit := rows[s.id]
			delete(rows, s.id)
			must, mustNot := false, false
			switch {
			case s.ended > 0:
				mustNot = s.ended < t0
			case s.killed > 0:
				// the last sign of life is at most 10 s older than the death
				mustNot = t0 > s.killed+125*sec
				must = false
			case s.until > 0: // stalled
				must = t1 < s.since+100*sec && s.seen
			default:
				// up (or up again) for long enough to have written its state
				must = t0 > s.since+12*sec && t0 > wiped+12*sec && !s.p.Dead
			}
			if must && !hit {
				c.Fail("not-listed", "alda ps at %.1f s does not list the server %s on port %d, which has been running since %.1f s: %q", float64(t0)/1e9, s.id, s.port, float64(s.since)/1e9, d.Stdout)
			}
			if mustNot && hit {
				c.Fail("listed-dead", "alda ps at %.1f s lists the server %s on port %d, which ended at %.1f s", float64(t0)/1e9, s.id, s.port, float64(s.ended+s.killed)/1e9)
			}
			if hit && s.ended == 0 {
				c.Check(r.port == s.port && r.pid == strconv.Itoa(s.p.PID), "wrong-row", "alda ps lists server %s with port %d pid %s instead of port %d pid %d", s.id, r.port, r.pid, s.port, s.p.PID)
			}
			c.checks++
		}
		for _, r := range rows {
			c.Fail("unknown-listed", "alda ps lists a server %s on port %d, which does not exist", r.id, r.port)
		}
		return len(c.Viol) == 0
	}
	ports := func(when string) {
		reap()
		for _, dir := range []string{workDir + "/d0", workDir + "/d1"} {
			s := last[dir]
			if s == nil {
				continue
			}
			data, ok := c.W.FS.Get(dir + "/.alda-nrepl-port")
			switch {
			case s.running():
				c.Check(ok && string(data) == strconv.Itoa(s.port), "port-file", "%s: the port file in %s contains %q (exists: %v); the server started there last uses port %d", when, dir, data, ok, s.port)
			case s.ended > 0:
				c.Check(!ok, "port-file-left", "%s: the port file in %s contains %q; the server started there last, on port %d, has exited", when, dir, data, s.port)
			}
		}
	}
	for _, o := range c.P.Ops {
		c.Did(fmt.Sprintf("%s%s%d", o.K, o.S, o.C))
		switch o.K {
		case "start":
			if len(alive()) >= 3 {
				continue
			}
			dir := workDir + "/d" + strconv.Itoa(o.C%2)
			c.W.FS.PutDir(dir)
			port := int(o.N)
			taken := false
			if port < 0 {
				if l := alive(); len(l) > 0 {
					port = l[0].port
				} else {
					port = 4501
				}
			}
			for _, s := range alive() {
				if s.port == port {
					taken = true
				}
			}
			s := &c10srv{dir: dir, port: port, inter: o.S == "interactive"}
			args := []string{"repl"}
			if !s.inter {
				args = append(args, "--server")
			}
			if port > 0 {
				args = append(args, "--port", strconv.Itoa(port))
			}
			s.p = c.AldaIn(dir, nil, args...)
			if taken {
				// it must not pretend to be the server on this port
				world.WaitExit(s.p, 60*sec)
				if !c.Check(s.p.Dead && s.p.Code != 0, "port-taken", "a server started on a port that is in use: ended=%v code=%d", s.p.Dead, s.p.Code) {
					return
				}
				c.W.Probe("port-taken")
				ports("after a failed start")
				continue
			}
			all = append(all, s)
			var l *rt.Proc
			c.Until(20*sec, 10*ms, func() bool {
				for q := 1; q < 65536 && port == 0; q++ {
					if x := c.W.Net.Listening(q); x == s.p {
						s.port = q
					}
				}
				if s.port > 0 {
					l = c.W.Net.Listening(s.port)
				}
				return l == s.p
			})
			if !c.Check(l == s.p, "no-server", "the server on port %d does not listen after 20 s: %q", port, world.Data(s.p).Stderr.String()) {
				return
			}
			s.since = c.Now()
			c.Sleep(500 * ms)
			last[dir] = s
			s.seen = true
			if s.id == "" {
				c.Fail("no-state-file", "the server on port %d has not written a state file", s.port)
				return
			}
			for _, x := range all {
				if x != s && x.id == s.id {
					c.W.Probe("id-reused")
					x.reused = true
					if x.running() && (!x.seen || x.until > 0) {
						s.reused = true // nothing shows that the ID is in use
					}
					if x.running() && x.seen && x.until == 0 {
						c.Fail("same-id", "two servers that are running have the ID %s", s.id)
						return
					}
				}
			}
		case "end":
			s := pick(o.C)
			if s == nil || s.until > 0 {
				continue
			}
			how := o.S
			if !s.inter && (how == "quit" || how == "eof") {
				how = "int"
			}
			u := world.Data(s.p).User
			if (how == "quit" || how == "eof") && u == nil {
				how = "int"
			}
			switch how {
			case "int":
				c.W.Signal(s.p, int(syscall.SIGINT))
			case "term":
				c.W.Signal(s.p, int(syscall.SIGTERM))
			case "quit":
				u.Enter([]string{"quit", ":quit", "exit", "bye"}[o.C%4])
			case "eof":
				u.EOF()
			}
			if o.T == "twice" {
				c.Sleep(1 * ms)
				c.W.Signal(s.p, int(syscall.SIGINT))
			}
			if !c.Check(world.WaitExit(s.p, 90*sec), "no-exit", "the server on port %d does not exit within 90 s after %s", s.port, how) {
				return
			}
			s.ended = c.Now()
			files := c.W.FS.List(c.serversDir())
			for _, f := range files {
				shared := false
				for _, x := range all {
					if x != s && x.id == s.id && x.ended == 0 {
						shared = true
					}
				}
				c.Check(f != s.id+".json" || shared, "state-file-left", "the server %s has exited (%s), but its state file is still there", s.id, how)
			}
			if c.W.Net.Listening(s.port) != nil {
				c.Harness("port still open")
			}
			ports("after the end of a server (" + how + ")")
		case "kill":
			s := pick(o.C)
			if s == nil || s.until > 0 {
				continue
			}
			c.W.Fault("server-killed")
			c.S.Kill(s.p)
			s.killed = c.Now()
		case "stall":
			s := pick(o.C)
			if s == nil || s.until > 0 {
				continue
			}
			c.W.Fault("server-stalled")
			c.S.Stall(s.p)
			s.stalled = true
			s.since, s.until = c.Now(), c.Now()+o.N
			c.Task("resume", func() {
				c.Sleep(o.N)
				c.S.Resume(s.p)
				s.since, s.until = c.Now(), 0
				c.Sleep(12 * sec)
				if s.since == c.Now()-12*sec && wiped < s.since {
					s.seen = true
				}
			})
		case "run":
			args := []string{o.S}
			d := c.RunAlda(300*sec, args...)
			c.Check(d.OK(), "command-fails", "%s", d)
		case "rmstate":
			c.W.Fault("state-directory-removed")
			for _, f := range c.W.FS.List(c.serversDir()) {
				c.W.FS.Delete(c.serversDir() + "/" + f)
			}
			c.W.FS.Delete(c.serversDir())
			wiped = c.Now()
			for _, s := range all {
				s.seen = false
			}
			c.Task("seen", func() {
				c.Sleep(12 * sec)
				if c.Now() >= wiped+12*sec {
					for _, s := range all {
						if s.until == 0 && s.since < wiped {
							s.seen = true
						}
					}
				}
			})
		case "use":
			s := pick(o.C)
			if s == nil || s.until > 0 {
				continue
			}
			if n := c.connect("user", s.port, 5*sec); n != nil {
				n.Do(30*sec, req("describe"))
				n.Close()
			}
		case "sleep":
			c.Sleep(o.N)
		}
		if len(c.Viol) > 0 || c.Err != "" {
			return
		}
		if o.K != "run" && !ps() {
			return
		}
		ports("later")
	}
	// in the end everything is as it should be
	d := 15 * sec
	for _, s := range all {
		if s.killed > 0 {
			d = 140 * sec
		}
	}
	c.Sleep(d)
	ps()
	ports("in the end")
	c.NonTrivial = nps >= 2 && len(all) > 0
}

func (s *c10srv) running() bool { return s.ended == 0 && s.killed == 0 }
