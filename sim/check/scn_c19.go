package check

import (
	"encoding/json"
	"errors"
	"path"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C19: telemetry opt-out is never overridden.

func init() {
	tuning["C19"] = tune{12000, 400000, "commands ran after telemetry was turned off, on a damaged status file, or on a first run"}
	register(&Scenario{Prop: "C19", Name: "telemetry", Gen: genC19, Run: runC19})
}

var c19cmds = []string{"version", "version", "ps", "instruments", "parse", "telemetry", "telemetry", "help", "none", "bogus", "badflag", "stop", "shutdown", "format", "import", "play", "subhelp", "both", "message", "args"}

func genC19(g *Gen) {
	g.Swarm()
	g.I("init", g.OneI(0, 0, 0, 1, 1, 2, 2, 3, 4)) // none, enabled, disabled, garbage, no directory
	g.I("xdg", g.OneI(0, 0, 1))
	g.I("spawn", g.OneI(0, 0, 0, 1))
	n := g.N(2, 9)
	if g.Thorough {
		n = g.N(2, 20)
	}
	for i := 0; i < n; i++ {
		if g.Bool(0.2) {
			g.Op(Op{K: "http", S: g.OneOf("ok", "ok", "err", "500", "hang", "stall", "slow", "cut", "redirect")})
		}
		if g.Bool(0.08) {
			g.Op(Op{K: "damage", S: g.OneOf("", "enab", "ENABLED", "enabled\n", "\x00\x00", "garbage", "unreadable", "dir", "dangling", "disabledenabled")})
		}
		if g.Bool(0.05) {
			g.Op(Op{K: "rm"})
		}
		if g.Bool(0.25) {
			g.Op(Op{K: "disk", S: g.OneOf("eio", "enospc", "eacces"), T: g.OneOf("any", "read", "open", "create", "write", "stat", "mkdir", "rename", "sync", "close"), N: g.OneI(1, 1, 2, 3), M: g.OneI(0, 3)})
		}
		if g.Bool(0.2) {
			g.Op(Op{K: "kill", S: g.OneOf("first", "mid", "after"), T: g.OneOf("any", "create", "write", "rename", "open", "close", "mkdir"), N: g.OneI(1, 1, 2, 3, 5), M: g.OneI(0, 2, 5)})
		}
		if g.Bool(0.15) {
			g.Op(Op{K: "slowdisk", N: g.OneI(1*ms, 3*ms, 30*ms)})
		}
		if g.Bool(0.06) {
			g.Op(Op{K: "stderr", N: g.OneI(int64(syscall.EPIPE), int64(syscall.ENOSPC), int64(syscall.EIO))})
		}
		o := Op{K: "run", S: c19cmds[g.N(0, len(c19cmds)-1)]}
		switch g.N(0, 9) {
		case 0, 1, 2:
			o.S = "disable"
		case 3:
			o.S = "enable"
		}
		if g.Bool(0.6) {
			o.At = -1 // when the others have ended
		} else {
			o.At = g.Dur(0, g.OneI(0, 50*ms, 4*sec))
		}
		if g.Bool(0.08) {
			o.T = g.OneOf("yes", "yes", "no")
		}
		g.Op(o)
	}
}

func c19args(s string) []string {
	switch s {
	case "disable":
		return []string{"telemetry", "--disable"}
	case "enable":
		return []string{"telemetry", "--enable"}
	case "both":
		return []string{"telemetry", "--enable", "--disable"}
	case "args":
		return []string{"parse", "-c", "piano: c", "my-secret", "/home/user/private"}
	case "subhelp":
		return []string{"play", "--help"}
	}
	return commandArgs(s)
}

type c19run struct {
	o        Op
	p        *rt.Proc
	t0       int64
	env      string
	sawOn    bool // the file said "enabled" at some time while it ran
	sawOff   bool
	sawDis   bool // it said "disabled"
	sent     int
	disks    []Op
	kill     *Op
	nd, nk   int
	troubled bool
	badErr   bool
	settled  bool // the status file says one or the other all along
}

func runC19(c *Ctx) {
	fs := c.W.FS
	file := c.telemetryFile()
	if c.I("xdg") == 1 {
		fs.Delete(file)
		file = "/home/user/cfg/alda/telemetry-status"
		fs.PutDir(path.Dir(file))
		c.env["XDG_CONFIG_HOME"] = "/home/user/cfg"
	}
	if c.I("spawn") == 0 {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	c.PB.StartMin, c.PB.StartMax = 50*ms, 400*ms
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, 200*ms
	const notice = "The Alda CLI collects"
	// What the user knows: informed is whether a notice was shown since the
	// status file was missing; an existing file means that it once was.
	informed := true
	told := "" // the notice
	switch c.I("init") {
	case 0:
		fs.Delete(file)
		informed = false
	case 1:
		fs.Put(file, []byte("enabled"), 0644)
	case 2:
		fs.Put(file, []byte("disabled"), 0644)
	case 3:
		fs.Put(file, []byte("enabl"), 0644)
	case 4:
		fs.Delete(file)
		fs.Delete(path.Dir(file))
		informed = false
	}
	content := func() string {
		b, ok := fs.Get(file)
		if !ok {
			return missing
		}
		return string(b)
	}
	last := content()
	var runs []*c19run
	byProc := map[*rt.Proc]*c19run{}
	// off: telemetry was turned off and no command to turn it on was started since
	off := last == "disabled"
	fresh := last == missing // there may be a first run
	see := func() {
		now := content()
		for _, r := range runs {
			if !r.p.Dead {
				r.sawOn = r.sawOn || now == "enabled"
				r.sawOff = r.sawOff || now != "enabled"
				r.sawDis = r.sawDis || now == "disabled"
			}
		}
	}
	fs.After = func(op *world.FSOp) {
		if op.Path != file && op.To != file {
			return
		}
		now := content()
		if now == last {
			see()
			return
		}
		r := byProc[op.P]
		switch {
		case r == nil:
		case now == missing:
			c.Fail("status-removed", "%s (%s) removed the status file", op.P, r.o.S)
		case now == "enabled" && r.o.S != "enable":
			if !fresh || r.env == "yes" {
				c.Fail("turned-on", "%s (%s) turned telemetry on; the status file said %q before", op.P, r.o.S, last)
			}
			fresh = false
		case now == "enabled":
			fresh = false
		case now == "disabled" && r.o.S != "disable":
			c.Fail("status-changed", "%s (%s) changed the status file from %q to %q", op.P, r.o.S, last, now)
		case r.o.S != "enable" && r.o.S != "disable" && last != missing && !fresh:
			c.Fail("status-changed", "%s (%s) changed the status file from %q to %q", op.P, r.o.S, last, now)
		}
		if now == "disabled" {
			fresh = false
		}
		last = now
		see()
	}
	odd := false // the status file is nothing one can write to
	httpMode := "ok"
	c.W.HTTP = func(p *rt.Proc, q *world.HTTPRequest) *world.HTTPResponse {
		r := byProc[p]
		if !strings.Contains(q.URL, "telemetry") {
			c.Fail("unexpected-request", "%s sends %s %s", p, q.Method, q.URL)
			return &world.HTTPResponse{Status: 404}
		}
		r.sent++
		c.S.Tracef("%s sends telemetry %s", p, q.Body)
		c.Check(r.env != "yes", "sent-though-off", "%s (%s) sent telemetry though ALDA_DISABLE_TELEMETRY is set", p, r.o.S)
		c.Check(r.sawOn, "sent-though-off", "%s (%s) sent telemetry though the status file did not say so at any time since its start; it says %q", p, r.o.S, clip(content(), 40))
		c.Check(informed, "sent-uninformed", "%s (%s) sent telemetry before the user was informed", p, r.o.S)
		c.Check(r.sent == 1, "sent-twice", "%s (%s) sent telemetry %d times", p, r.o.S, r.sent)
		c.Check(q.Method == "POST" && q.URL == "https://api.alda.io/telemetry", "wrong-request", "%s %s", q.Method, q.URL)
		var m map[string]interface{}
		err := json.Unmarshal(q.Body, &m)
		want := map[string]string{"os": "linux", "arch": "amd64", "version": c.Version, "command": c19args(r.o.S)[0]}
		ok := err == nil && len(m) == len(want)
		for k, v := range want {
			ok = ok && m[k] == v
		}
		c.Check(ok, "wrong-payload", "%s (%s) sent %q", p, strings.Join(p.Args, " "), q.Body)
		if informed && told != "" {
			for k, v := range map[string]string{"os": "operating system", "arch": "architecture", "version": "version", "command": "command"} {
				c.Check(m[k] == nil || strings.Contains(told, v), "undisclosed", "%s sent %q, but the user was not told about the %s", p, q.Body, v)
			}
		}
		for k, v := range q.Header {
			if k != "Content-Type" && k != "User-Agent" && k != "Accept" {
				c.Fail("wrong-payload", "%s sent the header %s: %s", p, k, v)
			}
		}
		resp := &world.HTTPResponse{Status: 200, Delay: 40 * ms, Body: []byte("{}")}
		if httpMode != "ok" {
			c.W.Fault("http-" + httpMode)
		}
		switch httpMode {
		case "err":
			resp.Err = errors.New("dial tcp: lookup api.alda.io: no such host")
		case "500":
			resp.Status, resp.Body = 500, []byte("oops")
		case "hang":
			resp.Hang = true
		case "stall":
			resp.StallAt = 1
		case "slow":
			resp.Delay = 3 * sec
		case "cut":
			resp.CutAt = 1
		case "redirect":
			resp.Status = 302
		}
		return resp
	}
	slow := int64(0)
	fs.Hook = func(op *world.FSOp) (act world.FSAction) {
		r := byProc[op.P]
		if r == nil || !strings.HasPrefix(op.Path, path.Dir(file)) {
			return
		}
		if slow > 0 {
			act.Delay = int64(rt.Choose(rt.Fault, int(slow/ms)+1, c.S.Cfg.PRepeat)) * ms
		}
		if k := r.kill; k != nil && (k.T == "any" || k.T == op.Op) {
			r.nk++
			if r.nk == int(k.N) {
				c.W.Fault("killed-" + k.S)
				switch k.S {
				case "first":
					act.KillFirst = true
				case "mid":
					act.KillMid = int(k.M) + 1
					if op.Op != "write" {
						act.KillAfter = true
					}
				default:
					act.KillAfter = true
				}
				return
			}
		}
		for _, d := range r.disks {
			if d.T != "any" && d.T != op.Op {
				continue
			}
			r.nd++
			if r.nd != int(d.N) {
				continue
			}
			r.troubled = true
			if op.Op == "close" || op.Op == "sync" {
				// what the file contained may get lost
				for _, q := range runs {
					q.settled = false
				}
			}
			c.W.Fault("disk-" + d.S)
			act.Short = int(d.M)
			act.Err = map[string]error{"eio": syscall.EIO, "enospc": syscall.ENOSPC, "eacces": syscall.EACCES}[d.S]
			return
		}
		return
	}
	finish := func(r *c19run) {
		d := c.wait(r.p, 120*sec)
		if !d.Ended {
			c.Fail("hangs", "%s", d)
			return
		}
		if r.p.Killed {
			return
		}
		if r.p.Crash != "" {
			c.Fail("crash", "%s: %s", d, r.p.Crash)
			return
		}
		switch r.o.S {
		case "version", "ps", "instruments", "parse", "stop", "shutdown", "help", "none", "subhelp":
			if !r.badErr {
				c.Check(d.Code == 0, "telemetry-fails-command", "%s", d)
			}
		case "enable", "disable":
			if !r.troubled && !r.badErr && !odd {
				c.Check(d.Code == 0, "cannot-set", "%s", d)
			}
			if d.Code == 0 {
				c.Check(r.o.S == "enable" && r.sawOn || r.o.S == "disable" && r.sawDis, "false-success", "%s; the status file says %q", d, clip(content(), 40))
			}
		case "bogus", "badflag", "both":
			c.Check(d.Code != 0, "wrong-exit", "%s", d)
		}
		if r.o.S == "version" && !r.badErr {
			c.Check(d.Stdout == "alda "+c.Version+"\n", "telemetry-changes-output", "%s", d)
		}
		if r.o.S == "telemetry" && r.settled && !r.troubled && !r.badErr {
			c.Check(d.Code == 0, "wrong-report", "the status file said %q: %s", content(), d)
		}
		if r.o.S == "telemetry" && d.Code == 0 {
			on := strings.Contains(d.Stdout, "Telemetry is enabled")
			dis := strings.Contains(d.Stdout, "Telemetry is disabled")
			c.Check(on != dis, "wrong-report", "%s", d)
			if on {
				c.Check(r.sawOn && r.env != "yes", "wrong-report", "telemetry was not enabled: %s", d)
			}
			if dis {
				c.Check(r.sawOff || r.env == "yes", "wrong-report", "telemetry was enabled: %s", d)
			}
		}
	}
	watch := func(r *c19run) {
		// note when the notice has been shown
		data := world.Data(r.p)
		data.Stderr.Tee = func(b []byte) {
			if strings.Contains(string(data.Stderr.B), notice) || strings.Contains(string(b), notice) {
				informed = true
				told = strings.ToLower(string(data.Stderr.B) + string(b))
			}
		}
	}
	var next c19run
	for _, o := range c.P.Ops {
		o := o
		switch o.K {
		case "http":
			httpMode = o.S
		case "slowdisk":
			slow = o.N
		case "disk":
			next.disks = append(next.disks, o)
		case "kill":
			next.kill = &o
		case "stderr":
			next.badErr = true
			next.o.N = o.N
		case "damage", "rm":
			for _, r := range runs {
				finish(r)
			}
			fs.Delete(file)
			c.W.Fault("status-file-" + o.K)
			if o.K == "rm" {
				// starting over
				informed, fresh, off = false, true, false
			} else {
				switch o.S {
				case "unreadable":
					fs.Put(file, []byte("enabled"), 0)
				case "dir":
					fs.PutDir(file)
				case "dangling":
					fs.PutLink(file, "/nowhere/at/all")
				default:
					fs.Put(file, []byte(o.S), 0644)
				}
				odd = odd || o.S == "unreadable" || o.S == "dir" || o.S == "dangling"
				fresh = false
			}
			last = content()
			c.NonTrivial = true
		case "run":
			if o.At < 0 {
				for _, r := range runs {
					finish(r)
				}
			} else {
				c.Sleep(o.At)
			}
			r := &c19run{}
			*r = next
			bad := next.o.N
			next = c19run{}
			r.o = o
			r.env = o.T
			env := map[string]string{}
			for k, v := range c.env {
				env[k] = v
			}
			if o.T != "" {
				env["ALDA_DISABLE_TELEMETRY"] = o.T
			}
			args := c19args(o.S)
			if fresh || off || content() != "enabled" {
				c.NonTrivial = true
			}
			if o.S == "enable" {
				off, informed = false, true
			}
			r.t0 = c.Now()
			r.settled = !odd && (content() == "enabled" || content() == "disabled")
			name := "alda"
			if len(args) > 0 {
				name += "-" + args[0]
			}
			r.p = c.W.StartAlda(world.Spec{Name: name, Args: append([]string{"alda"}, args...), Env: env, Cwd: workDir, Exe: exeAlda})
			byProc[r.p] = r
			runs = append(runs, r)
			watch(r)
			if bad != 0 {
				c.W.Fault("stderr-fails")
				world.Data(r.p).Stderr.Err = syscall.Errno(bad)
			}
			see()
			c.Did(o.S)
		}
	}
	for _, r := range runs {
		finish(r)
	}
}
