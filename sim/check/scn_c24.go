package check

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C24: alda doctor on installations that are healthy (if slow), and on
// installations with something broken.

func init() {
	register(&Scenario{Prop: "C24", Name: "doctor", Weight: 1, Gen: genC24, Run: runC24, MaxSteps: 6_000_000})
	tuning["C24"] = tune{quick: 12000, thorough: 150000, nontrivial: "doctor ran to its end with a disturbed, slow or defective player, or with faults"}
}

var c24steps = []string{
	"Parse source code",
	"Generate score model",
	"Ensure that there are no stale player processes",
	"Find an open port",
	"Send and receive OSC messages",
	"Locate alda-player executable on PATH",
	"Check alda-player version",
	"Spawn a player process",
	"Ping player process",
	"Play score",
	"Export score as MIDI",
	"Locate player logs",
	"Player logs show the ping was received",
	"Shut down player process",
	"Spawn a player on an unknown port",
	"Discover the player",
	"Ping the player",
	"Shut the player down",
	"Start a REPL server",
	"Find the REPL server",
	"Interact with the REPL server",
	"Shut down the REPL server",
}

const (
	c24Locate   = 5
	c24Version  = 6
	c24Spawn    = 7
	c24Ping     = 8
	c24Export   = 10
	c24Logs     = 11
	c24LogPing  = 12
	c24Shut     = 13
	c24Spawn2   = 14
	c24Discover = 15
	c24Ping2    = 16
	c24Shut2    = 17
)

func genC24(g *Gen) {
	g.Swarm()
	g.I("noaudio", g.OneI(0, 0, 1))
	g.I("start", g.OneI(50*ms, 1*sec, 4*sec, 8*sec))
	g.I("readyin", g.OneI(20*ms, 1*sec, 4*sec, 8*sec))
	g.I("info", g.OneI(0, 0, 100*ms, 2*sec, 12*sec))
	g.I("apply", g.OneI(0, 0, 100*ms, 1*sec))
	g.I("expdelay", g.OneI(0, 0, 100*ms, 1*sec, 6*sec))
	g.I("expchunk", g.OneI(0, 1, 10, 64))
	g.I("expgap", g.OneI(0, 0, 1*ms, 10*ms))
	g.I("shut", g.OneI(0, 0, 100*ms, 3*sec, 12*sec))
	g.I("gap", g.OneI(0, 0, 5*ms, 200*ms))
	g.I("http", g.OneI(0, 0, 1)) // 1: telemetry is enabled and hangs
	g.I("startingfor", g.OneI(100*ms, 2*sec, 12*sec))
	if g.Bool(0.4) {
		g.pool(0, 3, "ready", "ready", "starting", "active", "dead", "other", "stale", "ago")
	}
	if g.Bool(0.1) {
		g.pool(1, 1, "deadstart", "hung", "full", "garbage", "empty", "types", "nolisten")
	}
	n := g.OneI(0, 1, 1, 1)
	if g.Thorough && g.Bool(0.2) {
		n = 2
	}
	for ; n > 0; n-- {
		o := Op{K: "fault", C: g.N(1, 2)}
		switch g.N(0, 17) {
		case 0, 1:
			o.S = g.OneOf("missing", "version")
			o.T = g.OneOf("n", "eof", "yes", "y", "enter", "err", "404", "500", "cut", "hang", "stall", "noplayer")
			o.N = int64(g.N(1, 2))
		case 2:
			o.S = g.OneOf("infofail", "infohang", "infotalk")
		case 3:
			o.S = "spawn"
		case 4:
			o.S = "diesatonce"
		case 5:
			o.S = "nolisten"
		case 6:
			o.S = "neverready"
		case 7:
			o.S = g.OneOf("exportnever", "exportdie", "mute")
			o.N = int64(g.N(0, 120))
		case 8:
			o.S = "noshut"
		case 9:
			o.S = g.OneOf("nolog", "quietlog")
		case 10, 11, 12:
			o.S = g.OneOf("kill", "stall")
			o.T = g.OneOf("time", "time", "ping", "note", "export")
			o.N = g.Dur(0, 30*sec)
		case 13, 14, 15:
			o.S = "disk"
			o.T = g.OneOf("eio", "enospc", "eacces", "emfile", "erofs")
			o.X = []string{g.OneOf("any", "any", "open", "create", "mkdir", "write", "remove", "readdir", "stat", "rename"), g.OneOf("any", "cache", "tmp", "cwd")}
			o.N, o.M = g.OneI(1, 1, 2, 3, 5, 8, 13, 21, 40), g.OneI(0, 0, 1)
		case 16:
			o.S = g.OneOf("refuse", "dialslow")
			o.N, o.M = g.OneI(1, 1, 2, 3, 5, 8), g.OneI(0, 0, 1, 5)
		case 17:
			o.S = g.OneOf("reset", "resetread")
			o.N = g.OneI(1, 1, 2, 3, 5, 8)
		}
		g.Op(o)
	}
}

var c24ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func runC24(c *Ctx) {
	fs := c.W.FS
	c.PB.ExpiryMin = 900 * sec
	noaudio := c.I("noaudio") == 1
	c.pool()
	if c.Err != "" {
		return
	}
	c.PB.StartMin, c.PB.StartMax = 50*ms, c.I("start")
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, c.I("readyin")
	c.PB.InfoDelay, c.PB.ApplyDelay = c.I("info"), c.I("apply")
	c.PB.ExportDelay, c.PB.ExportChunk, c.PB.ExportGap = c.I("expdelay"), int(c.I("expchunk")), c.I("expgap")
	c.PB.ShutDelay, c.PB.StateGap = c.I("shut"), c.I("gap")
	var faults []Op
	for _, o := range c.P.Ops {
		if o.K == "fault" {
			faults = append(faults, o)
		}
	}
	is := func(kinds ...string) *Op {
		for i, o := range faults {
			for _, k := range kinds {
				if o.S == k {
					return &faults[i]
				}
			}
		}
		return nil
	}
	// What the player model does
	c.PB.InfoFail = is("infofail") != nil
	if is("infohang") != nil {
		c.W.Fault("player-info-hangs")
		c.PB.InfoDelay = 3600 * sec
	}
	c.PB.ExportNever = is("exportnever") != nil
	if o := is("exportdie"); o != nil {
		c.PB.ExportDie = int(o.N) + 1
	}
	if is("noshut") != nil {
		c.W.Fault("player-does-not-shut-down")
		c.PB.ShutDelay = 0
	}
	logs := c.cacheDir() + "/logs"
	if is("nolog") != nil {
		c.W.Fault("no-log-directory")
		fs.Delete(logs)
		fs.Put(logs, []byte("x"), 0644)
	}
	tele := c.telemetryFile()
	hang := c.I("http") == 1
	if hang {
		fs.Put(tele, []byte("enabled"), 0644)
	}
	// the web service offers what fits
	version := c.Version
	good := world.MakeProgram("alda-player "+version, 400)
	web := &webService{c: c, offers: map[*rt.Proc][]*release{}, mode: map[*rt.Proc]string{}, count: map[*rt.Proc]int{}, served: map[string]*release{}}
	rel := &release{version: version, alda: world.MakeProgram("alda "+version, 500), player: good}
	answer, install := "", is("missing", "version")
	stepWrong := c24Locate
	switch {
	case install == nil:
	case install.S == "missing":
		c.W.Fault("player-missing")
		fs.Delete(exePlay)
	default:
		c.W.Fault("player-of-other-version")
		stepWrong = c24Version
		fs.Put(exePlay, world.MakeProgram("alda-player 2.0.0", 300), 0755)
	}
	agreed := true
	if install != nil {
		switch install.T {
		case "n":
			answer, agreed = "n\n", false
		case "eof":
			agreed = false
		case "yes":
			answer = "YES\n"
		case "enter":
			answer = "\n"
		case "noplayer":
			answer, rel.how = "y\n", "onlyalda"
		default:
			answer = "y\n"
		}
		web.served[version] = rel
		kind := map[string]string{"err": "err", "404": "status", "500": "status", "cut": "cut", "hang": "hang", "stall": "stall"}[install.T]
		if kind != "" {
			m := int64(150)
			if install.T == "404" {
				m = 0
			} else if install.T == "500" {
				m = 1
			}
			web.faults = append(web.faults, Op{K: "http", S: kind, N: install.N, M: m})
		}
	}
	c.W.HTTP = func(p *rt.Proc, q *world.HTTPRequest) *world.HTTPResponse {
		if strings.Contains(q.URL, "/telemetry") {
			if hang {
				c.W.Fault("http-hang")
			}
			return &world.HTTPResponse{Status: 200, Hang: hang}
		}
		return web.answer(p, q)
	}

	old := map[*Player]bool{} // players there before
	for _, pl := range c.Players {
		if !pl.P.Dead {
			old[pl] = true
		}
	}
	nOld := len(old)
	candidate := c.P.hasEntry("ready") || c.P.hasEntry("starting") || c.P.hasEntry("ago") || c.P.hasEntry("stale")
	odd := false
	for _, k := range []string{"deadstart", "hung", "full", "garbage", "empty", "types", "nolisten"} {
		odd = odd || c.P.hasEntry(k)
	}
	// A file that says "starting" and whose player is gone is not noticed for
	// two minutes.
	for _, o := range c.P.Ops {
		if o.K == "entry" && (o.S == "ago" || o.S == "stale") && o.T != "sub" {
			odd = true
		}
	}
	// A player found while it is starting may not shut down in time.
	odd = odd || c.P.hasEntry("starting") && c.I("startingfor")+c.I("shut") > 15*sec
	tmpBefore := strings.Join(fs.List("/tmp"), " ")
	cwdBefore := strings.Join(fs.List(workDir), " ")

	// its own players
	var doc *rt.Proc
	var own []*rt.Proc
	spawns := 0
	c.W.SpawnHook = func(p *rt.Proc, exe string, args []string) error {
		if p != doc || len(args) < 2 || args[1] != "-v" {
			return nil
		}
		spawns++
		if o := is("spawn"); o != nil && o.C == spawns {
			c.W.Fault("spawn-fails")
			return errSpawn
		}
		return nil
	}
	c.W.OnSpawn = func(child *rt.Proc) {
		if world.Parent(child) == doc && len(child.Args) > 1 && child.Args[1] == "-v" {
			own = append(own, child)
		}
	}
	decide := c.PB.Decide
	c.PB.Decide = func(pl *Player) {
		if decide != nil {
			decide(pl)
		}
		k := 0
		for i, p := range own {
			if p == pl.P {
				k = i + 1
			}
		}
		if k == 0 {
			return
		}
		for _, o := range faults {
			if o.C != k {
				continue
			}
			switch o.S {
			case "diesatonce":
				c.W.Fault("player-dies-at-start")
				rt.Exit(1)
			case "nolisten":
				c.W.Fault("player-never-listens")
				pl.NoListen = true
			case "neverready":
				c.W.Fault("player-never-ready")
				pl.ReadyIn = 3600 * sec
			case "mute":
				c.W.Fault("player-loses-notes")
				pl.Mute = true
			case "quietlog":
				c.W.Fault("player-does-not-log")
				pl.NoLog = true
			case "noshut":
				pl.Deaf = true
			case "kill", "stall":
				o := o
				p := pl.P
				rt.Go(func() {
					t0 := c.Now()
					for !p.Dead {
						hit := false
						switch o.T {
						case "time":
							hit = c.Now() >= t0+o.N
						default:
							for _, m := range pl.Msgs {
								hit = hit || o.T == "ping" && m.Addr == "/ping" || o.T == "note" && strings.HasSuffix(m.Addr, "/note") || o.T == "export" && strings.HasSuffix(m.Addr, "/export")
							}
						}
						if hit {
							c.W.Fault("player-" + o.S)
							if o.S == "kill" {
								c.S.Kill(p)
							} else {
								c.S.Stall(p)
							}
							return
						}
						rt.Sleep(25 * ms)
					}
				})
			}
		}
	}
	nd, dials := 0, 0
	if o := is("disk"); o != nil {
		fs.Hook = func(op *world.FSOp) (act world.FSAction) {
			if op.P != doc || doc == nil || o.X[0] != "any" && o.X[0] != op.Op {
				return
			}
			switch o.X[1] {
			case "cache":
				if !strings.HasPrefix(op.Path, c.cacheDir()) {
					return
				}
			case "tmp":
				if !strings.HasPrefix(op.Path, "/tmp/") {
					return
				}
			case "cwd":
				if !strings.HasPrefix(op.Path, workDir) {
					return
				}
			}
			nd++
			if nd != int(o.N) && !(o.M == 1 && nd > int(o.N)) {
				return
			}
			c.W.Fault("disk-" + o.T)
			act.Err = map[string]error{"eio": syscall.EIO, "enospc": syscall.ENOSPC, "eacces": syscall.EACCES, "emfile": syscall.EMFILE, "erofs": syscall.EROFS}[o.T]
			return
		}
	}
	if o := is("refuse", "dialslow"); o != nil {
		c.W.Net.DialHook = func(p *rt.Proc, port int) error {
			if p != doc || doc == nil {
				return nil
			}
			dials++
			if dials < int(o.N) || dials > int(o.N+o.M*10) {
				return nil
			}
			if o.S == "dialslow" {
				c.W.Fault("connect-slow")
				rt.Sleep(3 * sec)
				return nil
			}
			c.W.Fault("connect-refused")
			return syscall.ECONNREFUSED
		}
	}
	if o := is("reset", "resetread"); o != nil {
		n := 0
		hook := func(cn *world.Conn) error {
			n++
			if n != int(o.N) {
				return nil
			}
			c.W.Fault("connection-reset")
			cn.Reset()
			return syscall.ECONNRESET
		}
		if o.S == "reset" {
			c.W.Net.WriteHook = func(cn *world.Conn, b []byte) error { return hook(cn) }
		} else {
			c.W.Net.ReadHook = hook
		}
	}

	args := []string{"doctor"}
	if noaudio {
		args = append(args, "--no-audio")
	}
	doc = c.aldaExe(exeAlda, []byte(answer), args...)
	web.p = doc
	web.offers[doc] = []*release{rel}
	if is("infotalk") != nil {
		fs.Put(exePlay, world.MakeProgram("talk", 300), 0755)
	}
	d := c.wait(doc, 900*sec)
	if !d.Ended {
		c.S.Tracef("%s", c.S.Describe())
		c.Fail("hangs", "%s", d)
		return
	}
	if doc.Crash != "" {
		c.Fail("crash", "%s: %s", d, doc.Crash)
		return
	}
	// what it said
	var ok []string
	failed := ""
	for _, l := range strings.Split(c24ansi.ReplaceAllString(d.Stdout, ""), "\n") {
		// nothing ends the line of a question if the answer does not come from a
		// terminal
		for _, w := range []string{"] ERR ", "] OK  "} {
			if i := strings.LastIndex(l, w); i >= 0 {
				l = l[i+2:]
			}
		}
		switch {
		case strings.HasPrefix(l, "OK  "):
			if failed != "" {
				c.Fail("goes-on", "after %q had failed: %s", failed, d)
			}
			ok = append(ok, strings.TrimSpace(l[3:]))
		case strings.HasPrefix(l, "ERR "):
			if failed != "" {
				c.Fail("goes-on", "after %q had failed: %s", failed, d)
			}
			failed = strings.TrimSpace(l[3:])
		}
	}
	steps := []string{}
	for i, s := range c24steps {
		if !noaudio || i != 9 && i != c24Export {
			steps = append(steps, s)
		}
	}
	said := append([]string(nil), ok...)
	if failed != "" {
		said = append(said, failed)
	}
	// The steps are checks of their own right: their names may change, but a
	// failure has to be named and the rest has to be checked.
	c.Check((d.Code == 0) == (failed == ""), "wrong-exit", "the failed check is %q: %s", failed, d)
	if d.Code == 0 {
		c.Check(len(ok) >= len(steps), "skips-checks", "%d checks instead of %d: %s", len(ok), len(steps), d)
	} else {
		c.Check(strings.TrimSpace(c21text(d.Stderr)) != "", "silent-failure", "%s", d)
	}
	at := func(name string) int {
		for i, s := range c24steps {
			if s == name {
				return i
			}
		}
		return -1
	}
	c.Did("ended with " + fmt.Sprint(d.Code) + " " + failed)
	// what it should have said
	var want []int // -1: passes
	why := "nothing is broken"
	set := func(s string, w ...int) { why, want = s, w }
	if len(faults) == 0 && !odd {
		set(why, -1)
	}
	if len(faults) == 1 && !odd {
		o := faults[0]
		pass2 := func(s string, step int) {
			set(s, step)
			if candidate {
				set(s, step, -1)
			}
		}
		switch o.S {
		case "missing", "version":
			w := "alda-player is missing; answer " + o.T
			if o.S == "version" {
				w = "alda-player is of another version; answer " + o.T
			}
			switch {
			case !agreed || web.happened > 0 || rel.how != "":
				set(w, stepWrong)
			default:
				set(w, -1)
			}
		case "infofail", "infohang", "infotalk":
			set("alda-player info does not work", c24Locate)
		case "spawn":
			set("a player cannot be started", []int{c24Spawn, c24Spawn2}[o.C-1])
		case "diesatonce":
			if o.C == 1 {
				set("the player dies at once", c24Ping)
			} else {
				pass2("the player dies at once", c24Discover)
			}
		case "nolisten":
			if o.C == 1 {
				set("the player cannot be reached", c24Ping)
			} else {
				pass2("the player cannot be reached", c24Ping2)
			}
		case "neverready":
			switch {
			case noaudio:
				set("the player never gets ready, which does not matter", -1)
			case o.C == 1:
				set("the player never gets ready", c24Export)
			default:
				pass2("the player never gets ready", c24Discover)
			}
		case "exportnever", "exportdie", "mute":
			switch {
			case noaudio || o.S == "mute" && o.C == 2:
				set("the player cannot export, which does not matter", -1)
			case o.S == "exportdie":
				// it may die after the last byte
				set("the player dies while exporting", c24Export)
				if len(c.Players) > 0 {
					for _, pl := range c.Players {
						for _, e := range pl.Exports {
							if int(o.N)+1 >= len(e.Data) {
								set("the player exports", -1)
							}
						}
					}
				}
			default:
				set("the player does not export", c24Export)
			}
		case "noshut":
			if o.C == 2 {
				pass2("the player does not shut down", c24Shut2)
				for _, pl := range c.Players {
					// while a player rewrites its state file it looks as if it were gone
					if pl.Deaf && (pl.writing || pl.WroteAt >= pl.DeafAt-2*sec) {
						set(why, c24Shut2, -1)
					}
				}
			} else if !noaudio {
				set("the first player does not shut down, which is not checked", -1)
			}
		case "nolog":
			set("there are no logs", c24Logs, c24LogPing)
		case "quietlog":
			if o.C == 1 {
				set("the player does not log", c24LogPing, c24Logs)
			}
		}
	}
	if len(want) > 0 {
		fine := false
		var names []string
		for _, w := range want {
			if w < 0 {
				fine = fine || failed == "" && d.Code == 0
				names = append(names, "no failure")
				continue
			}
			fine = fine || failed != "" && at(failed) == w
			names = append(names, fmt.Sprintf("%q", c24steps[w]))
		}
		if failed != "" && at(failed) < 0 && want[0] >= 0 {
			fine = true // a check that has another name now
		}
		class := "misses-trouble"
		if failed != "" {
			class = "false-alarm"
			if want[0] >= 0 {
				class = "blames-another-check"
			}
		}
		c.Check(fine, class, "%s: expected %s: %s", why, strings.Join(names, " or "), d)
		c.NonTrivial = true
	}
	// what it leaves
	c.Sleep(60 * sec)
	left := 0
	var names []string
	deaf := map[*rt.Proc]bool{}
	for _, pl := range c.Players {
		deaf[pl.P] = pl.Deaf
	}
	passed := func(k int) bool {
		for _, s := range ok {
			if at(s) == k {
				return true
			}
		}
		return false
	}
	for i, p := range own {
		if p.Dead {
			continue
		}
		if (p.Stalled || deaf[p] || is("reset", "resetread") != nil) && (d.Code == 0 || i == 0 && passed(c24Shut)) {
			continue // it was told to shut down, and doctor had no reason to look after it
		}
		left++
		names = append(names, p.Name)
	}
	for pl := range old {
		if !pl.P.Dead {
			left++
		}
	}
	// A disk error may make doctor believe that a hung player of the pool has
	// shut down.
	c.Check(left <= nOld || odd && is("disk") != nil, "leaves-players", "%d players ran before, %d do now, of its own %v: %s", nOld, left, names, d)
	if is("disk") == nil {
		c.Check(strings.Join(fs.List("/tmp"), " ") == tmpBefore, "leaves-files", "in /tmp: before %q, now %q: %s", tmpBefore, strings.Join(fs.List("/tmp"), " "), d)
		c.Check(strings.Join(fs.List(workDir), " ") == cwdBefore, "leaves-files", "in the working directory: before %q, now %q: %s", cwdBefore, strings.Join(fs.List(workDir), " "), d)
		for f := range fs.Tree(c.serversDir()) {
			if strings.HasSuffix(f, ".json") {
				c.Fail("leaves-files", "%s: %s", f, d)
			}
		}
	}
	if install != nil {
		b, there := fs.Get(exePlay)
		if failed == "" && agreed {
			c.Check(there && string(b) == string(good), "not-installed", "%s", d)
		}
	}
}

var _ = errors.New
