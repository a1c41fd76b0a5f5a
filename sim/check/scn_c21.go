package check

import (
	"errors"
	"fmt"
	"path"
	"regexp"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C21: Alda commands finish and report failure.

func init() {
	tuning["C21"] = tune{6000, 250000, "a command ran while its background work met trouble, or failed itself"}
	register(&Scenario{Prop: "C21", Name: "commands", Gen: genC21, Run: runC21})
}

type c21cmd struct {
	args  []string
	stdin string
	pipe  bool
	want  int  // its exit code; -1: depends on the players
	pure  bool // it depends on nothing but its arguments
	nopre bool // it is turned down before anything is started but the pool
}

var c21cmds = map[string]c21cmd{
	"version":     {args: []string{"version"}, pure: true},
	"instruments": {args: []string{"instruments"}, pure: true},
	"parse":       {args: []string{"parse", "-c", "piano: c d e"}, pure: true},
	"ast":         {args: []string{"parse", "-c", "piano: c [d e]*2", "-o", "ast"}, pure: true},
	"human":       {args: []string{"parse", "-c", "violin \"vv\": (tempo 90) c\nvv: d", "-o", "ast-human"}, pure: true},
	"events":      {args: []string{"parse", "-f", "good.alda", "-o", "events"}, pure: true},
	"stdin":       {args: []string{"parse"}, stdin: "cello: c d e f", pipe: true, pure: true},
	"format":      {args: []string{"format", "-f", "good.alda"}, pure: true},
	"import":      {args: []string{"import", "-i", "musicxml", "-f", "good.musicxml"}, pure: true},
	"verbose":     {args: []string{"version", "-v", "0"}, pure: true},
	"help":        {args: []string{"--help"}, pure: true, nopre: true},
	"subhelp":     {args: []string{"play", "--help"}, pure: true, nopre: true},
	"none":        {args: nil, pure: true},

	"bogus":        {args: []string{"no-such-command"}, want: 1, pure: true, nopre: true},
	"badflag":      {args: []string{"play", "--no-such-flag"}, want: 1, pure: true, nopre: true},
	"badverbosity": {args: []string{"version", "-v", "9"}, want: 1, pure: true, nopre: true},
	"badtype":      {args: []string{"parse", "-c", "piano: c", "-o", "bogus"}, want: 1, pure: true},
	"parsebad":     {args: []string{"parse", "-c", "piano: c [d"}, want: 1, pure: true},
	"evalbad":      {args: []string{"parse", "-c", "piano: c @nowhere"}, want: 1, pure: true},
	"parsemissing": {args: []string{"parse", "-f", "/nowhere.alda"}, want: 1, pure: true},
	"parsenothing": {args: []string{"parse"}, want: 1, pure: true},
	"formatbad":    {args: []string{"format", "-f", "bad.alda"}, want: 1, pure: true},
	"formatwrap":   {args: []string{"format", "-f", "good.alda", "-w", "-3"}, want: 1, pure: true},
	"importbad":    {args: []string{"import", "-i", "musicxml", "-c", "piano: c"}, want: 1, pure: true},
	"importtype":   {args: []string{"import", "-i", "midi", "-f", "good.musicxml"}, want: 1, pure: true},
	"playbad":      {args: []string{"play", "-c", "piano: c @nowhere"}, want: 1, pure: true},
	"playargs":     {args: []string{"play", "good.alda"}, want: 1, pure: true},
	"playmissing":  {args: []string{"play", "-f", "/nowhere.alda"}, want: 1, pure: true},
	"exportbad":    {args: []string{"export", "-c", "piano: (", "-o", "bad.mid"}, want: 1, pure: true},
	"exporttype":   {args: []string{"export", "-c", "piano: c", "-O", "ogg", "-o", "bad.ogg"}, want: 1, pure: true},
	"both":         {args: []string{"telemetry", "--enable", "--disable"}, want: 1, pure: true},
	"replport":     {args: []string{"repl", "--client"}, want: 1, pure: true},
	"replboth":     {args: []string{"repl", "--message", "{\"op\":\"describe\"}"}, want: 1, pure: true},
	"replmessage":  {args: []string{"repl", "--client", "--port", "1", "--message", "{\"op\":\"describe\"}"}, want: 1},
	"replclient":   {args: []string{"repl", "--client", "--port", "1"}, want: 1},
	"update":       {args: []string{"update", "-y", "--version", "9.9.9"}, want: 1},

	"telemetry":    {args: []string{"telemetry"}, want: -1},
	"stopid":       {args: []string{"stop", "-i", "zzzz"}, want: 1},
	"stopport":     {args: []string{"stop", "-p", "1"}, want: 1},
	"shutdownid":   {args: []string{"shutdown", "-i", "zzzz"}, want: 1},
	"shutdownport": {args: []string{"shutdown", "-p", "1"}, want: 1},
	"playid":       {args: []string{"play", "-c", "piano: c", "-i", "zzzz"}, want: 1},
	"playport":     {args: []string{"play", "-c", "piano: c", "-p", "1"}, want: 1},
	"playfrom":     {args: []string{"play", "-c", "piano: c", "-F", "nowhere"}, want: 1},
	"exportdir":    {args: []string{"export", "-c", "piano: c", "-o", "/nowhere/out.mid"}, want: 1},
	"stop":         {args: []string{"stop"}, want: -1},
	"shutdown":     {args: []string{"shutdown"}, want: -1},
	"ps":           {args: []string{"ps"}, want: -1},
	"resume":       {args: []string{"play"}, want: -1},
	"play":         {args: []string{"play", "-c", "piano: c8"}, want: -1},
	"playfile":     {args: []string{"play", "-f", "good.alda"}, want: -1},
	"export":       {args: []string{"export", "-c", "piano: c8", "-o", "out.mid"}, want: -1},
	"soup":         {want: -1}, // anything for an input
	"doctor":       {args: []string{"doctor", "--no-audio"}, pipe: true, want: -1},
}

var c21names = func() []string {
	m := map[string]bool{}
	for k := range c21cmds {
		m[k] = true
	}
	return sortedSet(m)
}()

func genC21(g *Gen) {
	g.Swarm()
	g.I("telemetry", g.OneI(0, 0, 0, 1, 2, 3)) // enabled, disabled, missing, garbage
	g.I("spawn", g.OneI(1, 1, 1, 1, 0))
	g.I("start", g.OneI(100*ms, 1*sec, 4*sec))
	g.I("readyin", g.OneI(50*ms, 1*sec, 4*sec))
	g.I("info", g.OneI(0, 0, 100*ms, 3*sec))
	if g.Bool(0.4) {
		g.pool(0, 4, "ready", "ready", "starting", "active", "dead", "deadstart", "garbage", "empty", "types", "dir", "other", "stale", "hung", "full")
	}
	g.I("startingfor", g.OneI(100*ms, 2*sec, 8*sec))
	g.I("old", int64(g.N(0, 3)))
	n := g.N(1, 6)
	if g.Thorough {
		n = g.N(1, 16)
	}
	for i := 0; i < n; i++ {
		for g.Bool(0.45) {
			switch g.N(0, 9) {
			case 0, 1, 2:
				g.Op(Op{K: "http", S: g.OneOf("ok", "err", "500", "hang", "hang", "stall", "slow", "cut", "redirect")})
			case 3, 4, 5:
				g.Op(Op{K: "player", S: g.OneOf("spawn", "infofails", "infohang", "infoslow", "infoempty", "infotext", "gone", "missing", "dies", "version", "never", "ok")})
			case 6, 7:
				g.Op(Op{K: "disk", S: g.OneOf("eio", "eacces", "enospc", "emfile", "erofs"), T: g.OneOf("cache", "cache", "config", "bin"), X: []string{g.OneOf("any", "any", "readdir", "stat", "open", "create", "mkdir", "remove", "write", "rename")}, N: g.OneI(1, 1, 1, 2, 3, 6), M: g.OneI(0, 1)})
			case 8:
				g.Op(Op{K: "slowdisk", N: g.OneI(1*ms, 5*ms)})
			case 9:
				g.Op(Op{K: "hurt", S: g.OneOf("kill", "kill-all", "stall", "nodir", "filedir", "old")})
			}
		}
		o := Op{K: "cmd", S: c21names[g.N(0, len(c21names)-1)]}
		if g.Bool(0.15) {
			o.S = g.OneOf("version", "parse", "bogus", "play", "export", "stop")
		}
		if g.Bool(0.05) {
			o.S = "soup"
		}
		if o.S == "soup" {
			o.T, o.C = g.soup(), g.N(0, 7)
		}
		if g.Bool(0.7) {
			o.At = -1
		} else {
			o.At = g.OneI(0, 10*ms, 1*sec)
		}
		if c21tells(o.S) && g.Bool(0.12) {
			// its standard output fails after M bytes
			o.X, o.M = []string{g.OneOf("enospc", "eio", "efbig")}, g.OneI(0, 0, 1, 7, 50, 200, 1000)
		}
		g.Op(o)
		if g.Bool(0.1) {
			g.Op(Op{K: "sleep", N: g.Dur(1*sec, 200*sec)})
		}
	}
}

// c21soup are the commands that may get anything to read.
var c21soup = [][]string{
	{"parse", "-c"},
	{"parse", "-o", "ast", "-c"},
	{"parse", "-o", "ast-human", "-c"},
	{"parse", "-o", "events", "-c"},
	{"parse", "-f"},
	{"format", "-f"},
	{"import", "-i", "musicxml", "-c"},
	{"play", "-p", "1", "-c"},
}

// c21tells: what the command is for is what it writes to its standard output.
func c21tells(name string) bool {
	switch name {
	case "version", "instruments", "parse", "ast", "human", "events", "stdin", "format", "import", "verbose", "ps":
		return true
	}
	return false
}

var c21log = regexp.MustCompile(`[A-Z][a-z]{2} +\d+ \d\d:\d\d:\d\d (WRN|ERR|INF|DBG) [^\n]*\n`)

// c21text is what a command said, without what was logged.
func c21text(s string) string { return c21log.ReplaceAllString(s, "") }

type c21request struct {
	p     *rt.Proc
	at    int64
	until int64 // when the answer will be there or it will have been given up
}

type c21run struct {
	o      Op
	c      c21cmd
	p      *rt.Proc
	t0     int64
	n0     int // players available or soon available when it started
	kids   int
	reqs   []c21request
	before map[string]string // leftovers of an update
	quiet  bool              // nothing goes wrong in its background
	solo   bool
	on     bool // telemetry is on
	slow   bool
	disk   bool
	mtime  int64
	j      *Join
}

func runC21(c *Ctx) {
	fs := c.W.FS
	fs.Put(workDir+"/good.alda", []byte("piano:\n  c d e f\nviolin: [a b]*2\n"), 0644)
	fs.Put(workDir+"/bad.alda", []byte("piano: c d [e\n"), 0644)
	fs.Put(workDir+"/good.musicxml", []byte(`<?xml version="1.0" encoding="UTF-8"?>
<score-partwise version="3.1"><part-list><score-part id="P1"><part-name>Piano</part-name></score-part></part-list><part id="P1"><measure number="1"><attributes><divisions>1</divisions><key><fifths>0</fifths></key><time><beats>4</beats><beat-type>4</beat-type></time></attributes><note><pitch><step>C</step><octave>5</octave></pitch><duration>4</duration><voice>1</voice><type>whole</type></note></measure></part></score-partwise>`), 0644)
	c.PB.StartMin, c.PB.StartMax = 50*ms, c.I("start")
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, c.I("readyin")
	c.PB.ExpiryMin = 600 * sec

	// What the commands say when they have no background work.
	golden := map[string]*Done{}
	for _, o := range c.P.Ops {
		cmd := c21cmds[o.S]
		if o.K != "cmd" || !cmd.pure || golden[o.S] != nil {
			continue
		}
		env := map[string]string{"ALDA_DISABLE_SPAWNING": "yes", "ALDA_DISABLE_TELEMETRY": "yes"}
		for k, v := range c.env {
			env[k] = v
		}
		var stdin []byte
		if cmd.pipe {
			stdin = []byte(cmd.stdin)
		}
		p := c.W.StartAlda(world.Spec{Name: "quiet-" + o.S, Args: append([]string{"alda"}, cmd.args...), Env: env, Cwd: workDir, Exe: exeAlda, Stdin: stdin, Pipe: cmd.pipe})
		d := c.wait(p, 60*sec)
		golden[o.S] = d
		if !d.Ended {
			c.Fail("hangs", "without any background work: %s", d)
			return
		}
	}
	c.pool()
	if c.Err != "" {
		return
	}
	if c.I("spawn") == 0 {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	tele := c.telemetryFile()
	switch c.I("telemetry") {
	case 0:
		fs.Put(tele, []byte("enabled"), 0644)
	case 2:
		fs.Delete(tele)
	case 3:
		fs.Put(tele, []byte("enbaled"), 0644)
	}
	nold := 0
	leftover := func() {
		nold++
		fs.Put(fmt.Sprintf("%s/alda.%d.%d.old", binDir, 1600000000+nold, 77), world.MakeProgram("alda 1.0", 100), 0755)
	}
	for i := int64(0); i < c.I("old"); i++ {
		leftover()
	}
	c.PB.InfoDelay = c.I("info")
	infoBase := c.PB.InfoDelay
	trouble := map[string]bool{}
	hurt := false
	c.W.SpawnHook = func(_ *rt.Proc, p string, args []string) error {
		if strings.HasSuffix(p, "alda-player") && len(args) > 1 && trouble["spawn"] {
			c.W.Fault("spawn-fails")
			return errSpawn
		}
		return nil
	}
	var spawned []*rt.Proc
	byProc := map[*rt.Proc]*c21run{}
	c.W.OnSpawn = func(child *rt.Proc) {
		for _, a := range child.Args {
			if a == "run" { // also the ones alda doctor starts
				spawned = append(spawned, child)
			}
		}
		if r := byProc[world.Parent(child)]; r != nil && len(child.Args) > 1 && child.Args[1] == "run" {
			r.kids++
		}
	}
	httpMode := "ok"
	c.W.HTTP = func(p *rt.Proc, q *world.HTTPRequest) *world.HTTPResponse {
		resp := &world.HTTPResponse{Status: 200, Delay: 40 * ms, Body: []byte("{}")}
		limit := 5 * sec
		if !strings.Contains(q.URL, "/telemetry") {
			resp.Status, limit = 404, 40*sec
		}
		if httpMode != "ok" {
			c.W.Fault("http-" + httpMode)
		}
		switch httpMode {
		case "err":
			resp.Err = errors.New("dial tcp: lookup api.alda.io: no such host")
			resp.Delay = 3 * sec
		case "500":
			resp.Status, resp.Body = 500, []byte("oops")
		case "hang":
			resp.Hang, resp.Delay = true, 3600*sec
		case "stall":
			resp.StallAt, resp.Delay = 1, 3600*sec
		case "slow":
			resp.Delay = 3 * sec
		case "cut":
			resp.CutAt = 1
		case "redirect":
			resp.Status = 302
		}
		until := c.Now() + resp.Delay
		if until > c.Now()+limit {
			until = c.Now() + limit
		}
		if r := byProc[p]; r != nil && strings.Contains(q.URL, "/telemetry") {
			r.reqs = append(r.reqs, c21request{p, c.Now(), until})
		}
		return resp
	}
	slow := int64(0)
	var disks []Op
	nd := map[string]int{}
	fs.Hook = func(op *world.FSOp) (act world.FSAction) {
		r := byProc[op.P]
		if r == nil {
			return
		}
		class := ""
		switch {
		case strings.HasPrefix(op.Path, c.cacheDir()):
			class = "cache"
		case strings.HasPrefix(op.Path, path.Dir(tele)):
			class = "config"
		case strings.HasPrefix(op.Path, binDir) && (op.Op == "remove" || op.Op == "readdir" || op.Op == "open"):
			class = "bin"
		}
		if class == "" {
			return
		}
		if slow > 0 {
			act.Delay = int64(rt.Choose(rt.Fault, int(slow/ms)+1, c.S.Cfg.PRepeat)) * ms
		}
		for i, d := range disks {
			if d.T != class || d.X[0] != "any" && d.X[0] != op.Op {
				continue
			}
			k := fmt.Sprint(op.P.PID, i)
			nd[k]++
			if nd[k] != int(d.N) && !(d.M == 1 && nd[k] > int(d.N)) {
				continue
			}
			c.W.Fault("disk-" + class + "-" + d.S)
			r.disk = true
			act.Err = map[string]error{"eio": syscall.EIO, "enospc": syscall.ENOSPC, "eacces": syscall.EACCES, "emfile": syscall.EMFILE, "erofs": syscall.EROFS}[d.S]
			return
		}
		return
	}
	available := func() int {
		n := 0
		for _, q := range spawned {
			n++
			if q.Dead {
				n--
				continue
			}
			for _, p := range c.Players {
				if p.P == q && fs.Exists(p.Path) {
					n-- // its file counts
				}
			}
		}
		for _, f := range fs.List(c.playersDir()) {
			b, _ := fs.Get(c.playersDir() + "/" + f)
			rewriting := false // its player has just truncated it
			for _, p := range c.Players {
				rewriting = rewriting || len(b) == 0 && !p.P.Dead && p.Path == c.playersDir()+"/"+f
			}
			if strings.Contains(string(b), "ready") || strings.Contains(string(b), "starting") || rewriting {
				n++
			}
		}
		return n
	}
	olds := func() map[string]string {
		out := map[string]string{}
		for _, f := range fs.List(binDir) {
			if strings.HasSuffix(f, ".old") {
				out[f] = f
			}
		}
		return out
	}
	var runs []*c21run
	busy := func() (l []*c21run) {
		for _, r := range runs {
			if !r.j.Done() {
				l = append(l, r)
			}
		}
		return
	}
	check := func(r *c21run) {
		cmd := r.c
		d := &Done{P: r.p}
		limit := 60 * sec
		entries := int64(len(fs.List(c.playersDir()))) + 6
		switch r.o.S {
		case "play", "playfile", "playfrom", "playport", "playid", "export", "exportdir":
			limit = 120*sec + 25*sec*entries
		case "stop", "shutdown", "resume", "stopport", "shutdownport":
			limit = 60*sec + 16*sec*entries
		case "doctor":
			limit = 300 * sec
		case "update", "replclient", "replmessage":
			limit = 120 * sec
		}
		if slow > 0 {
			limit += 200 * sec
		}
		d = c.wait(r.p, limit)
		at := c.Now()
		left := olds()
		stat := string(func() []byte { b, _ := fs.Get(tele); return b }())
		if !d.Ended {
			c.S.Tracef("%s", c.S.Describe())
			c.Fail("hangs", "%s", d)
			return
		}
		if r.p.Crash != "" {
			c.Fail("crash", "%s: %s", d, r.p.Crash)
			return
		}
		text := c21text(d.Stderr)
		// its own result
		cut := world.Data(r.p).Stdout.Hit
		switch {
		case cut:
			c.W.Fault("stdout-" + r.o.X[0])
			c.Check(d.Code != 0, "lost-output", "its output could not be written: %s", d)
			if g := golden[r.o.S]; g != nil {
				c.Check(strings.HasPrefix(g.Stdout, d.Stdout), "changes-output", "%s; without background work: %q", d, g.Stdout)
			}
		case cmd.want >= 0:
			c.Check(d.Code == cmd.want, "wrong-exit", "expected exit code %d: %s", cmd.want, d)
		case r.o.S == "stop" || r.o.S == "shutdown" || r.o.S == "ps" || r.o.S == "telemetry":
			odd := c.P.hasEntry("dir") || c.P.hasEntry("garbage") || c.P.hasEntry("types") || c.P.hasEntry("empty") || c.P.has("hurt") || stat != "enabled" && stat != "disabled" || r.disk
			if !odd {
				c.Check(d.Code == 0, "wrong-exit", "nothing keeps it from working: %s", d)
			}
		case r.o.S == "soup":
			c.Check(d.Code == 0 || d.Code == 1, "wrong-exit", "%s", d)
		case r.o.S == "play" || r.o.S == "playfile":
			c.Check((d.Code == 0) == strings.Contains(text, "Playing..."), "wrong-exit", "%s", d)
		}
		if d.Code != 0 {
			c.Check(strings.TrimSpace(text) != "" || r.o.S == "doctor" && strings.TrimSpace(d.Stdout) != "", "silent-failure", "%s", d)
			c.NonTrivial = true
		}
		if g := golden[r.o.S]; g != nil && !cut {
			c.Check(d.Stdout == g.Stdout, "changes-output", "with background work: %s; without: %q", d, g.Stdout)
			want := c21text(g.Stderr)
			if c.I("telemetry") == 2 {
				// it may tell about telemetry first
				c.Check(strings.HasSuffix(text, want), "changes-output", "with background work: %s; without: %q", d, g.Stderr)
			} else {
				c.Check(text == want, "changes-output", "with background work: %s; without: %q", d, g.Stderr)
			}
			c.Check(d.Code == g.Code, "changes-exit", "with background work: %s; without: %d", d, g.Code)
		}
		// its background work is done
		for _, q := range r.reqs {
			c.Check(at >= q.until-100*ms, "unfinished-telemetry", "it ended at %.3f s while the telemetry request sent at %.3f s had not been answered: %s", float64(at)/1e9, float64(q.at)/1e9, d)
		}
		if r.quiet && !hurt && !r.disk {
			if !cmd.nopre {
				for _, f := range keys2(r.before, nil) {
					c.Check(left[f] == "", "unfinished-cleanup", "it ended and left %s: %s", f, d)
				}
			}
			if r.on && stat == "enabled" && !cmd.nopre && len(cmd.args) > 0 {
				c.Check(len(r.reqs) == 1, "no-telemetry", "it sent %d telemetry requests: %s", len(r.reqs), d)
			}
			switch r.o.S {
			case "ps", "shutdown", "shutdownid", "shutdownport", "doctor":
			default:
				if r.solo && c.I("spawn") == 1 && !c.P.has("hurt") {
					c.Check(r.n0+r.kids >= 3, "unfilled-pool", "it ended and had started %d players; %d were there: %s", r.kids, r.n0, d)
				}
			}
		} else {
			c.NonTrivial = true
		}
		c.Did(r.o.S)
	}
	finish := func() {
		for _, r := range runs {
			r.j.Wait(2000 * sec)
		}
		runs = nil
	}
	healthy := func() bool { return len(trouble) == 0 && len(disks) == 0 }
	for _, o := range c.P.Ops {
		o := o
		switch o.K {
		case "http":
			httpMode = o.S
		case "slowdisk":
			slow = o.N
		case "disk":
			finish()
			if len(disks) < 2 {
				disks = append(disks, o)
			} else {
				disks = nil
			}
		case "player":
			finish()
			c.PB.InfoDelay, c.PB.PFailStart, c.PB.InfoFail, c.PB.InfoText = infoBase, 0, false, nil
			fs.Put(exePlay, world.MakeProgram("alda-player "+c.Version, 300), 0755)
			trouble = map[string]bool{o.S: true}
			if o.S != "ok" {
				c.W.Fault("player-" + o.S)
			}
			switch o.S {
			case "ok":
				trouble = map[string]bool{}
			case "infofails":
				c.PB.InfoFail = true
			case "infoempty":
				c.PB.InfoText = []string{""}
			case "infotext":
				c.PB.InfoText = []string{"Error: could not find or load main class alda.MainKt\nalda-player \n"}
			case "infohang":
				c.PB.InfoDelay = 3600 * sec
			case "infoslow":
				c.PB.InfoDelay = 12 * sec
				trouble = map[string]bool{}
			case "gone":
				fs.SetMode(exePlay, 0644)
			case "missing":
				fs.Delete(exePlay)
			case "dies":
				c.PB.PFailStart = 1
			case "never":
				c.PB.ReadyMin, c.PB.ReadyMax = 3600*sec, 3600*sec
			case "version":
				fs.Put(exePlay, world.MakeProgram("alda-player 1.9.9", 100), 0755)
			}
		case "hurt":
			finish()
			hurt = true
			switch o.S {
			case "old":
				leftover()
			case "nodir":
				fs.Delete(c.playersDir())
			case "filedir":
				fs.Delete(c.playersDir())
				fs.Put(c.playersDir(), []byte("x"), 0644)
			default:
				for i, p := range c.livePlayers() {
					if i > 0 && o.S != "kill-all" {
						break
					}
					c.W.Fault("player-" + o.S)
					if o.S == "stall" {
						c.S.Stall(p.P)
					} else {
						c.S.Kill(p.P)
					}
				}
			}
		case "sleep":
			finish()
			c.Sleep(o.N)
			hurt = hurt || o.N > 100*sec
		case "cmd":
			if o.At < 0 {
				finish()
			} else {
				c.Sleep(o.At)
			}
			others := busy()
			if len(others) >= 3 {
				finish()
				others = nil
			}
			r := &c21run{o: o, c: c21cmds[o.S], t0: c.Now(), solo: len(others) == 0, slow: slow > 0}
			for _, q := range others {
				q.solo = false
			}
			r.quiet = healthy()
			r.n0 = available()
			b, _ := fs.Get(tele)
			r.on = string(b) == "enabled"
			r.before = olds()
			if o.S == "soup" {
				r.c.args = append([]string{}, c21soup[o.C%len(c21soup)]...)
				if f := r.c.args[len(r.c.args)-1]; f == "-f" {
					f = fmt.Sprintf("soup%d", len(runs))
					fs.Put(workDir+"/"+f, []byte(o.T), 0644)
					r.c.args = append(r.c.args, f)
				} else {
					r.c.args = append(r.c.args, o.T)
				}
			}
			var stdin []byte
			if r.c.pipe {
				stdin = []byte(r.c.stdin)
			}
			r.p = c.W.StartAlda(world.Spec{Name: "alda-" + o.S, Args: append([]string{"alda"}, r.c.args...), Env: c.env, Cwd: workDir, Stdin: stdin, Pipe: r.c.pipe, Exe: exeAlda})
			if len(o.X) > 0 {
				w := world.Data(r.p).Stdout
				w.Err, w.Room = map[string]error{"enospc": syscall.ENOSPC, "eio": syscall.EIO, "efbig": syscall.EFBIG}[o.X[0]], int(o.M)
			}
			byProc[r.p] = r
			runs = append(runs, r)
			r.j = c.Task("check", func() { check(r) })
		}
	}
	finish()
}
