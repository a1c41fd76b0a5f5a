package check

import (
	"fmt"
	"math"
	"path"
	"strconv"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C16: alda play delivers the whole score once, or fails.
// C17: a successful alda export means a complete MIDI file.

func init() {
	tuning["C16"] = tune{6000, 150000, "a delivered score was compared, or a command had to fail"}
	register(&Scenario{Prop: "C16", Name: "play", Gen: genC16, Run: runC16})
	tuning["C17"] = tune{2500, 120000, "an exported file was compared, or a command had to fail"}
	register(&Scenario{Prop: "C17", Name: "export", Gen: genC17, Run: runC17})
}

// score writes a whole score; "" if it would be ambiguous what it means.
func (g *Gen) score(max int) (text string, sg *songGen) {
	for try := 0; try < 8; try++ {
		sg = newSong(g)
		var parts []string
		for i := g.N(1, max); i > 0; i-- {
			parts = append(parts, sg.input())
		}
		text = strings.Join(parts, "\n")
		if r, err := NewRef().Try(text); err == nil && sg.ok(r) {
			sg.ref = r
			return text, sg
		}
	}
	text = "piano: c d e"
	sg.ref, _ = NewRef().Try(text)
	sg.markers = nil
	return text, sg
}

var c16pool = []string{"ready", "ready", "ready", "active", "starting", "dead", "other", "garbage"}

func genC16(g *Gen) {
	g.Swarm()
	g.I("startingfor", g.OneI(100*ms, 2*sec))
	g.pool(0, 4, c16pool...)
	g.I("spawn", g.OneI(0, 1, 1, 1))
	n := g.N(1, 3)
	for i := 0; i < n; i++ {
		g.source("play", 8)
	}
}

// source adds one command that reads a score, perhaps with trouble before it.
func (g *Gen) source(kind string, max int) {
	text, sg := g.score(max)
	o := Op{K: kind, S: text, T: "good", C: g.N(0, 2)}
	for i := 0; i < 2; i++ {
		x := ""
		if g.Bool(0.3) {
			x = sg.place()
		}
		o.X = append(o.X, x)
	}
	if g.Bool(0.12) {
		o.S, o.T = text+"\n"+sg.bad(), "bad"
	}
	o.X = append(o.X, g.OneOf("", "", "", "", "", "id", "port", "noid", "noport"))
	if g.Bool(0.4) {
		k := g.OneOf("kill", "refuse", "reset", "cut", "stall", "stall", "full", "rmstate", "nofile", "eio")
		if k == "cut" && kind == "export" {
			// A connection on one machine does not lose what was written to it
			// while both ends live; a lost score would go unnoticed.
			k = "kill"
		}
		g.Op(Op{K: "trouble", S: k, N: g.OneI(1, 1, 2, 2, 2, 3, 4), M: g.OneI(0, 1*ms, 40*ms, 500*ms, 4*sec, 8*sec, 30*sec)})
	}
	g.Op(o)
}

// cmdTrouble makes the announced trouble happen to the running command.
type cmdTrouble struct {
	c       *Ctx
	ops     []Op
	p       *rt.Proc
	dials   int
	hit     map[*Player]bool // was hit by something that loses messages
	any     bool             // something happened
	slow    int64            // how long players were stalled
	hung    []*Player
	refuse  map[int]bool
	reset   map[int]bool
	cut     map[int]int64
	lastCut *world.Conn
}

func (c *Ctx) trouble() *cmdTrouble {
	t := &cmdTrouble{c: c, hit: map[*Player]bool{}}
	c.W.Net.DialHook = t.dial
	c.W.Net.WriteHook = t.write
	return t
}

// begin is called just before a command starts.
func (t *cmdTrouble) begin() {
	t.p, t.dials, t.any, t.slow = nil, 0, false, 0
	t.refuse, t.reset, t.cut = map[int]bool{}, map[int]bool{}, map[int]int64{}
	t.lastCut = nil
}

// end is called when it has ended: players that hang go on.
func (t *cmdTrouble) end() {
	t.p, t.ops = nil, nil
	for _, pl := range t.hung {
		if !pl.P.Dead && pl.P.Stalled {
			if pl.L != nil && pl.L.MaxBacklog < 0 {
				pl.L.MaxBacklog = 50
			}
			t.c.S.Resume(pl.P)
		}
	}
	t.hung = nil
}

func (t *cmdTrouble) dial(p *rt.Proc, port int) error {
	c := t.c
	if p != t.p || t.p == nil {
		return nil
	}
	t.dials++
	pl := c.playerByPort(port)
	for i := range t.ops {
		o := &t.ops[i]
		if o.K == "" || int(o.N) != t.dials {
			continue
		}
		o.K = ""
		t.any = true
		switch o.S {
		case "kill":
			if pl != nil {
				t.hit[pl] = true
				c.W.Fault("player-killed")
				c.S.Kill(pl.P)
			}
		case "stall", "full":
			if pl != nil {
				c.W.Fault("player-stalled")
				if o.S == "full" && pl.L != nil {
					pl.L.MaxBacklog = -1
				}
				c.S.Stall(pl.P)
				t.slow += o.M
				d := o.M
				c.Task("resume", func() {
					c.Sleep(d)
					if pl.L != nil && pl.L.MaxBacklog < 0 {
						pl.L.MaxBacklog = 50
					}
					c.S.Resume(pl.P)
				})
				t.hung = append(t.hung, pl)
			}
		case "rmstate":
			if pl != nil {
				c.W.Fault("state-file-removed")
				pl.NoState = true
				c.W.FS.Delete(pl.Path)
			}
		case "refuse":
			t.refuse[port] = true
		case "reset":
			t.reset[port] = true
		case "cut":
			t.cut[port] = o.M
		}
	}
	if t.refuse[port] {
		c.W.Fault("connection-refused")
		return syscall.ECONNREFUSED
	}
	return nil
}

func (t *cmdTrouble) write(cn *world.Conn, b []byte) error {
	c := t.c
	if cn.Side != "c" || t.p == nil || rt.CurProc() != t.p {
		return nil
	}
	if t.reset[cn.Port] {
		c.W.Fault("connection-reset")
		cn.Reset()
		return syscall.ECONNRESET
	}
	if d, ok := t.cut[cn.Port]; ok && t.lastCut != cn {
		t.lastCut = cn
		if pl := c.playerByPort(cn.Port); pl != nil {
			t.hit[pl] = true
		}
		c.Task("cut", func() {
			c.Sleep(d)
			c.W.Fault("connection-reset")
			cn.Reset()
		})
	}
	return nil
}

// sourceArgs turns a score into arguments and standard input.
func (c *Ctx) sourceArgs(o Op, n int) (args []string, stdin []byte) {
	switch o.C {
	case 0:
		return []string{"-c", o.S}, nil
	case 1:
		p := fmt.Sprintf("%s/score%d.alda", workDir, n)
		c.W.FS.Put(p, []byte(o.S), 0644)
		name := p
		if n%2 == 0 {
			name = path.Base(p)
		}
		return []string{"-f", name}, nil
	}
	return nil, []byte(o.S)
}

// wholeScore compares what a player got in one packet with an excerpt of r.
func wholeScore(r *RefScore, from, to float64, g *gotPacket) string {
	e := &expPacket{play: true, notes: r.excerpt(from, to), tempos: r.tempoList(from, to)}
	end := 0.0
	for _, n := range e.notes {
		end = math.Max(end, n.Off+n.Aud)
	}
	h := *g
	h.other = nil
	shut := -1
	for _, x := range g.other {
		f := strings.Fields(strings.Trim(strings.Replace(x, "[", " ", 1), "]"))
		if len(f) == 2 && f[0] == "/system/shutdown" && shut < 0 {
			shut = atoi(f[1])
			continue
		}
		h.other = append(h.other, x)
	}
	if !within1(shut, end+10000) {
		return fmt.Sprintf("shutdown scheduled at %d instead of %d", shut, rnd(end)+10000)
	}
	return e.diff(&h)
}

func runC16(c *Ctx) {
	for _, e := range c.pool() {
		_ = e
	}
	if c.Err != "" {
		return
	}
	c.PB.StartMin, c.PB.StartMax = 50*ms, 800*ms
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, 800*ms
	if c.I("spawn") == 0 {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	t := c.trouble()
	n := 0
	for _, o := range c.P.Ops {
		if o.K == "trouble" {
			t.ops = append(t.ops, o)
		}
		if o.K != "play" {
			continue
		}
		n++
		c.Sleep(1 * sec) // state files settle
		t.begin()
		ref, refErr := NewRef().Try(o.S)
		from, to, okF, okT := 0.0, math.MaxFloat64, true, true
		src, stdin := c.sourceArgs(o, n)
		args := append([]string{"play"}, src...)
		disk := ""
		for _, x := range t.ops {
			if (x.S == "nofile" || x.S == "eio") && o.C == 1 {
				disk = x.S
			}
		}
		if disk == "nofile" {
			c.W.FS.Delete(fmt.Sprintf("%s/score%d.alda", workDir, n))
		}
		if o.X[0] != "" {
			args = append(args, "--from", o.X[0])
			from, okF = ref.Offset(o.X[0])
		}
		if o.X[1] != "" {
			args = append(args, "--to", o.X[1])
			to, okT = ref.Offset(o.X[1])
		}
		if refErr == nil && (ref.Fuzzy || ref.Ambiguous(from, to)) {
			t.ops = nil
			continue
		}
		// whom to tell
		var only *Player
		target := o.X[2]
		ready := 0
		var l []*Player
		for _, pl := range c.Players {
			if pl.Version == c.Version && pl.Alive() && pl.Ready && !pl.NoState && c.W.FS.Exists(pl.Path) {
				l = append(l, pl)
				if pl.State == "ready" {
					ready++
				}
			}
		}
		switch {
		case target == "noid" || target == "id" && len(l) == 0:
			args = append(args, "--player-id", "zzzz")
			target = "noid"
		case target == "noport" || target == "port" && len(l) == 0:
			args = append(args, "--port", "9")
			target = "noport"
		case target == "id":
			only = l[n%len(l)]
			args = append(args, "--player-id", only.ID)
		case target == "port":
			only = l[n%len(l)]
			args = append(args, "--port", strconv.Itoa(only.Port))
		}
		before := map[*Player]int{}
		for _, pl := range c.Players {
			before[pl] = len(pl.packets())
		}
		c.Did(fmt.Sprintf("%s src%d from%v to%v %s ready%d", o.T, o.C, o.X[0] != "", o.X[1] != "", target, ready))
		p := c.AldaIn(workDir, stdin, args...)
		t.p = p
		if disk == "eio" {
			c.W.FS.Hook = func(op *world.FSOp) world.FSAction {
				if op.P == p && op.Op == "read" && strings.HasSuffix(op.Path, ".alda") {
					c.W.Fault("disk-eio")
					return world.FSAction{Err: syscall.EIO}
				}
				return world.FSAction{}
			}
		}
		planned := len(t.ops) > 0 && disk == ""
		bound := 60*sec + 25*sec*int64(len(c.P.Ops)+3)
		d := c.wait(p, bound)
		if !c.Check(d.Ended, "hangs", "%s", d) {
			return
		}
		c.W.FS.Hook = nil
		any, slow := t.any, t.slow
		t.end()
		c.Sleep(3 * sec)
		var got []*gotPacket
		lost := false
		for _, pl := range c.Players {
			k := pl.packets()
			if b := before[pl]; b < len(k) {
				got = append(got, k[b:]...)
			}
			if pl.ActiveAt < 0 && pl.NoState { // its file says nothing
				lost = true
			}
		}
		for _, hit := range t.hit {
			lost = lost || hit
		}
		if !c.Check(len(got) <= 1, "twice", "%s: %d packets arrived: %v", d, len(got), got) {
			return
		}
		fails := refErr != nil || !okF || !okT || disk != "" || target == "noid" || target == "noport"
		if fails {
			c.NonTrivial = true
			c.Check(d.Code != 0 && d.Stderr != "", "no-error", "%s although the score cannot be played (%v)", d, refErr)
			c.Check(len(got) == 0, "plays-anyway", "%s, but %v", d, got)
			continue
		}
		if len(got) == 1 && (d.OK() || got[0].play) {
			diff := wholeScore(ref, from, to, got[0])
			if !c.Check(diff == "", "wrong-score", "%s: %s: %s; score %q from %q to %q", d, got[0], diff, clip(o.S, 400), o.X[0], o.X[1]) {
				return
			}
			c.Check(only == nil || got[0].pl == only, "wrong-player", "%s: %s", d, got[0])
			c.Check(got[0].pl.Version == c.Version, "wrong-player", "%s: %s of version %s", d, got[0], got[0].pl.Version)
			c.NonTrivial = true
		}
		if d.OK() {
			c.Check(len(got) == 1 || lost, "not-delivered", "%s: no player got the score %q", d, clip(o.S, 200))
		} else {
			c.Check(d.Stderr != "", "no-error", "%s fails without a message", d)
			must := !any && slow == 0 && (only != nil || ready > 0 || c.I("spawn") == 1)
			c.Check(!must, "fails", "%s although nothing is wrong (planned trouble: %v); players: %s", d, planned, c.describePool())
		}
		c.Check(!strings.Contains(d.Stderr, "goroutine ") && !strings.Contains(d.Stderr, "panic"), "crash", "%s", d)
	}
}

func genC17(g *Gen) {
	g.Swarm()
	g.I("startingfor", g.OneI(100*ms, 2*sec))
	g.pool(0, 3, "ready", "ready", "ready", "active", "starting", "other")
	g.I("spawn", g.OneI(0, 1, 1, 1))
	n := g.N(1, 3)
	for i := 0; i < n; i++ {
		if g.Bool(0.45) {
			g.Op(Op{K: "player", S: g.OneOf("delay", "delay", "chunks", "chunks", "chunks", "never", "die", "full"), N: g.OneI(1*ms, 300*ms, 5*sec, 40*sec, 58*sec, 61*sec, 70*sec, 100*sec), M: g.OneI(1, 7, 50)})
		}
		if g.Bool(0.3) {
			g.Op(Op{K: "disk", S: g.OneOf("enospc", "eio", "short", "eacces", "rename", "sync"), T: g.OneOf("/tmp", workDir, workDir), N: g.OneI(1, 1, 2, 3), M: g.OneI(0, 1, 5)})
		}
		g.source("export", 6)
		o := &g.P.Ops[len(g.P.Ops)-1]
		o.X[2] = g.OneOf("", "out.mid", "out.mid", "sub/out.mid", "../up.mid", workDir+"/abs.mid", "nowhere/out.mid", "isdir", "link.mid", "again.mid", "again.mid")
		o.M = g.OneI(0, 0, 1, 2)
		if o.X[2] == "" && g.Bool(0.3) {
			o.X = append(o.X, g.OneOf("enospc", "eio", "epipe"))
			o.M = int64(g.N(0, 200))
		}
	}
}

func runC17(c *Ctx) {
	c.pool()
	if c.Err != "" {
		return
	}
	fs := c.W.FS
	c.PB.StartMin, c.PB.StartMax = 50*ms, 800*ms
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, 800*ms
	if c.I("spawn") == 0 {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	fs.PutDir(workDir + "/sub")
	fs.PutDir(workDir + "/isdir")
	fs.Put(workDir+"/target.mid", []byte("old target"), 0644)
	fs.PutLink(workDir+"/link.mid", workDir+"/target.mid")
	t := c.trouble()
	n := 0
	var behave, disk *Op
	for i := range c.P.Ops {
		o := c.P.Ops[i]
		switch o.K {
		case "trouble":
			t.ops = append(t.ops, o)
		case "player":
			behave = &c.P.Ops[i]
		case "disk":
			disk = &c.P.Ops[i]
		}
		if o.K != "export" {
			continue
		}
		n++
		c.Sleep(1 * sec)
		t.begin()
		ref, refErr := NewRef().Try(o.S)
		from, to, okF, okT := 0.0, math.MaxFloat64, true, true
		src, stdin := c.sourceArgs(o, n)
		args := append([]string{"export"}, src...)
		nofile := false
		for _, x := range t.ops {
			nofile = nofile || x.S == "nofile" && o.C == 1
		}
		if nofile {
			fs.Delete(fmt.Sprintf("%s/score%d.alda", workDir, n))
		}
		if o.X[0] != "" {
			args = append(args, "--from", o.X[0])
			from, okF = ref.Offset(o.X[0])
		}
		if o.X[1] != "" {
			args = append(args, "--to", o.X[1])
			to, okT = ref.Offset(o.X[1])
		}
		if refErr == nil && (ref.Fuzzy || ref.Ambiguous(from, to)) {
			t.ops, behave, disk = nil, nil, nil
			continue
		}
		out := o.X[2]
		abs := out
		if out != "" {
			args = append(args, "-o", out)
			if !path.IsAbs(abs) {
				abs = path.Join(workDir, out)
			}
			switch o.M {
			case 1:
				if fs.Kind(abs) == "" && out != "nowhere/out.mid" {
					fs.Put(abs, []byte("MThd\x00\x00\x00\x06old"), 0644)
				}
			case 2: // a complete file of something else
				if fs.Kind(abs) == "" && out != "nowhere/out.mid" {
					fs.Put(abs, (&Player{Notes: []PNote{{Num: 1, Dur: 2, Aud: 3, Vel: 4}}}).MIDI(), 0644)
				}
			}
		}
		// how the player behaves
		pb := &c.PB
		pb.ExportDelay, pb.ExportChunk, pb.ExportGap, pb.ExportDie, pb.ExportNever = 5*ms, 0, 0, 0, false
		full := false
		takes := int64(0)
		if behave != nil {
			switch behave.S {
			case "delay":
				pb.ExportDelay = behave.N
				takes = behave.N
			case "chunks":
				size := int64(60 + 40*len(ref.Notes) + 30*len(ref.Tempos()))
				pb.ExportChunk = int(size/20) + int(behave.M)
				pb.ExportGap = behave.N / 20
				takes = behave.N + behave.N/10
			case "never":
				pb.ExportNever = true
			case "die":
				pb.ExportDie = int(behave.M) * 10
			case "full":
				full = true
			}
		}
		ready := 0
		before, active := map[*Player]int{}, map[*Player]int64{}
		for _, pl := range c.Players {
			before[pl] = len(pl.packets())
			active[pl] = pl.ActiveAt
			if pl.Version == c.Version && pl.Alive() && pl.Ready && !pl.NoState && fs.Exists(pl.Path) && pl.State == "ready" {
				ready++
			}
		}
		c.Did(fmt.Sprintf("%s src%d %q ready%d b%v d%v", o.T, o.C, out, ready, behave != nil, disk != nil))
		t0 := c.Now()
		p := c.AldaIn(workDir, stdin, args...)
		t.p = p
		diskHit := false
		if disk != nil {
			c.diskFault(p, disk.T, disk.S, int(disk.N), int(disk.M))
		}
		pre := fs.Hook
		fs.Hook = func(op *world.FSOp) world.FSAction {
			if full && op.P != p && op.Op == "write" && strings.HasSuffix(op.Path, ".mid") {
				c.W.Fault("disk-full")
				return world.FSAction{Err: syscall.ENOSPC, Short: int(behave.M) % 10}
			}
			if pre != nil {
				a := pre(op)
				diskHit = diskHit || a.Err != nil
				return a
			}
			return world.FSAction{}
		}
		noroom := false
		if len(o.X) > 3 {
			c.W.Fault("stdout-fails")
			w := world.Data(p).Stdout
			w.Err, w.Room = map[string]error{"enospc": syscall.ENOSPC, "eio": syscall.EIO, "epipe": syscall.EPIPE}[o.X[3]], int(o.M)
		}
		d := c.wait(p, 60*sec+65*sec+25*sec*int64(len(c.P.Ops)+3))
		if !c.Check(d.Ended, "hangs", "%s", d) {
			return
		}
		fs.Hook = nil
		any := t.any
		t.end()
		noroom = world.Data(p).Stdout.Hit
		c.Sleep(3 * sec)
		fails := refErr != nil || !okF || !okT || nofile || out == "nowhere/out.mid" || out == "isdir" || pb.ExportNever || full || noroom
		if fails {
			c.NonTrivial = true
			c.Check(d.Code != 0 && d.Stderr != "", "no-error", "%s although the score cannot be exported (%v)", d, refErr)
		} else if d.OK() {
			data := d.Stdout
			what := fmt.Sprintf("standard output of %s", strings.Join(args, " "))
			if out != "" {
				b, found := fs.Get(abs)
				what = fmt.Sprintf("%s written by %s", abs, strings.Join(args, " "))
				if !c.Check(found, "no-file", "%s, but there is no %s", d, abs) {
					return
				}
				data = string(b)
			}
			lines, err := ParseMIDI([]byte(data))
			if !c.Check(err == nil, "incomplete-midi", "%s is not a complete MIDI file: %v (%d bytes)", what, err, len(data)) {
				return
			}
			min := math.MaxFloat64
			want := ref.excerpt(from, to)
			for _, x := range want {
				min = math.Min(min, x.Off)
			}
			for i := range want {
				want[i].Off -= min
				want[i].TVol, want[i].Pan = -7, -7
			}
			var got []PNote
			var tempos [][2]float64
			for _, l := range lines {
				x := PNote{TrackVol: -7, Pan: -7}
				var off int
				var bpm float64
				if k, _ := fmt.Sscanf(l, "note %d %d %d %d %d %d", &x.Rel, &x.Patch, &x.Num, &x.Dur, &x.Aud, &x.Vel); k == 6 {
					got = append(got, x)
				} else if k, _ := fmt.Sscanf(l, "tempo %d %g", &off, &bpm); k == 2 {
					tempos = append(tempos, [2]float64{float64(off), bpm})
				}
			}
			diff := matchNotes(got, want, false)
			if diff == "" {
				diff = matchTempos(tempos, ref.tempoList(from, to))
			}
			if !c.Check(diff == "", "wrong-midi", "%s is not the MIDI file of the score %q from %q to %q: %s", what, clip(o.S, 300), o.X[0], o.X[1], diff) {
				return
			}
			c.NonTrivial = true
		} else {
			c.Check(d.Stderr != "", "no-error", "%s fails without a message", d)
			must := !any && !diskHit && pb.ExportDie == 0 && takes < 50*sec && (ready > 0 || c.I("spawn") == 1)
			c.Check(!must, "fails", "%s although nothing is wrong; players: %s", d, c.describePool())
		}
		c.Check(!strings.Contains(d.Stderr, "goroutine ") && !strings.Contains(d.Stderr, "panic"), "crash", "%s", d)
		// the player it used is shut down
		used := 0
		for _, pl := range c.Players {
			if t.hit[pl] || pl.NoState || len(t.refuse) > 0 || len(t.reset) > 0 {
				continue
			}
			was, ok := active[pl]
			now := pl.ActiveAt >= 0 && (!ok || was < 0) && pl.ActiveAt >= t0
			k := len(pl.packets()) - before[pl]
			if !now && k == 0 {
				continue
			}
			used++
			for _, g := range pl.packets()[before[pl]:] {
				c.Check(!g.play, "plays", "%s makes %s play the score", d, pl)
			}
			if any {
				continue
			}
			told := pl.Dead()
			for _, m := range pl.Msgs {
				told = told || m.Addr == "/system/shutdown" && m.Int(0) == 0
			}
			c.Check(told, "not-shut-down", "%s leaves %s (%s) running", d, pl, pl.State)
		}
		c.Check(used <= 1 || any, "two-players", "%s used %d players", d, used)
		t.ops, behave, disk = nil, nil, nil
	}
}
