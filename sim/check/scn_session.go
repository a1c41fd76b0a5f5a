package check

import (
	"encoding/json"
	"fmt"
	"strings"
	"syscall"

	"alda.sim/rt"
)

func init() {
	tuning["C03"] = tune{2500, 150000, "a request was answered with an error and one was accepted afterwards"}
	register(&Scenario{Prop: "C03", Name: "session", Gen: genC03, Run: runC03})
	tuning["C04"] = tune{5000, 150000, "at least two evaluations reached players and were compared note by note"}
	register(&Scenario{Prop: "C04", Name: "session", Weight: 3, Gen: genC04, Run: runC04})
	tuning["C05"] = tune{6000, 100000, "at least three inputs were accepted and the result was compared with a fresh evaluation"}
	register(&Scenario{Prop: "C05", Name: "split", Weight: 3, Gen: genC05, Run: runC05})
	register(&Scenario{Prop: "C05", Name: "rich", Weight: 3, Gen: genC05Rich, Run: runC05Rich})
}

// place picks an offset reference.
func (s *songGen) place() string {
	g := s.g
	if len(s.ref.Markers) > 0 && g.Bool(0.6) {
		for i := len(s.markers) - 1; i >= 0; i-- {
			if _, ok := s.ref.Markers[s.markers[i]]; ok && g.Bool(0.6) {
				return s.markers[i]
			}
		}
	}
	return g.OneOf("", "", "0:00", "0:01", "0:02", "0:05", "0:59", "1:00", "nowhere", "0:xx")
}

func (s *songGen) load() string {
	s.ref = NewRef()
	t := s.input()
	for j := s.g.N(0, 3); j > 0; j-- {
		t += "\n" + s.input()
	}
	s.ref, _ = NewRef().Try(t)
	return t
}

// sessionOps writes a session; the weights are those of eval, invalid eval,
// replay, load, new, stop, export, read, raw, sleep, fault.
func sessionOps(g *Gen, s *songGen, n int, w []int, faults []string) {
	for i := 0; i < n; i++ {
		o := Op{C: g.N(0, 2)}
		switch g.R.Pick(w...) {
		case 0:
			o.K, o.S = "eval", s.input()
		case 1:
			o.K, o.S = "eval", s.bad()
		case 2:
			o.K, o.S, o.T = "replay", s.place(), s.place()
		case 3:
			o.K = "load"
			if g.Bool(0.3) {
				o.S = s.bad()
			} else {
				o.S = s.load()
			}
		case 4:
			o.K = "new"
			s.ref = NewRef()
		case 5:
			o.K = "stop"
		case 6:
			o.K = "export"
		case 7:
			o.K = "read"
		case 8:
			o.K, o.S, o.T = "raw", g.OneOf("eval-and-play", "load", "nonsense"), g.OneOf("", "int")
		case 9:
			o.K, o.N = "sleep", g.Dur(100*ms, 40*sec)
		case 10:
			o.K, o.N = faults[g.N(0, len(faults)-1)], g.Dur(1*sec, 90*sec)
			if o.K == "garble" {
				o.S = g.OneOf("", "{", "garbage", `{"port":0}`)
			}
		}
		if g.Bool(0.3) {
			o.At = g.Dur(0, 3*sec)
		}
		g.Op(o)
	}
}

func genC03(g *Gen) {
	g.Swarm()
	s := newSong(g)
	n := g.N(3, 9)
	if g.Thorough {
		n = g.N(3, 20)
	}
	g.I("clients", int64(g.N(1, 2)))
	g.I("players", g.OneI(0, 1, 3))
	g.I("export", g.OneI(0, 0, 1, 2))
	sessionOps(g, s, n, []int{20, 25, 8, 8, 2, 2, 5, 0, 4, 2, 14}, []string{"kill", "kill-all", "outage", "outage", "rmstate", "garble"})
	if g.Bool(0.3) {
		g.I("dialfail", g.OneI(20, 60))
	}
}

func runC03(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.startPlayers(int(c.I("players")))
	switch c.I("export") {
	case 1:
		c.PB.ExportNever = true
	case 2:
		c.PB.ExportDie = 40
	}
	s := c.newSession(int(c.I("clients")))
	if s == nil {
		return
	}
	s.strict = true
	if c.I("export") != 0 {
		s.faulty(1 << 60)
	}
	if p := c.I("dialfail"); p > 0 {
		// connections to players fail now and then
		s.faulty(1 << 60)
		c.W.Net.DialHook = func(p *rt.Proc, port int) error {
			if p == s.srv && rt.Choose(rt.Fault, 2, float64(c.I("dialfail"))/100) == 1 {
				c.W.Fault("connect-fails")
				return syscall.ECONNREFUSED
			}
			return nil
		}
	}
	failed := 0
	for _, o := range c.P.Ops {
		e, k := s.errs, s.oks
		s.run(o)
		if s.Unsure || len(c.Viol) > 0 {
			return
		}
		failed += s.errs - e
		if failed > 0 && s.oks > k {
			c.NonTrivial = true
		}
	}
	if c.I("dialfail") == 0 {
		s.players(s.settle)
	}
}

func genC04(g *Gen) {
	g.Swarm()
	s := newSong(g)
	n := g.N(2, 10)
	if g.Thorough {
		n = g.N(2, 25)
	}
	g.I("clients", int64(g.N(1, 3)))
	g.I("players", g.OneI(0, 1, 3))
	sessionOps(g, s, n, []int{60, 6, 10, 5, 3, 3, 4, 1, 0, 5, 4}, []string{"kill", "rmstate", "kill-other", "garble"})
}

func runC04(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.startPlayers(int(c.I("players")))
	s := c.newSession(int(c.I("clients")))
	if s == nil {
		return
	}
	for _, o := range c.P.Ops {
		s.run(o)
		if s.Unsure || len(c.Viol) > 0 {
			return
		}
	}
	s.players(s.settle)
	c.NonTrivial = s.evals >= 2 && s.oks >= 2
}

func genC05(g *Gen) {
	g.Swarm()
	s := newSong(g)
	s.OpenVoices = true
	n := g.N(3, 10)
	if g.Thorough {
		n = g.N(3, 25)
	}
	for i := 0; i < n; i++ {
		switch k := g.N(0, 19); {
		case k < 13:
			g.Op(Op{K: "eval", S: s.input()})
		case k < 15:
			g.Op(Op{K: "eval", S: s.bad()})
		case k == 15:
			g.Op(Op{K: "read"})
		case k == 16:
			g.Op(Op{K: "replay", S: g.OneOf("", "0:01"), T: g.OneOf("", "0:02")})
		case k == 17:
			if g.Bool(0.3) {
				s.ref = NewRef()
				g.Op(Op{K: "new"})
			}
		case k == 18:
			if g.Bool(0.4) {
				s.ref = NewRef()
				t := s.input()
				for j := g.N(0, 2); j > 0; j-- {
					t += "\n" + s.input()
				}
				s.ref, _ = NewRef().Try(t)
				g.Op(Op{K: "load", S: t})
			}
		case k == 19:
			if g.Bool(0.4) {
				g.Op(Op{K: "export"})
			}
		}
	}
}

func runC05(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.startPlayers(2)
	s := c.newSession(1)
	if s == nil {
		return
	}
	for _, o := range c.P.Ops {
		s.run(o)
		if s.Unsure {
			return
		}
	}
	s.verify("end")
	one := s.data()
	text := s.ref.Text()
	// the same text, evaluated at once by another server
	c.startServer(4600, "/home/user/other")
	n2 := c.connect("other", 4600, 20*sec)
	if n2 == nil {
		c.Fail("no-server", "the second server does not listen")
		return
	}
	t := &Sess{c: c, port: 4600, ref: NewRef(), limit: s.limit, cl: []*NClient{n2}}
	// Both servers may pick the same ready player, and the first may shut it
	// down; so a failed attempt is repeated.
	var r *NResp
	for i := 0; i < 4; i++ {
		if r = t.do(n2, req("load", "code", text)); r == nil {
			return
		}
		if r.OK() {
			break
		}
		c.Sleep(2 * sec)
	}
	if c.Check(r.OK(), "text-rejected", "the text %q of an accepted score is rejected: %s", text, r.Problems()) {
		two := t.data()
		c.Check(one == two, "split-matters", "the score built up piece by piece differs from its text %q evaluated at once: %s", text, firstDiff(one, two))
	}
	c.NonTrivial = s.oks >= 3
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 60
	if j < 0 {
		j = 0
	}
	return "…" + clip(a[j:], 200) + " <> …" + clip(b[j:], 200)
}

// The same for all of the language; here the program is compared with itself.
func genC05Rich(g *Gen) {
	g.Swarm()
	r := newRich(g)
	if g.Bool(0.6) {
		r.Sloppy = g.R.Float64() * 0.4
	}
	n := g.N(3, 14)
	if g.Thorough {
		n = g.N(3, 40)
	}
	var ls []string
	if g.Bool(0.12) {
		ls = strings.Split(r.example(), "\n")
		if len(ls) > 12 { // some of its structure is on several lines
			k := g.N(0, len(ls)-12)
			ls = append(ls[:1:1], ls[k:k+12]...)
		}
	} else {
		ls = r.lines(n)
	}
	for _, l := range ls {
		o := Op{K: "eval", S: l}
		switch k := g.N(0, 59); {
		case k == 0:
			o.K = "new"
		case k == 1:
			o.K = "load"
		case k == 2:
			o.K = "replay"
		case k == 3:
			o.K = "export"
		case k <= 6:
			o.K = "read"
		}
		if g.Bool(0.1) {
			o.S += "\n" + r.line()
		}
		g.Op(o)
	}
}

func runC05Rich(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.startPlayers(2)
	s := c.newSession(1)
	if s == nil {
		return
	}
	n := s.cl[0]
	text, ok := "", 0
	for _, o := range c.P.Ops {
		var r *NResp
		switch o.K {
		case "eval":
			if r = s.do(n, req("eval-and-play", "code", o.S)); r == nil {
				return
			}
			if r.OK() {
				text += strings.TrimSpace(o.S) + "\n"
				ok++
			}
		case "load":
			if r = s.do(n, req("load", "code", o.S)); r == nil {
				return
			}
			if r.OK() {
				text = strings.TrimSpace(o.S) + "\n"
				ok++
			}
		case "new":
			if r = s.do(n, req("new-score")); r == nil {
				return
			}
			if r.OK() {
				text = ""
			}
		case "replay", "export":
			if r = s.do(n, req(o.K)); r == nil {
				return
			}
		case "read":
			if len(s.reads()) == 0 {
				return
			}
			continue
		}
		if r != nil {
			c.Did(o.K + fmt.Sprint(r.OK()))
		}
	}
	r := s.do(n, req("score-text"))
	if r == nil {
		return
	}
	if !c.Check(noBlanks(r.Str("text")) == noBlanks(text), "text", "the score's text is not what was accepted: %s", firstDiff(text, r.Str("text"))) {
		return
	}
	if r = s.do(n, req("score-data")); r == nil {
		return
	}
	one := stableData(noBarlines(r.Str("data")))
	c.W.FS.Put("/home/user/whole.alda", []byte(text), 0644)
	d := c.RunAlda(120*sec, "parse", "-f", "/home/user/whole.alda", "-o", "data")
	if !c.Check(d.Ended, "hangs", "alda parse did not end within 120 s") {
		return
	}
	if c.Check(d.OK(), "text-rejected", "the text %q of an accepted score is rejected: %s", text, clip(d.Stderr, 300)) {
		two := stableData(noBarlines(d.Stdout))
		c.Check(one == two, "split-matters", "the score built up piece by piece differs from its text %q evaluated at once: %s", text, firstDiff(one, two))
	}
	c.NonTrivial = ok >= 3
}

// noBarlines: whether a bar line after a note is taken for a part of its
// duration depends on where the input was split.
func noBarlines(data string) string {
	var v interface{}
	if json.Unmarshal([]byte(data), &v) != nil {
		return data
	}
	b, _ := json.Marshal(dropBarlines(v))
	return string(b)
}

func noBlanks(text string) string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
