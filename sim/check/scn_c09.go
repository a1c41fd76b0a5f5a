package check

import (
	"fmt"

	"alda.sim/rt"
	"alda.sim/world"
)

func init() {
	register(&Scenario{Prop: "C09", Name: "rivals", Weight: 1, Gen: genC09Rivals, Run: runC09Rivals})
}

// Several users of one machine, who share nothing but the directory for
// temporary files, export their scores around the same time.
func genC09Rivals(g *Gen) {
	g.Swarm()
	n := g.N(2, 3)
	g.I("rivals", int64(n))
	for i := 0; i < n; i++ {
		k := g.N(1, 3)
		for j := 0; j < k; j++ {
			text, _ := g.score(3)
			g.Op(Op{K: g.OneOf("server", "server", "command"), C: i, S: text, N: g.Dur(0, 3*sec)})
		}
	}
	g.I("apart", g.OneI(0, 0, 0, 1*ms, 100*ms, 1*sec))
	g.I("delay", g.OneI(0, 5*ms, 300*ms, 2*sec))
	g.I("chunk", g.OneI(0, 7, 22, 50))
	g.I("gap", g.OneI(0, 1*ms, 20*ms, 100*ms))
}

func runC09Rivals(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.PB.ExportDelay, c.PB.ExportChunk, c.PB.ExportGap = c.I("delay"), int(c.I("chunk")), c.I("gap")
	n := int(c.I("rivals"))
	env := c.env
	var jobs []*Join
	good := 0
	for i := 0; i < n; i++ {
		i := i
		e := map[string]string{}
		for k, v := range env {
			e[k] = v
		}
		e["HOME"] = fmt.Sprintf("/home/rival%d", i)
		dir := e["HOME"] + "/work"
		c.W.FS.PutDir(dir)
		c.W.FS.Put(e["HOME"]+"/.config/alda/telemetry-status", []byte("disabled"), 0644)
		c.env = e
		c.startPlayers(3)
		port := 4500 + i
		srv := c.startServer(port, dir)
		if !c.Until(20*sec, 20*ms, func() bool { return c.W.Net.Listening(port) == srv }) {
			c.Fail("no-server", "the REPL server does not listen after 20 s")
			return
		}
		x := c.connect(fmt.Sprintf("rival%d", i), port, 5*sec)
		if x == nil {
			c.Fail("no-connect", "cannot connect to the server")
			return
		}
		k := 0
		jobs = append(jobs, c.Task(fmt.Sprint("rival", i), func() {
			rt.Sleep(3*sec + int64(i)*c.I("apart"))
			for _, o := range c.P.Ops {
				if o.C != i {
					continue
				}
				ref, err := NewRef().Try(o.S)
				if err != nil || ref.Fuzzy || len(ref.Notes) == 0 {
					continue
				}
				rt.Sleep(o.N)
				k++
				size := int64(len(ref.Notes)+len(ref.Tempos())+4) * 60
				slow := c.PB.ExportChunk > 0 && c.PB.ExportDelay+size/int64(c.PB.ExportChunk)*c.PB.ExportGap > 14*sec
				if o.K == "command" {
					out := fmt.Sprintf("%s/out%d.mid", dir, k)
					p := c.W.StartAlda(world.Spec{Name: fmt.Sprint("alda-export", i), Args: []string{"alda", "export", "-c", o.S, "-o", out}, Env: e, Cwd: dir, Exe: exeAlda})
					d := c.wait(p, 200*sec)
					if !c.Check(d.Ended, "hangs", "%s", d) {
						return
					}
					if !d.OK() {
						c.Check(slow, "fails", "%s although nothing is wrong", d)
						continue
					}
					b, ok := c.W.FS.Get(out)
					if c.Check(ok, "no-file", "%s, but there is no file", d) {
						checkMIDI(c, ref, fmt.Sprintf("%s of rival %d", out, i), string(b))
						good++
					}
					continue
				}
				r := x.Do(150*sec, req("load", "code", o.S))
				if !c.Check(r != nil && r.OK(), "load-fails", "rival %d cannot load %q: %v", i, clip(o.S, 200), r) {
					return
				}
				r = x.Do(150*sec, req("export"))
				if !c.Check(r != nil, "no-response", "export got no response within 150 s") {
					return
				}
				if !r.OK() {
					c.Check(slow, "export-fails", "the export of rival %d fails although nothing is wrong: %s", i, r.Problems())
					continue
				}
				checkMIDI(c, ref, fmt.Sprintf("the export response to rival %d", i), r.Str("binary-data"))
				good++
			}
		}))
	}
	c.env = env
	for _, j := range jobs {
		if !j.Wait(1000 * sec) {
			c.Fail("stuck", "the exports have not ended after 1000 s")
			return
		}
	}
	c.NonTrivial = good >= 2
}
