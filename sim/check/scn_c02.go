package check

import (
	"fmt"
	"reflect"
	"strings"
)

func init() {
	tuning["C02"] = tune{4000, 200000, "at least three requests were answered, some of them on connections with requests in flight"}
	register(&Scenario{Prop: "C02", Name: "mixed", Weight: 3, Gen: genC02, Run: runC02})
	register(&Scenario{Prop: "C02", Name: "slow-reader", Weight: 1, Gen: genC02Slow, Run: runC02Slow})
}

var okOps = []string{"describe", "clone", "eval", "score-text", "score-data", "score-events", "score-ast", "instruments", "describe", "clone"}

func genC02(g *Gen) {
	g.Swarm()
	nc := g.N(1, 3)
	g.I("clients", int64(nc))
	style := g.N(0, 3) // 0 wait, 1 pipelined, 2 back to back, 3 mixed
	split := g.OneI(0, 0, 1, 2)
	n := g.N(3, 14)
	if g.Thorough {
		n = g.N(3, 30)
	}
	for i := 0; i < n; i++ {
		o := Op{K: "req", C: g.N(0, nc-1)}
		switch g.N(0, 9) {
		case 0:
			o.S = g.OneOf("no-such-op", "EVAL", "load-file", "ls-sessions", "close", "")
		case 1:
			o.S = g.OneOf("!noop", "!opint", "!oplist", "!opdict")
		case 2:
			o.S = g.OneOf("eval-and-play", "load")
			o.T = g.OneOf("!missing", "!int")
		case 3, 4:
			o.S = g.OneOf("eval-and-play", "eval-and-play", "load", "replay", "stop", "new-score")
			if o.S == "eval-and-play" || o.S == "load" {
				o.T = fmt.Sprintf("piano: c%d %%tag%d", []int{4, 8, 1}[g.N(0, 2)], i)
				if g.Bool(0.2) {
					o.T = fmt.Sprintf("piano: [c %%tag%d", i)
				}
			}
		default:
			o.S = okOps[g.N(0, len(okOps)-1)]
		}
		switch g.N(0, 7) {
		case 0:
			o.N |= 1 // no id
		case 1:
			o.N |= 2 // no session
		case 2:
			o.N |= 3
		case 3:
			o.N |= g.OneI(4, 8, 16, 32) // id is a number, a negative number, a list, a dictionary
		}
		if g.Bool(0.15) {
			o.N |= g.OneI(64, 128) // so is the session
		}
		switch style {
		case 0:
			o.M = 0
		case 1:
			o.M = 1
		case 2:
			o.M = 2
		default:
			o.M = g.OneI(0, 1, 2)
		}
		if g.Bool(0.3) {
			o.At = g.Dur(0, 400*ms)
		}
		if split > 0 && g.Bool(0.5) {
			o.X = append(o.X, "split")
			o.X = append(o.X, fmt.Sprint(g.N(1, 9)))
			o.X = append(o.X, fmt.Sprint(g.OneI(0, 1, 30, 300)))
		}
		g.Op(o)
	}
	g.I("prefill", g.OneI(0, 1, 3))
	if g.Bool(0.12) { // no player ever: some requests take 20 s to fail
		g.I("prefill", 0)
		g.I("none", 1)
	}
}

type c02req struct {
	id, session interface{}
	op          string
	tag         string
	bad         bool // must be answered with an error
	score       bool // may mention tags of others
}

func runC02(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 300*ms
	c.startPlayers(int(c.I("prefill")))
	slow := 60 * sec
	if c.I("none") == 1 {
		c.W.Fault("no-players")
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
		slow = 60*sec + 45*sec*int64(len(c.P.Ops))
	}
	c.startServer(4500, workDir)
	nc := int(c.I("clients"))
	if nc < 1 {
		nc = 1
	}
	if !c.Until(10*sec, 20*ms, func() bool { return c.W.Net.Listening(4500) != nil }) {
		c.Fail("no-server", "the REPL server does not listen after 10 s")
		return
	}
	clients := make([]*NClient, nc)
	reqs := make([][]*c02req, nc)
	var joins []*Join
	var tokens []string // every id and session used anywhere
	for k := 0; k < nc; k++ {
		k := k
		joins = append(joins, c.Task(fmt.Sprintf("client%d", k), func() {
			n := c.connect(fmt.Sprintf("client%d", k), 4500, 5*sec)
			if n == nil {
				c.Fail("no-connect", "cannot connect to the server")
				return
			}
			clients[k] = n
			var pend []byte
			flush := func() {
				if len(pend) > 0 {
					n.Raw(pend)
					pend = nil
				}
			}
			for i, o := range c.P.Ops {
				if o.K != "req" || o.C != k {
					continue
				}
				m := map[string]interface{}{}
				r := &c02req{op: o.S}
				if o.N&1 == 0 {
					name := fmt.Sprintf("id-%d-%d-z", k, i)
					switch {
					case o.N&4 != 0:
						name = fmt.Sprint(70000 + i)
						r.id = int64(70000 + i)
					case o.N&8 != 0:
						name = fmt.Sprint(-70000 - i)
						r.id = int64(-70000 - i)
					case o.N&16 != 0:
						r.id = []interface{}{name, int64(0)}
					case o.N&32 != 0:
						r.id = map[string]interface{}{"": name}
					default:
						r.id = name
					}
					m["id"] = r.id
					tokens = append(tokens, name)
				}
				if o.N&2 == 0 {
					name := fmt.Sprintf("sess-%d-%d-z", k, i)
					switch {
					case o.N&64 != 0:
						name = fmt.Sprint(80000 + i)
						r.session = int64(80000 + i)
					case o.N&128 != 0:
						r.session = []interface{}{name, "x", int64(-1)}
					default:
						r.session = name
					}
					m["session"] = r.session
					tokens = append(tokens, name)
				}
				switch o.S {
				case "!noop":
					r.bad = true
				case "!opint":
					m["op"], r.bad = 12, true
				case "!oplist":
					m["op"], r.bad = []interface{}{"eval"}, true
				case "!opdict":
					m["op"], r.bad = map[string]interface{}{"op": "eval"}, true
				case "eval-and-play", "load":
					m["op"] = o.S
					switch o.T {
					case "!missing":
						r.bad = true
					case "!int":
						m["code"], r.bad = 7, true
					default:
						m["code"] = o.T
						r.bad = strings.Contains(o.T, "[")
					}
				case "replay", "stop", "new-score":
					m["op"] = o.S
				default:
					m["op"] = o.S
					known := false
					for _, x := range okOps {
						if x == o.S {
							known = true
						}
					}
					r.bad = !known
				}
				if o.At > 0 {
					flush()
					c.Sleep(o.At)
				}
				reqs[k] = append(reqs[k], r)
				data := bencode(m)
				c.S.Tracef("%s request %s id=%v session=%v", n.Name, o.S, r.id, r.session)
				c.Did(fmt.Sprintf("%d%s%d", k, o.S, o.M))
				if len(o.X) == 3 && o.M != 2 {
					flush()
					parts, gap := atoi(o.X[1]), int64(atoi(o.X[2]))*ms
					for len(data) > 0 {
						l := len(data)/parts + 1
						if l > len(data) {
							l = len(data)
						}
						n.Raw(data[:l])
						data = data[l:]
						if gap > 0 && len(data) > 0 {
							c.Sleep(gap)
						}
					}
				} else {
					pend = append(pend, data...)
					if o.M != 2 {
						flush()
					}
				}
				if o.M == 0 {
					flush()
					if !n.WaitN(len(reqs[k]), slow) {
						return
					}
				}
			}
			flush()
			n.WaitN(len(reqs[k]), slow+30*sec)
			c.Sleep(200 * ms) // anything extra?
		}))
	}
	for _, j := range joins {
		if !j.Wait(slow*int64(len(c.P.Ops)+2) + 600*sec) {
			c.Harness("client task hangs")
			return
		}
	}
	answered := 0
	for k := 0; k < nc; k++ {
		n := clients[k]
		if n == nil {
			continue
		}
		c.Check(n.BadAt == "", "garbage", "%s: %s", n.Name, n.BadAt)
		answered += len(n.Resp)
		for i, r := range reqs[k] {
			if i >= len(n.Resp) {
				c.Check(false, "no-response", "%s: request %d (%s) of %d got no response (connection closed: %v); %d responses arrived", n.Name, i+1, r.op, len(reqs[k]), n.Closed(), len(n.Resp))
				break
			}
			p := n.Resp[i]
			if !c.Check(reflect.DeepEqual(p.M["id"], r.id), "wrong-id", "%s: response %d has id %v, request %d (%s) had %v", n.Name, i+1, p.M["id"], i+1, r.op, r.id) {
				break
			}
			c.Check(reflect.DeepEqual(p.M["session"], r.session), "wrong-session", "%s: response %d has session %v, request %d (%s) had %v", n.Name, i+1, p.M["session"], i+1, r.op, r.session)
			c.Check(p.Has("done"), "not-done", "%s: response %d to %s is not final: %s", n.Name, i+1, r.op, p)
			if r.bad {
				c.Check(p.Has("error"), "no-error", "%s: invalid request %d (%s) is answered without an error: %s", n.Name, i+1, r.op, p)
			} else if !needsPlayer(r.op) {
				c.Check(!p.Has("error"), "spurious-error", "%s: valid request %d (%s) is answered with an error: %s", n.Name, i+1, r.op, p)
			}
			flat := fmt.Sprint(p.M)
			for _, t := range tokens {
				if (r.id == nil || !containsToken(fmt.Sprint(r.id), t)) && (r.session == nil || !containsToken(fmt.Sprint(r.session), t)) && containsToken(flat, t) {
					c.Check(false, "foreign-data", "%s: response %d to %s contains %q of another request: %s", n.Name, i+1, r.op, t, p)
					break
				}
			}
			if !strings.HasPrefix(r.op, "score") && strings.Contains(flat, "tag") && !r.bad {
				c.Check(false, "foreign-data", "%s: response %d to %s contains code: %s", n.Name, i+1, r.op, p)
			}
		}
		c.Check(len(n.Resp) <= len(reqs[k]), "extra-response", "%s: %d responses to %d requests; last: %s", n.Name, len(n.Resp), len(reqs[k]), lastResp(n))
	}
	c.NonTrivial = answered >= 3
}

// needsPlayer: the operation may fail because of the player (C06 judges that).
func needsPlayer(op string) bool {
	switch op {
	case "eval-and-play", "load", "replay", "stop", "new-score", "export":
		return true
	}
	return false
}

func lastResp(n *NClient) *NResp {
	if len(n.Resp) == 0 {
		return nil
	}
	return n.Resp[len(n.Resp)-1]
}

func containsToken(s, t string) bool {
	for {
		i := strings.Index(s, t)
		if i < 0 {
			return false
		}
		j := i + len(t)
		isw := func(b byte) bool { return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' }
		if (i == 0 || !isw(s[i-1])) && (j >= len(s) || !isw(s[j])) {
			return true
		}
		s = s[j:]
	}
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// ---------------------------------------------------------------- slow readers

// A client that does not read for a while gets everything in the end, or loses
// its connection; it never gets anything that is not a response of its own.
func genC02Slow(g *Gen) {
	g.Swarm()
	if g.P.Cfg.MaxDelay > 20*ms {
		g.P.Cfg.MaxDelay = 20 * ms // many segments per response
	}
	g.I("buf", g.OneI(1024, 1024, 4096, 16384))
	g.I("notes", int64(g.N(1, 80)))
	for i := g.N(2, 9); i > 0; i-- {
		o := Op{K: "req", C: 0, S: g.OneOf("score-data", "score-data", "score-events", "score-text", "describe", "instruments", "score-ast", "nothing")}
		if g.Bool(0.25) {
			o.C = 1
		}
		if g.Bool(0.4) {
			o.At = g.Dur(0, 3*sec)
		}
		g.Op(o)
		if g.Bool(0.4) {
			g.Op(Op{K: "pause", N: g.OneI(10*ms, 1*sec, 4*sec, 4900*ms, 5500*ms, 9*sec, 20*sec)})
		}
	}
}

func runC02Slow(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 300*ms
	c.startPlayers(1)
	s := c.newSession(2)
	if s == nil {
		return
	}
	r := s.do(s.cl[1], req("eval-and-play", "code", "piano: "+strings.Repeat("c16 ", int(c.I("notes")))))
	if r == nil || !r.OK() {
		return
	}
	c.W.Net.BufSize = int(c.I("buf"))
	slow := c.connect("slow", s.port, 5*sec)
	if slow == nil {
		c.Fail("no-connect", "cannot connect to the server")
		return
	}
	var ids [2][]string
	paused, until := int64(0), int64(0)
	cl := []*NClient{slow, s.cl[1]}
	base := len(s.cl[1].Resp)
	var js []*Join
	for k := range cl {
		k := k
		js = append(js, c.Task("client", func() {
			for i, o := range c.P.Ops {
				if o.K == "pause" && k == 0 {
					c.W.Fault("client-does-not-read")
					slow.Paused = true
					until = c.Now() + o.N
					if o.N > paused {
						paused = o.N
					}
					c.Task("resume", func() {
						c.Sleep(o.N)
						if c.Now() >= until {
							slow.Paused = false
							slow.pq.WakeAll()
						}
					})
				}
				if o.K != "req" || o.C != k {
					continue
				}
				c.Sleep(o.At)
				id := fmt.Sprintf("slow-%d-%d-z", k, i)
				if cl[k].Raw(bencode(req(o.S, "id", id))) != nil {
					return
				}
				c.Did(o.S)
				ids[k] = append(ids[k], id)
			}
		}))
	}
	for _, j := range js {
		j.Wait(600 * sec)
	}
	c.Sleep(60*sec + paused)
	lost := false
	for k, n := range cl {
		got := n.Resp
		if k == 1 {
			got = got[base:]
		}
		c.Check(n.BadAt == "", "garbage", "%s: %s", n.Name, n.BadAt)
		for i, p := range got {
			if !c.Check(i < len(ids[k]), "extra-response", "%s: %d responses to %d requests; last: %s", n.Name, len(got), len(ids[k]), p) {
				return
			}
			if !c.Check(p.Str("id") == ids[k][i] && p.Has("done"), "wrong-id", "%s: response %d has id %v, the request had %s", n.Name, i+1, p.M["id"], ids[k][i]) {
				return
			}
		}
		if len(got) < len(ids[k]) {
			lost = true
			c.Check(k == 0 && n.Closed() && paused >= 4*sec, "no-response", "%s: %d of %d requests got a response (it did not read for %.1f s; connection closed: %v)", n.Name, len(got), len(ids[k]), float64(paused)/1e9, n.Closed())
		}
		if !n.Closed() {
			c.Check(len(n.buf) == 0, "garbage", "%s is left with part of a response: %q", n.Name, clip(string(n.buf), 100))
		}
	}
	if lost {
		c.W.Probe("slow-client-lost-its-connection")
	}
	c.NonTrivial = paused > 0 && len(ids[0]) > 0
}
