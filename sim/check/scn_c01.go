package check

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	tuning["C01"] = tune{2500, 120000, "requests of different clients overlapped, the score changed and was read back"}
	register(&Scenario{Prop: "C01", Name: "linear", Gen: genC01, Run: runC01})
}

func genC01(g *Gen) {
	g.Swarm()
	nc := g.N(2, 4)
	n := g.N(4, 14)
	if g.Thorough {
		n = g.N(4, 22)
	}
	g.I("clients", int64(nc))
	g.I("players", g.OneI(1, 3, 3))
	pipe := g.OneI(0, 0, 1) // whether clients send without waiting
	pace := g.OneI(0, 0, 3*ms, 60*ms, 2*sec)
	insts := []string{"piano", "violin", "cello"}
	style := g.N(0, 2)
	for i := 0; i < n; i++ {
		o := Op{K: "req", C: g.N(0, nc-1), M: pipe, N: int64(i)}
		in := insts[g.N(0, 2)] + ": " + g.OneOf("c8", "o4 d e", "r4 g/b", "[a]*3", "V1: c V2: e4 d V0:", "(tempo 90) f") + fmt.Sprintf(" %%tag%d", i)
		if g.Bool(0.15) {
			// larger inputs take longer to send
			in += " " + strings.Repeat("c16 ", g.N(50, 400))
		}
		switch k := g.N(0, 19); {
		case k < 8:
			o.S, o.T = "eval-and-play", in
		case k < 9:
			o.S, o.T = "eval-and-play", g.OneOf("piano: [c", "piano: @nowhere", "piano: c (nope)", "piano: c %x @y")+fmt.Sprintf(" %%tag%d", i)
			if g.Bool(0.5) {
				o.T = fmt.Sprintf("%%tag%d piano: ", i) + g.OneOf("d @nowhere", "d (nope)")
			}
		case k < 10:
			o.S, o.T = "load", in
		case k < 11 && style > 0:
			o.S, o.T = "load", "piano: @nowhere"
		case k < 12 && style > 0:
			o.S = "new-score"
		case k < 13 && style > 1:
			o.S = g.OneOf("replay", "stop", "export")
		default:
			o.S = g.OneOf("score-text", "score-text", "score-data", "score-events", "score-ast")
		}
		if pace > 0 {
			o.At = g.Dur(0, pace)
		}
		g.Op(o)
	}
	if g.Bool(0.2) {
		g.Op(Op{K: "close", C: g.N(0, nc-1), N: g.Dur(0, 1*sec)})
	}
}

// linOp is a request in the history.
type linOp struct {
	i        int
	op, in   string
	cl, k    int // client, position on its connection
	inv, res uint64
	r        *NResp
	ref      map[string]bool
}

var tagRe = regexp.MustCompile(`tag\d+`)

func tagsIn(s string) string {
	var out []string
	for _, t := range tagRe.FindAllString(s, -1) {
		if len(out) == 0 || out[len(out)-1] != t {
			out = append(out, t)
		}
	}
	return strings.Join(out, " ")
}

func runC01(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	c.startPlayers(int(c.I("players")))
	s := c.newSession(int(c.I("clients")))
	if s == nil {
		return
	}
	var hist []*linOp
	ids := map[string]*linOp{}
	var js []*Join
	for k := range s.cl {
		k := k
		n := s.cl[k]
		js = append(js, c.Task(n.Name, func() {
			for _, o := range c.P.Ops {
				if o.C != k {
					continue
				}
				if o.K == "close" {
					break
				}
				c.Sleep(o.At)
				m := req(o.S)
				if o.T != "" {
					m["code"] = o.T
				}
				l := &linOp{i: int(o.N), op: o.S, in: o.T, cl: k, k: len(hist), inv: c.S.NextEvent()}
				hist = append(hist, l)
				id := n.Send(m)
				ids[id] = l
				c.Did(fmt.Sprintf("%d:%s", k, o.S))
				if o.M == 0 && !n.WaitN(n.nid, s.limit) && !n.Closed() {
					c.Check(false, "no-response", "%s got no response within %d s", o.S, s.limit/sec)
					return
				}
			}
			n.WaitN(n.nid, s.limit)
		}))
	}
	for _, o := range c.P.Ops {
		if o.K == "close" && o.C < len(s.cl) {
			n := s.cl[o.C]
			d := o.N
			c.Task("close", func() { c.Sleep(d); c.W.Fault("client-disconnects"); n.Close() })
		}
	}
	for _, j := range js {
		if !j.Wait(1000 * sec) {
			c.Harness("clients do not end")
			return
		}
	}
	for _, n := range s.cl {
		for _, r := range n.Resp {
			if l := ids[r.Str("id")]; l != nil && l.r == nil {
				l.r, l.res = r, r.Seq
			}
		}
	}
	// a final read of everything is part of the history
	var rd *NClient
	for _, n := range s.cl {
		if !n.Closed() {
			rd = n
		}
	}
	if rd = c.connect("reader", 4500, 5*sec); rd == nil {
		c.Fail("no-connect", "cannot connect to the server any more")
		return
	}
	if c.P.has("close") {
		c.Sleep(60 * sec) // what a client that is gone sent may still be executed
	}
	for _, op := range []string{"score-text", "score-data"} {
		l := &linOp{i: 900, op: op, cl: 99, inv: c.S.NextEvent()}
		l.r = rd.Do(s.limit, req(op))
		if l.r == nil {
			c.Fail("no-response", "%s got no response", op)
			return
		}
		l.res = l.r.Seq
		hist = append(hist, l)
	}
	overlap, changed, read := false, false, false
	for i, a := range hist {
		if a.r != nil && a.r.OK() {
			switch a.op {
			case "eval-and-play", "load", "new-score":
				changed = true
			case "stop", "replay", "export":
			default:
				read = true
			}
		}
		for _, b := range hist[i+1:] {
			if a.cl != b.cl && a.res > b.inv && b.res > a.inv {
				overlap = true
			}
		}
		if a.r == nil && a.cl != 99 && !c.P.has("close") {
			c.Check(false, "no-response", "%s %q got no response", a.op, clip(a.in, 60))
			return
		}
	}
	c.NonTrivial = overlap && changed && read
	lz := &linearizer{h: hist, seen: map[string]bool{}, cache: map[string]string{}}
	ok := lz.search(0, nil)
	if lz.steps > linLimit {
		c.W.Probe("linearization-search-cut")
		return
	}
	c.Check(ok, "not-linearizable", "no order of the requests explains the answers; at most %d of %d fit, then: %s", lz.best, len(hist), lz.why)
}

func (p *Plan) has(k string) bool {
	for _, o := range p.Ops {
		if o.K == k {
			return true
		}
	}
	return false
}

const linLimit = 60000

type linearizer struct {
	h     []*linOp
	seen  map[string]bool
	cache map[string]string
	steps int
	best  int
	why   string
}

// apply tells how the answer of an operation contradicts the state, and the
// state after it.
func (z *linearizer) apply(l *linOp, st []string) (string, []string) {
	key := fmt.Sprintf("%d|%s", l.i, l.op) + strings.Join(st, "\x00")
	eval := func(st []string) error {
		k := "eval|" + strings.Join(st, "\x00")
		v, ok := z.cache[k]
		if !ok {
			if _, err := RefOf(st); err != nil {
				v = err.Error()
			}
			z.cache[k] = v
		}
		if v != "" {
			return fmt.Errorf("%s", v)
		}
		return nil
	}
	failed := l.r != nil && !l.r.OK()
	switch l.op {
	case "eval-and-play", "load":
		next := append(append([]string(nil), st...), l.in)
		if l.op == "load" {
			next = []string{l.in}
		}
		err := eval(next)
		if failed {
			if err == nil && !strings.Contains(l.r.Problems(), "player") && !strings.Contains(l.r.Problems(), "connect") {
				return "a valid input was answered with " + l.r.Problems(), nil
			}
			return "", st
		}
		if err != nil {
			if l.r == nil {
				return "", st
			}
			return "an invalid input was accepted", nil
		}
		return "", next
	case "new-score":
		if failed {
			return "", st
		}
		return "", nil
	case "replay", "stop", "export":
		return "", st
	}
	if l.r == nil {
		return "", st
	}
	v, ok := z.cache[key]
	if !ok {
		ref, err := RefOf(st)
		switch {
		case err != nil:
			v = err.Error()
		case l.op == "score-text":
			if strings.TrimSpace(l.r.Str("text")) != strings.TrimSpace(ref.Text()) {
				v = fmt.Sprintf("the text is %q, not %q", clip(l.r.Str("text"), 300), clip(ref.Text(), 300))
			}
		case l.op == "score-data":
			if !l.r.OK() {
				v = l.r.Problems()
			} else if d := ref.diffData(l.r.Str("data")); d != "" {
				v = "the data is not that of " + fmt.Sprintf("%q: ", clip(ref.Text(), 300)) + d
			}
		default:
			got, want := tagsIn(l.r.Str("events")+l.r.Str("ast")), tagsIn(ref.Text())
			if got != want {
				v = fmt.Sprintf("%s has the markers %q, not %q", l.op, got, want)
			}
		}
		z.cache[key] = v
	}
	return v, st
}

// search looks for an order consistent with real time and with the order on
// each connection. Requests that got no answer may have been executed or not.
func (z *linearizer) search(done uint64, st []string) bool {
	if z.steps++; z.steps > linLimit {
		return false
	}
	n, rest := 0, false
	for i, l := range z.h {
		if done&(1<<uint(i)) != 0 {
			n++
		} else if l.r != nil {
			rest = true
		}
	}
	if !rest {
		return true
	}
	key := fmt.Sprintf("%x|", done) + strings.Join(st, "\x00")
	if z.seen[key] {
		return false
	}
	z.seen[key] = true
	// what was answered first bounds what may come next
	first := ^uint64(0)
	for i, l := range z.h {
		if done&(1<<uint(i)) == 0 && l.r != nil && l.res < first {
			first = l.res
		}
	}
	for i, l := range z.h {
		if done&(1<<uint(i)) != 0 || l.inv > first {
			continue
		}
		blocked := false
		for j, o := range z.h {
			// earlier requests on the same connection
			if j < i && o.cl == l.cl && done&(1<<uint(j)) == 0 {
				blocked = true
			}
		}
		if blocked {
			continue
		}
		why, next := z.apply(l, st)
		if why != "" {
			if n >= z.best {
				z.best, z.why = n, fmt.Sprintf("client %d's %s: %s", l.cl, l.op, why)
			}
			continue
		}
		if z.search(done|1<<uint(i), next) {
			return true
		}
	}
	return false
}
