package check

import (
	"fmt"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C07: no client can take the REPL server down.

func init() {
	tuning["C07"] = tune{1500, 80000, "a hostile client sent bytes or messages and the well-behaved client was answered afterwards"}
	register(&Scenario{Prop: "C07", Name: "hostile", Gen: genC07, Run: runC07})
}

var soupWords = []string{"c", "d8", "e4.", "f+", "g-", "a_", "b++", "r", "r1", "o4", "o0", "o9", ">", "<", "|", "[", "]", "{", "}", "(", ")", "'", "\"",
	"*2", "*3", "*0", "'1", "'1-2", "'9", "'3-1", "%m", "@m", "@n", "piano:", "violin:", "nosuch:", "piano/violin:", "piano/violin \"x\":", "x:", "x.piano:", "y.z:",
	"piano \"x\":", "V1:", "V2:", "V0:", "V99:", "foo =", "foo", "foo = foo", "~", "1~2", "c4~", "/", "c/e/g", "c//e", "=", ":", ",", "#", "# x\n", "\n", "\t", "\x00", "\u00e9", "\U0001F3B5", "\xff\xfe",
	"midi-percussion:", "0", "-1", "99999999999999999999", "c0", "c99999", "c0.5", "c-4", "500ms", "0ms", "-5s", "c999999s", "1e9", "\\", "`", "$", "!", "?", ";"}

var soupFns = []string{"octave", "tempo", "metric-modulation", "quant", "vol", "track-vol", "pp", "fff", "pan", "set-duration", "set-duration-ms", "set-note-length", "key-sig", "transpose",
	"reference-pitch", "midi-channel", "list", "ms", "note-length", "duration", "midi-note", "pitch", "note", "pause", "slur", "quote", "no-such", "voices", "times", "tempo!", "key-sig!", "transpose!", "reference-pitch!", "midi-channel!", "set-duration!", "quant!", "octave!", "vol!"}

var soupArgs = []string{"0", "1", "-1", "60", "120", "100", "0.5", "-0.0", "1000000", "-1000000", "99999999999999999999", "1e308", "\"4\"", "\"4..\"", "\"0\"", "\"f+ c+\"", "\"\"", "\"g minor\"", "\"h\"", "'(g major)", "'(a flat minor)", "'()", "()", "'up", "'down", "'x", "nil", "true", "(ms 0)", "(ms -100)", "(ms 500)",
	"(note-length 0)", "(note-length 4)", "(note-length \"8.\")", "(duration (ms 1))", "(duration)", "(pitch '(c))", "(pitch 'c)", "(midi-note 60)", "(midi-note -5)", "(midi-note 999)", "(note (midi-note 60))", "(list)", "(list 1 2)", "[c d]", "{c d}", "foo", "'foo", "''", "(slur)", ":x", "#", "\"unterminated"}

func (g *Gen) sexp(depth int) string {
	out := "(" + soupFns[g.N(0, len(soupFns)-1)]
	for i := g.N(0, 3); i > 0; i-- {
		if depth > 0 && g.Bool(0.2) {
			out += " " + g.sexp(depth-1)
		} else {
			out += " " + soupArgs[g.N(0, len(soupArgs)-1)]
		}
	}
	return out + ")"
}

// soup writes code that may mean anything or nothing.
func (g *Gen) soup() string {
	switch g.N(0, 15) {
	case 0: // deep nesting
		n := int(g.OneI(10, 900, 3000, 20000, 300000))
		open := g.OneOf("[", "{", "(", "'(", "(list ", "[[", "[{", "c/", "'", "((", "[c ", "{c ", "(quote ", "c [", "~", "c~", "V1: [")
		if n > 20000 && !strings.ContainsAny(open[:1], "[{('") {
			n = 20000 // these are long rather than deep
		}
		if n*len(open) > 300000 {
			n = 300000 / len(open)
		}
		s := strings.Repeat(open, n)
		if g.Bool(0.5) {
			s += "c"
			if cl := map[byte]string{'[': "]", '{': "}", '(': ")"}[open[0]]; cl != "" {
				s += strings.Repeat(cl, n)
			}
		}
		return "piano: " + s
	case 1: // long
		return strings.Repeat(g.OneOf("c ", "piano: ", "x", "\n", "\"", "1", ".", "c~", "'", ">", "+", "c+", "/", "(", "%"), int(g.OneI(1000, 20000)))
	case 2: // nested repeats, bounded
		return "piano: [[[c]*9 d]*9 e]*" + g.OneOf("0", "-1", "2", "9", "01", "1.5", "x", "")
	case 3:
		return g.OneOf("foo = foo\nfoo", "a1 = b1\nb1 = a1\npiano: a1", "foo = [foo]*2\npiano: foo foo", "foo = c\nfoo = foo foo\nfoo = foo foo\npiano: foo", "ab = cd\npiano: ab cd", "foo = foo")
	}
	var sb strings.Builder
	if g.Bool(0.7) {
		sb.WriteString("piano: ")
	}
	for i := g.N(1, 14); i > 0; i-- {
		if g.Bool(0.3) {
			sb.WriteString(g.sexp(2))
		} else {
			sb.WriteString(soupWords[g.N(0, len(soupWords)-1)])
		}
		if g.Bool(0.85) {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

var hostileOps = []string{"eval-and-play", "eval-and-play", "eval-and-play", "eval-and-play", "load", "load", "score-data", "score-events", "score-ast", "score-text", "replay", "export", "new-score", "stop", "describe", "clone", "instruments", "eval", "nothing", ""}

// hostileMsg is a well-formed message with any content, as bencode.
func (g *Gen) hostileMsg() string {
	m := map[string]interface{}{}
	m["op"] = hostileOps[g.N(0, len(hostileOps)-1)]
	if g.Bool(0.1) {
		m["op"] = g.weird(2)
	}
	if g.Bool(0.5) || m["op"] == "eval-and-play" || m["op"] == "load" {
		m["code"] = g.soup()
		if g.Bool(0.1) {
			m["code"] = g.weird(2)
		}
	}
	for _, k := range []string{"from", "to"} {
		if g.Bool(0.2) || m["op"] == "replay" && g.Bool(0.6) {
			m[k] = g.OneOf("", "0", "m", "nosuch", "0:01", "1:00:00", "-1", "99999:99", "0:00.5", "\x00", "0:", ":", "a:b", "1e9", "0:99999999999999999999")
			if g.Bool(0.2) {
				m[k] = g.weird(2)
			}
		}
	}
	for _, k := range []string{"id", "session", "status", "problems", "", "data"} {
		if g.Bool(0.2) {
			m[k] = g.weird(3)
		}
	}
	return string(bencode(m))
}

func (g *Gen) weird(depth int) interface{} {
	switch k := g.N(0, 9); {
	case k < 2:
		return g.OneOf("", "x", "\xff\x00", strings.Repeat("y", 3000), "5:hello", "null")
	case k < 4:
		return g.OneI(0, -1, 1<<62, -1<<62, 42)
	case k < 6 && depth > 0:
		var l []interface{}
		for i := g.N(0, 3); i > 0; i-- {
			l = append(l, g.weird(depth-1))
		}
		return l
	case k < 9 && depth > 0:
		m := map[string]interface{}{}
		for i := g.N(0, 3); i > 0; i-- {
			m[g.OneOf("", "a", "op", "id", "\xff", "e")] = g.weird(depth - 1)
		}
		return m
	}
	return "z"
}

// hostileBytes is anything but a well-formed message.
func (g *Gen) hostileBytes() string {
	switch g.N(0, 13) {
	case 0:
		b := make([]byte, g.N(1, 60))
		for i := range b {
			b[i] = byte(g.R.Uint64())
		}
		return string(b)
	case 1:
		b := make([]byte, g.N(1, 40))
		for i := range b {
			b[i] = "ldie0123456789:-e\n "[g.N(0, 18)]
		}
		return string(b)
	case 2:
		return g.OneOf("99999999999:", "9223372036854775807:x", "18446744073709551616:", "4294967295:abc", "2147483648:", "-1:", "-99999999999:x", "00000000000000000005:abcde", "1000000000:abc", "99999999999999999999999999999999:", ":", "5", "5 :hello", "+5:hello", "0x5:hello", "1e3:x")
	case 3:
		return "d2:op" + g.OneOf("99999999999:", "9223372036854775807:x", "-5:", "3000000:", "e", "i", "ie", "i-e", "i--1e", "i99999999999999999999e", "i1.5e", "ixe", "d", "l", "4294967296:x") + "e"
	case 4: // deep nesting
		n := int(g.OneI(100, 5000, 100000, 2000000))
		return strings.Repeat(g.OneOf("l", "d1:a", "d", "ld1:x", "d0:l"), n) + g.OneOf("", "e", strings.Repeat("e", n))
	case 5: // not a dictionary
		return g.OneOf("i42e", "5:hello", "le", "l4:evale", "de", "0:", "e", "ee", "li1ei2ee", "d1:ad1:bd1:cdeeee", "lllleeee")
	case 6: // strange keys
		return g.OneOf("di1e1:xe", "dle1:xe", "d1:xe", "d2:op4:eval2:op4:stope", "d1:b1:x1:a1:ye", "dde1:xe", "d2:opdee", "d2:op0:e", "d0:0:e", "d2:op4:evale d2:op4:evale")
	case 7: // HTTP and other protocols
		return g.OneOf("GET / HTTP/1.1\r\nHost: localhost\r\n\r\n", "(op eval)\n", "{\"op\":\"eval\"}\n", "\x16\x03\x01\x02\x00\x01\x00", "#bundle\x00", "\n\n\n", "quit\n", "#!/bin/sh\n")
	default: // a damaged message
		b := []byte(g.hostileMsg())
		if len(b) > 4000 {
			b = b[:4000]
		}
		switch g.N(0, 3) {
		case 0:
			return string(b[:g.N(0, len(b)-1)])
		case 1:
			b[g.N(0, len(b)-1)] = byte(g.R.Uint64())
		case 2:
			i := g.N(0, len(b)-1)
			b = append(b[:i:i], b[i+1:]...)
		case 3:
			i := g.N(0, len(b)-1)
			b = append(append(append([]byte{}, b[:i]...), g.OneOf("e", "d", "l", "i", ":", "9")[0]), b[i:]...)
		}
		return string(b)
	}
}

func genC07(g *Gen) {
	g.Swarm()
	g.I("players", g.OneI(0, 1, 3))
	n := g.N(2, 9)
	if g.Thorough {
		n = g.N(2, 25)
	}
	g.I("accept", g.OneI(0, 0, 0, 1, 2))
	g.I("hostiles", int64(g.N(1, 3)))
	for i := 0; i < n; i++ {
		o := Op{C: g.N(0, int(g.P.I["hostiles"])-1), At: g.OneI(0, 0, 1*ms, 300*ms)}
		switch k := g.N(0, 19); {
		case k < 8:
			o.K, o.S = "send", g.hostileMsg()
		case k < 13:
			o.K, o.S = "send", g.hostileBytes()
		case k == 13:
			o.K, o.N = "flood", int64(g.N(5, 60))
			o.S = string(bencode(req(g.OneOf("describe", "instruments", "score-data", "score-text", "nosuch"))))
		case k == 14:
			o.K, o.S = "send", string(bencode(req("eval-and-play", "code", "piano: "+strings.Repeat("c16 ", g.N(50, 600)))))
		case k == 15:
			o.K, o.N = "connections", int64(g.N(3, 40))
		case k == 16:
			o.K = "deaf"
		case k < 19:
			o.K = g.OneOf("close", "reset", "close")
		default:
			o.K = "wait"
			o.At = g.Dur(0, 20*sec)
		}
		// what happens after sending
		if o.K == "send" || o.K == "flood" {
			o.T = g.OneOf("", "", "", "close", "reset", "wait", "wait", "split")
		}
		if len(o.S) > 3000000 {
			o.S = o.S[:3000000]
		}
		g.Op(o)
	}
}

func runC07(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 300*ms
	c.startPlayers(int(c.I("players")))
	s := c.newSession(1)
	if s == nil {
		return
	}
	good := s.cl[0]
	if k := c.I("accept"); k > 0 && s.do(good, req("describe")) != nil {
		c.W.Net.AcceptHook = func(l *world.Listener) error {
			if l.Port == s.port && rt.Choose(rt.Fault, 2, 0.3) == 1 {
				c.W.Fault("accept-fails")
				return []error{syscall.ECONNABORTED, syscall.EMFILE}[k-1]
			}
			return nil
		}
	}
	// How long the requests of other clients may keep the server busy: 20 s for
	// a player and as much for an export, 5 s for a client that doesn't read.
	busy := int64(0)
	sent, answered := 0, 0
	var js []*Join
	running := 0
	for k := 0; k < int(c.I("hostiles")); k++ {
		k := k
		running++
		js = append(js, c.Task("hostile", func() {
			defer func() { running-- }()
			var n *NClient
			nc := 0
			deaf := false
			dial := func() bool {
				if n != nil && !n.Closed() {
					return true
				}
				nc++
				n = c.connect(fmt.Sprintf("hostile%d-%d", k, nc), s.port, 5*sec)
				if n != nil {
					n.Paused = deaf
				}
				return n != nil
			}
			for _, o := range c.P.Ops {
				if o.C != k {
					continue
				}
				c.Sleep(o.At)
				if o.K == "wait" {
					continue
				}
				if s.srv.Dead {
					return
				}
				if !dial() {
					c.Check(s.srv.Dead, "no-connect", "the server does not accept connections")
					return
				}
				c.Did(o.K + clip(o.S, 20) + o.T)
				switch o.K {
				case "send", "flood":
					c.W.Fault("hostile-" + o.K)
					times := 1
					if o.K == "flood" {
						times = int(o.N)
					}
					busy += 50 * sec * int64(1+strings.Count(o.S, "2:op")*times)
					c.S.Tracef("%s sends %dx %q", n.Name, times, clip(o.S, 300))
					m := n
					w := c.Task("writer", func() {
						for i := 0; i < times; i++ {
							data := []byte(o.S)
							for len(data) > 0 {
								l := len(data)
								if o.T == "split" && l > 7 {
									l = l/2 + 1
								}
								if m.Raw(data[:l]) != nil {
									return
								}
								data = data[l:]
								if o.T == "split" && l < 1000 {
									c.Sleep(2 * ms)
								}
							}
						}
					})
					w.Wait(1 * sec)
					sent++
					switch o.T {
					case "close":
						c.W.Fault("client-disconnects")
						n.Close()
						n = nil
					case "reset":
						c.W.Fault("client-resets")
						n.Conn.Reset()
						n = nil
					case "wait":
						k := len(n.Resp)
						n.WaitN(k+1, 20*sec)
					}
				case "deaf":
					c.W.Fault("client-does-not-read")
					deaf = true
					n.Paused = true
				case "connections":
					for i := int64(0); i < o.N; i++ {
						if x, err := c.W.Net.Dial(s.port); err == nil {
							if i%3 == 0 {
								x.Write([]byte("d2:op"))
							} else if i%3 == 1 {
								x.Close()
							}
						}
					}
					c.W.Fault("many-connections")
				case "close":
					c.W.Fault("client-disconnects")
					n.Close()
					n = nil
				case "reset":
					c.W.Fault("client-resets")
					n.Conn.Reset()
					n = nil
				}
			}
		}))
	}
	ask := func(m map[string]interface{}) *NResp {
		if s.srv.Dead || good.Closed() {
			return nil
		}
		op := fmt.Sprint(m["op"])
		// requests that come in meanwhile may be handled first
		id := good.Send(m)
		end := c.Now() + 60*sec + busy
		for good.ByID(id) == nil && !good.Closed() && !s.srv.Dead && c.Now() < end {
			good.q.WaitUntil("response", 10*sec)
			end2 := c.Now() + 60*sec + busy
			if running > 0 && end2 < end+busy {
				end = end2
			}
		}
		r := good.ByID(id)
		if s.srv.Dead || s.srv.Spun {
			return nil
		}
		if r == nil {
			c.Check(false, "not-answered", "the server does not answer a well-behaved client's %s within %d s (connection closed: %v)", op, (c.Now())/sec, good.Closed())
			return nil
		}
		if !good.Closed() {
			answered++
		}
		return r
	}
	verdict := func() bool {
		if s.srv.Spun {
			c.Check(false, "endless-loop", "the server hangs in an endless loop")
			return false
		}
		if s.srv.Dead {
			c.Check(false, "server-died", "the server died (exit code %d): %s", s.srv.Code, clip(world.Data(s.srv).Stderr.String(), 500))
			return false
		}
		return len(c.Viol) == 0
	}
	for running > 0 && verdict() {
		ask(req([]string{"describe", "score-text", "instruments"}[c.Now()/ms%3]))
		c.Sleep(500 * ms)
	}
	for _, j := range js {
		j.Wait(10 * sec)
	}
	if !verdict() {
		return
	}
	// afterwards, the server is as good as new
	c.Sleep(10 * sec)
	r := ask(req("describe"))
	if !verdict() || r == nil {
		return
	}
	c.Check(r.OK(), "damaged", "describe after hostile clients: %s", r)
	for try := 0; ; try++ {
		r = ask(req("new-score"))
		if !verdict() || r == nil {
			return
		}
		if r.OK() || try > 20 {
			break
		}
		c.Sleep(2 * sec)
	}
	c.Check(r.OK(), "damaged", "new-score after hostile clients: %s", r)
	r = ask(req("eval-and-play", "code", "cello: e8 %here f"))
	if !verdict() || r == nil {
		return
	}
	if !c.Check(r.OK(), "damaged", "eval-and-play after hostile clients: %s", r) {
		return
	}
	r = ask(req("score-text"))
	if !verdict() || r == nil {
		return
	}
	// (hostile clients that are still connected may have requests in the queue)
	if strings.Contains(r.Str("text"), "%here") {
		c.W.Probe("server-as-good-as-new")
	}
	c.W.Net.AcceptHook = nil
	x := c.connect("newcomer", s.port, 5*sec)
	if c.Check(x != nil, "no-connect", "the server does not accept connections any more") {
		d := x.Do(60*sec+busy, req("describe"))
		verdict()
		if len(c.Viol) == 0 {
			c.Check(d.OK(), "not-answered", "a new client's request is answered with %s", d)
		}
	}
	c.NonTrivial = sent > 0 && answered > 0
}
