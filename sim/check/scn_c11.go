package check

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C11: a REPL client shows the answer to what was typed, or an error.

func init() {
	tuning["C11"] = tune{4000, 200000, "at least three commands were answered or failed and their output was compared"}
	register(&Scenario{Prop: "C11", Name: "session", Weight: 6, Gen: genC11, Run: runC11})
	register(&Scenario{Prop: "C11", Name: "message", Weight: 2, Gen: genC11Message, Run: runC11Message})
	register(&Scenario{Prop: "C11", Name: "real", Weight: 1, Gen: genC11Real, Run: runC11Real})
}

var c11cmds = []string{"eval", "eval", "eval", ":score", ":score", ":score text", ":score data", ":score events", ":score info", ":parts", ":save", ":save", ":save", ":export", ":export", ":load", ":load", ":new", ":stop", ":play", ":version", ":instruments"}

func c11behaviour(g *Gen, o *Op) {
	o.T = "ok"
	switch k := g.N(0, 19); {
	case k < 8:
		o.N = g.OneI(0, 0, 5*ms, 800*ms)
	case k < 10:
		o.N = g.OneI(10*sec, 25*sec, 28*sec, 29900*ms, 30100*ms)
	case k == 10:
		o.N = g.OneI(31*sec, 33*sec, 45*sec, 62*sec) // too late
	case k == 11:
		o.T, o.N = "split", g.OneI(1*ms, 100*ms, 1*sec)
	case k < 14:
		o.T, o.N = "err", g.OneI(0, 10*ms, 5*sec)
	default:
		o.T = g.OneOf("never", "drop", "reset", "partial", "partialhang", "wrongid", "garbage", "notdict", "refuse", "noid")
		o.N = g.OneI(0, 20*ms, 3*sec)
		if o.T == "refuse" {
			o.N = g.OneI(1*sec, 4*sec, 8*sec, 60*sec)
		}
	}
}

func genC11(g *Gen) {
	g.Swarm()
	n := g.N(4, 12)
	if g.Thorough {
		n = g.N(4, 30)
	}
	for i := 0; i < n; i++ {
		o := Op{K: "cmd", S: c11cmds[g.N(0, len(c11cmds)-1)]}
		c11behaviour(g, &o)
		switch o.S {
		case ":save", ":export", ":load":
			o.C = g.N(0, 2) // which file; 0: the one used before
			if g.Bool(0.35) {
				o.X = []string{g.OneOf("enospc", "enospc", "eio", "eacces", "rename", "sync", "short"), fmt.Sprint(g.N(1, 4)), fmt.Sprint(g.N(0, 60))}
			}
			o.M = g.OneI(1, 30, 700, 5000)
		}
		if g.Bool(0.3) {
			o.At = g.Dur(0, 20*sec)
		}
		if g.Bool(0.1) {
			g.Op(Op{K: "restart", N: g.OneI(0, 100*ms, 2*sec)})
		}
		g.Op(o)
	}
	g.I("end", int64(g.N(0, 3)))
	g.I("old", g.OneI(0, 1))
}

// fakeServer is an nREPL server under the control of the plan.
type fakeServer struct {
	c      *Ctx
	port   int
	l      *world.Listener
	conns  []*world.Conn
	reqs   []map[string]interface{}
	nconn  int
	ident  int // answers to clone and describe
	answer func(conn *world.Conn, m map[string]interface{})
}

func (f *fakeServer) open() bool {
	if f.l != nil {
		return true
	}
	l, err := f.c.W.Net.Listen(f.port)
	if err != nil {
		f.c.Harness("fake server: %v", err)
		return false
	}
	f.l = l
	f.c.Task("fake-server", func() {
		for {
			conn, err := l.AcceptConn()
			if err != nil {
				return
			}
			f.nconn++
			f.conns = append(f.conns, conn)
			f.c.Task("fake-conn", func() { f.serve(conn) })
		}
	})
	return true
}

func (f *fakeServer) shut() {
	if f.l != nil {
		f.l.Close()
		f.l = nil
	}
	for _, x := range f.conns {
		x.Close()
	}
	f.conns = nil
}

func (f *fakeServer) serve(conn *world.Conn) {
	var buf []byte
	b := make([]byte, 4096)
	for {
		k, err := conn.Read(b)
		buf = append(buf, b[:k]...)
		for len(buf) > 0 {
			v, used, derr := bdecode(buf)
			if derr == errIncomplete {
				break
			}
			if derr != nil {
				f.c.Fail("bad-request", "the client sent something that is not bencode: %v", derr)
				return
			}
			buf = buf[used:]
			m, ok := v.(map[string]interface{})
			if !ok {
				f.c.Fail("bad-request", "the client sent a %T", v)
				return
			}
			switch m["op"] {
			case "clone":
				conn.Write(bencode(map[string]interface{}{"id": m["id"], "new-session": "fake-session", "status": []interface{}{"done"}}))
			default:
				if m["op"] == "describe" && f.ident == 0 {
					f.ident++
					conn.Write(bencode(describeAnswer(m["id"], "0.0.0")))
					continue
				}
				f.reqs = append(f.reqs, m)
				f.answer(conn, m)
			}
		}
		if err != nil {
			return
		}
	}
}

func describeAnswer(id interface{}, version string) map[string]interface{} {
	return map[string]interface{}{"id": id, "status": []interface{}{"done"},
		"versions": map[string]interface{}{"alda": map[string]interface{}{"version-string": version}},
		"ops":      map[string]interface{}{"eval-and-play": map[string]interface{}{}}}
}

// c11answer is the answer of the server to a request, containing a token.
func c11answer(m map[string]interface{}, tok string, size int) map[string]interface{} {
	r := map[string]interface{}{"status": []interface{}{"done"}}
	if id, ok := m["id"]; ok {
		r["id"] = id
	}
	if s, ok := m["session"]; ok {
		r["session"] = s
	}
	switch m["op"] {
	case "score-text":
		r["text"] = c11text(tok, size)
	case "score-data":
		r["data"] = fmt.Sprintf(`{"parts":{"0xc0":{"name":"piano","stock-instrument":"%s"}},"current-parts":["0xc0"],"events":[],"markers":{"%s":12.5}}`, tok, tok)
	case "score-events":
		r["events"] = fmt.Sprintf(`[{"type":"%s"}]`, tok)
	case "export":
		r["binary-data"] = "MThd\x00\xff" + c11text(tok, size)
	case "instruments":
		r["instruments"] = []interface{}{"midi-" + tok, "b"}
	case "describe":
		return describeAnswer(m["id"], tok)
	}
	return r
}

func c11text(tok string, size int) string {
	var sb strings.Builder
	sb.WriteString("piano: c %" + tok + "\n")
	for sb.Len() < size {
		sb.WriteString("violin: o5 e8 f g\n")
	}
	sb.WriteString("cello: d %" + tok + "\n")
	return sb.String()
}

var c11ops = map[string]string{"eval": "eval-and-play", ":score": "score-text", ":score text": "score-text", ":score data": "score-data", ":score events": "score-events", ":score info": "score-data", ":parts": "score-data",
	":save": "score-text", ":export": "export", ":load": "load", ":new": "new-score", ":stop": "stop", ":play": "replay", ":version": "describe", ":instruments": "instruments"}

// c11error is an error response to request m that says prob-t. Servers differ in
// the order of the statuses and in how much they have to say.
func c11error(m map[string]interface{}, t string) map[string]interface{} {
	l := func(s ...interface{}) []interface{} { return s }
	a := map[string]interface{}{"id": m["id"], "status": l("done", "error"), "problems": l("prob-" + t)}
	h := 0
	for _, r := range t {
		h = h*31 + int(r)
	}
	switch h % 7 {
	case 2:
		a["status"] = l("error", "done")
	case 3:
		a["status"], a["problems"] = l("done", "error", "unknown-op"), l("prob-"+t)
	case 4:
		a["problems"] = l("first", "prob-"+t)
	case 5:
		a["problems"] = l("prob-"+t, "second", "third")
	case 6:
		delete(a, "problems")
		a["status"], a["note"] = l("done", "error", "unknown-op"), "prob-"+t
	}
	return a
}

// diskFault makes the k-th write-ish operation of a process below dir fail.
func (c *Ctx) diskFault(p *rt.Proc, dir, kind string, k, short int) {
	n := 0
	c.W.FS.Hook = func(op *world.FSOp) world.FSAction {
		if op.P != p || !strings.HasPrefix(op.Path, dir) || strings.Contains(op.Path, ".cache") {
			return world.FSAction{}
		}
		hit := false
		switch kind {
		case "enospc", "eio", "short":
			hit = op.Op == "write"
		case "eacces":
			hit = op.Op == "create" || op.Op == "open"
		case "rename":
			hit = op.Op == "rename"
		case "sync":
			hit = op.Op == "close" || op.Op == "sync"
		}
		if !hit {
			return world.FSAction{}
		}
		n++
		if kind != "enospc" && n != k && n != 1 {
			return world.FSAction{}
		}
		c.W.Fault("disk-" + kind)
		switch kind {
		case "enospc":
			return world.FSAction{Err: syscall.ENOSPC, Short: short}
		case "short":
			return world.FSAction{Err: syscall.EIO, Short: short}
		case "eacces":
			return world.FSAction{Err: syscall.EACCES}
		}
		return world.FSAction{Err: syscall.EIO}
	}
}

func runC11(c *Ctx) {
	c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	f := &fakeServer{c: c, port: 4600}
	if !f.open() {
		return
	}
	var cur Op            // the command being executed
	var tok string        // its token
	answered := int64(-1) // when its answer had been sent completely
	good := false         // a proper answer
	var code interface{}
	nreq := 0
	stale := 0
	f.answer = func(conn *world.Conn, m map[string]interface{}) {
		nreq++
		o, t := cur, tok
		c.Check(m["op"] == c11ops[o.S], "wrong-op", "the command %s sends the operation %v", o.S, m["op"])
		code = m["code"]
		a := c11answer(m, t, int(o.M))
		switch o.T {
		case "ok", "err", "split":
			mine := t
			c.Task("answer", func() {
				c.Sleep(o.N)
				if o.T == "err" {
					a = c11error(m, t)
				}
				data := bencode(a)
				if o.T == "split" {
					for len(data) > 0 {
						l := len(data)/3 + 1
						if l > len(data) {
							l = len(data)
						}
						if _, err := conn.Write(data[:l]); err != nil {
							return
						}
						data = data[l:]
						if len(data) > 0 {
							c.Sleep(o.N)
						}
					}
				} else {
					if _, err := conn.Write(data); err != nil {
						c.W.Probe("late-answer-to-closed-connection")
						return
					}
				}
				if mine == tok {
					answered, good = c.Now(), o.T != "err"
				} else {
					c.W.Probe("late-answer")
				}
			})
		case "noid":
			c.W.Fault("answer-without-id")
			delete(a, "id")
			conn.Write(bencode(a))
		case "wrongid":
			c.W.Fault("answer-with-other-id")
			stale++
			a["id"] = fmt.Sprintf("stale-%d", stale)
			conn.Write(bencode(a))
		case "never":
			c.W.Fault("server-does-not-answer")
		case "drop", "refuse":
			c.W.Fault("server-closes-connection")
			if o.T == "refuse" {
				c.W.Fault("connection-refused")
				f.shut()
				c.Task("reopen", func() { c.Sleep(o.N); f.open() })
				return
			}
			c.Sleep(o.N)
			conn.Close()
		case "reset":
			c.W.Fault("connection-reset")
			c.Sleep(o.N)
			conn.Reset()
		case "partial", "partialhang":
			c.W.Fault("partial-answer")
			data := bencode(a)
			conn.Write(data[:len(data)*2/3])
			if o.T == "partial" {
				c.Sleep(o.N)
				conn.Close()
			}
		case "garbage":
			c.W.Fault("garbage-answer")
			conn.Write([]byte("zzz\nno bencode at all\n"))
		case "notdict":
			c.W.Fault("garbage-answer")
			conn.Write([]byte("i42e"))
		}
	}
	p := c.Alda("repl", "--client", "--port", strconv.Itoa(f.port))
	d := world.Data(p)
	if !c.Until(40*sec, 10*ms, func() bool { return p.Dead || d.User != nil && d.User.Prompts > 0 }) || p.Dead {
		c.Fail("no-prompt", "the client shows no prompt: dead=%v stdout=%q stderr=%q", p.Dead, clip(d.Stdout.String(), 200), clip(d.Stderr.String(), 200))
		return
	}
	u := d.User
	files := []string{"", "one.alda", "sub/two.mid"}
	c.W.FS.PutDir(workDir + "/sub")
	if c.I("old") == 1 {
		c.W.FS.Put(workDir+"/one.alda", []byte("piano: c # older content\n"), 0644)
	}
	path := ""
	idle := false // the connection was closed while the client was idle
	compared := 0
	k := 0
	refused := int64(0)
	for _, o := range c.P.Ops {
		if o.K == "restart" {
			c.W.Fault("server-restarted")
			f.shut()
			c.Sleep(o.N)
			if f.l == nil {
				f.open()
			}
			idle = true
			continue
		}
		if o.K != "cmd" {
			continue
		}
		c.Sleep(o.At)
		k++
		cur, tok, answered, good, code = o, fmt.Sprintf("tok%dx", k), -1, false, nil
		req0 := nreq
		line := o.S
		var file, loaded string
		switch o.S {
		case "eval":
			line = "piano: c %" + tok
		case ":save", ":load", ":export":
			file = files[o.C%3]
			if file == "" && o.S == ":export" {
				file = "three.mid"
			}
			if file != "" {
				line += " " + file
				if o.S != ":export" {
					path = file
				}
			} else {
				file = path
			}
			if o.S == ":load" && file != "" {
				if b, ok := c.W.FS.Get(workDir + "/" + file); ok {
					loaded = string(b)
				}
			}
		case ":play":
			line = ":play from " + tok
		}
		var old []byte
		hadOld := false
		if file != "" {
			old, hadOld = c.W.FS.Get(workDir + "/" + file)
		}
		if len(o.X) == 3 {
			c.diskFault(p, workDir, o.X[0], atoi(o.X[1]), atoi(o.X[2]))
		}
		o0, e0, pr0, t0 := len(d.Stdout.B), len(d.Stderr.B), u.Prompts, c.Now()
		c.Did(line + "/" + o.T)
		c.S.Tracef("user types %q (the server will: %s %.3f s)", line, o.T, float64(o.N)/1e9)
		u.Enter(line)
		const bound = 30*sec + 5*sec + 5*sec + 3*sec
		for !p.Dead && u.Prompts == pr0 && c.Now() < t0+bound {
			u.Ready.WaitUntil("prompt", 1*sec)
		}
		c.W.FS.Hook = nil
		took := c.Now() - t0
		out := string(d.Stdout.B[o0:]) + "\n" + string(d.Stderr.B[e0:])
		if !c.Check(!p.Dead, "client-died", "the client ended (code %d) on %q (server: %s): %s", p.Code, line, o.T, clip(out, 300)) {
			return
		}
		if !c.Check(u.Prompts > pr0, "no-prompt", "%q (server: %s): no prompt after %d s", line, o.T, took/sec) {
			return
		}
		compared++
		failed := strings.Contains(out, "ERROR")
		desc := func() string {
			return fmt.Sprintf("%q (server: %s, %.1f s; took %.1f s) printed %q", line, o.T, float64(o.N)/1e9, float64(took)/1e9, clip(out, 300))
		}
		for j := 1; j < k; j++ {
			if containsToken(out, fmt.Sprintf("tok%dx", j)) {
				// what was saved earlier may be loaded, but it isn't printed
				c.Check(false, "foreign-answer", "%s, which contains the answer to command %d", desc(), j)
				return
			}
		}
		got := nreq > req0
		if got && o.S == "eval" {
			c.Check(code == interface{}("piano: c %"+tok), "wrong-code", "%s; the server received the code %v", desc(), code)
		}
		fine := good && answered >= 0 && answered <= t0+27*sec
		late := answered < 0 || answered > t0+33*sec
		switch {
		case o.S == ":load" && !hadOld:
			c.Check(failed && !got, "missing-file", "%s; there is no such file (request sent: %v)", desc(), got)
		case o.S == ":save" && file == "":
			c.Check(failed && !got, "no-file", "%s; no file is known (request sent: %v)", desc(), got)
		case fine && len(o.X) == 0:
			c.Check(!failed, "spurious-error", "%s although the server answered properly after %.1f s", desc(), float64(answered-t0)/1e9)
			switch c11ops[o.S] {
			case "score-text", "score-data", "score-events", "describe", "instruments":
				if o.S != ":save" {
					c.Check(containsToken(out, tok) || strings.Contains(out, tok), "no-answer", "%s instead of the answer with %s", desc(), tok)
				}
			}
		case o.T == "err" && answered >= 0 && answered < t0+27*sec && !(len(o.X) > 0 && !got):
			c.Check(failed && (strings.Contains(out, "prob-"+tok) || o.S == ":load" && !got), "error-not-shown", "%s; the server answered with the error prob-%s", desc(), tok)
		case late && !good:
			c.Check(failed, "false-success", "%s although the server did not answer", desc())
		}
		if o.S == ":load" && hadOld && !failed {
			c.Check(got && good && code == interface{}(loaded), "load-mismatch", "%s; the server got %q, the file holds %q", desc(), clip(fmt.Sprint(code), 100), clip(loaded, 100))
		}
		if (o.S == ":save" || o.S == ":export") && file != "" {
			want := c11text(tok, int(o.M))
			if o.S == ":export" {
				want = "MThd\x00\xff" + want
			}
			now, has := c.W.FS.Get(workDir + "/" + file)
			if !failed {
				c.Check(has && string(now) == want && good, "incomplete-file", "%s; %s holds %d bytes %q instead of the %d bytes the server sent", desc(), file, len(now), clip(string(now), 80), len(want))
			} else {
				c.Check(has == hadOld && string(now) == string(old) || has && string(now) == want, "damaged-file", "%s; %s now holds %d bytes %q, before %d bytes", desc(), file, len(now), clip(string(now), 80), len(old))
			}
		}
		if o.T == "refuse" && c.Now() < t0+o.N {
			refused = t0 + o.N
		}
		_ = idle
		idle = false
		if len(c.Viol) > 0 {
			return
		}
		// between commands a closed server comes back; a command that is typed
		// while it is away fails
		if refused > c.Now() {
			c.Sleep(refused - c.Now() + 10*ms)
		}
	}
	// after all that, the client is as usable as ever: at the latest the second
	// command is answered
	for try := 0; try < 2; try++ {
		k++
		cur, tok, answered, good = Op{S: ":score", T: "ok"}, fmt.Sprintf("tok%dx", k), -1, false
		o0, pr0 := len(d.Stdout.B), u.Prompts
		u.Enter(":score")
		t0 := c.Now()
		for !p.Dead && u.Prompts == pr0 && c.Now() < t0+45*sec {
			u.Ready.WaitUntil("prompt", 1*sec)
		}
		out := string(d.Stdout.B[o0:])
		if containsToken(out, tok) {
			break
		}
		if try == 1 {
			c.Check(false, "unusable", "at the end, with a healthy server, :score printed %q twice", clip(out, 200))
			return
		}
	}
	switch c.I("end") {
	case 0:
		u.Enter("quit")
	case 1:
		u.Enter(":quit")
	case 2:
		u.EOF()
	case 3:
		u.Interrupt()
	}
	if c.Check(world.WaitExit(p, 60*sec), "no-exit", "the client does not exit") {
		c.Check(p.Code == 0, "exit-code", "the client exits with code %d", p.Code)
	}
	c.NonTrivial = compared >= 3
}

// ---------------------------------------------------------------- --message

func genC11Message(g *Gen) {
	g.Swarm()
	for i := g.N(1, 3); i > 0; i-- {
		o := Op{K: "msg", S: g.OneOf("eval", ":score", ":score data", ":export", ":load", ":new", ":stop", ":play", ":version", ":instruments")}
		c11behaviour(g, &o)
		o.M = g.OneI(1, 100, 3000)
		if g.Bool(0.15) {
			o.K = "bad"
			o.S = g.OneOf("{", "[]", "{}", "\"x\"", "12", "{\"code\":\"c\"}", "null", "eval", "{\"op\":\"eval\"")
		}
		if g.Bool(0.1) {
			o.K = "closed"
		}
		if g.Bool(0.1) {
			o.X = []string{g.OneOf("0", "1", "30", "500")} // room for its output
		}
		g.Op(o)
	}
}

func runC11Message(c *Ctx) {
	c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	f := &fakeServer{c: c, port: 4600}
	var cur Op
	var tok string
	good, done := false, int64(-1)
	nreq := 0
	f.answer = func(conn *world.Conn, m map[string]interface{}) {
		nreq++
		o, t := cur, tok
		a := c11answer(m, t, int(o.M))
		data := bencode(a)
		switch o.T {
		case "ok", "split", "err":
			c.Task("answer", func() {
				if o.T == "err" {
					data = bencode(c11error(m, t))
				}
				if o.T == "split" {
					conn.Write(data[:len(data)/2])
					data = data[len(data)/2:]
				}
				c.Sleep(o.N)
				if _, err := conn.Write(data); err == nil && t == tok {
					done, good = c.Now(), o.T != "err"
				}
			})
		case "noid":
			delete(a, "id")
			conn.Write(bencode(a))
		case "wrongid":
			a["id"] = "stale"
			conn.Write(bencode(a))
		case "never":
		case "drop", "refuse":
			conn.Close()
		case "reset":
			conn.Reset()
		case "partial", "partialhang":
			conn.Write(data[:len(data)*2/3])
			if o.T == "partial" {
				conn.Close()
			}
		case "garbage":
			conn.Write([]byte("zzz"))
		case "notdict":
			conn.Write([]byte("i42e"))
		}
		if o.T != "ok" && o.T != "split" && o.T != "err" {
			c.W.Fault("server-" + o.T)
		}
	}
	if !f.open() {
		return
	}
	for k, o := range c.P.Ops {
		cur, tok, good, done, f.ident = o, fmt.Sprintf("tok%dx", k+1), false, -1, 0
		n0 := nreq
		var msg string
		switch o.K {
		case "bad":
			msg = o.S
		default:
			m := map[string]string{"op": c11ops[o.S]}
			if o.S == "eval" || o.S == ":load" {
				m["code"] = "piano: c %" + tok
			}
			if o.S == ":play" {
				m["from"] = tok
			}
			b, _ := json.Marshal(m)
			msg = string(b)
		}
		if o.K == "closed" {
			f.shut()
		} else if f.l == nil {
			f.open()
		}
		c.Did(msg + o.T)
		t0 := c.Now()
		p := c.Alda("repl", "--port", strconv.Itoa(f.port), "--message", msg)
		out := world.Data(p).Stdout
		if len(o.X) > 0 {
			out.Err, out.Room = syscall.ENOSPC, atoi(o.X[0])
		}
		d := c.wait(p, 150*sec)
		if !c.Check(d.Ended && d.Took < 5*sec+30*sec+20*sec, "hangs", "%s (server: %s)", d, o.T) {
			return
		}
		switch {
		case out.Hit:
			c.W.Fault("stdout-enospc")
			c.Check(d.Code != 0 && d.Stderr != "", "false-success", "%s although its output could not be written", d)
		case o.K == "bad":
			c.Check(d.Code != 0 && nreq == n0, "bad-message", "%s; requests sent: %d", d, nreq-n0)
		case o.K == "closed":
			c.Check(d.Code != 0 && d.Stderr != "", "no-error", "%s without a server", d)
		case nreq == n0 && (o.T == "ok" || o.T == "split" || o.T == "err"):
			c.Fail("not-sent", "%s: the server, with which nothing is wrong, never got the message", d)
		case good && done < t0+27*sec:
			c.Check(d.Code == 0, "spurious-error", "%s although the server answered properly (%s)", d, o.T)
			if c11ops[o.S] != "eval-and-play" {
				switch o.S {
				case ":score", ":score data", ":version", ":instruments", ":export":
					c.Check(strings.Contains(d.Stdout, tok), "no-answer", "%s does not show the answer", d)
				}
			}
			var x map[string]interface{}
			err := json.Unmarshal([]byte(d.Stdout), &x)
			c.Check(err == nil, "not-json", "%s does not print JSON: %v", d, err)
		case o.T == "err" && done >= 0 && done < t0+27*sec:
			c.Check(d.Code != 0 && strings.Contains(d.Stdout+d.Stderr, "prob-"+tok), "error-not-shown", "%s although the server answered with an error", d)
		case !good || done > t0+33*sec:
			c.Check(d.Code != 0 && d.Stderr != "", "false-success", "%s although the server did not answer (%s)", d, o.T)
		}
		if len(c.Viol) > 0 {
			return
		}
	}
	c.NonTrivial = true
}

// ---------------------------------------------------------------- real server

func genC11Real(g *Gen) {
	g.Swarm()
	g.I("players", g.OneI(0, 1, 3))
	g.I("embedded", g.OneI(0, 1))
	n := g.N(4, 10)
	for i := 0; i < n; i++ {
		o := Op{K: "cmd", S: g.OneOf("eval", "eval", "eval", ":score", ":score", ":save s.alda", ":load s.alda", ":new", ":stop", ":play", ":export x.mid", ":version", "bad", ":score data", ":parts")}
		if g.Bool(0.25) {
			o.T = g.OneOf("stall", "stall", "kill-players", "other")
			o.N = g.OneI(1*sec, 10*sec, 29*sec, 31*sec, 50*sec)
		}
		if g.Bool(0.4) {
			o.At = g.Dur(0, 10*sec)
		}
		g.Op(o)
	}
}

func runC11Real(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 400*ms
	c.startPlayers(int(c.I("players")))
	var srv, p *rt.Proc
	embedded := c.I("embedded") == 1
	if embedded {
		p = c.Alda("repl", "--port", "4500")
		srv = p
	} else {
		srv = c.startServer(4500, workDir)
		if !c.Until(20*sec, 20*ms, func() bool { return c.W.Net.Listening(4500) != nil }) {
			c.Fail("no-server", "the REPL server does not listen after 20 s")
			return
		}
		p = c.Alda("repl", "--client", "--port", "4500")
	}
	d := world.Data(p)
	if !c.Until(60*sec, 10*ms, func() bool { return p.Dead || d.User != nil && d.User.Prompts > 0 }) || p.Dead {
		c.Fail("no-prompt", "the client shows no prompt: dead=%v stdout=%q stderr=%q", p.Dead, clip(d.Stdout.String(), 200), clip(d.Stderr.String(), 200))
		return
	}
	u := d.User
	// The score as the user knows it: text entered with success, in order, and
	// inputs that failed, which may or may not be part of it.
	type piece struct {
		text  string
		maybe bool
	}
	var score []piece
	reset := false // a failed :new or :load may have replaced the score
	saved := ""
	haveSaved := false
	other := ""
	fits := func(text string) bool {
		// the score is the sequence of pieces, without some of the doubtful ones
		var try func(i int, rest string) bool
		try = func(i int, rest string) bool {
			if i == len(score) {
				return strings.TrimSpace(rest) == ""
			}
			pc := strings.TrimSpace(score[i].text) + "\n"
			rest = strings.TrimLeft(rest, "\n")
			if pc == "\n" {
				return try(i+1, rest)
			}
			if strings.HasPrefix(rest, pc) && try(i+1, rest[len(pc):]) {
				return true
			}
			return score[i].maybe && try(i+1, rest)
		}
		return reset || try(0, text)
	}
	compared := 0
	for k, o := range c.P.Ops {
		c.Sleep(o.At)
		line := o.S
		switch o.S {
		case "eval":
			line = fmt.Sprintf("piano: c8 %%tok%dx", k)
		case "bad":
			line = fmt.Sprintf("piano: c8 %%tok%dx @nowhere", k)
		}
		switch o.T {
		case "stall":
			if !embedded {
				c.W.Fault("server-stalled")
				c.S.Stall(srv)
				c.Task("resume", func() { c.Sleep(o.N); c.S.Resume(srv) })
			}
		case "kill-players":
			for _, q := range c.livePlayers() {
				c.W.Fault("player-killed")
				c.S.Kill(q.P)
			}
		case "other":
			if n := c.connect("other", 4500, 1*sec); n != nil {
				other = fmt.Sprintf("violin: e8 %%other%dx", k)
				r := n.Do(100*sec, req("eval-and-play", "code", other))
				n.Close()
				score = append(score, piece{other, !r.OK()})
			}
		}
		var before []byte
		hadBefore := false
		file := ""
		if f := strings.Fields(line); len(f) == 2 && (f[0] == ":save" || f[0] == ":export" || f[0] == ":load") {
			file = f[1]
			before, hadBefore = c.W.FS.Get(workDir + "/" + file)
		}
		o0, e0, pr0, t0 := len(d.Stdout.B), len(d.Stderr.B), u.Prompts, c.Now()
		c.Did(line + o.T)
		c.S.Tracef("user types %q", line)
		u.Enter(line)
		for !p.Dead && u.Prompts == pr0 && c.Now() < t0+46*sec {
			u.Ready.WaitUntil("prompt", 1*sec)
		}
		out := string(d.Stdout.B[o0:])
		errs := string(d.Stderr.B[e0:])
		if !c.Check(!p.Dead && u.Prompts > pr0, "no-prompt", "%q: no prompt after %d s (client dead: %v)", line, (c.Now()-t0)/sec, p.Dead) {
			return
		}
		failed := strings.Contains(out+errs, "ERROR")
		compared++
		desc := fmt.Sprintf("%q (%s) printed %q", line, o.T, clip(out+errs, 300))
		switch o.S {
		case "eval":
			score = append(score, piece{line, failed})
		case "bad":
			c.Check(failed, "false-success", "%s", desc)
		case ":new":
			if failed {
				reset = true
			} else {
				score, reset = nil, false
			}
		case ":load s.alda":
			if !haveSaved {
				c.Check(failed, "false-success", "%s; there is no such file", desc)
			} else if failed {
				reset = true
			} else {
				score, reset = []piece{{saved, false}}, false
			}
		case ":score":
			if !failed {
				c.Check(fits(strings.TrimSuffix(out, "\n")), "wrong-score", "%s; entered so far: %v", desc, score)
			}
		case ":save s.alda":
			now, has := c.W.FS.Get(workDir + "/" + file)
			if !failed {
				c.Check(has && fits(string(now)), "incomplete-file", "%s; the file holds %q; entered so far: %v", desc, clip(string(now), 200), score)
				saved, haveSaved = string(now), true
			} else {
				c.Check(has == hadBefore && string(now) == string(before), "damaged-file", "%s; the file holds %q", desc, clip(string(now), 200))
			}
		case ":export x.mid":
			now, has := c.W.FS.Get(workDir + "/" + file)
			if !failed {
				_, err := ParseMIDI(now)
				c.Check(has && err == nil, "incomplete-file", "%s; the file has %d bytes: %v", desc, len(now), err)
			} else {
				c.Check(has == hadBefore && string(now) == string(before), "damaged-file", "%s; the file holds %d bytes", desc, len(now))
			}
		}
		if failed && o.T == "" && k > 0 && c.P.Ops[k-1].T == "" {
			c.W.Probe("error-without-fault")
		}
		if len(c.Viol) > 0 {
			return
		}
		if srv.Stalled {
			c.Sleep(55 * sec)
		}
		if failed {
			// what the client gave up on may still be executed
			c.Sleep(60 * sec)
		}
	}
	u.Enter(":quit")
	if c.Check(world.WaitExit(p, 60*sec), "no-exit", "the client does not exit") {
		c.Check(p.Code == 0, "exit-code", "the client exits with code %d", p.Code)
	}
	c.NonTrivial = compared >= 3
}
