package check

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
)

// C23: the same score always plays the same. Every command is run several
// times, each time traversing the program's maps in other orders; and a server
// handles the score as its first one and after others.

func init() {
	tuning["C23"] = tune{8000, 150000, "a source with at least two parts was evaluated at least twice with shuffled map traversals, or by a server before and after other scores"}
	register(&Scenario{Prop: "C23", Name: "repeat", Weight: 2, Gen: genC23, Run: runC23})
	register(&Scenario{Prop: "C23", Name: "history", Weight: 1, Gen: genC23h, Run: runC23h})
}

// source writes a score, or something like it.
func (g *Gen) richSource() string {
	r := newRich(g)
	if g.Bool(0.15) {
		return r.example()
	}
	if g.Bool(0.35) {
		r.Sloppy = g.R.Float64() * 0.3
	}
	n := g.N(1, 8)
	if g.Thorough && g.Bool(0.3) {
		n = g.N(5, 30)
	}
	ls := r.lines(n)
	if g.Bool(0.15) {
		// attributes at offsets that are equal but for rounding
		tuplet := func() string {
			k := int(g.OneI(1, 3, 3, 5, 6, 7, 9, 11))
			return g.OneOf("", "{c d}4 ", "c8. ") + "{" + strings.Repeat("c ", k) + "}" + g.OneOf("4", "4", "4", "2") + g.OneOf("", " {d e f}4")
		}
		attr := func(mark string) string {
			return fmt.Sprintf("(%s%s %d)", g.OneOf("tempo", "tempo", "volume", "panning"), mark, g.N(30, 99))
		}
		if g.Bool(0.5) {
			for i := g.N(2, 4); i > 0; i-- {
				ls = append(ls, g.OneOf("piano", "violin", "cello", "oboe")+": "+tuplet()+" "+attr("!"))
			}
		} else {
			l := g.OneOf("piano", "violin") + ":"
			for i := g.N(2, 4); i > 0; i-- {
				l += fmt.Sprintf(" V%d: %s %s c", i, tuplet(), attr(g.OneOf("", "", "!")))
			}
			ls = append(ls, l+" V0:")
		}
		if g.Bool(0.5) {
			ls = ls[len(ls)-g.N(1, 2):]
		}
	}
	return strings.Join(ls, "\n") + g.OneOf("\n", "", "\n\n")
}

func (g *Gen) richXML() string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<score-partwise version=\"3.1\"><part-list>")
	parts := g.N(1, 5)
	for i := 1; i <= parts; i++ {
		fmt.Fprintf(&b, "<score-part id=\"P%d\"><part-name>%s</part-name>", i, g.OneOf("Piano", "Drums", "Violin"))
		switch g.N(0, 3) {
		case 0:
		case 1:
			fmt.Fprintf(&b, "<score-instrument id=\"P%d-I1\"><instrument-name>x</instrument-name></score-instrument><midi-instrument id=\"P%d-I1\"><midi-channel>1</midi-channel><midi-program>%s</midi-program></midi-instrument>", i, i, g.OneOf("1", "41", "41", "74"))
		case 2:
			for k := 1; k <= g.N(1, 3); k++ {
				fmt.Fprintf(&b, "<midi-instrument id=\"P%d-I%d\"><midi-channel>1</midi-channel><midi-program>%s</midi-program></midi-instrument>", i, k, g.OneOf("1", "41", "57"))
			}
		case 3:
			for k := 1; k <= g.N(1, 3); k++ {
				fmt.Fprintf(&b, "<midi-instrument id=\"P%d-I%d\"><midi-channel>10</midi-channel><midi-program>1</midi-program><midi-unpitched>%d</midi-unpitched></midi-instrument>", i, k, 35+k)
			}
		}
		b.WriteString("</score-part>")
	}
	b.WriteString("</part-list>")
	for i := 1; i <= parts; i++ {
		fmt.Fprintf(&b, "<part id=\"P%d\">", i)
		for m := 1; m <= g.N(1, 4); m++ {
			fmt.Fprintf(&b, "<measure number=\"%d\">", m)
			if m == 1 || g.Bool(0.3) {
				fmt.Fprintf(&b, "<attributes><divisions>1</divisions><key><fifths>%d</fifths></key><time><beats>4</beats><beat-type>4</beat-type></time></attributes>", g.N(-7, 7))
			}
			voices := g.N(1, 3)
			for v := 1; v <= voices; v++ {
				if v > 1 {
					b.WriteString("<backup><duration>4</duration></backup>")
				}
				for k := 0; k < 4; k++ {
					chord := ""
					if k > 0 && g.Bool(0.2) {
						chord = "<chord/>"
					}
					acc := ""
					if g.Bool(0.2) {
						acc = fmt.Sprintf("<alter>%d</alter>", g.N(-1, 1))
					}
					if chord != "" { // sounds with the note before, and that does not count
						k--
						if k > 6 || g.Bool(0.5) {
							k++
							chord = ""
						}
					}
					fmt.Fprintf(&b, "<note>%s<pitch><step>%s</step>%s<octave>%d</octave></pitch><duration>1</duration><voice>%d</voice><type>quarter</type></note>", chord, g.OneOf("A", "B", "C", "D", "E", "F", "G"), acc, g.N(3, 5), v)
				}
			}
			b.WriteString("</measure>")
		}
		b.WriteString("</part>")
	}
	b.WriteString("</score-partwise>\n")
	return b.String()
}

func genC23(g *Gen) {
	g.Swarm()
	g.P.Cfg.PMap = []float64{0.3, 1, 1}[g.N(0, 2)]
	n := g.N(1, 3)
	for i := 0; i < n; i++ {
		o := Op{S: g.richSource(), C: i}
		o.K = g.OneOf("play", "play", "play", "parse", "parse", "export", "format", "import")
		if o.K == "parse" {
			o.T = g.OneOf("data", "data", "events", "ast", "ast-human")
		}
		if o.K == "import" {
			o.S = g.richXML()
		}
		if o.K == "play" && g.Bool(0.2) {
			o.X = []string{g.OneOf("--from", "--to"), g.OneOf("0:01", "0:02", "mark1", "mark2")}
		}
		if o.K == "play" && g.Bool(0.2) {
			o.X = append(o.X, "--port")
		}
		o.N = int64(g.N(2, 4)) // times
		g.Op(o)
	}
}

var logTime = regexp.MustCompile(`(?m)^[A-Z][a-z]{2} +[0-9]+ [0-9:]{8} `)

var pointers = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// stableData makes the JSON of a score comparable: parts are identified by
// addresses, which differ from one process to the next.
func stableData(text string) string {
	var v interface{}
	if json.Unmarshal([]byte(text), &v) != nil {
		return pointers.ReplaceAllString(text, "(address)")
	}
	m, _ := v.(map[string]interface{})
	names := map[string]string{}
	if parts, ok := m["parts"].(map[string]interface{}); ok {
		for id, p := range parts {
			b, _ := json.Marshal(p)
			names[id] = "part " + pointers.ReplaceAllString(string(b), "(address)")
		}
	}
	b, _ := json.Marshal(stableValue(v, names))
	return string(b)
}

func stableValue(v interface{}, names map[string]string) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		ids := false
		for k := range x {
			if pointers.MatchString(k) {
				ids = true
			}
		}
		if ids {
			// a multiset: parts may look alike
			var out []string
			for k, e := range x {
				b, _ := json.Marshal(stableValue(e, names))
				if n, ok := names[k]; ok {
					k = n
				}
				out = append(out, k+"="+string(b))
			}
			sort.Strings(out)
			return out
		}
		for k, e := range x {
			x[k] = stableValue(e, names)
		}
	case []interface{}:
		for i, e := range x {
			x[i] = stableValue(e, names)
		}
	case string:
		if n, ok := names[x]; ok {
			return n
		}
		return pointers.ReplaceAllString(x, "(address)")
	}
	return v
}

// received lists what players received since a time, apart from pings.
func (c *Ctx) received(since int64, skip ...string) []string {
	var out []string
	for _, pl := range c.Players {
		for _, m := range pl.Msgs {
			if m.At < since || m.Addr == "/ping" {
				continue
			}
			s := m.Addr
			for _, x := range skip {
				if x == s {
					s = ""
				}
			}
			if s == "" {
				continue
			}
			for _, a := range m.Args {
				if str, ok := a.(string); ok && m.Addr == "/system/midi/export" {
					a = path.Base(path.Dir(str)) != "" // where to is not part of the score
					_ = str
				}
				s += fmt.Sprintf(" %T:%v", a, a)
			}
			out = append(out, s)
		}
	}
	return out
}

func runC23(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 20*ms, 80*ms
	c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	fs := c.W.FS
	for i, o := range c.P.Ops {
		if o.K == "" {
			continue
		}
		src := fmt.Sprintf("/home/user/src%d.alda", i)
		fs.Put(src, []byte(o.S), 0644)
		type outcome struct{ what, text string }
		var first []outcome
		for k := int64(0); k < o.N; k++ {
			c.Sleep(300 * ms)
			var args []string
			out := ""
			switch o.K {
			case "play", "export":
				n := len(c.Players)
				c.startPlayers(1)
				if !c.Until(10*sec, 20*ms, func() bool {
					return len(c.Players) > n && c.Players[n].State == "ready" && !c.Players[n].NoState
				}) {
					return
				}
				c.Sleep(200 * ms)
				if o.K == "export" {
					out = fmt.Sprintf("/home/user/out%d-%d.mid", i, k)
					args = []string{"export", "-f", src, "-o", out}
				} else {
					args = []string{"play", "-f", src}
					for j := 0; j < len(o.X); j++ {
						if o.X[j] == "--port" {
							args = append(args, "--port", fmt.Sprint(c.Players[n].Port))
						} else {
							args = append(args, o.X[j])
						}
					}
				}
			case "parse":
				args = []string{"parse", "-f", src, "-o", o.T}
			case "format":
				args = []string{"format", "-f", src}
			case "import":
				args = []string{"import", "-i", "musicxml", "-f", src}
			}
			at := c.Now()
			d := c.RunAlda(180*sec, args...)
			if !c.Check(d.Ended, "hangs", "alda %s did not end within 180 s; the source is %q", strings.Join(args, " "), o.S) {
				return
			}
			var res []outcome
			add := func(what, text string) { res = append(res, outcome{what, text}) }
			stdout := d.Stdout
			if o.K == "parse" && o.T == "data" {
				stdout = stableData(stdout)
			}
			anon := func(s string) string {
				if out != "" {
					s = strings.Replace(s, out, "OUT", -1)
				}
				s = logTime.ReplaceAllString(s, "")
				return pointers.ReplaceAllString(s, "(address)")
			}
			add("exit code", fmt.Sprint(d.Code))
			add("error", anon(d.Stderr))
			add("output", anon(stdout))
			if o.K == "play" || o.K == "export" {
				c.Sleep(1500 * ms)
				add("messages to the player", strings.Join(c.received(at), "\n"))
				if o.K == "export" {
					b, ok := fs.Get(out)
					add("MIDI file", fmt.Sprintf("%v %x", ok, b))
				}
				for _, pl := range c.livePlayers() {
					c.S.Kill(pl.P)
				}
				for p := range fs.Tree(c.playersDir()) {
					if strings.HasSuffix(p, ".json") {
						fs.Delete(p)
					}
				}
			}
			c.Did(o.K + o.T + fmt.Sprint(d.Code))
			if first == nil {
				first = res
				continue
			}
			for j, r := range res {
				c.Check(r.text == first[j].text, "differs", "%s of alda %s, run for the %d. time: %s; the source is %q", r.what, strings.Join(args, " "), k+1, firstDiff(first[j].text, r.text), o.S)
			}
			if strings.Count(o.S, ":") > 1 || o.K == "import" {
				c.NonTrivial = true
			}
		}
	}
}

// A server handles other scores before.
func genC23h(g *Gen) {
	g.Swarm()
	g.P.Cfg.PMap = []float64{0.3, 1, 1}[g.N(0, 2)]
	g.Op(Op{K: "source", S: g.richSource()})
	n := g.N(1, 4)
	for i := 0; i < n; i++ {
		o := Op{K: g.OneOf("load", "eval", "eval", "eval", "new", "replay", "instruments", "score"), S: g.richSource()}
		if g.Bool(0.3) { // shares names with the source
			o.S = g.P.Ops[0].S
			ls := strings.Split(o.S, "\n")
			o.S = strings.Join(ls[g.N(0, len(ls)-1):], "\n")
		}
		g.Op(o)
	}
	g.I("again", g.OneI(0, 0, 1)) // 0 load, 1 new score and eval
}

func runC23h(c *Ctx) {
	c.PB.StartMin, c.PB.StartMax = 50*ms, 200*ms
	src := ""
	for _, o := range c.P.Ops {
		if o.K == "source" {
			src = o.S
		}
	}
	c.startPlayers(2)
	s := c.newSession(1)
	if s == nil {
		return
	}
	n := s.cl[0]
	same := func() map[string]string {
		c.Sleep(2 * sec)
		out := map[string]string{}
		var r *NResp
		var at int64
		if c.I("again") == 1 {
			if r = s.do(n, req("new-score")); r == nil {
				return nil
			}
			at = c.Now()
			r = s.do(n, req("eval-and-play", "code", src))
		} else {
			at = c.Now()
			r = s.do(n, req("load", "code", src))
		}
		if r == nil {
			return nil
		}
		c.Sleep(2 * sec)
		out["status"] = strings.Join(r.Status(), " ")
		out["error"] = r.Problems()
		ms := c.received(at, "/system/shutdown", "/system/stop", "/system/offset")
		out["messages to the player"] = strings.Join(ms, "\n")
		if r.OK() {
			if len(ms) > 0 {
				out["messages"] = "sent"
			}
			for k, v := range s.reads() {
				if k == "score-data" {
					v = stableData(v)
				}
				out[k] = pointers.ReplaceAllString(v, "(address)")
			}
			if r := s.do(n, req("export")); r != nil {
				out["export"] = fmt.Sprintf("%v %x", r.OK(), r.Str("binary-data"))
			}
		}
		if r := s.do(n, req("instruments")); r != nil {
			out["instruments"] = fmt.Sprint(r.M["instruments"])
		}
		return out
	}
	a := same()
	if a == nil {
		return
	}
	for _, o := range c.P.Ops {
		var m map[string]interface{}
		switch o.K {
		case "load":
			m = req("load", "code", o.S)
		case "eval":
			m = req("eval-and-play", "code", o.S)
		case "new":
			m = req("new-score")
		case "replay":
			m = req("replay")
		case "instruments":
			m = req("instruments")
		case "score":
			m = req("score-data")
		default:
			continue
		}
		if s.do(n, m) == nil {
			return
		}
		c.Did(o.K)
	}
	b := same()
	if b == nil {
		return
	}
	for _, k := range keysOf(a, b) {
		c.Check(a[k] == b[k], "history", "%s of the same score, evaluated after others: %s; the source is %q", k, firstDiff(a[k], b[k]), src)
	}
	c.NonTrivial = strings.Count(src, ":") > 1
}

func keysOf(ms ...map[string]string) []string {
	set := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			set[k] = true
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
