package check

import (
	"fmt"
	"strings"
)

// songGen writes Alda inputs. It follows the score it is writing with the
// reference interpreter, so that it knows which inputs are valid.
type songGen struct {
	g          *Gen
	ref        *RefScore
	n          int
	markers    []string
	vars       []string
	aliases    []string
	OpenVoices bool // leave voice groups open at the end of an input
	Simple     bool // only notes, no state carried between inputs but the part
}

func newSong(g *Gen) *songGen { return &songGen{g: g, ref: NewRef()} }

func (s *songGen) dur() string {
	if s.g.Bool(0.5) {
		return ""
	}
	return s.g.OneOf("4", "8", "2", "1", "16", "4.", "8..", "2~8", "4~16~8", "500ms", "1s", "250ms", "6", "12")
}

func (s *songGen) note() string {
	n := s.g.OneOf("c", "d", "e", "f", "g", "a", "b") + s.g.OneOf("", "", "", "+", "-", "_", "++")
	n += s.dur()
	if s.g.Bool(0.1) {
		n += "~"
	}
	return n
}

func (s *songGen) notes(n int) string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, s.item(2))
	}
	return strings.Join(out, " ")
}

// item is one event; depth limits nesting.
func (s *songGen) item(depth int) string {
	g := s.g
	k := g.N(0, 23)
	if s.Simple {
		k = g.N(0, 9)
	}
	switch {
	case k < 8:
		return s.note()
	case k == 8:
		return "r" + s.dur()
	case k == 9:
		return g.OneOf(">", "<", "o3", "o4", "o5")
	case k == 10:
		x := s.note()
		for i := g.N(1, 2); i > 0; i-- {
			x += "/" + g.OneOf("", "", ">", "<") + strings.TrimSuffix(s.note(), "~")
		}
		return x
	case k == 11:
		return fmt.Sprintf("(%s %d)", g.OneOf("tempo", "vol", "track-vol", "pan", "quant"), g.N(40, 100))
	case k == 12:
		return "(" + g.OneOf("pp", "p", "mp", "mf", "f", "ff") + ")"
	case k == 13:
		return fmt.Sprintf("(%s! %d)", g.OneOf("tempo", "vol", "pan", "quant"), g.N(50, 100))
	case k == 14:
		s.n++
		m := fmt.Sprintf("mark%d", s.n)
		s.markers = append(s.markers, m)
		return "%" + m
	case k == 15 && len(s.markers) > 0:
		return "@" + s.markers[g.N(0, len(s.markers)-1)]
	case k == 16 && len(s.vars) > 0:
		return s.vars[g.N(0, len(s.vars)-1)]
	case k == 17 && depth > 0:
		return fmt.Sprintf("[%s]*%d", s.sub(g.N(1, 3), depth-1), g.N(2, 3))
	case k == 18 && depth > 0:
		return fmt.Sprintf("[%s [%s]'1 [%s]'2-3 %s]*3", s.sub(1, 0), s.sub(1, 0), s.sub(1, 0), s.note())
	case k == 19 && depth > 0:
		return fmt.Sprintf("{%s %s}%s", s.note(), s.sub(g.N(1, 2), depth-1), g.OneOf("", "2", "4", "1"))
	case k == 20:
		return "|"
	case k == 22:
		b := g.OneOf("", "", "!")
		switch g.N(0, 5) {
		case 0:
			return fmt.Sprintf("(%s%s %s)", g.OneOf("pan", "vol", "track-vol", "quant"), b, g.OneOf("0", "100", "0", "50"))
		case 1:
			return fmt.Sprintf("(transpose%s %d)", b, g.N(-7, 7))
		case 2:
			return fmt.Sprintf("(key-sig%s \"%s\")", b, g.OneOf("f+", "f+ c+ g+", "b- e-", "b- e- a- d-", ""))
		case 3:
			return fmt.Sprintf("(metric-modulation%s %s)", b, g.OneOf("4 2", "2 4", "\"4.\" 2", "8 4", "4 \"4.\""))
		case 4:
			return fmt.Sprintf("(tempo%s %s %d)", b, g.OneOf("2", "8", "\"4.\"", "4"), g.N(40, 90))
		case 5:
			return fmt.Sprintf("(octave%s %d)", b, g.N(3, 5))
		}
	}
	return s.note()
}

func (s *songGen) sub(n, depth int) string {
	var out []string
	for i := 0; i < n; i++ {
		if s.g.Bool(0.7) {
			out = append(out, s.note())
		} else {
			x := s.item(depth)
			if x[0] == 'o' || x[0] == '>' || x[0] == '<' || strings.HasPrefix(x, "%") || strings.HasPrefix(x, "@") || strings.Contains(x, "!") || x == "|" {
				x = s.note()
			}
			out = append(out, x)
		}
	}
	return strings.Join(out, " ")
}

func (s *songGen) inst() string { return RefInstruments[s.g.N(0, len(RefInstruments)-1)] }

func (s *songGen) header() string {
	g := s.g
	switch k := g.N(0, 9); {
	case k < 5 || s.Simple:
		if g.Bool(0.5) {
			return g.OneOf("piano", "violin", "cello") + ":"
		}
		return s.inst() + ":"
	case k == 5:
		a := s.inst()
		b := s.inst()
		if a == b {
			return a + ":"
		}
		return a + "/" + b + ":"
	case k == 6:
		s.n++
		al := fmt.Sprintf("al%c", 'a'+s.n%26)
		s.aliases = append(s.aliases, al)
		return s.inst() + " \"" + al + "\":"
	case k == 7:
		s.n++
		al := fmt.Sprintf("gr%c", 'a'+s.n%26)
		a, b := s.inst(), s.inst()
		if a == b {
			return a + ":"
		}
		s.aliases = append(s.aliases, al, al+"."+a)
		return a + "/" + b + " \"" + al + "\":"
	case len(s.aliases) > 0:
		return s.aliases[g.N(0, len(s.aliases)-1)] + ":"
	}
	return "piano:"
}

func (s *songGen) line() string {
	g := s.g
	if !s.Simple && g.Bool(0.02) {
		// A variable made of another one keeps what that one was.
		s.n++
		a, b := fmt.Sprintf("riff%d", s.n), fmt.Sprintf("riffs%d", s.n)
		s.vars = append(s.vars, a, b)
		return fmt.Sprintf("%s = %s\n%s = %s%s\n%s = %s\n%s %s %s", a, s.note(), b, g.OneOf("", "c8 "), a, a, s.note(), s.header(), b, a)
	}
	if !s.Simple && g.Bool(0.08) {
		s.n++
		v := fmt.Sprintf("riff%d", s.n)
		if len(s.vars) > 0 && g.Bool(0.35) {
			v = s.vars[g.N(0, len(s.vars)-1)] // defined anew; what used it keeps the old value
		} else {
			s.vars = append(s.vars, v)
		}
		var body []string
		for i := g.N(1, 4); i > 0; i-- {
			body = append(body, s.note())
		}
		if g.Bool(0.2) {
			body = append(body, s.sub(1, 1))
		}
		if g.Bool(0.3) && len(s.vars) > 1 {
			body = append(body, s.vars[g.N(0, len(s.vars)-2)])
		}
		return v + " = " + strings.Join(body, " ")
	}
	out := ""
	if len(s.ref.cur) == 0 || g.Bool(0.45) {
		out = s.header() + " "
	}
	if out == "" && s.OpenVoices && s.ref.cur[0].grp != nil && g.Bool(0.5) {
		// a voice group goes on in another input, or ends there
		return strings.TrimSpace(g.OneOf("V0: ", "V0: ", "V2: ", "V1: ") + s.notes(g.N(0, 4)))
	}
	if !s.Simple && g.Bool(0.12) {
		k := g.N(1, 3)
		for i := 1; i <= k; i++ {
			out += fmt.Sprintf("V%d: %s ", i, s.notes(g.N(1, 4)))
		}
		if !s.OpenVoices || g.Bool(0.5) {
			out += "V0: "
			if g.Bool(0.6) {
				out += s.notes(g.N(1, 3))
			}
		}
		return strings.TrimSpace(out)
	}
	return strings.TrimSpace(out + s.notes(g.N(1, 6)))
}

// input writes a valid input (as far as the reference can tell) and keeps it.
func (s *songGen) input() string {
	for try := 0; try < 12; try++ {
		save := *s
		text := s.line()
		if s.g.Bool(0.15) {
			text += "\n" + s.line()
		}
		if s.g.Bool(0.05) {
			text += " # the end"
		}
		if s.g.Bool(0.08) {
			text = s.g.OneOf("  ", "\n", "\n\n") + text + s.g.OneOf("", "\n", "   ")
		}
		n, err := s.ref.Try(text)
		if err == nil && s.ok(n) {
			s.ref = n
			return text
		}
		*s = save
		s.n++
	}
	text := "piano: c"
	s.ref, _ = s.ref.Try(text)
	return text
}

// ok keeps scores within what the MIDI range and channels allow.
func (s *songGen) ok(n *RefScore) bool {
	if n.Fuzzy {
		return false
	}
	if len(n.parts) > 8 || len(n.Notes) > 400 {
		return false
	}
	for _, p := range n.parts {
		if p.octave < 2 || p.octave > 7 || p.tempo < 15 || p.tempo > 2000 {
			return false
		}
		if p.grp != nil && !s.OpenVoices {
			return false
		}
	}
	return n.End() < 300000
}

// bad writes an invalid input; most of them fail part-way.
func (s *songGen) bad() string {
	s.n++
	pre := ""
	if s.g.Bool(0.6) {
		pre = s.header() + " " + s.notes(s.g.N(1, 3)) + fmt.Sprintf(" %%bad%d ", s.n)
	}
	for try := 0; try < 5; try++ {
		post := ""
		if s.g.Bool(0.5) {
			post = " " + s.note()
		}
		x := ""
		switch s.g.N(0, 9) {
		case 0:
			x = "@nowhere"
		case 1:
			x = "nosuchvar"
		case 2:
			x = "(no-such-function 3)"
		case 3:
			x = "o14 c"
		case 4:
			x = "[c d"
			post = ""
		case 5:
			x = "{c d"
			post = ""
		case 6:
			x = "\nnosuchinstrument: c"
		case 7:
			x = "c/"
		case 8:
			x = fmt.Sprintf("\nleak%d = c d\n@nowhere", s.n)
		case 9:
			x = "\nviolin \"leak\": c\nleak: d @nowhere"
		}
		if len(s.ref.cur) == 0 && pre == "" {
			pre = "piano: "
		}
		if _, err := s.ref.Try(pre + x + post); err != nil {
			return pre + x + post
		}
	}
	return "piano: c @nowhere"
}
