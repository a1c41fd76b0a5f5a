package check

import (
	"embed"
	"fmt"
	"sort"
	"strings"
)

// Example scores that come with Alda, as inputs.
//
//go:embed scores/*.alda
var exampleFiles embed.FS

func exampleNames() []string {
	es, _ := exampleFiles.ReadDir("scores")
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

func exampleScore(name string) string {
	b, _ := exampleFiles.ReadFile("scores/" + name)
	return string(b)
}

// richGen writes scores that use all of the language, including what the
// reference interpreter does not cover: key signatures, transposition, all ways
// of writing attributes, percussion, nested groups, many parts. Some of what it
// writes is invalid.
type richGen struct {
	g     *Gen
	n     int
	names []string // aliases and groups
	parts int
	vars  []string
	marks []string
	stock map[string]int // 1 used without, 2 with a name
	// Sloppy: the probability of a line that is probably invalid.
	Sloppy float64
	voices bool // a voice group is open
	// NoMarkers leaves out markers, NoVoices voices
	NoMarkers, NoVoices bool
}

func newRich(g *Gen) *richGen { return &richGen{g: g, stock: map[string]int{}} }

var richInstruments = []string{
	"piano", "violin", "cello", "trumpet", "flute", "guitar", "midi-percussion",
	"acoustic-grand-piano", "midi-acoustic-grand-piano", "bassoon", "oboe", "banjo", "percussion", "tuba", "clarinet", "midi-square-lead",
	"harpsichord", "celesta", "glockenspiel", "vibraphone", "marimba", "xylophone", "accordion", "harmonica", "viola", "contrabass", "timpani", "trombone", "french-horn", "piccolo",
}

func (r *richGen) dur() string {
	if r.g.Bool(0.55) {
		return ""
	}
	return r.g.OneOf("4", "8", "2", "1", "16", "4.", "8..", "2~8", "4~16~8", "500ms", "1s", "250ms", "6", "12", "0.5", "2/3", "1~1", "4~200ms")
}

func (r *richGen) note() string {
	n := r.g.OneOf("c", "d", "e", "f", "g", "a", "b") + r.g.OneOf("", "", "", "", "+", "-", "_", "++", "--", "+-")
	n += strings.Replace(r.dur(), "2/3", "3", 1)
	if r.g.Bool(0.08) {
		n += "~"
	}
	return n
}

func (r *richGen) keySig() string {
	return r.g.OneOf(
		"\"f+ c+\"", "\"b- e-\"", "\"f+\"", "\"b- e- a- d- g-\"", "\"f+ c+ g+ d+ a+ e+ b+\"", "\"b-- g+ e-\"", "\"\"",
		"'(a major)", "'(c minor)", "'(e flat major)", "'(f sharp minor)", "'(d dorian)", "'(b flat mixolydian)", "'(g lydian)", "'(e phrygian)", "'(b locrian)", "'(c ionian)", "'(a aeolian)",
		"'(f (sharp) c (sharp))", "'(b (flat) e (flat))", "'(g (sharp sharp) a (flat))", "(list 'a 'major)")
}

func (r *richGen) attr() string {
	g := r.g
	b := g.OneOf("", "", "!")
	switch g.N(0, 15) {
	case 0:
		return fmt.Sprintf("(tempo%s %d)", b, g.N(40, 240))
	case 1:
		return fmt.Sprintf("(tempo%s %s %d)", b, g.OneOf("2", "8", "\"4.\"", "\"2~8\""), g.N(40, 160))
	case 2:
		return fmt.Sprintf("(metric-modulation%s %s %s)", b, g.OneOf("4", "\"4.\"", "2", "\"2~8\""), g.OneOf("2", "\"2.\"", "4", "8"))
	case 3, 4:
		return fmt.Sprintf("(key-%s%s %s)", g.OneOf("sig", "signature"), b, r.keySig())
	case 5:
		return fmt.Sprintf("(%s%s %d)", g.OneOf("transpose", "transposition"), b, g.N(-12, 12))
	case 6:
		return fmt.Sprintf("(%s%s %s)", g.OneOf("quant", "quantize", "quantization"), b, g.OneOf("50", "90", "100", "99.9", "0", "120"))
	case 7:
		return fmt.Sprintf("(%s%s %d)", g.OneOf("vol", "volume", "track-vol", "track-volume", "pan", "panning"), b, g.N(0, 100))
	case 8:
		return fmt.Sprintf("(%s%s)", g.OneOf("pppppp", "ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "ffffff"), b)
	case 9:
		return fmt.Sprintf("(set-duration%s %s)", b, g.OneOf("2", "0.5", "1.5", "4"))
	case 10:
		return fmt.Sprintf("(set-note-length%s %s)", b, g.OneOf("8", "\"2..\"", "\"1~1\"", "\"4~8\""))
	case 11:
		return fmt.Sprintf("(set-duration-ms%s %d)", b, g.N(50, 900))
	case 12:
		return fmt.Sprintf("(octave%s %s)", b, g.OneOf("3", "5", "4", "'up", "'down"))
	case 13:
		return fmt.Sprintf("(%s%s %s)", g.OneOf("reference-pitch", "tuning-constant"), b, g.OneOf("440", "432", "415", "466.16"))
	case 14:
		if g.Bool(0.7) {
			return fmt.Sprintf("(midi-channel %d)", g.N(0, 15))
		}
	}
	return g.OneOf("(note (pitch '(c sharp)) (note-length 8))", "(note (midi-note 60) (duration (note-length 4) (ms 100)))", "(pause (note-length 2))", "(slur (note (pitch '(e flat))))",
		"(note (pitch '(g)) (note-length \"4.\"))", "(list 1 2 3)", "(pause)")
}

func (r *richGen) item(depth int) string {
	g := r.g
	switch k := g.N(0, 26); {
	case k < 8:
		return r.note()
	case k == 8:
		return "r" + strings.Replace(r.dur(), "2/3", "3", 1)
	case k == 9:
		return g.OneOf(">", "<", "o3", "o4", "o5", "o2", "o6")
	case k <= 11:
		x := strings.TrimSuffix(r.note(), "~")
		for i := g.N(1, 3); i > 0; i-- {
			x += "/" + g.OneOf("", "", ">", "<", "o3 ") + strings.TrimSuffix(r.note(), "~")
		}
		return x
	case k <= 16:
		return r.attr()
	case k == 17:
		if r.NoMarkers {
			return r.note()
		}
		r.n++
		m := fmt.Sprintf("mark%d", r.n)
		if g.Bool(0.15) && len(r.marks) > 0 {
			m = r.marks[g.N(0, len(r.marks)-1)]
		}
		r.marks = append(r.marks, m)
		return "%" + m
	case k == 18 && len(r.marks) > 0:
		return "@" + r.marks[g.N(0, len(r.marks)-1)]
	case k == 19 && len(r.vars) > 0:
		v := r.vars[g.N(0, len(r.vars)-1)]
		if g.Bool(0.2) {
			return v + fmt.Sprintf("*%d", g.N(2, 3))
		}
		return v
	case k == 20 && depth > 0:
		return fmt.Sprintf("[%s]*%d", r.items(g.N(1, 3), depth-1), g.N(2, 3))
	case k == 21 && depth > 0:
		return fmt.Sprintf("[%s [%s]'1 [%s]'2-3 %s]*3", r.items(1, 0), r.items(1, 0), r.items(1, 0), r.note())
	case k == 22 && depth > 0:
		return fmt.Sprintf("{%s %s}%s", r.note(), r.items(g.N(1, 3), depth-1), g.OneOf("", "2", "4", "1", "4."))
	case k == 23:
		return "|"
	case k == 24:
		return r.note() + fmt.Sprintf(" *%d", g.N(2, 3))
	case k == 25:
		return g.OneOf("c4~4", "d1~2~4.", "{c {d e f} g}2", "[[c d]*2 e]*2", "{c/e g/b}4", "[c {d e}8 f/a]", "c d # comment\n e", "o4 c < b > c")
	}
	return r.note()
}

func (r *richGen) items(n, depth int) string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, r.item(depth))
	}
	return strings.Join(out, " ")
}

func (r *richGen) fresh(p string) string {
	r.n++
	s := p
	for k := r.n; ; k /= 26 {
		s += string(rune('a' + k%26))
		if k < 26 {
			return s
		}
	}
}

// inst picks a stock instrument; how is 1 for use without, 2 with a name.
func (r *richGen) inst(how int) string {
	for i := 0; i < 20; i++ {
		x := richInstruments[r.g.N(0, len(richInstruments)-1)]
		if h := r.stock[x]; h == 0 || h == how {
			r.stock[x] = how
			return x
		}
	}
	return "piano"
}

func (r *richGen) header() string {
	g := r.g
	k := g.N(0, 14)
	if r.parts == 0 && k > 9 {
		k = 0
	}
	switch {
	case k < 5:
		r.parts++
		return r.inst(1) + ":"
	case k == 5:
		a, b := r.inst(1), r.inst(1)
		r.parts += 2
		return a + "/" + b + ":"
	case k <= 7:
		al := r.fresh("al")
		x := r.inst(2)
		r.parts++
		r.names = append(r.names, al)
		return x + " \"" + al + "\":"
	case k <= 9:
		al := r.fresh("gr")
		a, b := r.inst(2), r.inst(2)
		r.parts += 2
		r.names = append(r.names, al, al+"."+a, al+"."+b)
		x := a + "/" + b
		if g.Bool(0.3) {
			c := r.inst(2)
			r.names = append(r.names, al+"."+c)
			x += "/" + c
			r.parts++
		}
		return x + " \"" + al + "\":"
	case len(r.names) > 0:
		a := r.names[g.N(0, len(r.names)-1)]
		b := r.names[g.N(0, len(r.names)-1)]
		switch {
		case k == 11 && a != b:
			return a + "/" + b + ":"
		case k == 12 && a != b:
			al := r.fresh("gg")
			r.names = append(r.names, al, al+"."+a, al+"."+b)
			return a + "/" + b + " \"" + al + "\":"
		}
		return a + ":"
	}
	return r.inst(1) + ":"
}

// line writes one line of a score.
func (r *richGen) line() string {
	g := r.g
	if g.Bool(r.Sloppy) {
		return r.sloppy()
	}
	switch {
	case g.Bool(0.08):
		v := r.fresh("riff")
		body := r.items(g.N(1, 4), 1)
		r.vars = append(r.vars, v)
		return v + " = " + strings.Replace(body, "\n", " \n", -1)
	case g.Bool(0.04):
		v := r.fresh("blk")
		body := r.items(g.N(1, 3), 1)
		r.vars = append(r.vars, v)
		return v + " = [\n" + body + "\n  " + r.note() + "\n]"
	case r.parts > 0 && g.Bool(0.1):
		return r.attr() // may be global
	}
	out := ""
	if r.parts == 0 || g.Bool(0.45) {
		out = r.header() + " "
	}
	if !r.NoVoices && out == "" && g.Bool(r.open()) {
		r.voices = g.Bool(0.4)
		if r.voices {
			return strings.TrimSpace(fmt.Sprintf("V%d: ", g.N(1, 3)) + r.items(g.N(1, 4), 1))
		}
		return strings.TrimSpace("V0: " + r.items(g.N(0, 3), 1))
	}
	r.voices = false
	if !r.NoVoices && g.Bool(0.12) {
		k := g.N(1, 3)
		for i := 1; i <= k; i++ {
			out += fmt.Sprintf("V%d: %s ", i, r.items(g.N(1, 4), 1))
		}
		if r.voices = g.Bool(0.3); r.voices { // the group stays open
			return strings.TrimSpace(out)
		}
		out += "V0: "
		if g.Bool(0.6) {
			out += r.items(g.N(1, 3), 1)
		}
		return strings.TrimSpace(out)
	}
	return strings.TrimSpace(out + r.items(g.N(1, 6), 2))
}

// sloppy writes a line with a mistake.
func (r *richGen) sloppy() string {
	g := r.g
	pre := ""
	if g.Bool(0.6) || r.parts == 0 {
		pre = r.header() + " " + r.items(g.N(0, 2), 1) + " "
	}
	names := append([]string{"nobody"}, r.names...)
	nm := func() string { return names[g.N(0, len(names)-1)] }
	switch g.N(0, 19) {
	case 0:
		return pre + "@nowhere"
	case 1:
		return pre + "nosuchvariable"
	case 2:
		return pre + g.OneOf("(no-such-function 3)", "(tempo)", "(tempo \"x\" 3 4)", "(vol 300)", "(key-sig 5)", "(key-sig '(h major))", "(key-sig \"x+\")", "(octave 'sideways)", "(midi-channel 16)", "(transpose 1.5)", "(tempo 0)", "(slur (pause))", "(pitch 3)", "(note 3)", "(1 2)", "(key-sig '(a (foo)))", "(set-note-length \"x\")", "(list (foo))", "(quant -5)")
	case 3:
		return pre + "o14 c"
	case 4:
		return pre + g.OneOf("[c d", "{c d", "c/", "(vol 3", "c d]", "}", "V1: c", "\"x", "[c]*", "c~~", "[c]'", "{}", "()", "[]", "'", "%", "@", "=")
	case 5, 6:
		return nm() + ": " + r.note()
	case 7, 8:
		x := richInstruments[g.N(0, len(richInstruments)-1)]
		return x + " \"" + nm() + "\": " + r.note()
	case 9, 10:
		x := richInstruments[g.N(0, len(richInstruments)-1)]
		return nm() + "/" + x + ": " + r.note()
	case 11, 12:
		return nm() + "/" + nm() + " \"" + nm() + "\": " + r.note()
	case 13:
		x := richInstruments[g.N(0, len(richInstruments)-1)]
		return x + ": " + r.note()
	case 14:
		return nm() + "." + richInstruments[g.N(0, len(richInstruments)-1)] + ": c"
	case 15:
		v := r.fresh("rec")
		return v + " = c " + v + "\n" + pre + v
	case 16:
		v := r.fresh("leak")
		return v + " = c d @nowhere nosuchthing\n" + pre + v
	case 17:
		return pre + "[c [d]'1-2 [e]'5 f]*3"
	case 18:
		return nm() + " \"" + r.fresh("al") + "\": c"
	}
	return pre + g.OneOf("c4000000000", "c0", "d0.0", "o-1 c", "c d e f*0", "V1: {c V2: d}", "r/c", "[c d]*-1", "(tempo! -3)", "<<<<<<<< c", ">>>>>>>> g")
}

// crowd declares more parts than there are MIDI channels.
func (r *richGen) crowd() []string {
	g := r.g
	n := g.N(14, 24)
	var out []string
	for i := 0; i < n; i++ {
		al := r.fresh("cr")
		x := richInstruments[g.N(0, len(richInstruments)-1)]
		for r.stock[x] == 1 {
			x = richInstruments[g.N(0, len(richInstruments)-1)]
		}
		r.stock[x] = 2
		r.names = append(r.names, al)
		r.parts++
		pad := ""
		if g.Bool(0.6) {
			pad = strings.TrimSpace(strings.Repeat("r1 ", g.N(0, 12))) + " "
		}
		out = append(out, fmt.Sprintf("%s \"%s\": %s%s", x, al, pad, r.items(g.N(1, 3), 0)))
	}
	return out
}

// open is the probability of a line that goes on in a voice group.
func (r *richGen) open() float64 {
	if r.voices {
		return 0.6
	}
	return 0.02
}

// lines writes a whole score, line by line.
func (r *richGen) lines(n int) []string {
	var out []string
	if r.g.Bool(0.1) {
		out = append(out, r.crowd()...)
	}
	for i := 0; i < n; i++ {
		out = append(out, r.line())
	}
	return out
}

// example returns an example score, or an excerpt of one, possibly followed by
// something else.
func (r *richGen) example() string {
	g := r.g
	names := exampleNames()
	text := exampleScore(names[g.N(0, len(names)-1)])
	if len(text) > 3000 && g.Bool(0.7) {
		text = exampleScore(names[g.N(0, len(names)-1)])
	}
	if g.Bool(0.3) {
		ls := strings.Split(text, "\n")
		text = strings.Join(ls[:g.N(1, len(ls))], "\n")
	}
	return text
}
