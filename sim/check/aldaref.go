package check

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// An independent reference interpreter for the part of the Alda language that
// the generators below produce. It was written from the language's
// documentation, shares nothing with the client, and works on the text.

// RefNote is a note the score contains.
type RefNote struct {
	Part                       string
	Track                      int
	Off, Dur, Aud              float64
	Num, Vel, TVol, Pan, Patch int
	Input                      int // the number of the accepted input it came from
}

type refDur struct{ beats, ms float64 }

func (d refDur) in(tempo float64) float64 { return d.beats*60000/tempo + d.ms }

type refPart struct {
	label, inst    string
	patch          int
	octave         int
	tempo, vol, tv float64
	pan, quant     float64
	dur            refDur
	off, last, ts  float64
	rough          bool // rounding errors may have crept into off
	rep            int
	local          string
	trans          int
	key            string
	origin         *refPart
	tempos         map[float64]float64 // never changed in place
	grp            *refGroup
}

type refGroup struct {
	template *refPart
	voices   map[int]*refPart
	order    []int
}

type refGlobal struct {
	off   float64
	attr  string
	val   float64
	str   string
	by    string // the label of the part that set it
	rough bool
}

// RefScore is a score being built up.
type RefScore struct {
	Fuzzy bool // rounding errors may matter

	parts   []*refPart
	cur     []*refPart
	alias   map[string][]*refPart
	globals []refGlobal
	Markers map[string]float64
	vars    map[string][]*refNode
	Notes   []RefNote
	input   int
	Texts   []string
	base    map[string]float64 // part offsets before the last input
	from    int                // index of the first note of the last input

	markedBy  map[string]map[float64]bool // part -> offsets of its markers
	roughMark map[string]bool             // markers set by parts whose offset may be off by rounding errors
}

// NewRef returns an empty score.
func NewRef() *RefScore {
	return &RefScore{alias: map[string][]*refPart{}, Markers: map[string]float64{}, vars: map[string][]*refNode{}}
}

// RefOf evaluates accepted inputs one after the other.
func RefOf(texts []string) (*RefScore, error) {
	r := NewRef()
	for _, t := range texts {
		if err := r.add(t); err != nil {
			return nil, err
		}
	}
	return r, nil
}

// Try evaluates one more input; on error the score stays as it was.
func (r *RefScore) Try(text string) (*RefScore, error) {
	n, err := RefOf(r.Texts)
	if err != nil {
		return r, fmt.Errorf("reference: %v", err)
	}
	if err := n.add(text); err != nil {
		return r, err
	}
	return n, nil
}

// Text is what score-text answers, apart from surrounding white space.
func (r *RefScore) Text() string {
	var sb strings.Builder
	for _, t := range r.Texts {
		sb.WriteString(strings.TrimSpace(t) + "\n")
	}
	return sb.String()
}

func (r *RefScore) add(text string) error {
	nodes, err := refParse(text)
	if err != nil {
		return err
	}
	r.base = map[string]float64{}
	for _, p := range r.parts {
		r.base[p.label] = p.off
	}
	r.from = len(r.Notes)
	r.input++
	r.Texts = append(r.Texts, text)
	return r.eval(nodes)
}

// New are the notes of the last input, with the offset of their part before it.
func (r *RefScore) New() []RefNote { return r.Notes[r.from:] }

// Base is the offset a part had before the last input.
func (r *RefScore) Base(part string) float64 { return r.base[part] }

// End is the latest offset of any part.
func (r *RefScore) End() float64 {
	m := 0.0
	for _, p := range r.parts {
		m = math.Max(m, p.off)
		if p.grp != nil {
			for _, v := range p.grp.voices {
				m = math.Max(m, v.off)
			}
		}
	}
	return m
}

// ---------------------------------------------------------------- syntax

type refNode struct {
	k     string // note rest chord octave set marker at cram seq repeat voice decl def ref
	s     string
	alias string
	n     int
	v     float64
	dur   *refDur
	slur  bool
	kids  []*refNode
	reps  []int
}

type refParser struct {
	s string
	i int
}

func refParse(text string) ([]*refNode, error) {
	var out []*refNode
	for _, line := range strings.Split(text, "\n") {
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		if i := strings.Index(line, " = "); i > 0 {
			p := &refParser{s: line[i+3:]}
			kids, err := p.items("")
			if err != nil {
				return nil, err
			}
			out = append(out, &refNode{k: "def", s: strings.TrimSpace(line[:i]), kids: kids})
			continue
		}
		p := &refParser{s: line}
		kids, err := p.items("")
		if err != nil {
			return nil, err
		}
		out = append(out, kids...)
	}
	return out, nil
}

func (p *refParser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '|' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *refParser) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func isNameByte(b byte, first bool) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || !first && (b >= '0' && b <= '9' || b == '_' || b == '-' || b == '.')
}

func (p *refParser) items(end string) ([]*refNode, error) {
	var out []*refNode
	for {
		p.ws()
		c := p.peek()
		if c == 0 {
			if end != "" {
				return nil, fmt.Errorf("syntax: unterminated %s", end)
			}
			return out, nil
		}
		if end != "" && string(c) == end {
			p.i++
			return out, nil
		}
		n, err := p.item()
		if err != nil {
			return nil, err
		}
		// postfix: repeat and alternate endings
		for {
			save := p.i
			p.ws()
			if p.peek() == '*' {
				p.i++
				p.ws()
				k := p.number()
				if k < 0 {
					return nil, fmt.Errorf("syntax: repeat")
				}
				n = &refNode{k: "repeat", n: int(k), kids: []*refNode{n}}
				continue
			}
			if p.peek() == '\'' {
				p.i++
				var reps []int
				for {
					lo := p.number()
					hi := lo
					if p.peek() == '-' {
						p.i++
						hi = p.number()
					}
					for x := int(lo); x <= int(hi); x++ {
						reps = append(reps, x)
					}
					if p.peek() != ',' {
						break
					}
					p.i++
				}
				n = &refNode{k: "onrep", reps: reps, kids: []*refNode{n}}
				continue
			}
			p.i = save
			break
		}
		out = append(out, n)
	}
}

func (p *refParser) number() float64 {
	j := p.i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == p.i {
		return -1
	}
	v, _ := strconv.ParseFloat(p.s[p.i:j], 64)
	p.i = j
	return v
}

// duration parses an optional duration and slur.
func (p *refParser) duration() (d *refDur, slur bool) {
	for {
		save := p.i
		v := p.number()
		if v < 0 {
			p.i = save
			return d, slur
		}
		x := refDur{}
		switch {
		case strings.HasPrefix(p.s[p.i:], "ms"):
			p.i += 2
			x.ms = v
		case p.peek() == 's':
			p.i++
			x.ms = v * 1000
		default:
			beats, add := 4/v, 4/v
			for p.peek() == '.' {
				p.i++
				add /= 2
				beats += add
			}
			x.beats = beats
		}
		if d == nil {
			d = &refDur{}
		}
		d.beats += x.beats
		d.ms += x.ms
		if p.peek() == '~' {
			p.i++
			if c := p.peek(); c >= '0' && c <= '9' {
				continue
			}
			return d, true
		}
		return d, false
	}
}

func (p *refParser) noteOrRest() *refNode {
	c := p.peek()
	n := &refNode{}
	if c == 'r' {
		n.k = "rest"
		p.i++
	} else {
		n.k = "note"
		n.n = map[byte]int{'c': 0, 'd': 2, 'e': 4, 'f': 5, 'g': 7, 'a': 9, 'b': 11}[c]
		n.s = string(c)
		p.i++
		for {
			switch p.peek() {
			case '+':
				n.n++
			case '-':
				n.n--
			case '_':
			default:
				goto acc
			}
			n.s = "" // the key signature doesn't matter
			p.i++
		}
	acc:
	}
	n.dur, n.slur = p.duration()
	if n.dur == nil && p.peek() == '~' {
		p.i++
		n.slur = true
	}
	return n
}

// lispWords splits what is between the parentheses; strings lose their quotes.
func lispWords(s string) (out []string) {
	for {
		s = strings.TrimLeft(s, " ")
		if s == "" {
			return
		}
		end, skip := strings.IndexByte(s, ' '), 0
		if s[0] == '"' {
			s = s[1:]
			end, skip = strings.IndexByte(s, '"'), 1
		}
		if end < 0 {
			return append(out, s)
		}
		out = append(out, s[:end])
		s = s[end+skip:]
	}
}

// lispBeats is the number of beats of a note length such as 2 or 4..
func lispBeats(s string) float64 {
	d, _ := (&refParser{s: s}).duration()
	if d == nil {
		return math.NaN()
	}
	return d.beats
}

func (p *refParser) item() (*refNode, error) {
	c := p.peek()
	switch {
	case c == '(':
		j := strings.IndexByte(p.s[p.i:], ')')
		if j < 0 {
			return nil, fmt.Errorf("syntax: unterminated (")
		}
		f := lispWords(p.s[p.i+1 : p.i+j])
		p.i += j + 1
		n := &refNode{k: "set"}
		if len(f) == 0 {
			return nil, fmt.Errorf("syntax: ()")
		}
		n.s = f[0]
		attr := strings.TrimSuffix(n.s, "!")
		switch {
		case len(f) == 2 && strings.HasPrefix(attr, "key-sig"):
			n.alias = f[1]
		case len(f) == 3 && attr == "tempo":
			v, err := strconv.ParseFloat(f[2], 64)
			if err != nil {
				return nil, err
			}
			n.v = lispBeats(f[1]) * v
		case len(f) == 3 && attr == "metric-modulation":
			n.v = lispBeats(f[2]) / lispBeats(f[1])
		case len(f) > 1:
			v, err := strconv.ParseFloat(f[1], 64)
			if err != nil {
				return nil, err
			}
			n.v = v
		}
		return n, nil
	case c == '[':
		p.i++
		kids, err := p.items("]")
		return &refNode{k: "seq", kids: kids}, err
	case c == '{':
		p.i++
		kids, err := p.items("}")
		n := &refNode{k: "cram", kids: kids}
		n.dur, _ = p.duration()
		return n, err
	case c == '>' || c == '<':
		p.i++
		n := &refNode{k: "octave", n: 1}
		if c == '<' {
			n.n = -1
		}
		return n, nil
	case c == '%' || c == '@':
		p.i++
		j := p.i
		for j < len(p.s) && isNameByte(p.s[j], false) {
			j++
		}
		n := &refNode{k: "marker", s: p.s[p.i:j]}
		if c == '@' {
			n.k = "at"
		}
		p.i = j
		return n, nil
	case c == 'V' && p.i+2 < len(p.s) && p.s[p.i+1] >= '0' && p.s[p.i+1] <= '9' && p.s[p.i+2] == ':':
		n := &refNode{k: "voice", n: int(p.s[p.i+1] - '0')}
		p.i += 3
		return n, nil
	case isNameByte(c, true):
		j := p.i
		for j < len(p.s) && (isNameByte(p.s[j], false) || p.s[j] == '/' && j+2 < len(p.s) && isNameByte(p.s[j+1], true) && isNameByte(p.s[j+2], true)) {
			j++
		}
		word := p.s[p.i:j]
		// part declaration
		k := j
		alias := ""
		if strings.HasPrefix(p.s[k:], " \"") {
			if e := strings.IndexByte(p.s[k+2:], '"'); e > 0 {
				alias = p.s[k+2 : k+2+e]
				k += 2 + e + 1
			}
		}
		if k < len(p.s) && p.s[k] == ':' && len(word) > 1 {
			p.i = k + 1
			return &refNode{k: "decl", s: word, alias: alias}, nil
		}
		if c == 'o' && j > p.i+1 && p.s[p.i+1] >= '0' && p.s[p.i+1] <= '9' {
			p.i++
			return &refNode{k: "octset", n: int(p.number())}, nil
		}
		if c >= 'a' && c <= 'g' || c == 'r' {
			// a note, a chord, or a variable
			if j-p.i >= 2 && isNameByte(p.s[p.i+1], true) {
				p.i = j
				return &refNode{k: "ref", s: word}, nil
			}
			var kids []*refNode
			for {
				kids = append(kids, p.noteOrRest())
				save := p.i
				p.ws()
				if p.peek() != '/' {
					p.i = save
					break
				}
				p.i++
				p.ws()
				for p.peek() == '>' || p.peek() == '<' {
					o := &refNode{k: "octave", n: 1}
					if p.peek() == '<' {
						o.n = -1
					}
					kids = append(kids, o)
					p.i++
					p.ws()
				}
				if x := p.peek(); !(x >= 'a' && x <= 'g' || x == 'r') {
					return nil, fmt.Errorf("syntax: chord")
				}
			}
			if len(kids) == 1 {
				return kids[0], nil
			}
			return &refNode{k: "chord", kids: kids}, nil
		}
		if len(word) > 1 {
			p.i = j
			return &refNode{k: "ref", s: word}, nil
		}
	}
	return nil, fmt.Errorf("syntax: unexpected %q", string(c))
}

// ---------------------------------------------------------------- semantics

var refPatch = map[string]int{"piano": 0, "harpsichord": 6, "vibraphone": 11, "violin": 40, "viola": 41, "cello": 42, "trumpet": 56, "clarinet": 71, "flute": 73,
	"banjo": 105, "oboe": 68, "bassoon": 70, "tuba": 58, "midi-percussion": -1}

// RefInstruments are the instruments the generators use.
var RefInstruments = []string{"piano", "violin", "cello", "trumpet", "flute", "clarinet", "banjo", "harpsichord", "vibraphone", "viola", "midi-percussion"}

var refDynamics = map[string]float64{"pp": 0.31314, "p": 0.38946, "mp": 0.46578, "mf": 0.54210, "f": 0.61841, "ff": 0.69473}

func (r *RefScore) newPart(name string) (*refPart, error) {
	patch, ok := refPatch[name]
	if !ok {
		return nil, fmt.Errorf("unknown instrument %s", name)
	}
	p := &refPart{inst: name, patch: patch, octave: 4, tempo: 120, vol: 0.54210, tv: 100.0 / 127, pan: 0.5, quant: 0.9, dur: refDur{beats: 1}, last: -1, ts: 1}
	p.origin = p
	return p, nil
}

func (r *RefScore) eval(nodes []*refNode) error {
	for _, n := range nodes {
		if err := r.one(n, false); err != nil {
			return err
		}
	}
	return nil
}

// close notes that two offsets differ by less than rounding errors may amount
// to, so that their order cannot be told.
func (r *RefScore) close(a, b float64) {
	if a != b && math.Abs(a-b) < 1e-5 {
		r.Fuzzy = true
	}
}

// Ambiguous tells the same about the limits of an excerpt.
func (r *RefScore) Ambiguous(limits ...float64) bool {
	t := &RefScore{}
	exact := true
	for _, n := range r.Notes {
		exact = exact && n.Off*8 == math.Trunc(n.Off*8) && n.Dur*8 == math.Trunc(n.Dur*8)
	}
	for _, l := range limits {
		for _, n := range r.Notes {
			t.close(n.Off, l)
			if l > 0 && n.Off == l && !exact && !r.markedBy[n.Part][l] {
				t.Fuzzy = true // equal by luck
			}
		}
		for o := range r.Tempos() {
			t.close(o, l)
		}
	}
	return t.Fuzzy
}

func (r *RefScore) endVoices() {
	for i, p := range r.cur {
		g := p.grp
		if g == nil {
			continue
		}
		last := g.voices[g.order[len(g.order)-1]]
		for _, k := range g.order[:len(g.order)-1] {
			v := g.voices[k]
			r.close(v.off, last.off)
			if v.off == last.off && (v.rough || last.rough) && v.state() != last.state() {
				r.Fuzzy = true // equal by luck
			}
			if g.voices[k].off > last.off {
				last = g.voices[k]
			}
		}
		last.grp = nil
		r.cur[i] = last
		for j, q := range r.parts {
			if q.origin == p.origin {
				r.parts[j] = last
			}
		}
		for _, l := range r.alias {
			for j, q := range l {
				if q.origin == p.origin {
					l[j] = last
				}
			}
		}
	}
}

// state is what a voice leaves behind, apart from where it ends.
func (p *refPart) state() string {
	return fmt.Sprint(p.octave, p.tempo, p.vol, p.tv, p.pan, p.quant, p.dur, p.ts, p.trans, p.key, p.last, p.rep, p.local, p.tempos)
}

// add advances the part by d ms.
func (p *refPart) add(d float64) {
	p.off += d
	p.rough = p.rough || d*8 != math.Trunc(d*8)
}

func (r *RefScore) globalsFor(p *refPart) {
	var offs []float64
	seen := map[float64]bool{}
	for _, g := range r.globals {
		if !seen[g.off] {
			seen[g.off] = true
			offs = append(offs, g.off)
		}
	}
	sort.Float64s(offs)
	for i, o := range offs {
		r.close(o, p.off)
		r.close(o, p.last)
		rough, first := p.rough && (o == p.off || o == p.last), ""
		for _, g := range r.globals {
			if g.off == o && (o == p.off || o == p.last) {
				rough = rough || g.rough
			}
		}
		if rough {
			luck := true // equal although reached in another way
			for _, g := range r.globals {
				luck = luck && !(g.off == o && g.by == p.label)
			}
			r.Fuzzy = r.Fuzzy || luck
		}
		for _, g := range r.globals {
			if g.off != o {
				continue
			}
			if first == "" {
				first = g.by
			}
			if g.by != first {
				for _, h := range r.globals {
					r.Fuzzy = r.Fuzzy || h.off == o && h.rough
				}
			}
		}
		if i > 0 {
			r.close(o, offs[i-1])
		}
		if o > p.off || o <= p.last {
			continue
		}
		for _, g := range r.globals {
			if g.off == o && p.local != g.attr {
				r.set(p, g.attr, g.val, g.str, true)
			}
		}
	}
	p.local = ""
}

func (r *RefScore) set(p *refPart, attr string, v float64, str string, global bool) bool {
	switch attr {
	case "transpose":
		p.trans = int(v)
	case "key-sig", "key-signature":
		p.key = str
	case "tempo", "metric-modulation":
		if attr == "tempo" {
			p.tempo = v
		} else {
			p.tempo *= v
			v = p.tempo
		}
		if !global && len(r.parts) > 0 && p.origin == r.parts[0].origin {
			t := map[float64]float64{p.off: v}
			for o, x := range p.tempos {
				if o != p.off {
					t[o] = x
				}
			}
			p.tempos = t
		}
	case "vol", "volume":
		p.vol = v / 100
	case "track-vol", "track-volume":
		p.tv = v / 100
	case "pan", "panning":
		p.pan = v / 100
	case "quant", "quantize":
		p.quant = v / 100
	case "octave":
		p.octave = int(v)
	default:
		if d, ok := refDynamics[attr]; ok {
			p.vol = d
			return true
		}
		return false
	}
	return true
}

func (r *RefScore) one(n *refNode, chord bool) error {
	switch n.k {
	case "decl":
		r.endVoices()
		return r.declare(n)
	case "note", "rest":
		if !chord {
			for _, p := range r.cur {
				r.globalsFor(p)
			}
		}
		for _, p := range r.cur {
			d := p.dur
			if n.dur != nil {
				d = *n.dur
			}
			if d.beats == 0 && d.ms == 0 {
				return fmt.Errorf("zero duration")
			}
			full := d.in(p.tempo) * p.ts
			if n.k == "note" {
				aud := full
				if !n.slur {
					aud *= p.quant
				}
				if aud > 0 {
					num := (p.octave+1)*12 + n.n + p.trans
					if n.s != "" {
						for _, k := range strings.Fields(p.key) {
							if k[0] == n.s[0] {
								num += strings.Count(k, "+") - strings.Count(k, "-")
							}
						}
					}
					if num < 0 || num > 127 {
						return fmt.Errorf("note %d out of range", num)
					}
					track := 0
					for i, q := range r.parts {
						if q.origin == p.origin {
							track = i + 1
						}
					}
					r.Notes = append(r.Notes, RefNote{Part: p.origin.label, Track: track, Off: p.off, Dur: full, Aud: aud, Num: num,
						Vel: rnd(p.vol * 127), TVol: rnd(p.tv * 127), Pan: rnd(p.pan * 127), Patch: p.patch, Input: r.input})
				}
			}
			if !chord {
				p.last = p.off
				p.add(full)
			}
			p.dur = d
		}
	case "chord":
		for _, p := range r.cur {
			r.globalsFor(p)
		}
		short := map[*refPart]float64{}
		for _, k := range n.kids {
			for _, p := range r.cur {
				if k.k == "octave" {
					p.octave += k.n
					continue
				}
				d := p.dur
				if k.dur != nil {
					d = *k.dur
				}
				x := d.in(p.tempo) * p.ts
				if s, ok := short[p]; !ok || x < s {
					short[p] = x
				}
			}
			if k.k != "octave" {
				if err := r.one(k, true); err != nil {
					return err
				}
			}
		}
		for _, p := range r.cur {
			p.last = p.off
			p.add(short[p])
		}
	case "octave":
		for _, p := range r.cur {
			p.octave += n.n
			p.local = "octave-step"
		}
	case "octset":
		for _, p := range r.cur {
			p.octave = n.n
			p.local = "octave"
		}
	case "set":
		if strings.HasSuffix(n.s, "!") {
			attr := strings.TrimSuffix(n.s, "!")
			off, by, rough := 0.0, "", false
			for i, p := range r.cur {
				if i > 0 && p.off != off {
					return fmt.Errorf("global attribute at different offsets")
				}
				off, by, rough = p.off, p.label, rough || p.rough
			}
			if !r.set(&refPart{}, attr, n.v, n.alias, true) {
				return fmt.Errorf("unknown function %s", n.s)
			}
			r.globals = append(r.globals, refGlobal{off, attr, n.v, n.alias, by, rough})
			return nil
		}
		if !r.set(&refPart{}, n.s, n.v, n.alias, true) {
			return fmt.Errorf("unknown function %s", n.s)
		}
		for _, p := range r.cur {
			r.set(p, n.s, n.v, n.alias, false)
			p.local = n.s
		}
	case "marker":
		if len(r.cur) == 0 {
			return fmt.Errorf("marker outside of a part")
		}
		for _, p := range r.cur {
			if p.off != r.cur[0].off {
				return fmt.Errorf("marker unclear")
			}
		}
		r.Markers[n.s] = r.cur[0].off
		for _, p := range r.cur {
			if r.markedBy == nil {
				r.markedBy = map[string]map[float64]bool{}
			}
			if r.markedBy[p.label] == nil {
				r.markedBy[p.label] = map[float64]bool{}
			}
			r.markedBy[p.label][p.off] = true
			if p.rough {
				if r.roughMark == nil {
					r.roughMark = map[string]bool{}
				}
				r.roughMark[n.s] = true
			}
		}
	case "at":
		for _, p := range r.cur {
			r.globalsFor(p)
		}
		off, ok := r.Markers[n.s]
		if !ok {
			return fmt.Errorf("undefined marker %s", n.s)
		}
		for _, p := range r.cur {
			p.last = p.off
			p.off = off
			p.rough = p.rough || r.roughMark[n.s]
		}
	case "seq":
		return r.eval(n.kids)
	case "repeat":
		for i := 1; i <= n.n; i++ {
			for _, p := range r.cur {
				p.rep = i
			}
			if err := r.one(n.kids[0], false); err != nil {
				return err
			}
		}
	case "onrep":
		// Alda applies the event to the whole group, once for each of its
		// members that is at one of these repetitions.
		for _, p := range append([]*refPart(nil), r.cur...) {
			for _, x := range n.reps {
				if x == p.rep {
					if err := r.one(n.kids[0], false); err != nil {
						return err
					}
					break
				}
			}
		}
	case "cram":
		old := make([]refPart, len(r.cur))
		for i, p := range r.cur {
			old[i] = *p
		}
		for _, p := range r.cur {
			d := p.dur
			if n.dur != nil {
				d = *n.dur
			}
			q := *p
			inner := r.length(n.kids, &q)
			if inner == 0 {
				return fmt.Errorf("empty cram")
			}
			p.ts = p.ts / inner * d.in(p.tempo)
		}
		if err := r.eval(n.kids); err != nil {
			return err
		}
		for i, p := range r.cur {
			p.dur = old[i].dur
			if n.dur != nil {
				p.dur = *n.dur
			}
			p.ts = old[i].ts
		}
	case "voice":
		if n.n == 0 {
			r.endVoices()
			return nil
		}
		for i, p := range r.cur {
			if p.grp == nil {
				t := *p
				p.grp = &refGroup{template: &t, voices: map[int]*refPart{}}
			}
			g := p.grp
			v := g.voices[n.n]
			if v == nil {
				x := *g.template
				x.local = ""
				v = &x
				v.grp = g
				g.voices[n.n] = v
				g.order = append(g.order, n.n)
			}
			r.cur[i] = v
		}
	case "def":
		var val []*refNode
		if err := r.capture(n.kids, &val); err != nil {
			return err
		}
		r.vars[n.s] = val
	case "ref":
		v, ok := r.vars[n.s]
		if !ok {
			return fmt.Errorf("undefined variable %s", n.s)
		}
		return r.eval(v)
	default:
		return fmt.Errorf("reference: %s", n.k)
	}
	return nil
}

// capture resolves variables at the time of the definition.
func (r *RefScore) capture(in []*refNode, out *[]*refNode) error {
	for _, n := range in {
		c := *n
		switch n.k {
		case "ref":
			v, ok := r.vars[n.s]
			if !ok {
				return fmt.Errorf("undefined variable %s", n.s)
			}
			c = refNode{k: "seq", kids: v}
		case "seq", "cram", "repeat", "onrep":
			c.kids = nil
			if err := r.capture(n.kids, &c.kids); err != nil {
				return err
			}
		}
		*out = append(*out, &c)
	}
	return nil
}

// length is the unscaled length of events, as a cram needs it.
func (r *RefScore) length(nodes []*refNode, p *refPart) float64 {
	t := 0.0
	for _, n := range nodes {
		switch n.k {
		case "note", "rest":
			d := p.dur
			if n.dur != nil {
				d = *n.dur
				p.dur = d
			}
			t += d.in(p.tempo)
		case "chord":
			m := math.MaxFloat64
			for _, k := range n.kids {
				if k.k == "octave" {
					continue
				}
				m = math.Min(m, r.length([]*refNode{k}, p))
			}
			t += m
		case "seq":
			t += r.length(n.kids, p)
		case "repeat":
			for i := 1; i <= n.n; i++ {
				p.rep = i
				t += r.length(n.kids, p)
			}
		case "onrep":
			for _, x := range n.reps {
				if x == p.rep {
					t += r.length(n.kids, p)
					break
				}
			}
		case "ref":
			t += r.length(r.vars[n.s], p)
		case "cram":
			d := p.dur
			if n.dur != nil {
				d = *n.dur
			}
			t += d.in(p.tempo)
		}
	}
	return t
}

func (r *RefScore) isAliased(p *refPart) bool {
	for _, l := range r.alias {
		for _, q := range l {
			if q.origin == p.origin {
				return true
			}
		}
	}
	return false
}

// declare follows the documented rules: an instrument is used either with or
// without names, groups do not mix the two.
func (r *RefScore) declare(n *refNode) error {
	names := strings.Split(n.s, "/")
	var parts []*refPart
	unnamed := func(name string) (out []*refPart) {
		for _, p := range r.parts {
			if p.inst == name && !r.isAliased(p) {
				out = append(out, p)
			}
		}
		return
	}
	ownName := func(name string) bool {
		for _, l := range r.alias {
			if len(l) == 1 && l[0].inst == name {
				return true
			}
		}
		return false
	}
	add := func(l ...*refPart) {
		for _, p := range l {
			dup := false
			for _, q := range parts {
				dup = dup || q == p
			}
			if !dup {
				parts = append(parts, p)
			}
		}
	}
	if n.alias != "" && r.alias[n.alias] != nil {
		return fmt.Errorf("alias %s exists", n.alias)
	}
	if len(names) == 1 {
		name := names[0]
		if n.alias != "" && (r.alias[name] != nil || len(unnamed(name)) > 0) {
			return fmt.Errorf("alias %s for an existing part", n.alias)
		}
		if n.alias == "" && ownName(name) && !strings.Contains(name, ".") {
			return fmt.Errorf("%s has named instances", name)
		}
		switch {
		case n.alias == "" && r.alias[name] != nil:
			add(r.alias[name]...)
		case n.alias == "" && len(unnamed(name)) > 0:
			add(unnamed(name)...)
		default:
			p, err := r.newPart(name)
			if err != nil {
				return err
			}
			add(p)
		}
	} else {
		var named, stock []*refPart
		seen := map[string]bool{}
		for _, name := range names {
			if seen[name] {
				return fmt.Errorf("duplicate name in group")
			}
			seen[name] = true
			if l := r.alias[name]; l != nil {
				named = append(named, l...)
			} else if u := unnamed(name); len(u) > 0 {
				stock = append(stock, u...)
			} else {
				p, err := r.newPart(name)
				if err != nil {
					return err
				}
				stock = append(stock, p)
			}
		}
		if len(named) > 0 && len(stock) > 0 {
			return fmt.Errorf("group of named and unnamed parts")
		}
		if n.alias != "" && len(stock) > 0 {
			for _, name := range names {
				p, _ := r.newPart(name)
				add(p)
			}
		} else {
			add(named...)
			add(stock...)
		}
	}
	for _, p := range parts {
		in := false
		for _, q := range r.parts {
			in = in || q == p
		}
		if !in {
			p.label = fmt.Sprintf("%d.%s", len(r.parts)+1, p.inst)
			r.parts = append(r.parts, p)
		}
	}
	if n.alias != "" {
		had := map[*refPart][]string{}
		for a, l := range r.alias {
			if len(l) == 1 {
				had[l[0]] = append(had[l[0]], a)
			}
		}
		r.alias[n.alias] = append([]*refPart(nil), parts...)
		for _, p := range parts {
			r.alias[n.alias+"."+p.inst] = []*refPart{p}
			for _, a := range had[p] {
				r.alias[n.alias+"."+a] = []*refPart{p}
			}
		}
	}
	r.cur = append([]*refPart(nil), parts...)
	return nil
}

func rnd(x float64) int { return int(math.Round(x)) }

// Tempos is the tempo itinerary: offset in ms to bpm.
func (r *RefScore) Tempos() map[float64]float64 {
	out := map[float64]float64{0: 120}
	if len(r.parts) > 0 {
		for o, t := range r.parts[0].tempos {
			out[o] = t
		}
	}
	gs := append([]refGlobal(nil), r.globals...)
	sort.SliceStable(gs, func(i, j int) bool { return gs[i].off < gs[j].off })
	last := 120.0 // the last tempo set for all
	for _, g := range gs {
		switch g.attr {
		case "tempo":
			last = g.val
			out[g.off] = g.val
		case "metric-modulation":
			out[g.off] = last * g.val
		}
	}
	return out
}

// Offset interprets a marker or a time marking.
func (r *RefScore) Offset(ref string) (float64, bool) {
	var m, s int
	if k, _ := fmt.Sscanf(ref, "%d:%d", &m, &s); k == 2 {
		return float64(m*60000 + s*1000), true
	}
	o, ok := r.Markers[ref]
	return o, ok
}

// ---------------------------------------------------------------- comparing with score-data

type dataEvent struct {
	Part string  `json:"part"`
	Chan int     `json:"midi-channel"`
	Num  int     `json:"midi-note"`
	Off  float64 `json:"offset"`
	Dur  float64 `json:"duration"`
	Aud  float64 `json:"audible-duration"`
	Vol  float64 `json:"volume"`
	TVol float64 `json:"track-volume"`
	Pan  float64 `json:"panning"`
}

type dataScore struct {
	Parts   map[string]map[string]interface{} `json:"parts"`
	Events  []json.RawMessage                 `json:"events"`
	Markers map[string]float64                `json:"markers"`
	Globals map[string]interface{}            `json:"global-attributes"`
	Cur     []string                          `json:"current-parts"`
	Vars    map[string]interface{}            `json:"variables"`
	Aliases map[string][]string               `json:"aliases"`
}

// diffData compares what score-data answered with the reference; "" if equal.
func (r *RefScore) diffData(data string) string {
	var d dataScore
	if err := json.Unmarshal([]byte(data), &d); err != nil {
		return "score-data is not JSON: " + err.Error()
	}
	var got, want []string
	used := make([]bool, len(r.Notes))
	var extra []string
	close := func(a, b float64) bool { return math.Abs(a-b) <= 0.02 }
	for _, raw := range d.Events {
		var e dataEvent
		if err := json.Unmarshal(raw, &e); err != nil {
			return "event: " + err.Error()
		}
		found := false
		for i, n := range r.Notes {
			if !used[i] && n.Num == e.Num && close(n.Off, e.Off) && close(n.Dur, e.Dur) && close(n.Aud, e.Aud) && n.Vel == rnd(e.Vol*127) && n.TVol == rnd(e.TVol*127) && n.Pan == rnd(e.Pan*127) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			extra = append(extra, fmt.Sprintf("%d at %s for %s/%s vol %d tvol %d pan %d", e.Num, r3(e.Off), r3(e.Dur), r3(e.Aud), rnd(e.Vol*127), rnd(e.TVol*127), rnd(e.Pan*127)))
		}
	}
	var missing []string
	for i, n := range r.Notes {
		if !used[i] {
			missing = append(missing, fmt.Sprintf("%d at %s for %s/%s vol %d tvol %d pan %d", n.Num, r3(n.Off), r3(n.Dur), r3(n.Aud), n.Vel, n.TVol, n.Pan))
		}
	}
	if len(missing)+len(extra) > 0 {
		return fmt.Sprintf("notes: %d of %d missing: %s; %d unexpected: %s", len(missing), len(r.Notes), clip(strings.Join(missing, ", "), 240), len(extra), clip(strings.Join(extra, ", "), 240))
	}
	got, want = nil, nil
	for _, p := range d.Parts {
		got = append(got, fmt.Sprintf("%v at %s tempo %v octave %v", p["name"], r1(num(p["current-offset"])), p["tempo"], p["octave"]))
	}
	for _, p := range r.parts {
		want = append(want, fmt.Sprintf("%v at %s tempo %v octave %v", p.inst, r1(p.off), p.tempo, p.octave))
	}
	if s := diffLists(got, want); s != "" {
		return "parts: " + s
	}
	got, want = nil, nil
	for k, v := range d.Markers {
		got = append(got, fmt.Sprintf("%s at %s", k, r1(v)))
	}
	for k, v := range r.Markers {
		want = append(want, fmt.Sprintf("%s at %s", k, r1(v)))
	}
	if s := diffLists(got, want); s != "" {
		return "markers: " + s
	}
	got, want = nil, nil
	for k := range d.Vars {
		got = append(got, k)
	}
	for k := range r.vars {
		want = append(want, k)
	}
	if s := diffLists(got, want); s != "" {
		return "variables: " + s
	}
	return ""
}

func num(x interface{}) float64 {
	f, _ := x.(float64)
	return f
}

func r3(x float64) string { return strconv.FormatFloat(math.Round(x*100)/100, 'f', -1, 64) }
func r1(x float64) string { return strconv.FormatFloat(math.Round(x+0.123), 'f', -1, 64) }

// diffLists compares two multisets.
func diffLists(got, want []string) string {
	got, want = append([]string(nil), got...), append([]string(nil), want...)
	sort.Strings(got)
	sort.Strings(want)
	var missing, extra []string
	i, j := 0, 0
	for i < len(got) || j < len(want) {
		switch {
		case j >= len(want) || i < len(got) && got[i] < want[j]:
			extra = append(extra, got[i])
			i++
		case i >= len(got) || want[j] < got[i]:
			missing = append(missing, want[j])
			j++
		default:
			i++
			j++
		}
	}
	if len(missing)+len(extra) == 0 {
		return ""
	}
	return fmt.Sprintf("%d of %d missing: %s; %d unexpected: %s", len(missing), len(want), clip(strings.Join(missing, ", "), 240), len(extra), clip(strings.Join(extra, ", "), 240))
}

func dropBarlines(x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		for k, y := range v {
			v[k] = dropBarlines(y)
		}
	case []interface{}:
		out := []interface{}{}
		for _, y := range v {
			if m, ok := y.(map[string]interface{}); ok && m["type"] == "barline" {
				continue
			}
			out = append(out, dropBarlines(y))
		}
		return out
	}
	return x
}

// canonData makes the score-data of different servers comparable: the part
// ids are addresses and are replaced.
func canonData(data string) (string, error) {
	var d dataScore
	var any interface{}
	if err := json.Unmarshal([]byte(data), &any); err != nil {
		return "", err
	}
	b, _ := json.Marshal(dropBarlines(any)) // a bar line is no part of a duration
	if err := json.Unmarshal(b, &d); err != nil {
		return "", err
	}
	label := map[string]string{}
	lab := func(id string) string {
		if label[id] == "" {
			label[id] = fmt.Sprintf("P%d", len(label)+1)
		}
		return label[id]
	}
	var ev []string
	for _, raw := range d.Events {
		var m map[string]interface{}
		if err := json.Unmarshal(raw, &m); err != nil {
			return "", err
		}
		if s, ok := m["part"].(string); ok {
			m["part"] = lab(s)
		}
		b, _ := json.Marshal(m)
		ev = append(ev, string(b))
	}
	var parts []string
	names := map[string]string{}
	for id, p := range d.Parts {
		b, _ := json.Marshal(p)
		parts = append(parts, string(b))
		names[id] = string(b)
	}
	sort.Strings(parts)
	var cur []string
	for _, id := range d.Cur {
		cur = append(cur, names[id])
	}
	var al []string
	for a, ids := range d.Aliases {
		s := a + "="
		for _, id := range ids {
			s += names[id] + ";"
		}
		al = append(al, s)
	}
	sort.Strings(al)
	// The keys are rounded offsets: of two that round to the same one, either
	// may be shown, so the values don't count here.
	var globals []string
	for k := range d.Globals {
		globals = append(globals, k)
	}
	sort.Strings(globals)
	x, _ := json.Marshal(map[string]interface{}{"events": ev, "parts": parts, "markers": d.Markers, "globals": globals, "vars": d.Vars, "aliases": al, "current": cur})
	return string(x), nil
}
