package check

import (
	"fmt"
	fspkg "io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C20: formatting or importing never destroys the user's file.

func init() {
	tuning["C20"] = tune{8000, 300000, "at least two commands that write the file ran, one of them with a fault, an invalid option or input, or a rival"}
	register(&Scenario{Prop: "C20", Name: "files", Gen: genC20, Run: runC20})
}

const c20dir = "/home/user/music"

func c20score(g *Gen) string {
	s := newSong(g)
	var b strings.Builder
	for n := g.N(1, 8); n > 0; n-- {
		b.WriteString(s.input())
		b.WriteString(g.OneOf("\n", "\n\n", "\n   \n"))
	}
	text := b.String()
	if g.Bool(0.15) { // larger than a page
		line := text
		if !strings.Contains(line, ":") {
			line = "piano: c d e\n"
		}
		for len(text) < g.N(3000, 9000) {
			text += "piano: " + strings.Repeat("c d e f ", 30) + "\n"
		}
	}
	return text
}

func musicXML(g *Gen) string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<score-partwise version=\"3.1\"><part-list>")
	parts := g.N(1, 3)
	for i := 1; i <= parts; i++ {
		fmt.Fprintf(&b, "<score-part id=\"P%d\"><part-name>%s</part-name></score-part>", i, g.OneOf("Piano", "Violin", "Cello"))
	}
	b.WriteString("</part-list>")
	for i := 1; i <= parts; i++ {
		fmt.Fprintf(&b, "<part id=\"P%d\">", i)
		ms := g.N(1, 4)
		if g.Bool(0.1) {
			ms = g.N(30, 200)
		}
		for m := 1; m <= ms; m++ {
			fmt.Fprintf(&b, "<measure number=\"%d\">", m)
			if m == 1 {
				b.WriteString("<attributes><divisions>1</divisions><key><fifths>0</fifths></key><time><beats>4</beats><beat-type>4</beat-type></time><clef><sign>G</sign><line>2</line></clef></attributes>")
			}
			for k := 0; k < 4; k++ {
				fmt.Fprintf(&b, "<note><pitch><step>%s</step><octave>%d</octave></pitch><duration>1</duration><voice>1</voice><type>quarter</type></note>", g.OneOf("A", "B", "C", "D", "E", "F", "G"), g.N(3, 6))
			}
			b.WriteString("</measure>")
		}
		b.WriteString("</part>")
	}
	b.WriteString("</score-partwise>\n")
	return b.String()
}

// Op run: S format|import, C target (0, 1), T the way of giving input, X options,
// At -1 = after the others have ended.
func genC20(g *Gen) {
	g.Swarm()
	g.I("target0", g.OneI(0, 0, 0, 0, 1, 2, 3, 4, 5)) // file, symlink, missing, unparsable, relative link chain, empty
	g.I("target1", g.OneI(0, 1, 2, 2, 2, 4, 5))
	g.I("mode", g.OneI(0644, 0644, 0664, 0600, 0444, 0755))
	g.I("bg", g.OneI(0, 0, 0, 1)) // a leftover with the name of a temporary file
	g.Op(Op{K: "score", C: 0, S: c20score(g)})
	g.Op(Op{K: "score", C: 1, S: c20score(g)})
	n := g.N(2, 6)
	if g.Thorough {
		n = g.N(2, 16)
	}
	for i := 0; i < n; i++ {
		if g.Bool(0.35) {
			k := g.OneOf("eio", "enospc", "short", "eacces", "eio", "erofs", "edquot")
			g.Op(Op{K: "disk", S: k, T: g.OneOf("any", "any", "read", "open", "create", "write", "close", "sync", "rename", "chmod", "stat", "remove", "readlink"), N: g.OneI(1, 1, 1, 2, 3, 5), M: g.OneI(0, 1, 7, 100, 4095), At: g.OneI(0, 0, 1)})
		}
		if g.Bool(0.3) {
			g.Op(Op{K: "kill", S: g.OneOf("first", "mid", "after"), T: g.OneOf("any", "any", "create", "write", "open", "close", "sync", "rename", "chmod"), N: g.OneI(1, 1, 1, 2, 3, 5, 8), M: g.OneI(0, 1, 20, 4000)})
		}
		if g.Bool(0.15) {
			g.Op(Op{K: "slowdisk", N: g.OneI(1*ms, 5*ms, 30*ms)})
		}
		if g.Bool(0.12) {
			g.Op(Op{K: "free", N: g.OneI(0, 1, 10, 60, 200, 4096, 5000, 1<<30)})
		}
		if g.Bool(0.1) {
			g.Op(Op{K: "power"})
		}
		if g.Bool(0.1) {
			g.Op(Op{K: "edit", C: g.N(0, 1), S: c20score(g)})
		}
		if g.Bool(0.05) {
			g.Op(Op{K: "edit", C: g.N(0, 1), S: g.OneOf("piano: c [d e\n", "piano: (\n", "", "\x00\x01", "foo bar: {")})
		}
		o := Op{K: "run", S: g.OneOf("format", "format", "import"), C: g.N(0, 1)}
		if g.Bool(0.6) {
			o.C = 0
		}
		o.X = []string{"-o"}
		if o.S == "format" {
			switch g.N(0, 9) {
			case 0:
				o.X = nil
			case 1:
				o.X = append(o.X, "-w", g.OneOf("-1", "-80", "abc", "99999999999999999999"))
			case 2, 3:
				o.X = append(o.X, "-w", g.OneOf("1", "20", "40", "120", "0"))
			case 4:
				o.X = append(o.X, "-i", g.OneOf(" ", "    ", "\t", ""))
			case 5:
				o.X = append(o.X, "-w", "40", "-i", "    ")
			case 6:
				o.X = append(o.X, g.OneOf("--no-such-flag", "-x"))
			}
		} else {
			o.T = g.OneOf("file", "code", "stdin", "file", "code", "stdin", "none", "nofile", "empty", "garbage", "cut", "notpartwise", "badformat", "noformat", "dirfile")
			o.M = int64(g.N(0, 1<<20))
			if g.Bool(0.1) {
				o.X = nil
			}
			xml := musicXML(g)
			switch o.T {
			case "empty":
				xml = ""
			case "garbage":
				xml = g.OneOf("not xml", "<a><b></a>", "{}", "piano: c d e")
			case "cut":
				xml = xml[:len(xml)*g.N(1, 9)/10]
			case "notpartwise":
				xml = g.OneOf("<score-timewise></score-timewise>", "<html></html>")
			}
			g.Op(Op{K: "xml", S: xml})
		}
		if g.Bool(0.6) {
			o.At = -1
		} else {
			o.At = g.OneI(0, 1*ms, 20*ms)
		}
		g.Op(o)
	}
}

type c20run struct {
	o       Op
	xml     string
	p       *rt.Proc
	target  string // the path given
	real    string // the file it is
	write   bool
	bad     bool            // it can't succeed
	outs    map[string]bool // what it may write
	saw     bool            // the file had one of these contents
	kill    *Op
	disks   []Op
	nk      int
	nd      map[int]int
	trouble bool
	rival   bool
	slow    int64
	full    bool
	done    bool
}

func runC20(c *Ctx) {
	fs := c.W.FS
	c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	fs.PutDir(c20dir)
	fs.PutDir("/home/user/elsewhere")
	scores := map[int]string{}
	mode := fspkg.FileMode(c.I("mode"))
	names := []string{"one.alda", "two.alda"}
	target := make([]string, 2)
	real := make([]string, 2)
	for _, o := range c.P.Ops {
		if o.K == "score" {
			scores[o.C] = o.S
		}
	}
	for i := range names {
		t := c20dir + "/" + names[i]
		r := t
		data := []byte(scores[i])
		switch c.I(fmt.Sprintf("target%d", i)) {
		case 1:
			r = "/home/user/elsewhere/real" + names[i]
			fs.PutLink(t, r)
		case 2:
			target[i], real[i] = t, t
			continue
		case 3:
			data = []byte("piano: c d [e f\n")
		case 4:
			r = "/home/user/elsewhere/" + names[i]
			fs.PutLink("/home/user/elsewhere/lnk-"+names[i], names[i])
			fs.PutLink(t, "../elsewhere/lnk-"+names[i])
		case 5:
			data = nil
		}
		fs.Put(r, data, 0644)
		fs.SetMode(r, mode)
		target[i], real[i] = t, r
	}
	fs.Put(c20dir+"/other.alda", []byte("piano: c d e # mine\n"), 0644)
	fs.Put(c20dir+"/one.alda~", []byte("backup"), 0600)
	fs.Put("/home/user/elsewhere/notes.txt", []byte("notes"), 0644)
	fs.Put("/home/user/elsewhere/score.musicxml", []byte("<not-yet/>"), 0644)
	if c.I("bg") == 1 {
		fs.Put(c20dir+"/.one.alda.1234.567890.tmp", []byte("left by a crash"), 0644)
		fs.Put(c20dir+"/one.alda.tmp", []byte("mine, too"), 0644)
	}
	powered := false
	tree := func() map[string]string {
		out := map[string]string{}
		for _, root := range []string{c20dir, "/home/user/elsewhere", "/tmp", workDir} {
			for p := range fs.Tree(root) {
				b, _ := fs.Get(p)
				if fs.Kind(p) == "link" {
					b = nil // what it points to is elsewhere
				}
				out[p] = fmt.Sprintf("%s %o %s", fs.Kind(p), fs.Mode(p), b)
			}
		}
		return out
	}
	planted := tree()
	get := func(i int) string {
		b, ok := fs.Get(real[i])
		if !ok {
			return missing
		}
		return string(b)
	}
	// golden is what a command prints if nothing goes wrong.
	memo := map[string]string{}
	golden := func(stdin []byte, in string, args ...string) (string, bool) {
		key := strings.Join(args, "\x00") + "\x01" + string(stdin) + "\x01" + in
		if v, ok := memo[key]; ok {
			return v, v != missing
		}
		fs.Put("/golden/in", []byte(in), 0644)
		p := c.AldaIn(workDir, stdin, args...)
		d := c.wait(p, 60*sec)
		if !d.Ended {
			c.Fail("hangs", "%s", d)
		}
		fs.Delete("/golden/in")
		if d.Code != 0 {
			memo[key] = missing
			return "", false
		}
		memo[key] = d.Stdout
		return d.Stdout, true
	}
	formatted := func(in string, o Op) (string, bool) {
		a := []string{"format", "-f", "/golden/in"}
		for _, x := range o.X {
			if x != "-o" {
				a = append(a, x)
			}
		}
		return golden(nil, in, a...)
	}
	valid := []map[string]bool{{get(0): true}, {get(1): true}}
	var runs []*c20run
	byProc := map[*rt.Proc]*c20run{}
	free := int64(1 << 30)
	look := func(when string) {
		for i := range target {
			now := get(i)
			if !valid[i][now] {
				var ws []string
				for k := range valid[i] {
					ws = append(ws, clip(k, 120))
				}
				sort.Strings(ws)
				c.Fail("destroyed", "%s %s holds %d bytes: %q; neither its previous content nor a new one: %q", when, target[i], len(now), clip(now, 200), ws)
			}
			for _, r := range runs {
				if r.o.C == i && !r.done && r.outs[now] {
					r.saw = true
				}
			}
		}
	}
	mine := func(p string) bool {
		return strings.HasPrefix(p, c20dir) || strings.HasPrefix(p, "/home/user/elsewhere")
	}
	fs.Hook = func(op *world.FSOp) (act world.FSAction) {
		r := byProc[op.P]
		if r == nil || !mine(op.Path) {
			return
		}
		look("before a file operation")
		if r.slow > 0 {
			act.Delay = int64(rt.Choose(rt.Fault, int(r.slow/ms)+1, c.S.Cfg.PRepeat)) * ms
		}
		if k := r.kill; k != nil && (k.T == "any" || k.T == op.Op) {
			r.nk++
			if r.nk == int(k.N) {
				c.W.Fault("killed-" + k.S)
				switch {
				case k.S == "first":
					act.KillFirst = true
				case k.S == "mid" && op.Op == "write":
					act.KillMid = int(k.M) + 1
				default:
					act.KillAfter = true
				}
				return
			}
		}
		for i, d := range r.disks {
			if d.T != "any" && d.T != op.Op {
				continue
			}
			if r.nd == nil {
				r.nd = map[int]int{}
			}
			r.nd[i]++
			if r.nd[i] != int(d.N) && !(d.At == 1 && r.nd[i] > int(d.N)) {
				continue
			}
			if d.S == "eacces" && op.Op == "create" {
				// a directory in which the user may not make files, so that the
				// file can only be written in place
				continue
			}
			r.trouble = true
			c.W.Fault("disk-" + d.S + "-" + op.Op)
			act.Short = int(d.M)
			act.Err = map[string]error{"eio": syscall.EIO, "enospc": syscall.ENOSPC, "short": syscall.EIO, "eacces": syscall.EACCES, "erofs": syscall.EROFS, "edquot": syscall.EDQUOT}[d.S]
			return
		}
		return
	}
	fs.After = func(op *world.FSOp) {
		if mine(op.Path) || mine(op.To) {
			look(fmt.Sprintf("after %s %s by %s", op.Op, op.Path, op.P))
		}
	}
	var before map[string]string
	finish := func() {
		for _, r := range runs {
			if r.done {
				continue
			}
			d := c.wait(r.p, 60*sec)
			look("when " + r.o.S + " had ended")
			r.done = true
			if !d.Ended {
				c.Fail("hangs", "%s", d)
				return
			}
			if r.p.Killed {
				continue
			}
			clean := !r.trouble && !r.full
			switch {
			case r.bad:
				c.Check(d.Code != 0, "false-success", "the options or the input are invalid: %s", d)
			case d.Code == 0 && r.write:
				c.Check(r.saw, "false-success", "%s; %s never held the new content, but %q", d, r.target, clip(get(r.o.C), 200))
			case clean && !r.rival:
				c.Check(d.Code == 0, "fails", "nothing went wrong: %s", d)
			}
			if d.Code != 0 && r.p.Crash == "" {
				c.Check(strings.TrimSpace(d.Stderr) != "", "silent-failure", "%s", d)
			}
			if d.Code == 0 && !r.write && clean && !r.rival {
				c.Check(r.outs[d.Stdout], "wrong-output", "%s", d)
			}
			c.Did(r.o.S)
		}
		if before == nil {
			return
		}
		// everything else is as it was
		killed := false
		removing := false
		for _, r := range runs {
			killed = killed || r.p.Killed
			removing = removing || r.trouble
		}
		after := tree()
		for _, p := range keys2(before, after) {
			x, was := before[p]
			y, is := after[p]
			if x == y && was == is {
				continue
			}
			i := -1
			for j := range real {
				if p == real[j] {
					i = j
				}
			}
			if i >= 0 {
				if was && is {
					c.Check(strings.HasPrefix(y, strings.Join(strings.SplitN(x, " ", 3)[:2], " ")+" "), "mode-changed", "%s was %q, is %q", p, clip(x, 30), clip(y, 30))
				}
				continue
			}
			if _, planted := planted[p]; planted {
			} else if powered && strings.HasSuffix(p, ".tmp") {
				continue
			} else if !was && (killed || removing) && strings.HasPrefix(path.Base(p), ".") && strings.HasSuffix(p, ".tmp") {
				continue // left by a process that was killed
			}
			if !was {
				c.Fail("leftover", "%s was left behind: %q", p, clip(y, 100))
			} else {
				c.Fail("other-file", "%s was %q, is %q", p, clip(x, 100), clip(y, 100))
			}
		}
		runs = nil
		before = nil
		for i := range valid {
			valid[i] = map[string]bool{get(i): true}
		}
	}
	nwrites, nodd := 0, 0
	var next c20run
	lastXML := ""
	for k := 0; k < len(c.P.Ops); k++ {
		o := c.P.Ops[k]
		switch o.K {
		case "slowdisk":
			next.slow = o.N
		case "disk":
			next.disks = append(next.disks, o)
		case "kill":
			q := o
			next.kill = &q
		case "xml":
			lastXML = o.S
		case "free":
			finish()
			free = o.N
		case "edit":
			finish()
			fs.Put(real[o.C], []byte(o.S), 0644)
			fs.SetMode(real[o.C], mode)
			valid[o.C] = map[string]bool{o.S: true}
		case "power":
			nodd++
			powered = true
			c.W.Fault("power-loss")
			for _, r := range runs {
				if !r.p.Dead {
					c.S.Kill(r.p)
				}
			}
			fs.PowerLoss(func(n int) int { return rt.Choose(rt.Fault, n+1, c.S.Cfg.PRepeat) })
			look("after a power loss")
			finish()
			// A temporary file may be damaged, but that is nobody's.
		case "run":
			if o.At < 0 {
				finish()
			} else {
				c.Sleep(o.At)
			}
			r := &c20run{}
			*r = next
			next = c20run{}
			r.o, r.xml = o, lastXML
			r.target, r.real = target[o.C], real[o.C]
			for _, x := range o.X {
				r.write = r.write || x == "-o"
			}
			// all that the file may hold from now on
			live := []*c20run{r}
			for _, q := range runs {
				if !q.done && q.o.C == o.C {
					live = append(live, q)
					q.rival = q.rival || r.write
					r.rival = r.rival || q.write
				}
			}
			var args []string
			var stdin []byte
			r.outs = map[string]bool{}
			if o.S == "format" {
				args = append([]string{"format", "-f", r.target}, o.X...)
			} else {
				args = []string{"import"}
				switch o.T {
				case "badformat":
					args = append(args, "-i", "midi")
				case "noformat":
				default:
					args = append(args, "-i", "musicxml")
				}
				switch o.T {
				case "code":
					args = append(args, "-c", r.xml)
				case "stdin", "empty", "badformat", "noformat":
					stdin = []byte(r.xml)
					if stdin == nil {
						stdin = []byte{}
					}
				case "none":
				case "nofile":
					args = append(args, "-f", c20dir+"/nowhere.musicxml")
				case "dirfile":
					args = append(args, "-f", c20dir)
				default:
					x := fmt.Sprintf("/home/user/in%d.musicxml", k)
					fs.Put(x, []byte(r.xml), 0644)
					args = append(args, "-f", x)
				}
				out, ok := golden(stdin, "", args...)
				switch o.T {
				case "empty", "garbage", "cut", "notpartwise", "badformat", "noformat", "none", "nofile", "dirfile":
					r.bad = true
				default:
					r.bad = !ok
				}
				if ok && !r.bad {
					r.outs[out] = true
				}
				if r.write {
					args = append(args, "-o", r.target)
				}
			}
			for n := 0; n < len(live)+1; n++ {
				for _, q := range live {
					for _, v := range sortedSet(valid[o.C]) {
						if q.o.S == "format" && v != missing {
							if out, ok := formatted(v, q.o); ok {
								q.outs[out] = true
							}
						}
					}
				}
				for _, q := range live {
					for out := range q.outs {
						if q.write {
							valid[o.C][out] = true
						}
					}
				}
			}
			for _, q := range live {
				if q.o.S == "format" {
					q.bad = len(q.outs) == 0 // whatever it finds
				}
			}
			if mode == 0444 && get(o.C) != missing && r.write {
				r.full = true // not writable
			}
			if before == nil {
				before = tree()
			}
			fs.Free = free
			r.full = r.full || free < 1<<20
			if r.write {
				nwrites++
			}
			if r.bad || r.kill != nil || r.disks != nil || r.rival || r.full {
				nodd++
			}
			if nwrites >= 2 && nodd > 0 {
				c.NonTrivial = true
			}
			runs = append(runs, r)
			name := "alda-" + o.S
			r.p = c.W.StartAlda(world.Spec{Name: name, Args: append([]string{"alda"}, args...), Env: c.env, Cwd: c20dir, Stdin: stdin, Pipe: stdin != nil, Exe: exeAlda})
			byProc[r.p] = r
			if r.outs[get(o.C)] {
				r.saw = true
			}
		}
	}
	finish()
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func keys2(a, b map[string]string) []string {
	set := map[string]bool{}
	for k := range a {
		set[k] = true
	}
	for k := range b {
		set[k] = true
	}
	return sortedSet(set)
}
