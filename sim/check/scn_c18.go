package check

import (
	"encoding/json"
	"errors"
	"fmt"
	iofs "io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// C18: an interrupted update never leaves Alda broken.
// C22: only leftovers of updates are ever cleaned up.

func init() {
	tuning["C18"] = tune{12000, 400000, "an update got as far as writing next to the executables or had to fail"}
	register(&Scenario{Prop: "C18", Name: "update", Gen: genC18, Run: runC18})
	tuning["C22"] = tune{8000, 250000, "a leftover was there to be removed, or lookalikes were"}
	register(&Scenario{Prop: "C22", Name: "cleanup", Gen: genC22, Run: runC22})
}

var c18ops = []string{"any", "any", "create", "write", "rename", "chmod", "sync", "close", "open", "stat", "remove"}

func genC18(g *Gen) {
	g.Swarm()
	g.I("layout", g.OneI(0, 0, 1, 2))
	if g.Bool(0.1) {
		g.I("noplayer", 1)
	}
	g.I("spawn", g.OneI(0, 0, 0, 1))
	n := g.N(1, 3)
	for i := 0; i < n; i++ {
		for k := g.OneI(0, 0, 1, 1, 1, 2); k > 0; k-- {
			switch g.N(0, 9) {
			case 0, 1:
				g.Op(Op{K: "http", S: g.OneOf("err", "status", "cut", "cut", "stall", "hang", "slow", "json", "nolength", "nolengthcut", "empty"), N: g.OneI(1, 2, 2, 3, 3), M: g.OneI(404, 500, 403, 1, 400, 4000, 9000)})
			case 2, 3:
				g.Op(Op{K: "disk", S: g.OneOf("enospc", "eio", "eacces", "rename", "sync", "chmod", "short"), T: g.OneOf("exe", "exe", "tmp"), N: g.OneI(1, 1, 2, 3, 4), M: g.OneI(0, 1, 100, 3000)})
			case 4:
				g.Op(Op{K: "full", N: g.OneI(0, 300, 1500, 4096, 10000, 30000)})
			case 5, 6, 7:
				g.Op(Op{K: "kill", S: g.OneOf("first", "mid", "after"), T: c18ops[g.N(0, len(c18ops)-1)], X: []string{g.OneOf("exe", "exe", "all")}, N: g.OneI(1, 1, 2, 2, 3, 4, 6, 9, 14), M: g.OneI(0, 1, 700, 4000)})
			case 8:
				g.Op(Op{K: "power", S: g.OneOf("first", "after", "end"), T: c18ops[g.N(0, len(c18ops)-1)], X: []string{"exe"}, N: g.OneI(1, 1, 2, 2, 3, 4, 6), M: g.I64()})
			case 9:
				g.Op(Op{K: "with", S: g.OneOf("version", "ps", "instruments", "update", "update"), At: g.Dur(0, 3*sec)})
			}
		}
		if g.Bool(0.25) {
			g.Op(Op{K: "slowdisk", N: g.OneI(1*ms, 50*ms)})
		}
		g.Op(Op{K: "update", T: g.OneOf("latest", "latest", "multi", "version", "none", "gone"), C: g.N(0, 7), N: g.OneI(10, 900, 5000, 20000), M: g.OneI(10, 300, 9000, 30000),
			S: g.OneOf("", "", "", "", "playerfirst", "onlyalda", "type", "noassets", "nourl")})
	}
}

// I64 is any non-negative number.
func (g *Gen) I64() int64 { return int64(g.R.Uint64() >> 1) }

// release is one version offered for download.
type release struct {
	version string
	alda    []byte
	player  []byte
	how     string
}

func (r *release) assets() []map[string]interface{} {
	a := map[string]interface{}{"name": "alda", "type": "executable", "url": "https://dl.example/" + r.version + "/alda"}
	p := map[string]interface{}{"name": "alda-player", "type": "executable", "url": "https://dl.example/" + r.version + "/alda-player"}
	switch r.how {
	case "playerfirst":
		return []map[string]interface{}{p, a}
	case "onlyalda":
		return []map[string]interface{}{a}
	case "type":
		p["type"] = "archive"
	case "nourl":
		delete(p, "url")
	}
	return []map[string]interface{}{a, p}
}

func (r *release) json() map[string]interface{} {
	m := map[string]interface{}{"version": r.version, "date": "2026-01-02", "changelog": "* better\n* faster"}
	if r.how != "noassets" {
		m["assets"] = map[string]interface{}{"linux-amd64": r.assets(), "windows-amd64": []interface{}{}}
	}
	return m
}

// webService offers releases to update commands.
type webService struct {
	c        *Ctx
	offers   map[*rt.Proc][]*release
	mode     map[*rt.Proc]string
	count    map[*rt.Proc]int
	faults   []Op // for process p
	p        *rt.Proc
	happened int
	served   map[string]*release
}

func (s *webService) answer(p *rt.Proc, r *world.HTTPRequest) *world.HTTPResponse {
	c := s.c
	s.count[p]++
	resp := &world.HTTPResponse{Status: 200, Delay: 30 * ms, ChunkSize: 1500}
	u := r.URL
	switch {
	case strings.Contains(u, "/releases/latest"):
		l := []interface{}{}
		for _, x := range s.offers[p] {
			l = append(l, x.json())
		}
		resp.Body, _ = json.Marshal(map[string]interface{}{"releases": l})
	case strings.Contains(u, "/release/"):
		resp.Status = 404
		for _, x := range s.offers[p] {
			if strings.HasSuffix(u, "/release/"+x.version) && s.mode[p] != "gone" {
				resp.Status = 200
				resp.Body, _ = json.Marshal(x.json())
			}
		}
	case strings.HasPrefix(u, "https://dl.example/"):
		f := strings.Split(strings.TrimPrefix(u, "https://dl.example/"), "/")
		resp.Status = 404
		if x := s.served[f[0]]; x != nil && len(f) == 2 {
			resp.Status = 200
			resp.Body = x.alda
			if f[1] == "alda-player" {
				resp.Body = x.player
			}
		}
	default:
		resp.Status = 404
	}
	if p != s.p {
		return resp
	}
	for _, o := range s.faults {
		if int(o.N) != s.count[p] {
			continue
		}
		s.happened++
		c.W.Fault("http-" + o.S)
		k := int(o.M)
		if k >= len(resp.Body) {
			k = len(resp.Body) / 2
		}
		if k == 0 {
			k = 1
		}
		switch o.S {
		case "err":
			resp.Err = errors.New("dial tcp: connect: network is unreachable")
		case "status":
			resp.Status = []int{404, 500, 403, 302, 503}[int(o.M)%5]
			resp.Body = []byte("<html>error</html>")
		case "cut", "nolengthcut":
			resp.CutAt = k
			resp.NoLength = o.S == "nolengthcut"
		case "stall":
			resp.StallAt = k
		case "hang":
			resp.Hang = true
		case "slow":
			resp.ChunkSize, resp.ChunkGap = 400, 60*ms
		case "nolength":
			resp.NoLength = true
			s.happened--
		case "json":
			resp.Body = resp.Body[:len(resp.Body)-k]
			if s.count[p] > 1 {
				// an incomplete asset that claims to be complete is beyond what can be noticed
				resp.Status = 500
			}
		case "empty":
			resp.Body = []byte("{}")
			if s.count[p] > 1 {
				resp.Status = 500
			}
		}
	}
	return resp
}

// installation knows what may be at the paths of the executables.
type installation struct {
	c       *Ctx
	dir     string
	allowed map[string]map[string]bool // path -> content ("" = missing)
	touched int
}

const missing = "\x00missing"

func (x *installation) paths() []string {
	return []string{x.dir + "/alda", x.dir + "/alda-player"}
}

func (x *installation) content(p string) string {
	b, ok := x.c.W.FS.Get(p)
	if !ok {
		return missing
	}
	return string(b)
}

// check says whether both executables are complete programs right now.
func (x *installation) check(when string) bool {
	for _, p := range x.paths() {
		now := x.content(p)
		if !x.allowed[p][now] {
			what := fmt.Sprintf("%d bytes that are no version of it", len(now))
			if now == missing {
				what = "missing"
			} else if h, ok := world.IsCompleteProgram([]byte(now)); ok {
				what = fmt.Sprintf("%q", h)
			}
			x.c.Fail("broken-executable", "%s: %s is %s", when, p, what)
			return false
		}
		if now != missing && x.c.W.FS.Mode(p)&0111 != 0111 {
			x.c.Fail("not-executable", "%s: the mode of %s is %o", when, p, x.c.W.FS.Mode(p))
			return false
		}
	}
	return true
}

// settle makes the present state the only allowed one.
func (x *installation) settle() {
	for _, p := range x.paths() {
		x.allowed[p] = map[string]bool{x.content(p): true}
	}
}

func (x *installation) allow(r *release) {
	if r.how == "type" || r.how == "nourl" || r.how == "noassets" {
		return
	}
	x.allowed[x.dir+"/alda"][string(r.alda)] = true
	if r.how != "onlyalda" {
		x.allowed[x.dir+"/alda-player"][string(r.player)] = true
	}
}

func (x *installation) has(r *release) bool {
	return x.content(x.dir+"/alda") == string(r.alda) && (r.how == "onlyalda" || x.content(x.dir+"/alda-player") == string(r.player))
}

// layout puts the executables into one of several kinds of places.
func (c *Ctx) layout(k int64) (dir, exe string) {
	fs := c.W.FS
	dir, exe = binDir, exeAlda
	if k == 0 {
		return
	}
	fs.Delete(exeAlda)
	fs.Delete(exePlay)
	dir = "/opt/alda/bin"
	fs.Put(dir+"/alda", world.MakeProgram("alda "+c.Version, 300), 0755)
	fs.Put(dir+"/alda-player", world.MakeProgram("alda-player "+c.Version, 300), 0755)
	if k == 1 {
		fs.PutLink(exeAlda, "../../../opt/alda/bin/alda")
		fs.PutLink(exePlay, dir+"/alda-player")
		return
	}
	fs.PutLink("/usr/local/current", "/opt/alda")
	fs.PutLink(exeAlda, "../current/bin/alda")
	fs.PutLink(exePlay, "/usr/local/current/bin/alda-player")
	return
}

// aldaExe starts a command as the given executable.
func (c *Ctx) aldaExe(exe string, stdin []byte, args ...string) *rt.Proc {
	return c.W.StartAlda(world.Spec{Name: "alda-" + args[0], Args: append([]string{"alda"}, args...), Env: c.env, Cwd: workDir, Stdin: stdin, Exe: exe})
}

func runC18(c *Ctx) {
	fs := c.W.FS
	dir, exe := c.layout(c.I("layout"))
	if c.I("noplayer") == 1 {
		fs.Delete(dir + "/alda-player")
	}
	if c.I("spawn") == 0 {
		c.env["ALDA_DISABLE_SPAWNING"] = "yes"
	}
	for _, f := range []string{"alda.old", "alda-player.1.old", "ls", "xalda.12.34.old", "alda.12.34.old.bak", "alda.conf"} {
		fs.Put(dir+"/"+f, []byte("bystander "+f), 0644)
	}
	others := map[string]string{}
	for p, d := range fs.Tree(dir) {
		others[p] = d
	}
	x := &installation{c: c, dir: dir, allowed: map[string]map[string]bool{}}
	x.settle()
	web := &webService{c: c, offers: map[*rt.Proc][]*release{}, mode: map[*rt.Proc]string{}, count: map[*rt.Proc]int{}, served: map[string]*release{}}
	c.W.HTTP = web.answer
	fs.After = func(op *world.FSOp) {
		if strings.HasPrefix(op.Path, dir) || strings.HasPrefix(op.To, dir) {
			x.touched++
			x.check(fmt.Sprintf("after %s's %s of %s", op.P, op.Op, op.Path))
		}
	}
	var pending []Op
	n := 0
	killedOnce := false
	start := func(o Op, tag int) (p *rt.Proc, rels []*release, want *release) {
		k := 1
		if o.T == "multi" {
			k = 2 + int(o.N)%2
		}
		if o.T == "none" {
			k = 0
		}
		for i := 0; i < k; i++ {
			v := fmt.Sprintf("9.%d.%d", tag, i)
			rels = append(rels, &release{version: v, how: o.S, alda: world.MakeProgram("alda "+v, int(o.N)+i*100), player: world.MakeProgram("alda-player "+v, int(o.M)+i*100)})
		}
		args := []string{"update"}
		if o.T == "version" || o.T == "gone" {
			args = append(args, "--version", rels[0].version)
		}
		var stdin []byte
		var lines []string
		eof := false
		want = nil
		if k > 0 {
			want = rels[0]
		}
		if o.T == "multi" {
			want = rels[int(o.M)%k]
			lines = append(lines, fmt.Sprintf("Alda %s (2026-01-02)", want.version))
		}
		switch o.C {
		case 0, 1, 2:
			args = append(args, "-y")
		case 3:
			lines = append(lines, "y")
		case 4:
			lines = append(lines, "what?", "YES")
		case 5:
			lines = append(lines, "")
		case 6:
			lines = append(lines, "n")
			want = nil
		case 7:
			eof = true
			want = nil
		}
		tty := o.T == "multi" || o.N%2 == 1
		if !tty {
			stdin = []byte(strings.Join(lines, "\n") + "\n")
			if eof || len(lines) == 0 {
				stdin = []byte{}
			}
		}
		p = c.aldaExe(exe, stdin, args...)
		if tty {
			u := world.Data(p).Term()
			for _, l := range lines {
				u.Enter(l)
			}
			if eof {
				u.EOF()
			}
		}
		web.offers[p], web.mode[p] = rels, o.T
		for _, r := range rels {
			web.served[r.version] = r
			if want != nil {
				x.allow(r)
			}
		}
		if o.T == "gone" || want != nil && (want.how == "type" || want.how == "nourl" || want.how == "noassets") {
			want = nil
		}
		return
	}
	for _, o := range c.P.Ops {
		if o.K != "update" {
			pending = append(pending, o)
			continue
		}
		n++
		x.settle()
		touched0 := x.touched
		web.faults, web.happened = nil, 0
		troubled := false
		var with, kills, disks []Op
		slow, end := int64(0), false
		for _, t := range pending {
			switch t.K {
			case "http":
				web.faults = append(web.faults, t)
			case "disk":
				disks = append(disks, t)
			case "full":
				fs.Free = t.N
				troubled = true
			case "kill", "power":
				if t.S == "end" {
					end = true
				} else {
					kills = append(kills, t)
				}
			case "with":
				with = append(with, t)
			case "slowdisk":
				slow = t.N
			}
		}
		counts := make([]int, len(kills)+len(disks))
		power := -1
		fired := false
		var main *rt.Proc
		inScope := func(s, p string) bool {
			switch s {
			case "exe":
				return strings.HasPrefix(p, dir+"/")
			case "tmp":
				return strings.HasPrefix(p, "/tmp/")
			}
			return true
		}
		fs.Hook = func(op *world.FSOp) (act world.FSAction) {
			if slow > 0 && inScope("exe", op.Path) {
				act.Delay = int64(rt.Choose(rt.Fault, int(slow/ms)+1, c.S.Cfg.PRepeat)) * ms
			}
			if op.P != main || main == nil {
				return
			}
			for i, t := range kills {
				if t.T != "any" && t.T != op.Op || !inScope(t.X[0], op.Path) {
					continue
				}
				counts[i]++
				if counts[i] != int(t.N) || fired {
					continue
				}
				fired = true
				if t.K == "power" {
					power = i
				}
				killedOnce = true
				c.W.Fault("killed-" + t.S)
				switch t.S {
				case "first":
					act.KillFirst = true
				case "mid":
					act.KillMid = int(t.M) + 1
					if op.Op != "write" {
						act.KillAfter = true
					}
				case "after":
					act.KillAfter = true
				}
				return
			}
			for i, t := range disks {
				if !inScope(t.T, op.Path) {
					continue
				}
				hit := false
				switch t.S {
				case "enospc", "eio", "short":
					hit = op.Op == "write"
				case "eacces":
					hit = op.Op == "create" || op.Op == "mkdir"
				case "rename":
					hit = op.Op == "rename"
				case "sync":
					hit = op.Op == "sync" || op.Op == "close"
				case "chmod":
					hit = op.Op == "chmod"
				}
				if !hit {
					continue
				}
				counts[len(kills)+i]++
				k := counts[len(kills)+i]
				if k != int(t.N) && !(t.S == "enospc" && k > int(t.N)) {
					continue
				}
				troubled = true
				c.W.Fault("disk-" + t.S)
				switch t.S {
				case "enospc", "short":
					act.Err, act.Short = syscall.ENOSPC, int(t.M)
				case "eacces":
					act.Err = syscall.EACCES
				case "sync":
					act.Err, act.Short = syscall.EIO, int(t.M)
				default:
					act.Err = syscall.EIO
				}
				return
			}
			return
		}
		var also []*rt.Proc
		var join []*Join
		rivals := []*release{}
		for i, t := range with {
			t := t
			i := i
			j := c.Task("with", func() {
				c.Sleep(t.At)
				if t.S == "update" {
					p, _, w := start(Op{K: "update", T: "latest", C: 0, N: 700, M: 2000}, 100+10*n+i)
					rivals = append(rivals, w)
					also = append(also, p)
					c.wait(p, 90*sec)
					return
				}
				p := c.aldaExe(exe, nil, t.S)
				also = append(also, p)
				c.wait(p, 60*sec)
			})
			join = append(join, j)
		}
		p, rels, want := start(o, n)
		main, web.p = p, p
		c.Did(fmt.Sprintf("update %s %s %d", o.T, o.S, o.C))
		d := c.wait(p, 90*sec)
		if !d.Ended {
			c.S.Tracef("%s", c.S.Describe())
			c.Fail("update-hangs", "%s", d)
			return
		}
		main = nil
		if end {
			power = 0
		}
		if power >= 0 {
			c.W.Fault("power-loss")
			killedOnce = true
			for _, q := range also {
				if !q.Dead {
					c.S.Kill(q)
				}
			}
			fs.PowerLoss(func(n int) int { return rt.Choose(rt.Fault, n+1, c.S.Cfg.PRepeat) })
		}
		if !x.check(fmt.Sprintf("when %s had ended (%s)", p, d)) {
			return
		}
		if !p.Killed && d.Code == 0 {
			switch {
			case want != nil:
				ok := x.has(want)
				for _, r := range rivals {
					// another update may have replaced it since
					ok = ok || r != nil && (x.content(dir+"/alda") == string(r.alda) || x.content(dir+"/alda-player") == string(r.player))
				}
				c.Check(ok, "false-success", "the update to %s reports success but is not in place: %s", want.version, d)
			case o.T == "gone" || len(rels) > 0 && o.C < 6 && rels[0].how != "" && rels[0].how != "playerfirst" && rels[0].how != "onlyalda":
				c.Fail("false-success", "the update reports success but there is nothing it could install: %s", d)
			}
		} else if !p.Killed && !troubled && web.happened == 0 && len(with) == 0 && slow == 0 && want != nil {
			c.Fail("update-fails", "an update that met no trouble failed: %s", d)
		}
		if !p.Killed && d.Code != 0 && d.P.Crash == "" && d.Stderr == "" && !strings.Contains(d.Stdout, "rror") {
			c.Fail("silent-failure", "the update failed without a message: %s", d)
		}
		if x.touched > touched0 || d.Code != 0 {
			c.NonTrivial = true
		}
		fs.Hook = nil
		fs.Free = -1
		for _, j := range join {
			j.Wait(200 * sec)
		}
		pending = nil
		x.settle()
	}
	// Later runs remove what is left and nothing else.
	for i := 0; i < 2; i++ {
		d := c.wait(c.aldaExe(exe, nil, "version"), 60*sec)
		c.Check(d.OK(), "later-run-fails", "%s", d)
	}
	x.check("at the end")
	now := fs.Tree(dir)
	var names []string
	for p := range now {
		names = append(names, p)
	}
	for p := range others {
		if _, ok := now[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		if p == dir+"/alda" || p == dir+"/alda-player" {
			continue
		}
		was, had := others[p]
		is, has := now[p]
		switch {
		case !had:
			c.Fail("leftover", "%s (%d bytes) was left behind", p, len(is))
		case !has:
			c.Fail("bystander-removed", "%s was removed", p)
		case was != is:
			c.Fail("bystander-changed", "%s was changed", p)
		}
	}
	if !killedOnce {
		for _, f := range fs.List("/tmp") {
			c.Fail("leftover", "/tmp/%s was left behind by an update that was not killed", f)
		}
	}
}

var c22cmds = []string{"version", "version", "version", "ps", "instruments", "parse", "telemetry", "stop", "shutdown", "format", "import", "play", "help", "bogus", "badflag", "none", "update"}

// names of files that a clean-up must not touch
var c22others = []string{"alda.old", "alda.1615061099.old", "alda.1615061099.2081.old.bak", "alda.1615061099.2081.older", "xalda.1615061099.2081.old", "ALDA.1615061099.2081.old",
	"alda..2081.old", "alda.1615061099..old", "alda.1615061099.2081.5.old", "alda.-1.2081.old", "alda-repl.1615061099.2081.old", "alda-players.1615061099.2081.old", "alda.1615061o99.2081.old",
	"alda.1615061099.2081.OLD", "alda.1615061099.2081old", "alda 1615061099.2081.old", "alda.1615061099.2081.old.", ".alda.1615061099.2081.old", "alda-player", "my-alda.1615061099.2081.old",
	"alda.1615061099.2081.old.1615061099.2081.old", "alda.exe.old", "alda.jar.1615061099.2081.old", "alda1615061099.2081.old", "alda.0x5f.2081.old", "aldaX1615061099X2081Xold", "alda.1615061099.2081xold",
	"alda.1615061099.2081.old\n", "x\nalda.1615061099.2081.old", "alda.\u0661.2081.old"}

func genC22(g *Gen) {
	g.Swarm()
	g.I("layout", g.OneI(0, 0, 1, 2))
	for i := g.N(0, 5); i > 0; i-- {
		g.Op(Op{K: "other", S: c22others[g.N(0, len(c22others)-1)], T: g.OneOf("exe", "exe", "exe", "cwd", "bin", "home", "tmp")})
	}
	for i := g.N(0, 2); i > 0; i-- {
		// the names of leftovers, where there can be none
		g.Op(Op{K: "other", S: c22name(g), T: g.OneOf("cwd", "bin", "home", "tmp", "sub", "dir", "above", "config")})
	}
	n := g.N(1, 5)
	for i := 0; i < n; i++ {
		for k := g.OneI(0, 0, 1, 1, 2, 3); k > 0; k-- {
			g.Op(Op{K: "leave", S: c22name(g), N: g.OneI(0, 0, 0, 0444, 0000)})
		}
		if g.Bool(0.45) {
			g.Op(Op{K: "trouble", S: g.OneOf("remove", "remove", "all", "readdir", "dir", "kill", "kill", "gone"), N: g.OneI(0, 0, 1, 2), M: g.OneI(int64(syscall.EACCES), int64(syscall.EPERM), int64(syscall.EBUSY), int64(syscall.EIO), int64(syscall.EROFS), int64(syscall.ETXTBSY))})
		}
		k := 1
		if g.Bool(0.25) {
			k = g.N(2, 3)
		}
		o := Op{K: "run"}
		for ; k > 0; k-- {
			o.X = append(o.X, c22cmds[g.N(0, len(c22cmds)-1)])
		}
		g.Op(o)
	}
}

func c22name(g *Gen) string {
	return fmt.Sprintf("%s.%d.%d.old", g.OneOf("alda", "alda", "alda-player"), 1500000000+int(g.I64()%400000000), g.N(0, 9999))
}

// cleans are the commands that are expected to have cleaned up when they end.
var c22cleans = map[string]bool{"version": true, "ps": true, "instruments": true, "parse": true, "telemetry": true, "stop": true, "shutdown": true, "play": true}

func runC22(c *Ctx) {
	fs := c.W.FS
	dir, exe := c.layout(c.I("layout"))
	c.PB.StartMin, c.PB.StartMax = 50*ms, 400*ms
	c.PB.ReadyMin, c.PB.ReadyMax = 20*ms, 200*ms
	where := map[string]string{"exe": dir, "cwd": workDir, "bin": "/usr/bin", "home": c.Home, "tmp": "/tmp", "sub": dir + "/old", "above": path.Dir(dir), "config": path.Dir(c.telemetryFile())}
	if c.I("layout") != 0 {
		where["bin"] = binDir // where the link is
	}
	left := map[string]bool{} // what is there to be removed
	keep := func(p string) bool {
		return strings.HasPrefix(p, c.cacheDir()) || p == c.telemetryFile()
	}
	fs.After = func(op *world.FSOp) {
		if !isClient(op.P) || keep(op.Path) {
			return
		}
		switch {
		case op.Op == "remove" && left[op.Path]:
			delete(left, op.Path)
		case op.Op == "remove" || op.Op == "rename" || op.Op == "truncate" || op.Op == "chmod":
			c.Fail("touched-something-else", "%s: %s of %q", op.P, op.Op, op.Path)
		}
	}
	c.W.HTTP = func(p *rt.Proc, r *world.HTTPRequest) *world.HTTPResponse {
		return &world.HTTPResponse{Status: 200, Delay: 20 * ms, Body: []byte(`{"releases":[]}`)}
	}
	inDir := []string{}
	for _, o := range c.P.Ops {
		if o.K != "other" {
			continue
		}
		p := path.Join(where[o.T], o.S)
		if o.T == "dir" {
			p = path.Join(dir, o.S)
			if fs.Exists(p) {
				continue
			}
			fs.PutDir(p)
			if len(o.S)%2 == 0 {
				fs.Put(p+"/alda", []byte("x"), 0644)
			}
			continue
		}
		if fs.Exists(p) {
			continue
		}
		inDir = append(inDir, p)
		fs.Put(p, []byte("content of "+o.S), 0644)
	}
	runs := 0
	for _, o := range append(append([]Op{}, c.P.Ops...), Op{K: "run", X: []string{"version"}}) {
		switch o.K {
		case "leave":
			p := dir + "/" + o.S
			if fs.Exists(p) {
				continue
			}
			mode := int64(0755)
			if o.N != 0 {
				mode = o.N
			}
			fs.Put(p, world.MakeProgram("alda 1.0.0", 200), 0)
			fs.SetMode(p, iofs.FileMode(mode))
			left[p] = true
		}
		if o.K != "run" {
			continue
		}
		// trouble announced since the previous run
		trouble := c.troubleBefore(runs)
		runs++
		victims := map[string]bool{}
		failDir, kill := false, int64(-1)
		gone := ""
		var names []string
		for p := range left {
			names = append(names, p)
		}
		sort.Strings(names)
		errno := syscall.EACCES
		for _, t := range trouble {
			if t.M > 0 {
				errno = syscall.Errno(t.M)
			}
			switch t.S {
			case "remove":
				if len(names) > 0 {
					victims[names[int(t.N)%len(names)]] = true
				}
			case "all":
				for _, p := range names {
					victims[p] = true
				}
			case "readdir":
				failDir = true
			case "dir":
				fs.SetMode(dir, 0555)
				for _, p := range names {
					victims[p] = true
				}
			case "kill":
				kill = t.N
			case "gone":
				if len(names) > 0 {
					gone = names[int(t.N)%len(names)]
				}
			}
		}
		removes := int64(0)
		killed := false
		fs.Hook = func(op *world.FSOp) (act world.FSAction) {
			if !isClient(op.P) {
				return
			}
			switch op.Op {
			case "remove":
				if gone != "" && op.Path == gone {
					// someone else removes it just before
					fs.Delete(gone)
					delete(left, gone)
					gone = ""
					c.W.Fault("removed-by-someone-else")
				}
				if victims[op.Path] {
					c.W.Fault("remove-fails")
					act.Err = errno
				}
				if left[op.Path] {
					if removes == kill {
						c.W.Fault("killed")
						killed = true
						act.KillFirst = true
					}
					removes++
				}
			case "readdir":
				if failDir && op.Path == dir {
					c.W.Fault("readdir-fails")
					act.Err = errno
				}
			}
			return
		}
		var ps []*rt.Proc
		for _, cmd := range o.X {
			a := commandArgs(cmd)
			if len(a) == 0 {
				a = []string{"-v", "1"}
			}
			ps = append(ps, c.aldaExe(exe, nil, a...))
		}
		for i, p := range ps {
			d := c.wait(p, 120*sec)
			if !d.Ended {
				c.Fail("hangs", "%s", d)
				return
			}
			c.Did(o.X[i])
			if p.Killed {
				continue
			}
			if p.Crash != "" {
				c.Fail("crash", "%s: %s", d, p.Crash)
			}
			switch o.X[i] {
			case "version", "ps", "instruments", "parse", "telemetry", "stop", "shutdown", "help", "update":
				c.Check(d.Code == 0, "fatal", "the clean-up made a command fail: %s", d)
			}
			if c22cleans[o.X[i]] && !failDir && !killed {
				for _, l := range names {
					c.Check(victims[l] || !left[l], "not-removed", "%s is still there after %s", l, d)
				}
			}
		}
		if len(names) > 0 || len(inDir) > 0 {
			c.NonTrivial = true
		}
		fs.Hook = nil
		fs.SetMode(dir, 0755)
	}
	if len(left) > 0 {
		c.Fail("not-removed", "still there after a run without trouble: %s", keys(left))
	}
	for _, o := range c.P.Ops {
		if o.K == "other" && o.T == "dir" {
			c.Check(fs.Kind(path.Join(dir, o.S)) != "", "removed-something-else", "the directory %s is gone", o.S)
		}
	}
	for _, p := range inDir {
		b, ok := fs.Get(p)
		c.Check(ok && string(b) == "content of "+path.Base(p), "removed-something-else", "%q is gone or changed", p)
	}
	for _, p := range []string{dir + "/alda", dir + "/alda-player", exeAlda, exePlay} {
		c.Check(fs.Exists(p), "removed-something-else", "%s is gone", p)
	}
}

// troubleBefore lists the trouble announced before the n-th run.
func (c *Ctx) troubleBefore(n int) (out []Op) {
	k := 0
	for _, o := range c.P.Ops {
		switch o.K {
		case "run":
			k++
		case "trouble":
			if k == n {
				out = append(out, o)
			}
		}
	}
	return
}
