package check

import (
	"fmt"
	"path"
	"strings"

	"alda.sim/rt"
	"alda.sim/world"
)

const (
	binDir  = "/usr/local/bin"
	exeAlda = binDir + "/alda"
	exePlay = binDir + "/alda-player"
	workDir = "/home/user/work"
)

// tuning: runs per tier, and what makes a run non-trivial.
type tune struct {
	quick, thorough int
	nontrivial      string
}

var tuning = map[string]tune{}

// setup makes the machine of one run: a healthy installation.
func (c *Ctx) setup() {
	fs := c.W.FS
	for _, d := range []string{"/tmp", c.Home, workDir, binDir, "/etc", "/usr/bin"} {
		fs.PutDir(d)
	}
	c.env = map[string]string{"HOME": c.Home, "PATH": binDir + ":/usr/bin", "TERM": "xterm"}
	fs.Put(exeAlda, world.MakeProgram("alda "+c.Version, 300), 0755)
	fs.Put(exePlay, world.MakeProgram("alda-player "+c.Version, 300), 0755)
	fs.Put(c.telemetryFile(), []byte("disabled"), 0644)
	c.W.Programs["alda-player"] = c.playerMain
	c.W.Programs["alda"] = func(p *rt.Proc) { rt.Exit(0) }
	c.W.HTTP = func(p *rt.Proc, r *world.HTTPRequest) *world.HTTPResponse {
		return &world.HTTPResponse{Status: 404, Body: []byte("not found"), Delay: 20 * ms}
	}
	c.PB = PlayerBehaviour{StartMin: 300 * ms, StartMax: 900 * ms, ReadyMin: 100 * ms, ReadyMax: 600 * ms, ExportDelay: 5 * ms}
}

func (c *Ctx) cacheDir() string      { return path.Join(c.Home, ".cache", "alda") }
func (c *Ctx) playersDir() string    { return path.Join(c.cacheDir(), "state", "players", c.Version) }
func (c *Ctx) serversDir() string    { return path.Join(c.cacheDir(), "state", "repl-servers") }
func (c *Ctx) telemetryFile() string { return path.Join(c.Home, ".config", "alda", "telemetry-status") }

// Alda starts the client with the given arguments in the working directory.
func (c *Ctx) Alda(args ...string) *rt.Proc { return c.AldaIn(workDir, nil, args...) }

// AldaIn starts the client in dir; stdin is a terminal if nil.
func (c *Ctx) AldaIn(dir string, stdin []byte, args ...string) *rt.Proc {
	name := "alda"
	for _, a := range args {
		if !strings.HasPrefix(a, "-") {
			name = "alda-" + a
			break
		}
	}
	return c.W.StartAlda(world.Spec{Name: name, Args: append([]string{"alda"}, args...), Env: c.env, Cwd: dir, Stdin: stdin, Exe: exeAlda})
}

// Done is a finished (or not) command.
type Done struct {
	P              *rt.Proc
	Ended          bool
	Code           int
	Stdout, Stderr string
	Took           int64
}

func (d *Done) OK() bool { return d.Ended && d.Code == 0 }
func (d *Done) String() string {
	return fmt.Sprintf("%s: ended=%v code=%d after %.1fs stdout=%q stderr=%q", strings.Join(d.P.Args, " "), d.Ended, d.Code, float64(d.Took)/1e9,
		clip(d.Stdout, 300), clip(d.Stderr, 300))
}

// RunAlda runs a command to its end, at most limit ns.
func (c *Ctx) RunAlda(limit int64, args ...string) *Done {
	return c.wait(c.Alda(args...), limit)
}

func (c *Ctx) wait(p *rt.Proc, limit int64) *Done {
	t0 := c.Now()
	d := &Done{P: p}
	d.Ended = world.WaitExit(p, limit)
	d.Code = p.Code
	d.Took = c.Now() - t0
	d.Stdout, d.Stderr = world.Data(p).Stdout.String(), world.Data(p).Stderr.String()
	return d
}

// startPlayers makes n players as a user's earlier commands would have.
func (c *Ctx) startPlayers(n int, args ...string) {
	for i := 0; i < n; i++ {
		a := append([]string{"alda-player", "run"}, args...)
		c.W.StartProgram(world.Spec{Name: "player", Args: a, Env: c.env, Cwd: "/home/user", Exe: exePlay, Pipe: true}, c.playerMain)
	}
}

// readyPlayers counts players that are really ready to be used.
func (c *Ctx) livePlayers() []*Player {
	var out []*Player
	for _, p := range c.Players {
		if p.Alive() {
			out = append(out, p)
		}
	}
	return out
}

func (c *Ctx) playerByPort(port int) *Player {
	for _, p := range c.Players {
		if p.Port == port && !p.Dead() {
			return p
		}
	}
	return nil
}
