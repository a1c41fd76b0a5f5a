package check

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"alda.sim/rt"
	"alda.sim/world"
)

// The player model follows player/src/main/kotlin/io/alda/player: state file
// handling, OSC over TCP (one connection per packet), update phases, export.

// PlayerBehaviour holds the per-run parameters of all players.
type PlayerBehaviour struct {
	StartMin, StartMax int64 // from process start to listening
	ReadyMin, ReadyMax int64 // from listening to "ready"
	PFailStart         float64
	PNoListen          float64 // comes up "ready" but never listens
	ExportDelay        int64   // before the file is created
	ExportChunk        int     // bytes per write (0: all at once)
	ExportGap          int64   // between writes
	ExportNever        bool
	ExportDie          int // >0: dies after this many bytes of the export
	InfoDelay          int64
	InfoFail           bool
	InfoText           []string // what `info` prints instead, if there is anything here
	ExpiryMin          int64    // default 5 min
	ApplyDelay         int64    // between receiving a packet and applying it
	ShutDelay          int64    // between being told to shut down and doing so
	StateGap           int64    // between truncating and writing the state file
	Decide             func(pl *Player)
}

// OSCMsg is one received OSC message.
type OSCMsg struct {
	Addr   string
	Args   []interface{}
	Packet int
	At     int64
}

func (m OSCMsg) String() string { return m.Addr + " " + fmt.Sprint(m.Args...) }

func (m OSCMsg) Int(i int) int {
	if i < len(m.Args) {
		if v, ok := m.Args[i].(int32); ok {
			return int(v)
		}
	}
	return -1 << 30
}

// PNote is a note as scheduled by the player.
type PNote struct {
	Track, Chan, Num, Dur, Aud, Vel int
	Abs                             int // absolute offset in the sequence
	Rel                             int
	Packet                          int
	Patch                           int
	TrackVol, Pan                   int
}

// Player is one player process.
type Player struct {
	c         *Ctx
	P         *rt.Proc
	ID        string
	Version   string
	Port      int
	State     string
	Expiry    int64
	inactive  int64
	Path      string
	Listening bool
	Ready     bool
	Msgs      []OSCMsg
	Packets   int
	Bad       int
	tracks    map[int]int // startOffset
	Notes     []PNote
	Tempos    [][2]float64
	patch     map[int]int
	vol, pan  map[int]int
	Playing   bool
	Offset    int
	ShutReq   int64 // when told to shut down immediately, -1
	ShutAt    []int // scheduled shutdown offsets
	Exports   []Export
	running   bool
	queue     [][]OSCMsg
	qw        rt.WaitQ
	started   int64
	NoState   bool // cannot write its state file any more
	lostAt    int64
	ReadyAt   int64 // when it became ready, -1
	ActiveAt  int64 // when it became active, -1
	ReadyIn   int64 // overrides ReadyMin/Max if > 0
	L         *world.Listener
	NoListen  bool
	Frozen    bool
	Lazy      bool // --lazy-audio: it never initialises its MIDI system
	Verbose   bool
	Mute      bool // loses the notes it is sent
	NoLog     bool
	DeafAt    int64 // when it should have shut down
	WroteAt   int64 // when it last wrote its state file
	Deaf      bool  // does not shut down when told to
	writing   bool
}

// Export is one file written by a player.
type Export struct {
	Path string
	Data []byte
	At   int64
	Done bool
}

// Dead tells whether the player process is gone.
func (pl *Player) Dead() bool { return pl.P.Dead }

// Alive: it runs, listens, and is not stalled.
func (pl *Player) Alive() bool {
	return !pl.P.Dead && pl.Listening && !pl.P.Stalled && pl.ShutReq < 0
}

func (pl *Player) String() string { return "player " + pl.ID }

func between(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + (hi-lo)*int64(rt.Choose(rt.Misc, 17, 0.8))/16
}

func coin(p float64) bool { return p > 0 && rt.Choose(rt.Misc, 2, p) == 1 }

// cacheDir is the cache directory as the environment of p gives it.
func cacheDir(p *rt.Proc) string {
	if x := p.Env["XDG_CACHE_HOME"]; x != "" {
		return path.Join(x, "alda")
	}
	return path.Join(p.Env["HOME"], ".cache", "alda")
}

func (c *Ctx) playerMain(p *rt.Proc) {
	head, _ := world.IsCompleteProgram(c.W.FS.ReadExe("/", world.Data(p).Exe))
	version := c.Version
	if f := strings.Fields(head); len(f) > 1 {
		version = f[1]
	}
	out := world.Data(p).Stdout
	args := []string{}
	verbose, lazy := false, false
	for _, a := range p.Args[1:] {
		switch a {
		case "-v", "-vv":
			verbose = true
		case "--lazy-audio":
			lazy = true
		default:
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		rt.Exit(1)
	}
	switch args[0] {
	case "info":
		if c.PB.InfoDelay > 0 {
			rt.Sleep(c.PB.InfoDelay)
		}
		if c.PB.InfoFail {
			c.W.Fault("player-info-fails")
			rt.Exit(1)
		}
		if len(c.PB.InfoText) > 0 {
			c.W.Fault("player-info-garbled")
			fmt.Fprint(out, c.PB.InfoText[0])
			rt.Exit(0)
		}
		fmt.Fprintf(out, "alda-player %s\nlog path: %s\n", version, path.Join(cacheDir(p), "logs"))
		rt.Exit(0)
	case "run":
	default:
		fmt.Fprintf(world.Data(p).Stderr, "no such subcommand\n")
		rt.Exit(1)
	}
	pl := &Player{c: c, P: p, Version: version, tracks: map[int]int{}, patch: map[int]int{}, vol: map[int]int{}, pan: map[int]int{},
		ShutReq: -1, running: true, started: c.Now(), ReadyAt: -1, ActiveAt: -1, Lazy: lazy, Verbose: verbose}
	// Two players with the same three letters would share a state file, which
	// the client can do nothing about.
	for taken := true; taken; {
		pl.ID, taken = "", false
		for i := 0; i < 3; i++ {
			pl.ID += string(rune('a' + c.S.Rng.Intn(26)))
		}
		taken = c.playerIDs[pl.ID]
	}
	if c.playerIDs == nil {
		c.playerIDs = map[string]bool{}
	}
	c.playerIDs[pl.ID] = true
	p.Name = "player-" + pl.ID
	if coin(c.PB.PFailStart) {
		c.W.Fault("player-dies-at-start")
		rt.Sleep(50 * ms)
		rt.Exit(1)
	}
	pl.NoListen = coin(c.PB.PNoListen)
	if c.PB.Decide != nil {
		c.PB.Decide(pl)
	}
	rt.Sleep(between(c.PB.StartMin, c.PB.StartMax))
	for i := 1; i+1 < len(args); i++ {
		if args[i] == "-p" || args[i] == "--port" {
			pl.Port, _ = strconv.Atoi(args[i+1])
		}
	}
	var l *world.Listener
	var err error
	if pl.Port == 0 {
		// findOpenPort: open and close a socket
		x, e := c.W.Net.Listen(0)
		if e != nil {
			rt.Exit(1)
		}
		pl.Port = x.Port
		x.Close()
	}
	c.Players = append(c.Players, pl)
	min := c.PB.ExpiryMin
	if min == 0 {
		min = 5 * 60 * sec
	}
	pl.inactive = min + int64(c.S.Rng.Intn(int(min/ms)))*ms
	pl.Expiry = world.Wall() + pl.inactive
	pl.State = "starting"
	dir := path.Join(cacheDir(p), "state", "players", version)
	pl.Path = path.Join(dir, pl.ID+".json")
	fs := c.W.FS
	mkdirAll(fs, dir)
	if f, err := fs.Open(pl.Path, openCreate, 0644); err == nil {
		f.Close()
	}
	p.AtExit(func() {
		if p.Exited && !p.Killed { // deleteOnExit
			fs.Delete(pl.Path)
		}
	})
	pl.writeState()
	// System.exit runs the shutdown hooks, also on SIGTERM/SIGINT
	world.OnSignal(p, func(sig int) bool {
		if sig == 9 {
			return false
		}
		pl.running = false
		return true
	})
	pl.cleanup(path.Join(cacheDir(p), "state", "players"))
	pl.cleanup(path.Join(cacheDir(p), "state", "repl-servers"))
	rt.Go(func() {
		for {
			rt.Sleep(10 * sec)
			fs.Chtimes(pl.Path, world.WallTime())
		}
	})
	if !pl.NoListen {
		l, err = c.W.Net.Listen(pl.Port)
		if err != nil {
			c.S.Tracef("%s cannot listen: %v", pl, err)
			rt.Exit(1)
		}
		l.MaxBacklog = 50 // java.net.ServerSocket
		pl.Listening, pl.L = true, l
		c.S.Tracef("%s listens on %d", pl, pl.Port)
		rt.Go(func() { pl.receive(l) })
	}
	switch {
	case pl.Lazy:
	case pl.ReadyIn > 0:
		rt.Sleep(pl.ReadyIn)
	default:
		rt.Sleep(between(c.PB.ReadyMin, c.PB.ReadyMax))
	}
	if !pl.Lazy {
		pl.setState("ready")
		pl.Ready = true
	}
	pl.log("Player is ready, listening on port " + strconv.Itoa(pl.Port))
	rt.Go(pl.apply)
	for pl.running {
		if world.Wall() > pl.Expiry {
			pl.log("Shutting down due to inactivity.")
			break
		}
		rt.Sleep(100 * ms)
	}
	pl.Listening = false
	if l != nil {
		l.Close()
	}
	rt.Sleep(10 * ms)
	rt.Exit(0)
}

func (pl *Player) log(s string) {
	if pl.NoLog {
		return
	}
	dir := path.Join(cacheDir(pl.P), "logs")
	mkdirAll(pl.c.W.FS, dir)
	f, err := pl.c.W.FS.Open(path.Join(dir, "alda-player.log"), openAppend, 0644)
	if err != nil {
		return
	}
	f.WriteString(world.WallTime().Format("2006-01-02 15:04:05") + " " + pl.ID + " INFO " + s + "\n")
	f.Close()
}

func mkdirAll(fs *world.FS, dir string) {
	if fs.Exists(dir) {
		return
	}
	mkdirAll(fs, path.Dir(dir))
	fs.Mkdir(dir, 0755)
}

const (
	openCreate   = syscall.O_CREAT | syscall.O_WRONLY
	openTruncate = syscall.O_CREAT | syscall.O_WRONLY | syscall.O_TRUNC
	openAppend   = syscall.O_CREAT | syscall.O_WRONLY | syscall.O_APPEND
)

// writeState rewrites the state file in place: truncate, then write.
func (pl *Player) writeState() {
	for pl.writing {
		rt.Sleep(1 * ms)
	}
	if pl.P.Dead || pl.NoState {
		return
	}
	pl.writing = true
	defer func() { pl.writing = false }()
	f, err := pl.c.W.FS.Open(pl.Path, openTruncate, 0644)
	if err != nil {
		return
	}
	if d := pl.c.PB.StateGap; d > 0 {
		rt.Sleep(between(0, d))
	}
	defer func() { pl.WroteAt = pl.c.Now() }()
	f.WriteString(fmt.Sprintf(`{"expiry" : %d, "pid" : %d, "port" : %d, "state" : "%s"}`, pl.Expiry/ms, pl.P.PID, pl.Port, pl.State))
	f.Close()
}

func (pl *Player) setState(s string) {
	if pl.State != s {
		pl.State = s
		if s == "ready" {
			pl.ReadyAt = pl.c.Now()
		}
		pl.writeState()
		if s == "active" {
			pl.ActiveAt = pl.c.Now()
		}
	}
}

func (pl *Player) delayExpiration() {
	n := world.Wall() + pl.inactive
	if n > pl.Expiry {
		pl.Expiry = n
		pl.writeState()
	}
}

func (pl *Player) cleanup(dir string) {
	fs := pl.c.W.FS
	ents, err := fs.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range ents {
		p := path.Join(dir, e.Name())
		if e.IsDir() {
			pl.cleanup(p)
			if sub, err := fs.ReadDir(p); err == nil && len(sub) == 0 {
				fs.Remove(p)
			}
			continue
		}
		if i, err := fs.Stat(p, true); err == nil {
			if world.WallTime().Sub(i.ModTime()).Seconds() > 120 {
				fs.Remove(p)
			}
		}
	}
}

// receive accepts one packet per connection, in the order of connecting.
func (pl *Player) receive(l *world.Listener) {
	for {
		conn, err := l.AcceptConn()
		if err != nil {
			return
		}
		var data []byte
		buf := make([]byte, 4096)
		bad := false
		for {
			n, err := conn.Read(buf)
			data = append(data, buf[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				bad = true
				break
			}
		}
		conn.Close()
		if bad || len(data) == 0 {
			continue
		}
		ms, err := decodeOSC(data)
		if err != nil {
			pl.Bad++
			pl.c.S.Tracef("%s: bad OSC data: %v", pl, err)
			continue
		}
		if pl.Deaf {
			for _, m := range ms {
				if m.Addr == "/system/shutdown" {
					pl.DeafAt = pl.c.Now()
				}
			}
		}
		if pl.DeafAt == 0 {
			pl.delayExpiration()
		}
		pl.Packets++
		for i := range ms {
			ms[i].Packet = pl.Packets
			ms[i].At = pl.c.Now()
			if ms[i].Addr != "/ping" {
				pl.c.S.Tracef("%s receives %s", pl, ms[i])
			}
		}
		pl.Msgs = append(pl.Msgs, ms...)
		pl.queue = append(pl.queue, ms)
		pl.qw.WakeAll()
	}
}

func (pl *Player) apply() {
	for {
		for len(pl.queue) == 0 {
			pl.qw.Wait("player queue")
		}
		ms := pl.queue[0]
		pl.queue = pl.queue[1:]
		if d := pl.c.PB.ApplyDelay; d > 0 {
			rt.Sleep(d)
		}
		pl.update(ms)
	}
}

func (pl *Player) update(ms []OSCMsg) {
	var exports []string
	byTrack := map[int][]PNote{}
	otherEnd := map[int]int{} // track -> latest relative offset of any event
	seen := map[int]bool{}
	var tracks []int
	shut, play := false, false
	for _, m := range ms {
		f := strings.Split(m.Addr, "/")
		switch {
		case m.Addr == "/ping":
			if pl.Verbose {
				pl.log("received ping")
			}
			pl.setState("active")
			pl.delayExpiration()
		case m.Addr == "/system/shutdown":
			if m.Int(0) == 0 {
				shut = true
			} else {
				pl.ShutAt = append(pl.ShutAt, m.Int(0))
			}
		case m.Addr == "/system/play":
			play = true
		case m.Addr == "/system/stop":
			pl.Playing = false
		case m.Addr == "/system/offset":
			pl.Offset = m.Int(0)
		case m.Addr == "/system/clear":
			pl.tracks = map[int]int{}
		case m.Addr == "/system/tempo":
			bpm := 0.0
			if len(m.Args) > 1 {
				if v, ok := m.Args[1].(float32); ok {
					bpm = float64(v)
				}
			}
			pl.Tempos = append(pl.Tempos, [2]float64{float64(m.Int(0)), bpm})
		case m.Addr == "/system/midi/export":
			if s, ok := m.Args[0].(string); ok {
				exports = append(exports, s)
			}
		case len(f) == 5 && f[1] == "track" && f[3] == "midi":
			t, _ := strconv.Atoi(f[2])
			if !seen[t] {
				seen[t] = true
				tracks = append(tracks, t)
			}
			ch, off := m.Int(0), m.Int(1)
			end := off
			switch f[4] {
			case "patch":
				pl.patch[ch] = m.Int(2)
			case "volume":
				pl.vol[ch] = m.Int(2)
			case "panning":
				pl.pan[ch] = m.Int(2)
			case "note":
				end = off + m.Int(3)
				byTrack[t] = append(byTrack[t], PNote{Track: t, Chan: ch, Num: m.Int(2), Dur: m.Int(3), Aud: m.Int(4), Vel: m.Int(5), Rel: off,
					Packet: m.Packet, Patch: getOr(pl.patch, ch), TrackVol: getOr(pl.vol, ch), Pan: getOr(pl.pan, ch)})
			}
			if cur, ok := otherEnd[t]; !ok || end > cur {
				otherEnd[t] = end
			}
		}
	}
	if shut && pl.ShutReq < 0 && !pl.Deaf {
		pl.ShutReq = pl.c.Now()
		if d := pl.c.PB.ShutDelay; d > 0 {
			rt.Go(func() { rt.Sleep(between(0, d)); pl.running = false })
		} else {
			pl.running = false
		}
	}
	sort.Ints(tracks)
	for _, t := range tracks {
		start := pl.tracks[t]
		for _, n := range byTrack[t] {
			n.Abs = start + n.Rel
			if pl.Mute {
				continue
			}
			pl.Notes = append(pl.Notes, n)
		}
		pl.tracks[t] = start + otherEnd[t]
	}
	for _, e := range exports {
		pl.export(e)
	}
	if play {
		pl.Playing = true
	}
}

func getOr(m map[int]int, k int) int {
	if v, ok := m[k]; ok {
		return v
	}
	return -1
}

// MIDI renders what the player holds as a file in the SMF container format:
// the notes as events, and all that is known about them as a text event.
func (pl *Player) MIDI() []byte {
	notes := append([]PNote(nil), pl.Notes...)
	sort.SliceStable(notes, func(i, j int) bool { return notes[i].Abs < notes[j].Abs })
	var ev []byte
	var lines []string
	for _, n := range notes {
		lines = append(lines, fmt.Sprintf("note %d %d %d %d %d %d", n.Abs-notes[0].Abs, n.Patch, n.Num, n.Dur, n.Aud, n.Vel))
		ev = append(ev, 0, 0x90, byte(n.Num)&0x7f, byte(n.Vel)&0x7f, 0, 0x80, byte(n.Num)&0x7f, 0)
	}
	sort.Strings(lines)
	for _, t := range pl.Tempos {
		lines = append(lines, fmt.Sprintf("tempo %d %g", int(t[0]), t[1]))
	}
	text := strings.Join(lines, "\n") + "\n"
	var ln [4]byte
	for {
		// no byte of the length may look like a MIDI status: the client reads the
		// file as if it were a stream
		binary.BigEndian.PutUint32(ln[:], uint32(len(ev)+7+len(text)+4))
		if ln[2] < 0x80 && ln[3] < 0x80 {
			break
		}
		text += "\n"
	}
	b := []byte("MThd\x00\x00\x00\x06\x00\x00\x00\x01\x00\x60MTrk")
	b = append(b, ln[:]...)
	b = append(b, ev...)
	k := len(text)
	b = append(b, 0, 0xFF, 1, byte(0x80|k>>21&0x7f), byte(0x80|k>>14&0x7f), byte(0x80|k>>7&0x7f), byte(k&0x7f))
	b = append(b, text...)
	return append(b, 0, 0xFF, 0x2F, 0)
}

// ParseMIDI checks that b is a complete file as written by MIDI().
func ParseMIDI(b []byte) (lines []string, err error) {
	if len(b) < 26 || string(b[:4]) != "MThd" || string(b[14:18]) != "MTrk" {
		return nil, fmt.Errorf("no MIDI header in %d bytes", len(b))
	}
	n := int(binary.BigEndian.Uint32(b[18:22]))
	if len(b) != 22+n {
		return nil, fmt.Errorf("the track says %d bytes, there are %d", n, len(b)-22)
	}
	if string(b[len(b)-4:]) != "\x00\xff\x2f\x00" {
		return nil, fmt.Errorf("no end of track")
	}
	i := strings.Index(string(b[22:]), "\x00\xff\x01")
	if i < 0 || i+7 > n-4 {
		return nil, fmt.Errorf("no text")
	}
	for _, l := range strings.Split(string(b[22+i+7:len(b)-4]), "\n") {
		if l != "" {
			lines = append(lines, l)
		}
	}
	return lines, nil
}

func (pl *Player) export(name string) {
	c := pl.c
	if c.PB.ExportDelay > 0 {
		rt.Sleep(c.PB.ExportDelay)
	}
	if c.PB.ExportNever {
		c.W.Fault("export-never-written")
		return
	}
	p := name
	if !path.IsAbs(p) {
		p = path.Join(pl.P.Cwd, p)
	}
	data := pl.MIDI()
	pl.Exports = append(pl.Exports, Export{Path: p, Data: data, At: c.Now()})
	idx := len(pl.Exports) - 1
	f, err := c.W.FS.Open(p, openTruncate, 0644)
	if err != nil {
		c.S.Tracef("%s cannot write %s: %v", pl, p, err)
		return
	}
	chunk := c.PB.ExportChunk
	if chunk <= 0 {
		chunk = len(data)
	}
	for i := 0; i < len(data); i += chunk {
		j := i + chunk
		if j > len(data) {
			j = len(data)
		}
		if c.PB.ExportGap > 0 {
			rt.Sleep(c.PB.ExportGap)
		}
		if c.PB.ExportDie > 0 && j > c.PB.ExportDie {
			c.W.Fault("player-dies-during-export")
			c.S.Kill(pl.P)
		}
		if _, err := f.Write(data[i:j]); err != nil {
			f.Close()
			return
		}
	}
	f.Close()
	pl.Exports[idx].Done = true
	c.S.Tracef("%s wrote %s (%d bytes)", pl, p, len(data))
}

// ---------------------------------------------------------------- OSC

func decodeOSC(b []byte) ([]OSCMsg, error) {
	if len(b) >= 16 && string(b[:8]) == "#bundle\x00" {
		var out []OSCMsg
		b = b[16:]
		for len(b) > 0 {
			if len(b) < 4 {
				return nil, fmt.Errorf("truncated bundle")
			}
			n := int(int32(binary.BigEndian.Uint32(b)))
			b = b[4:]
			if n < 0 || n > len(b) {
				return nil, fmt.Errorf("element of %d bytes, %d left", n, len(b))
			}
			ms, err := decodeOSC(b[:n])
			if err != nil {
				return nil, err
			}
			out = append(out, ms...)
			b = b[n:]
		}
		return out, nil
	}
	str := func() (string, error) {
		for i, x := range b {
			if x == 0 {
				s := string(b[:i])
				k := (i/4 + 1) * 4
				if k > len(b) {
					return "", fmt.Errorf("bad padding")
				}
				b = b[k:]
				return s, nil
			}
		}
		return "", fmt.Errorf("unterminated string")
	}
	addr, err := str()
	if err != nil {
		return nil, err
	}
	m := OSCMsg{Addr: addr}
	if !strings.HasPrefix(addr, "/") {
		return nil, fmt.Errorf("bad address %q", addr)
	}
	if len(b) == 0 {
		return []OSCMsg{m}, nil
	}
	tags, err := str()
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(tags, ",") {
		return nil, fmt.Errorf("bad type tags")
	}
	for _, t := range tags[1:] {
		switch t {
		case 'i':
			if len(b) < 4 {
				return nil, fmt.Errorf("truncated int")
			}
			m.Args = append(m.Args, int32(binary.BigEndian.Uint32(b)))
			b = b[4:]
		case 'f':
			if len(b) < 4 {
				return nil, fmt.Errorf("truncated float")
			}
			m.Args = append(m.Args, math.Float32frombits(binary.BigEndian.Uint32(b)))
			b = b[4:]
		case 's':
			s, err := str()
			if err != nil {
				return nil, err
			}
			m.Args = append(m.Args, s)
		default:
			return nil, fmt.Errorf("unexpected type %c", t)
		}
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d bytes left over", len(b))
	}
	return []OSCMsg{m}, nil
}
