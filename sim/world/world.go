// Package world is the simulated machine: file system, TCP network, process
// table, HTTP service, terminal. All state belongs to one run.
package world

import (
	"fmt"
	"strings"

	"alda.sim/rt"
)

// W is the world of the current run.
var W *World

type World struct {
	S        *rt.Sim
	FS       *FS
	Net      *Net
	Programs map[string]func(p *rt.Proc) // program marker -> main
	HTTP     func(p *rt.Proc, r *HTTPRequest) *HTTPResponse
	Slots    []*Slot
	Faults   map[string]int64 // fault kinds that actually fired
	// SpawnHook may veto or delay starting a program.
	SpawnHook func(p *rt.Proc, path string, args []string) error
	OnSpawn   func(child *rt.Proc)
	Probes    map[string]int64
}

// Slot is one compiled copy of the program under test; it can host one
// process at a time.
type Slot struct {
	Name string
	Init func()
	Main func()
	Busy bool
}

var registered []*Slot

func RegisterSlot(s *Slot) { registered = append(registered, s) }

func New(s *rt.Sim) *World {
	w := &World{S: s, Programs: map[string]func(p *rt.Proc){}, Faults: map[string]int64{}, Probes: map[string]int64{}}
	w.FS = newFS(w)
	w.Net = newNet(w)
	for _, sl := range registered {
		sl.Busy = false
		w.Slots = append(w.Slots, sl)
	}
	W = w
	return w
}

// Fault records that a fault of this kind fired.
func (w *World) Fault(kind string) { w.Faults[kind]++ }

// Probe records that a rare condition was reached.
func (w *World) Probe(kind string) { w.Probes[kind]++ }

// PD is the per-process data of the world.
type PD struct {
	Stdin      *Pipe
	Stdout     *Out
	Stderr     *Out
	StdinTTY   bool
	TTY        bool
	Exe        string
	exeInode   *Inode
	conns      map[*Conn]bool
	listeners  map[*Listener]bool
	signals    []func(sig int) bool
	User       *Terminal
	waiters    rt.WaitQ
	parent     *rt.Proc
	FSOps      int64
	NetOps     int64
	Umask      uint32
	NoFile     bool
	ExtraFiles []interface{}
}

func Data(p *rt.Proc) *PD {
	if p == nil {
		return nil
	}
	if p.Ext == nil {
		p.Ext = &PD{Stdin: NewPipe(), Stdout: &Out{}, Stderr: &Out{}, conns: map[*Conn]bool{}, listeners: map[*Listener]bool{}}
	}
	return p.Ext.(*PD)
}

// Out collects the output of a process.
type Out struct {
	B    []byte
	Tee  func(b []byte)
	Pipe *Pipe
	Err  error // what writing fails with, once there is no more room
	Room int   // how many bytes can be written before Err
	Hit  bool  // Err was returned
}

func (o *Out) Write(b []byte) (int, error) {
	if o.Err != nil && len(b) > o.Room {
		n := o.Room
		o.Room, o.Hit = 0, true
		o.B = append(o.B, b[:n]...)
		return n, o.Err
	}
	o.Room -= len(b)
	if len(o.B) < 1<<22 {
		o.B = append(o.B, b...)
	}
	if o.Tee != nil {
		o.Tee(b)
	}
	if o.Pipe != nil {
		o.Pipe.Write(b)
	}
	return len(b), nil
}
func (o *Out) String() string { return string(o.B) }

// Pipe is a byte stream between tasks.
type Pipe struct {
	buf    []byte
	closed bool
	q      rt.WaitQ
}

func NewPipe() *Pipe { return &Pipe{} }
func (p *Pipe) Write(b []byte) {
	p.buf = append(p.buf, b...)
	p.q.WakeAll()
}
func (p *Pipe) Close() { p.closed = true; p.q.WakeAll() }
func (p *Pipe) Read(b []byte) (int, bool) {
	for len(p.buf) == 0 {
		if p.closed {
			return 0, false
		}
		p.q.Wait("stdin")
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, true
}

// Spec describes a process to start.
type Spec struct {
	Name   string
	Args   []string
	Env    map[string]string
	Cwd    string
	Stdin  []byte // nil: terminal (no piped input)
	Pipe   bool   // stdin is a pipe even if empty
	Exe    string
	Parent *rt.Proc
	TTY    bool
}

// StartAlda starts the real code of the alda client in a free slot; it waits
// for a slot to become free.
func (w *World) StartAlda(sp Spec) *rt.Proc {
	var slot *Slot
	for {
		for _, s := range w.Slots {
			if !s.Busy {
				slot = s
				break
			}
		}
		if slot != nil {
			break
		}
		rt.Sleep(50_000_000)
	}
	slot.Busy = true
	p := w.newProc(sp)
	p.Data["slot"] = slot.Name
	p.AtExit(func() { slot.Busy = false })
	w.S.Spawn(p, "main", func() {
		slot.Init()
		slot.Main()
		rt.Exit(0)
	})
	w.S.Tracef("%s starts in %s: %s (cwd %s)", p, slot.Name, strings.Join(sp.Args, " "), sp.Cwd)
	return p
}

// StartProgram starts a stub program.
func (w *World) StartProgram(sp Spec, main func(p *rt.Proc)) *rt.Proc {
	p := w.newProc(sp)
	w.S.Spawn(p, "main", func() {
		main(p)
		rt.Exit(0)
	})
	w.S.Tracef("%s starts: %s", p, strings.Join(sp.Args, " "))
	if w.OnSpawn != nil {
		w.OnSpawn(p)
	}
	return p
}

func (w *World) newProc(sp Spec) *rt.Proc {
	p := w.S.NewProc(sp.Name)
	p.Args = sp.Args
	for k, v := range sp.Env {
		p.Env[k] = v
	}
	if sp.Cwd != "" {
		p.Cwd = sp.Cwd
	}
	d := Data(p)
	d.parent = sp.Parent
	d.Exe = sp.Exe
	d.TTY = sp.TTY
	if sp.Exe != "" {
		if n := w.FS.lookup("/", sp.Exe, true); n != nil {
			d.exeInode = n
			n.running++
		}
	}
	if sp.Stdin != nil || sp.Pipe {
		d.Stdin.buf = append([]byte(nil), sp.Stdin...)
		d.Stdin.closed = true
	} else {
		d.StdinTTY = true
	}
	p.AtExit(func() { w.cleanup(p) })
	return p
}

func (w *World) cleanup(p *rt.Proc) {
	d := Data(p)
	for _, l := range w.Net.order {
		if d.listeners[l] {
			l.close()
		}
	}
	for _, c := range w.Net.connsOf(p) {
		c.procGone()
	}
	if d.exeInode != nil {
		d.exeInode.running--
	}
	d.waiters.WakeAll()
	w.S.Tracef("%s ended (code %d)", p, p.Code)
}

// WaitExit waits for p to end, at most d ns (0: forever); reports whether it did.
func WaitExit(p *rt.Proc, d int64) bool {
	deadline := rt.S.Now() + d
	for !p.Dead {
		if d == 0 {
			Data(p).waiters.Wait("exit of " + p.String())
		} else if !Data(p).waiters.WaitUntil("exit of "+p.String(), deadline-rt.S.Now()) {
			return p.Dead
		}
	}
	return true
}

// Signal delivers a signal; the default action ends the process.
func (w *World) Signal(p *rt.Proc, sig int) {
	if p.Dead {
		return
	}
	w.S.Tracef("signal %d to %s", sig, p)
	handled := false
	for _, h := range Data(p).signals {
		if h(sig) {
			handled = true
		}
	}
	if !handled {
		p.Exited = true
		p.Code = 128 + sig
		w.S.Kill(p)
		p.Code = 128 + sig
	}
}

func OnSignal(p *rt.Proc, h func(sig int) bool) { d := Data(p); d.signals = append(d.signals, h) }
func ClearSignals(p *rt.Proc)                   { Data(p).signals = nil }

func cur() *rt.Proc {
	p := rt.CurProc()
	if p == nil {
		panic("simulated operation outside a simulation")
	}
	return p
}

// Terminal is the user at an interactive prompt.
type Terminal struct {
	Lines   []TermLine
	q       rt.WaitQ
	closed  bool
	History []string
	Prompts int
	rest    []byte
	Ready   rt.WaitQ // woken every time the program asks for a line
}

type TermLine struct {
	Text      string
	Interrupt bool
}

func (t *Terminal) Enter(s string) { t.Lines = append(t.Lines, TermLine{Text: s}); t.q.WakeAll() }
func (t *Terminal) Interrupt()     { t.Lines = append(t.Lines, TermLine{Interrupt: true}); t.q.WakeAll() }
func (t *Terminal) EOF()           { t.closed = true; t.q.WakeAll() }
func (t *Terminal) Next() (l TermLine, ok bool) {
	t.Prompts++
	t.Ready.WakeAll()
	for len(t.Lines) == 0 {
		if t.closed {
			return TermLine{}, false
		}
		t.q.Wait("terminal input")
	}
	l = t.Lines[0]
	t.Lines = t.Lines[1:]
	return l, true
}

// Term is the user at the terminal of the process.
func (d *PD) Term() *Terminal {
	if d.User == nil {
		d.User = &Terminal{}
	}
	return d.User
}

// read is standard input of a program that does not use the terminal's prompt.
func (t *Terminal) read(b []byte) (int, bool) {
	if len(t.rest) == 0 {
		l, ok := t.Next()
		if !ok {
			return 0, false
		}
		if l.Interrupt {
			rt.Exit(130)
		}
		t.rest = []byte(l.Text + "\n")
	}
	n := copy(b, t.rest)
	t.rest = t.rest[n:]
	return n, true
}

var _ = fmt.Sprint

// Parent is the process that started p, if a simulated one did.
func Parent(p *rt.Proc) *rt.Proc { return Data(p).parent }
