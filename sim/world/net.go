package world

import (
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"alda.sim/rt"
)

// Net is a loopback TCP network.
type Net struct {
	w         *World
	listeners map[int]*Listener
	order     []*Listener
	conns     []*Conn
	nextPort  int
	// BufSize is the capacity of one direction of a connection.
	BufSize int
	// PSeg: probability of splitting a write into several segments.
	// PDelay: probability of delaying a segment; MaxDelay in ns.
	PSeg     float64
	PDelay   float64
	MaxDelay int64
	// PCoalesce lets a reader wait a little so that segments pile up.
	PCoalesce float64
	// DialHook/WriteHook inject faults.
	DialHook func(p *rt.Proc, port int) error
	// AcceptHook fails an accept; ECONNABORTED means that the client has gone.
	AcceptHook func(l *Listener) error
	WriteHook  func(c *Conn, b []byte) error
	ReadHook   func(c *Conn) error
	// BindHook may fail a listen.
	BindHook   func(p *rt.Proc, port int) error
	ClientHost func(p *rt.Proc) string
}

func newNet(w *World) *Net {
	return &Net{w: w, listeners: map[int]*Listener{}, nextPort: 40000, BufSize: 1 << 16}
}

func Addr(port int) *net.TCPAddr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port} }

func opErr(op string, port int, err error) error {
	if e, ok := err.(syscall.Errno); ok {
		n := map[string]string{"dial": "connect", "listen": "bind", "read": "read", "write": "write", "accept": "accept"}[op]
		err = os.NewSyscallError(n, e)
	}
	return &net.OpError{Op: op, Net: "tcp", Addr: Addr(port), Err: err}
}

// Listener accepts connections.
type Listener struct {
	n       *Net
	Port    int
	p       *rt.Proc
	backlog []*Conn
	// MaxBacklog is the length of the accept queue.
	MaxBacklog int
	closed     bool
	q          rt.WaitQ
}

func (n *Net) freePort() int {
	for {
		n.nextPort += 1 + n.w.S.Rng.Intn(7)
		if n.nextPort > 60000 {
			n.nextPort = 40000
		}
		if n.listeners[n.nextPort] == nil {
			return n.nextPort
		}
	}
}

// Listen opens a listening socket for the current process.
func (n *Net) Listen(port int) (*Listener, error) {
	rt.Yield()
	p := cur()
	if n.BindHook != nil {
		if err := n.BindHook(p, port); err != nil {
			return nil, opErr("listen", port, err)
		}
	}
	if port == 0 {
		port = n.freePort()
	} else if n.listeners[port] != nil {
		return nil, opErr("listen", port, syscall.EADDRINUSE)
	}
	l := &Listener{n: n, Port: port, p: p, MaxBacklog: 4096}
	n.listeners[port] = l
	n.order = append(n.order, l)
	Data(p).listeners[l] = true
	n.w.S.Tracef("%s listens on %d", p, port)
	return l, nil
}

func (n *Net) Listening(port int) *rt.Proc {
	if l := n.listeners[port]; l != nil {
		return l.p
	}
	return nil
}

func (l *Listener) close() {
	if l.closed {
		return
	}
	l.closed = true
	if l.n.listeners[l.Port] == l {
		delete(l.n.listeners, l.Port)
	}
	for _, c := range l.backlog {
		c.reset()
	}
	l.backlog = nil
	l.q.WakeAll()
}

func (l *Listener) Close() error {
	rt.Yield()
	if l.closed {
		return opErr("close", l.Port, net.ErrClosed)
	}
	l.close()
	return nil
}

func (l *Listener) AcceptConn() (*Conn, error) {
	rt.Yield()
	for len(l.backlog) == 0 {
		if l.closed {
			return nil, opErr("accept", l.Port, net.ErrClosed)
		}
		l.q.Wait("accept")
	}
	c := l.backlog[0]
	if c.n.AcceptHook != nil {
		if err := c.n.AcceptHook(l); err != nil {
			if err == syscall.ECONNABORTED {
				l.backlog = l.backlog[1:]
			}
			return nil, opErr("accept", l.Port, err)
		}
	}
	l.backlog = l.backlog[1:]
	c.accepted = true
	return c, nil
}
func (l *Listener) Accept() (net.Conn, error) {
	c, err := l.AcceptConn()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *Listener) Addr() net.Addr                { return Addr(l.Port) }
func (l *Listener) AcceptTCP() (*Conn, error)     { return l.AcceptConn() }
func (l *Listener) SetDeadline(t time.Time) error { return nil }

// half is one direction of a connection.
type half struct {
	buf      []byte // readable
	inflight int    // bytes on the way
	eof      bool   // peer finished sending (after buf)
	reset    bool
	rq       rt.WaitQ
	wq       rt.WaitQ
	lastAt   int64 // arrival time of the last segment (keeps order)
	finSeen  bool
}

// Conn is one end of a connection.
type Conn struct {
	n        *Net
	ID       int
	Side     string
	p        *rt.Proc
	peer     *Conn
	in, out  *half
	closed   bool
	accepted bool
	gone     bool // the local end no longer exists; data sent here is lost
	rst      bool // a write reached a closed peer: next write fails
	rdl, wdl int64
	lport    int
	rport    int
	Port     int // the server side's port
	linger0  bool
	Sent     int64
	Rcvd     int64
}

// Dial connects the current process to a port.
func (n *Net) Dial(port int) (*Conn, error) { return n.DialTimeout(port, 0) }

// DialTimeout is Dial with a limit (0: that of the kernel).
func (n *Net) DialTimeout(port int, limit int64) (*Conn, error) {
	rt.Yield()
	p := cur()
	if n.DialHook != nil {
		if err := n.DialHook(p, port); err != nil {
			return nil, opErr("dial", port, err)
		}
	}
	l := n.listeners[port]
	if l == nil {
		rt.Sleep(30_000)
		return nil, opErr("dial", port, syscall.ECONNREFUSED)
	}
	// With a full accept queue the kernel drops the SYN and retries.
	kernel := int64(127_000_000_000)
	d, e := kernel, error(syscall.ETIMEDOUT)
	if limit > 0 && limit < kernel {
		d, e = limit, os.ErrDeadlineExceeded
	}
	end := rt.S.Now() + d
	for back := int64(1_000_000_000); len(l.backlog) > l.MaxBacklog; back *= 2 {
		n.w.Probe("accept-queue-full")
		left := end - rt.S.Now()
		if left <= 0 {
			return nil, opErr("dial", port, e)
		}
		if back < left {
			left = back
		}
		rt.Sleep(left)
		if l.closed {
			return nil, opErr("dial", port, syscall.ECONNREFUSED)
		}
	}
	ab, ba := &half{}, &half{}
	id := len(n.conns) / 2
	eph := n.freePort()
	a := &Conn{n: n, ID: id, Side: "c", p: p, in: ba, out: ab, lport: eph, rport: port, Port: port, accepted: true}
	b := &Conn{n: n, ID: id, Side: "s", p: l.p, in: ab, out: ba, lport: port, rport: eph, Port: port}
	a.peer, b.peer = b, a
	n.conns = append(n.conns, a, b)
	Data(p).conns[a] = true
	Data(l.p).conns[b] = true
	l.backlog = append(l.backlog, b)
	l.q.WakeOne()
	rt.Yield()
	return a, nil
}

func (n *Net) connsOf(p *rt.Proc) []*Conn {
	var out []*Conn
	d := Data(p)
	for _, c := range n.conns {
		if d.conns[c] {
			out = append(out, c)
		}
	}
	return out
}

// procGone: the owning process ended; the kernel closes its sockets.
func (c *Conn) procGone() {
	if c.closed {
		return
	}
	c.shut()
}

func (c *Conn) shut() {
	c.closed = true
	delete(Data(c.p).conns, c)
	if len(c.in.buf) > 0 || c.linger0 {
		// unread data: the peer sees a reset
		c.peerReset()
	} else {
		c.sendFin()
	}
	c.gone = true
	c.in.rq.WakeAll()
	c.in.wq.WakeAll() // writers of the peer
	c.out.wq.WakeAll()
}

func (c *Conn) sendFin() {
	h := c.out
	if h.finSeen {
		return
	}
	h.finSeen = true
	at := h.lastAt - c.n.w.S.Now()
	if at <= 0 && h.inflight == 0 {
		h.eof = true
		h.rq.WakeAll()
		return
	}
	c.n.w.S.At(at, func() { h.eof = true; h.rq.WakeAll() })
}

func (c *Conn) peerReset() {
	h := c.out
	h.reset = true
	h.rq.WakeAll()
	c.peer.rst = true
	c.peer.out.wq.WakeAll()
}

// reset aborts the connection in both directions.
func (c *Conn) reset() {
	for _, x := range []*Conn{c, c.peer} {
		x.in.reset = true
		x.rst = true
		x.in.rq.WakeAll()
		x.out.wq.WakeAll()
	}
	c.closed = true
	delete(Data(c.p).conns, c)
}

// Reset injects a connection reset.
func (c *Conn) Reset() {
	c.n.w.S.Tracef("connection %d is reset", c.ID)
	for _, x := range []*Conn{c, c.peer} {
		x.in.buf = nil
		x.in.reset = true
		x.rst = true
		x.in.rq.WakeAll()
		x.out.wq.WakeAll()
	}
}

func (c *Conn) dl(op string) error { return opErr(op, c.rport, os.ErrDeadlineExceeded) }

func (c *Conn) Read(b []byte) (int, error) {
	rt.Yield()
	if c.n.ReadHook != nil {
		if err := c.n.ReadHook(c); err != nil {
			return 0, opErr("read", c.rport, err)
		}
	}
	for {
		if c.closed {
			return 0, opErr("read", c.rport, net.ErrClosed)
		}
		if c.rdl != 0 && rt.S.Now() >= c.rdl {
			return 0, c.dl("read")
		}
		if c.in.reset {
			return 0, opErr("read", c.rport, syscall.ECONNRESET)
		}
		if len(c.in.buf) > 0 {
			break
		}
		if c.in.eof {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.rdl != 0 {
			c.in.rq.WaitUntil("conn read", c.rdl-rt.S.Now())
		} else {
			c.in.rq.Wait("conn read")
		}
	}
	if c.n.PCoalesce > 0 && rt.Choose(rt.Net, 2, c.n.PCoalesce) == 1 {
		c.n.w.Probe("read-coalesced")
		rt.Sleep(1_000_000)
		if c.closed {
			return 0, opErr("read", c.rport, net.ErrClosed)
		}
	}
	m := len(c.in.buf)
	if m > len(b) {
		m = len(b)
	}
	if c.n.PSeg > 0 && m > 1 {
		if v := rt.Choose(rt.Net, 8, c.n.PSeg/2); v > 0 {
			m = 1 + (m-1)*(v-1)/8
			c.n.w.Fault("short-read")
		}
	}
	copy(b, c.in.buf[:m])
	c.in.buf = c.in.buf[m:]
	c.Rcvd += int64(m)
	c.in.wq.WakeAll()
	return m, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	rt.Yield()
	total := 0
	if c.n.WriteHook != nil {
		if err := c.n.WriteHook(c, b); err != nil {
			return 0, opErr("write", c.rport, err)
		}
	}
	for {
		if c.closed {
			return total, opErr("write", c.rport, net.ErrClosed)
		}
		if c.wdl != 0 && rt.S.Now() >= c.wdl {
			return total, c.dl("write")
		}
		if c.rst {
			return total, opErr("write", c.rport, syscall.EPIPE)
		}
		if total == len(b) {
			return total, nil
		}
		h := c.out
		if c.peer.gone {
			// The peer's kernel answers with a reset; this write still succeeds.
			c.rst = true
			c.in.reset = c.in.reset || !c.in.eof
			c.n.w.Probe("write-to-closed-peer")
			return len(b), nil
		}
		room := c.n.BufSize - len(h.buf) - h.inflight
		if room <= 0 {
			c.n.w.Probe("send-buffer-full")
			if c.wdl != 0 {
				h.wq.WaitUntil("conn write", c.wdl-rt.S.Now())
			} else {
				h.wq.Wait("conn write")
			}
			continue
		}
		m := len(b) - total
		if m > room {
			m = room
		}
		if c.n.PSeg > 0 && m > 1 {
			if v := rt.Choose(rt.Net, 16, c.n.PSeg); v > 0 {
				m = 1 + (m-1)*(v-1)/16
				c.n.w.Fault("segment-split")
			}
		}
		c.deliver(b[total : total+m])
		total += m
	}
}

func (c *Conn) deliver(b []byte) {
	h := c.out
	data := append([]byte(nil), b...)
	c.Sent += int64(len(b))
	var d int64
	if c.n.PDelay > 0 && c.n.MaxDelay > 0 {
		if v := rt.Choose(rt.Net, 64, c.n.PDelay); v > 0 {
			d = c.n.MaxDelay * int64(v) / 64
			c.n.w.Fault("net-delay")
		}
	}
	s := c.n.w.S
	at := s.Now() + d
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	if at <= s.Now() && h.inflight == 0 {
		h.buf = append(h.buf, data...)
		h.rq.WakeAll()
		return
	}
	h.inflight += len(data)
	s.At(at-s.Now(), func() {
		h.inflight -= len(data)
		if !h.reset {
			h.buf = append(h.buf, data...)
		}
		h.rq.WakeAll()
	})
}

func (c *Conn) Close() error {
	rt.Yield()
	if c.closed {
		return opErr("close", c.rport, net.ErrClosed)
	}
	c.shut()
	return nil
}
func (c *Conn) CloseWrite() error {
	rt.Yield()
	c.sendFin()
	return nil
}
func (c *Conn) CloseRead() error                       { return nil }
func (c *Conn) LocalAddr() net.Addr                    { return Addr(c.lport) }
func (c *Conn) RemoteAddr() net.Addr                   { return Addr(c.rport) }
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetLinger(sec int) error                { c.linger0 = sec == 0; return nil }
func (c *Conn) SetReadBuffer(int) error                { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }
func simDeadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := t.UnixNano() - Epoch
	if d <= 0 {
		d = 1
	}
	return d
}
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	rt.Enter()
	c.rdl = simDeadline(t)
	c.in.rq.WakeAll()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	rt.Enter()
	c.wdl = simDeadline(t)
	c.out.wq.WakeAll()
	return nil
}
func (c *Conn) Proc() *rt.Proc { return c.p }
func (c *Conn) Peer() *Conn    { return c.peer }
func (c *Conn) String() string { return fmt.Sprintf("conn %d%s", c.ID, c.Side) }

// ParsePort splits host:port.
func ParsePort(addr string) (string, int, error) {
	i := strings.LastIndex(addr, ":")
	if i < 0 {
		return "", 0, &net.AddrError{Err: "missing port in address", Addr: addr}
	}
	port, err := strconv.Atoi(addr[i+1:])
	if err != nil || port < 0 || port > 65535 {
		return "", 0, &net.AddrError{Err: "invalid port", Addr: addr}
	}
	return strings.Trim(addr[:i], "[]"), port, nil
}

func IsLocal(host string) bool {
	switch host {
	case "", "localhost", "127.0.0.1", "::1", "0.0.0.0":
		return true
	}
	return false
}

// DialHost connects to host:port; unknown hosts do not resolve.
func (n *Net) DialHost(addr string, limit int64) (*Conn, error) {
	host, port, err := ParsePort(addr)
	if err != nil {
		return nil, opErr("dial", 0, err)
	}
	if !IsLocal(host) {
		rt.Sleep(100_000_000)
		return nil, opErr("dial", port, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
	}
	return n.DialTimeout(port, limit)
}
