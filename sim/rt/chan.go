package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Channels keep their real Go value as identity; their state lives here.
type hchan struct {
	keep   interface{}
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	t   *Task
	g   *selGroup
	idx int
	val interface{}
	ok  bool
}

type selGroup struct {
	done bool
	idx  int
	val  interface{}
	ok   bool
}

func (s *Sim) hc(p unsafe.Pointer, keep interface{}, capn int) *hchan {
	k := uintptr(p)
	h := s.chans[k]
	if h == nil {
		h = &hchan{keep: keep, cap: capn}
		s.chans[k] = h
	}
	return h
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chanPtrS[T any](ch chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.g.done || w.t.finished || w.t.killed {
			continue
		}
		return w
	}
	return nil
}

func complete(w *waiter, val interface{}, ok bool) {
	w.g.done = true
	w.g.idx = w.idx
	w.g.val = val
	w.g.ok = ok
	S.ready(w.t)
}

func (h *hchan) trySend(v interface{}) bool {
	if h.closed {
		panic(sendOnClosed{})
	}
	if w := popWaiter(&h.recvq); w != nil {
		complete(w, v, true)
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		return true
	}
	return false
}

type sendOnClosed struct{}

func (sendOnClosed) Error() string { return "send on closed channel" }
func (sendOnClosed) RuntimeError() {}

func (h *hchan) tryRecv() (v interface{}, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf = h.buf[1:]
		if w := popWaiter(&h.sendq); w != nil {
			h.buf = append(h.buf, w.val)
			complete(w, nil, true)
		}
		return v, true, true
	}
	if w := popWaiter(&h.sendq); w != nil {
		v = w.val
		complete(w, nil, true)
		return v, true, true
	}
	if h.closed {
		return nil, false, true
	}
	return nil, false, false
}

// Send implements ch <- v.
func Send[T any](ch chan<- T, v T) {
	Yield()
	t := Enter()
	if ch == nil {
		for {
			t.block("send on nil channel")
		}
	}
	h := S.hc(chanPtrS(ch), ch, cap(ch))
	if h.trySend(v) {
		return
	}
	g := &selGroup{}
	h.sendq = append(h.sendq, &waiter{t: t, g: g, val: v})
	t.block("chan send")
	if !g.ok {
		panic(sendOnClosed{})
	}
}

// TrySend is used by timers and signals; it never blocks or yields.
func TrySend[T any](ch chan<- T, v T) bool {
	h := S.hc(chanPtrS(ch), ch, cap(ch))
	if h.closed {
		return false
	}
	return h.trySend(v)
}

// Drain empties a channel's buffer (timer Reset/Stop).
func Drain[T any](ch <-chan T) {
	h := S.hc(chanPtr(ch), ch, cap(ch))
	h.buf = nil
}

func recv[T any](ch <-chan T) (v T, ok bool) {
	Yield()
	t := Enter()
	if ch == nil {
		for {
			t.block("receive on nil channel")
		}
	}
	h := S.hc(chanPtr(ch), ch, cap(ch))
	if x, ok, done := h.tryRecv(); done {
		if x != nil {
			v = x.(T)
		}
		return v, ok
	}
	g := &selGroup{}
	h.recvq = append(h.recvq, &waiter{t: t, g: g})
	t.block("chan receive")
	if g.val != nil {
		v = g.val.(T)
	}
	return v, g.ok
}

func Recv[T any](ch <-chan T) T          { v, _ := recv(ch); return v }
func Recv2[T any](ch <-chan T) (T, bool) { return recv(ch) }

func Close[T any](ch chan<- T) {
	Yield()
	Enter()
	if ch == nil {
		panic("close of nil channel")
	}
	h := S.hc(chanPtrS(ch), ch, cap(ch))
	if h.closed {
		panic("close of closed channel")
	}
	h.closed = true
	for {
		w := popWaiter(&h.recvq)
		if w == nil {
			break
		}
		complete(w, nil, false)
	}
	for {
		w := popWaiter(&h.sendq)
		if w == nil {
			break
		}
		complete(w, nil, false)
	}
}

// Len implements len(ch).
func Len(ch interface{}) int {
	v := reflect.ValueOf(ch)
	if v.IsNil() || S == nil {
		return 0
	}
	h := S.chans[uintptr(v.UnsafePointer())]
	if h == nil {
		return 0
	}
	return len(h.buf)
}

// ---------------------------------------------------------------- select

type Case interface {
	try() bool
	enqueue(t *Task, g *selGroup, idx int)
	finish(g *selGroup)
}

type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }
func (c *RCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	h := S.hc(chanPtr(c.ch), c.ch, cap(c.ch))
	x, ok, done := h.tryRecv()
	if done {
		if x != nil {
			c.V = x.(T)
		}
		c.OK = ok
	}
	return done
}
func (c *RCase[T]) enqueue(t *Task, g *selGroup, idx int) {
	if c.ch == nil {
		return
	}
	h := S.hc(chanPtr(c.ch), c.ch, cap(c.ch))
	h.recvq = append(h.recvq, &waiter{t: t, g: g, idx: idx})
}
func (c *RCase[T]) finish(g *selGroup) {
	if g.val != nil {
		c.V = g.val.(T)
	}
	c.OK = g.ok
}

type SCase[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T, v T) *SCase[T] { return &SCase[T]{ch, v} }
func (c *SCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	return S.hc(chanPtrS(c.ch), c.ch, cap(c.ch)).trySend(c.v)
}
func (c *SCase[T]) enqueue(t *Task, g *selGroup, idx int) {
	if c.ch == nil {
		return
	}
	h := S.hc(chanPtrS(c.ch), c.ch, cap(c.ch))
	h.sendq = append(h.sendq, &waiter{t: t, g: g, idx: idx, val: c.v})
}
func (c *SCase[T]) finish(g *selGroup) {
	if !g.ok {
		panic(sendOnClosed{})
	}
}

// Select returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	Yield()
	t := Enter()
	n := len(cases)
	if n > 0 {
		off := Choose(Misc, n, 0.5)
		for k := 0; k < n; k++ {
			i := (k + off) % n
			if cases[i].try() {
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	g := &selGroup{}
	for i, c := range cases {
		c.enqueue(t, g, i)
	}
	for !g.done {
		t.block("select")
	}
	cases[g.idx].finish(g)
	return g.idx
}

// ---------------------------------------------------------------- range

type ChanIt[T any] struct{ ch <-chan T }

func ChanRange[T any](ch <-chan T) (T, *ChanIt[T]) {
	var z T
	return z, &ChanIt[T]{ch}
}
func ChanRange0[T any](ch <-chan T) *ChanIt[T] { return &ChanIt[T]{ch} }
func (it *ChanIt[T]) Next(v *T) bool {
	x, ok := recv(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

var _ = fmt.Sprint

// CloseNow closes a channel without yielding (used by timers).
func CloseNow[T any](ch chan T) {
	h := S.hc(chanPtrS((chan<- T)(ch)), ch, cap(ch))
	if h.closed {
		return
	}
	h.closed = true
	for {
		w := popWaiter(&h.recvq)
		if w == nil {
			break
		}
		complete(w, nil, false)
	}
}

// SendTo and SendCaseTo fix the element type before the value is converted.
type Sender[T any] struct{ ch chan<- T }

func SendTo[T any](ch chan<- T) Sender[T]      { return Sender[T]{ch} }
func (s Sender[T]) Do(v T)                     { Send(s.ch, v) }
func SendCaseTo[T any](ch chan<- T) SCaseOf[T] { return SCaseOf[T]{ch} }

type SCaseOf[T any] struct{ ch chan<- T }

func (s SCaseOf[T]) With(v T) *SCase[T] { return SendCase(s.ch, v) }
