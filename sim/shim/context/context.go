// Package context works under the simulated scheduler and clock.
package context

import (
	"context"
	"time"

	"alda.sim/rt"
	"alda.sim/world"
)

type Context = context.Context
type CancelFunc = context.CancelFunc

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

func Background() Context                           { return context.Background() }
func TODO() Context                                 { return context.TODO() }
func WithValue(p Context, k, v interface{}) Context { return &valueCtx{p, k, v} }
func Cause(c Context) error                         { return c.Err() }

type valueCtx struct {
	Context
	k, v interface{}
}

func (c *valueCtx) Value(k interface{}) interface{} {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

type cancelCtx struct {
	Context
	done chan struct{}
	err  error
	kids []*cancelCtx
	dl   int64
	tm   *rt.Timer
}

type selfKey struct{}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error            { return c.err }
func (c *cancelCtx) Value(k interface{}) interface{} {
	if _, ok := k.(selfKey); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.dl != 0 {
		return time.Unix(0, c.dl).UTC(), true
	}
	return c.Context.Deadline()
}
func (c *cancelCtx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	rt.CloseNow(c.done)
	rt.S.Cancel(c.tm)
	for _, k := range c.kids {
		k.cancel(err)
	}
}
func newCancel(p Context) *cancelCtx {
	c := &cancelCtx{Context: p, done: make(chan struct{})}
	if pc, ok := p.Value(selfKey{}).(*cancelCtx); ok {
		if pc.err != nil {
			c.cancel(pc.err)
		} else {
			pc.kids = append(pc.kids, c)
		}
	}
	return c
}
func WithCancel(p Context) (Context, CancelFunc) {
	c := newCancel(p)
	return c, func() { rt.Yield(); c.cancel(Canceled) }
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	c := newCancel(p)
	c.dl = world.Wall() + int64(d)
	c.tm = rt.S.At(int64(d), func() { c.cancel(DeadlineExceeded) })
	return c, func() { rt.Yield(); c.cancel(Canceled) }
}
func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	return WithTimeout(p, time.Duration(t.UnixNano()-world.Wall()))
}
