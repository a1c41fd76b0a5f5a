// Package time runs on the simulated clock.
package time

import (
	"time"

	"alda.sim/rt"
	"alda.sim/world"
)

func Now() Time {
	if rt.S == nil || rt.CurTask() == nil {
		return time.Unix(0, world.Epoch).UTC()
	}
	rt.Enter()
	return time.Unix(0, world.Wall()).UTC()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { rt.Sleep(int64(d)) }

type Timer struct {
	C <-chan Time
	c chan Time
	t *rt.Timer
	f func()
}

func newTimer(d Duration, c chan Time, f func()) *Timer {
	rt.Enter()
	t := &Timer{C: c, c: c, f: f}
	t.start(d)
	return t
}
func (t *Timer) start(d Duration) {
	p := rt.CurProc()
	t.t = rt.S.At(int64(d), func() {
		if t.f != nil {
			if !p.Dead {
				rt.S.Spawn(p, "timer", t.f)
			}
			return
		}
		rt.TrySend((chan<- Time)(t.c), time.Unix(0, world.Wall()).UTC())
	})
}
func (t *Timer) Stop() bool { rt.Enter(); return rt.S.Cancel(t.t) }
func (t *Timer) Reset(d Duration) bool {
	rt.Enter()
	a := rt.S.Cancel(t.t)
	if t.c != nil {
		rt.Drain((<-chan Time)(t.c))
	}
	t.start(d)
	return a
}
func NewTimer(d Duration) *Timer            { return newTimer(d, make(chan Time, 1), nil) }
func After(d Duration) <-chan Time          { return NewTimer(d).C }
func AfterFunc(d Duration, f func()) *Timer { return newTimer(d, nil, f) }

type Ticker struct {
	C    <-chan Time
	c    chan Time
	t    *rt.Timer
	d    Duration
	stop bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	rt.Enter()
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	p := rt.CurProc()
	var fire func()
	fire = func() {
		if t.stop || p.Dead {
			return
		}
		rt.TrySend((chan<- Time)(t.c), time.Unix(0, world.Wall()).UTC())
		t.t = rt.S.At(int64(t.d), fire)
	}
	t.t = rt.S.At(int64(t.d), fire)
}
func (t *Ticker) Stop() { rt.Enter(); t.stop = true; rt.S.Cancel(t.t) }
func (t *Ticker) Reset(d Duration) {
	rt.Enter()
	rt.S.Cancel(t.t)
	t.d = d
	t.stop = false
	t.arm()
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
