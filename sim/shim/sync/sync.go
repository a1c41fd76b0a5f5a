// Package sync works under the simulated scheduler.
package sync

import "alda.sim/rt"

type Mutex = rt.Mutex
type RWMutex = rt.RWMutex
type WaitGroup = rt.WaitGroup
type Once = rt.Once
type Cond = rt.Cond
type Pool = rt.Pool
type Map = rt.Map
type Locker = rt.Locker

func NewCond(l Locker) *Cond { return rt.NewCond(l) }
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
