// Package signal delivers simulated signals.
package signal

import (
	"os"
	"syscall"

	"alda.sim/rt"
	"alda.sim/shim/context"
	"alda.sim/world"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	rt.Yield()
	p := rt.CurProc()
	world.OnSignal(p, func(n int) bool {
		if len(sig) == 0 {
			rt.TrySend(c, os.Signal(syscall.Signal(n)))
			return true
		}
		for _, s := range sig {
			if x, ok := s.(syscall.Signal); ok && int(x) == n {
				rt.TrySend(c, s)
				return true
			}
		}
		return false
	})
}
func Stop(c chan<- os.Signal) { rt.Yield(); world.ClearSignals(rt.CurProc()) }
func Ignore(sig ...os.Signal) {
	world.OnSignal(rt.CurProc(), func(n int) bool {
		for _, s := range sig {
			if x, ok := s.(syscall.Signal); ok && int(x) == n {
				return true
			}
		}
		return len(sig) == 0
	})
}
func Reset(sig ...os.Signal) { world.ClearSignals(rt.CurProc()) }
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	rt.Go(func() { rt.Recv((<-chan os.Signal)(c)); cancel() })
	return ctx, cancel
}
