// Package runtime: scheduling calls go to the simulated scheduler.
package runtime

import "alda.sim/rt"

func Gosched()          { rt.Yield() }
func NumGoroutine() int { return 1 }
func GC()               {}
