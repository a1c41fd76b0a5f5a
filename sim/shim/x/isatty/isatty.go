// Package isatty reports the simulated terminal.
package isatty

import (
	"alda.sim/rt"
	"alda.sim/world"
)

func IsTerminal(fd uintptr) bool {
	p := rt.CurProc()
	if p == nil {
		return false
	}
	d := world.Data(p)
	switch fd {
	case 30000:
		return d.StdinTTY
	case 30001, 30002:
		return d.TTY
	}
	return false
}
func IsCygwinTerminal(fd uintptr) bool { return false }
