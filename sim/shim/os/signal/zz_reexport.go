// Code generated by genshim; DO NOT EDIT.

package signal

import (
	x_alda_sim_shim_os "alda.sim/shim/os"
)

func Ignored(sig x_alda_sim_shim_os.Signal) bool {
	panic("simulation: os/signal.Ignored is not modelled")
}
