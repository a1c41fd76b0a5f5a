// Code generated by genshim; DO NOT EDIT.

package log

import (
	x_alda_sim_shim_io "alda.sim/shim/io"
	real "log"
)

func Flags() int { panic("simulation: log.Flags is not modelled") }

const LUTC = real.LUTC
const Ldate = real.Ldate
const Llongfile = real.Llongfile
const Lmicroseconds = real.Lmicroseconds
const Lmsgprefix = real.Lmsgprefix

type Logger = real.Logger

const Lshortfile = real.Lshortfile
const LstdFlags = real.LstdFlags
const Ltime = real.Ltime

var New = real.New

func Output(calldepth int, s string) error { panic("simulation: log.Output is not modelled") }
func Prefix() string                       { panic("simulation: log.Prefix is not modelled") }
func Writer() x_alda_sim_shim_io.Writer    { panic("simulation: log.Writer is not modelled") }
