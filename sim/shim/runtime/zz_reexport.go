// Code generated by genshim; DO NOT EDIT.

package runtime

import (
	real "runtime"
	x_unsafe "unsafe"
)

func BlockProfile(p []BlockProfileRecord) (n int, ok bool) {
	panic("simulation: runtime.BlockProfile is not modelled")
}

type BlockProfileRecord = real.BlockProfileRecord

func Breakpoint()        { panic("simulation: runtime.Breakpoint is not modelled") }
func CPUProfile() []byte { panic("simulation: runtime.CPUProfile is not modelled") }

var Caller = real.Caller
var Callers = real.Callers
var CallersFrames = real.CallersFrames

type Cleanup = real.Cleanup

const Compiler = real.Compiler

type Error = real.Error
type Frame = real.Frame
type Frames = real.Frames
type Func = real.Func

var FuncForPC = real.FuncForPC

const GOARCH = real.GOARCH

func GOMAXPROCS(n int) int { panic("simulation: runtime.GOMAXPROCS is not modelled") }

const GOOS = real.GOOS

var GOROOT = real.GOROOT

func Goexit() { panic("simulation: runtime.Goexit is not modelled") }
func GoroutineProfile(p []StackRecord) (n int, ok bool) {
	panic("simulation: runtime.GoroutineProfile is not modelled")
}

var KeepAlive = real.KeepAlive

func LockOSThread() { panic("simulation: runtime.LockOSThread is not modelled") }

var MemProfile = real.MemProfile
var MemProfileRate = real.MemProfileRate

type MemProfileRecord = real.MemProfileRecord
type MemStats = real.MemStats

func MutexProfile(p []BlockProfileRecord) (n int, ok bool) {
	panic("simulation: runtime.MutexProfile is not modelled")
}

var NumCPU = real.NumCPU

func NumCgoCall() int64 { panic("simulation: runtime.NumCgoCall is not modelled") }

type PanicNilError = real.PanicNilError
type Pinner = real.Pinner

var ReadMemStats = real.ReadMemStats

func ReadTrace() (buf []byte)      { panic("simulation: runtime.ReadTrace is not modelled") }
func SetBlockProfileRate(rate int) { panic("simulation: runtime.SetBlockProfileRate is not modelled") }
func SetCPUProfileRate(hz int)     { panic("simulation: runtime.SetCPUProfileRate is not modelled") }
func SetCgoTraceback(version int, traceback x_unsafe.Pointer, context x_unsafe.Pointer, symbolizer x_unsafe.Pointer) {
	panic("simulation: runtime.SetCgoTraceback is not modelled")
}
func SetDefaultGOMAXPROCS() { panic("simulation: runtime.SetDefaultGOMAXPROCS is not modelled") }

var SetFinalizer = real.SetFinalizer

func SetMutexProfileFraction(rate int) int {
	panic("simulation: runtime.SetMutexProfileFraction is not modelled")
}

var Stack = real.Stack

type StackRecord = real.StackRecord

func StartTrace() error { panic("simulation: runtime.StartTrace is not modelled") }
func StopTrace()        { panic("simulation: runtime.StopTrace is not modelled") }
func ThreadCreateProfile(p []StackRecord) (n int, ok bool) {
	panic("simulation: runtime.ThreadCreateProfile is not modelled")
}

type TypeAssertionError = real.TypeAssertionError

func UnlockOSThread() { panic("simulation: runtime.UnlockOSThread is not modelled") }

var Version = real.Version
