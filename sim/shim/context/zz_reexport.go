// Code generated by genshim; DO NOT EDIT.

package context

import (
	x_alda_sim_shim_time "alda.sim/shim/time"
	real "context"
)

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	panic("simulation: context.AfterFunc is not modelled")
}

type CancelCauseFunc = real.CancelCauseFunc

func WithCancelCause(parent Context) (ctx Context, cancel CancelCauseFunc) {
	panic("simulation: context.WithCancelCause is not modelled")
}
func WithDeadlineCause(parent Context, d x_alda_sim_shim_time.Time, cause error) (Context, CancelFunc) {
	panic("simulation: context.WithDeadlineCause is not modelled")
}
func WithTimeoutCause(parent Context, timeout x_alda_sim_shim_time.Duration, cause error) (Context, CancelFunc) {
	panic("simulation: context.WithTimeoutCause is not modelled")
}
func WithoutCancel(parent Context) Context {
	panic("simulation: context.WithoutCancel is not modelled")
}
