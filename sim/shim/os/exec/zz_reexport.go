// Code generated by genshim; DO NOT EDIT.

package exec

import (
	real "os/exec"
)

var ErrWaitDelay = real.ErrWaitDelay
