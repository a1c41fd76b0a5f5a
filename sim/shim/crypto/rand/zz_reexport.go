// Code generated by genshim; DO NOT EDIT.

package rand

import (
	real "crypto/rand"
)

var Int = real.Int
var Prime = real.Prime
var Text = real.Text
