// Package rand is seeded by the simulation.
package rand

import (
	"math/rand"

	"alda.sim/rt"
)

type src struct{}

func (src) Int63() int64 {
	if rt.S == nil {
		return 4
	}
	return int64(rt.S.Rng.Uint64() >> 1)
}
func (src) Seed(int64) {}

var r = rand.New(src{})

func Int() int                           { return r.Int() }
func Intn(n int) int                     { return r.Intn(n) }
func Int31() int32                       { return r.Int31() }
func Int31n(n int32) int32               { return r.Int31n(n) }
func Int63() int64                       { return r.Int63() }
func Int63n(n int64) int64               { return r.Int63n(n) }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Float64() float64                   { return r.Float64() }
func Float32() float32                   { return r.Float32() }
func NormFloat64() float64               { return r.NormFloat64() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func Seed(int64)                         {}
func Read(b []byte) (int, error)         { return r.Read(b) }

// NewSource may repeat an earlier sequence, as any seed eventually does.
func NewSource(seed int64) rand.Source {
	if rt.S != nil && rt.S.Cfg.PRepeat > 0 && rt.Choose(rt.Misc, 2, rt.S.Cfg.PRepeat) == 1 {
		seed = 7
	}
	return rand.NewSource(seed)
}
