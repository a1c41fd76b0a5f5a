// Package rand is seeded by the simulation.
package rand

import "alda.sim/rt"

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		if rt.S != nil {
			b[i] = byte(rt.S.Rng.Uint64())
		}
	}
	return len(b), nil
}

var Reader interface {
	Read([]byte) (int, error)
} = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
