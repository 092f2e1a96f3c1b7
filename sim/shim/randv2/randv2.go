//go:build go1.25

// Package rand is math/rand/v2 with the simulated process's own generator behind the
// package-level functions. That generator is seeded from the system at start, so it
// differs between processes even when they start in identical math/rand states.
package rand

import (
	real "math/rand/v2"

	"powsim/rt"
)

type src struct{}

func (src) Uint64() uint64 { rt.Point("rand"); return rt.SysRand() }

var g = real.New(src{})

func Int64() int64                       { return g.Int64() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int32() int32                       { return g.Int32() }
func Int() int                           { return g.Int() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Int32N(n int32) int32               { return g.Int32N(n) }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func IntN(n int) int                     { return g.IntN(n) }
func UintN(n uint) uint                  { return g.UintN(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
