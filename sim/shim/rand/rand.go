//go:build go1.25

// Package rand is math/rand with the simulated process's own generator behind the
// package-level functions.
package rand

import (
	real "math/rand"

	"powsim/rt"
)

type src struct{}

func (src) Int63() int64    { rt.Point("rand"); return int64(rt.ProcRand() >> 1) }
func (src) Uint64() uint64  { rt.Point("rand"); return rt.ProcRand() }
func (src) Seed(seed int64) { rt.SetProcRand(uint64(seed)) }

var g = real.New(src{})

func Seed(s int64)                       { rt.SetProcRand(uint64(s)) }
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g.Read(p) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
