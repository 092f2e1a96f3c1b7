//go:build go1.25

// Package rand is crypto/rand from the run's own stream, different in every process.
package rand

import (
	"io"
	"math/big"

	real "crypto/rand"
	"powsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	rt.Point("rand")
	for i := range b {
		b[i] = byte(rt.SysRand() >> 24)
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[rt.SysRand()>>20%32]
	}
	return string(b)
}
