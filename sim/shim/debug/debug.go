//go:build go1.25

// Package debug is runtime/debug with garbage collection as an event of the run.
package debug

import (
	real "runtime/debug"

	"powsim/rt"
)

func FreeOSMemory() {
	if rt.Active() && !rt.Killed() {
		rt.S.CollectGarbage()
	}
}
func SetGCPercent(p int) int       { return 100 }
func SetMemoryLimit(l int64) int64 { return 1<<63 - 1 }
func SetPanicOnFault(v bool) bool  { return rt.SetPanicOnFault(v) }
func SetMaxStack(n int) int        { return n }
func SetMaxThreads(n int) int      { return n }
func PrintStack()                  {}
func Stack() []byte                { return real.Stack() }
