//go:build go1.25

// Package runtime is the runtime package with garbage collection as an event of the run.
package runtime

import (
	real "runtime"

	"powsim/rt"
)

func SetFinalizer(obj, fin interface{}) { rt.SetFinalizer(obj, fin) }
func GC() {
	if rt.Active() && !rt.Killed() {
		rt.S.CollectGarbage()
	}
}
func Gosched()                { rt.Gosched() }
func KeepAlive(x interface{}) { real.KeepAlive(x) }
func NumCPU() int             { return 4 }
func GOMAXPROCS(n int) int    { return 4 }
func NumGoroutine() int       { return 1 }
func Goexit()                 { real.Goexit() }
