//go:build race && go1.25

package rt

import (
	"runtime"
	"unsafe"
)

// Race detection: the scheduler's own hand-overs are hidden from the race detector, so
// that only the synchronisation of the code under test orders its memory accesses.
const Race = true

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceOff()                      { runtime.RaceDisable() }
func raceOn()                       { runtime.RaceEnable() }
func RaceErrors() int               { return runtime.RaceErrors() }

// CallerWrites and CallerReads are accesses of the workload to what it passed or got.
func CallerWrites(p unsafe.Pointer, n int) { runtime.RaceWriteRange(p, n) }
func CallerReads(p unsafe.Pointer, n int)  { runtime.RaceReadRange(p, n) }
