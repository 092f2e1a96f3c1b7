//go:build !race && go1.25

package rt

import "unsafe"

// Race detection is off in this build.
const Race = false

func Acquire(unsafe.Pointer)      {}
func Release(unsafe.Pointer)      {}
func ReleaseMerge(unsafe.Pointer) {}
func raceOff()                    {}
func raceOn()                     {}
func RaceErrors() int             { return 0 }

func CallerWrites(unsafe.Pointer, int) {}
func CallerReads(unsafe.Pointer, int)  {}
