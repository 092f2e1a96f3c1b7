//go:build go1.25

// Package time is the time package on the simulated clock.
package time

import (
	real "time"
	"unsafe"

	"powsim/rt"
)

const (
	hasMonotonic = 1 << 63
	wallToInt    = int64(1884*365+1884/4-1884/100+1884/400) * 86400 // seconds to 1885
	unixToInt    = int64(1969*365+1969/4-1969/100+1969/400) * 86400
	base         = int64(1700000000)
)

type layout struct {
	wall uint64
	ext  int64
	loc  *Location
}

// Now carries a monotonic reading of the simulated clock; the wall part may have been set
// forwards or backwards by the scenario.
func Now() Time {
	mono, off := rt.Clock()
	w := base*1e9 + mono + off
	sec, ns := w/1e9, w%1e9
	if ns < 0 {
		sec, ns = sec-1, ns+1e9
	}
	t := real.Unix(sec, ns)
	s := sec + unixToInt - wallToInt
	if s < 0 || s >= 1<<33 {
		// as the real clock does when the wall time does not fit: no monotonic part
		return t
	}
	l := (*layout)(unsafe.Pointer(&t))
	l.wall = hasMonotonic | uint64(s)<<30 | uint64(ns)
	l.ext = mono + 1
	return t
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { rt.Sleep(int64(d)) }
