//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package atomic

import zzreal "sync/atomic"

var AndInt32 = zzreal.AndInt32
var AndInt64 = zzreal.AndInt64
var AndUint32 = zzreal.AndUint32
var AndUint64 = zzreal.AndUint64
var AndUintptr = zzreal.AndUintptr
var CompareAndSwapUintptr = zzreal.CompareAndSwapUintptr
var OrInt32 = zzreal.OrInt32
var OrInt64 = zzreal.OrInt64
var OrUint32 = zzreal.OrUint32
var OrUint64 = zzreal.OrUint64
var OrUintptr = zzreal.OrUintptr
var SwapUintptr = zzreal.SwapUintptr

type Uintptr = zzreal.Uintptr
