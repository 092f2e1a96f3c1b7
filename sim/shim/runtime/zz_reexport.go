//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package runtime

import zzreal "runtime"

var BlockProfile = zzreal.BlockProfile

type BlockProfileRecord = zzreal.BlockProfileRecord

var Breakpoint = zzreal.Breakpoint
var CPUProfile = zzreal.CPUProfile
var Caller = zzreal.Caller
var Callers = zzreal.Callers
var CallersFrames = zzreal.CallersFrames

type Cleanup = zzreal.Cleanup

const Compiler = zzreal.Compiler

type Error = zzreal.Error
type Frame = zzreal.Frame
type Frames = zzreal.Frames
type Func = zzreal.Func

var FuncForPC = zzreal.FuncForPC

const GOARCH = zzreal.GOARCH
const GOOS = zzreal.GOOS

var GOROOT = zzreal.GOROOT
var GoroutineProfile = zzreal.GoroutineProfile
var LockOSThread = zzreal.LockOSThread
var MemProfile = zzreal.MemProfile
var MemProfileRate = zzreal.MemProfileRate

type MemProfileRecord = zzreal.MemProfileRecord
type MemStats = zzreal.MemStats

var MutexProfile = zzreal.MutexProfile
var NumCgoCall = zzreal.NumCgoCall

type PanicNilError = zzreal.PanicNilError
type Pinner = zzreal.Pinner

var ReadMemStats = zzreal.ReadMemStats
var ReadTrace = zzreal.ReadTrace
var SetBlockProfileRate = zzreal.SetBlockProfileRate
var SetCPUProfileRate = zzreal.SetCPUProfileRate
var SetCgoTraceback = zzreal.SetCgoTraceback
var SetDefaultGOMAXPROCS = zzreal.SetDefaultGOMAXPROCS
var SetMutexProfileFraction = zzreal.SetMutexProfileFraction
var Stack = zzreal.Stack

type StackRecord = zzreal.StackRecord

var StartTrace = zzreal.StartTrace
var StopTrace = zzreal.StopTrace
var ThreadCreateProfile = zzreal.ThreadCreateProfile

type TypeAssertionError = zzreal.TypeAssertionError

var UnlockOSThread = zzreal.UnlockOSThread
var Version = zzreal.Version
