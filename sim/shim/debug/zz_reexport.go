//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package debug

import zzreal "runtime/debug"

type BuildInfo = zzreal.BuildInfo
type BuildSetting = zzreal.BuildSetting
type CrashOptions = zzreal.CrashOptions
type GCStats = zzreal.GCStats
type Module = zzreal.Module

var ParseBuildInfo = zzreal.ParseBuildInfo
var ReadBuildInfo = zzreal.ReadBuildInfo
var ReadGCStats = zzreal.ReadGCStats
var SetCrashOutput = zzreal.SetCrashOutput
var SetTraceback = zzreal.SetTraceback
var WriteHeapDump = zzreal.WriteHeapDump
