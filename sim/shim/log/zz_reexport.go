//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package log

import zzreal "log"

const LUTC = zzreal.LUTC
const Ldate = zzreal.Ldate
const Llongfile = zzreal.Llongfile
const Lmicroseconds = zzreal.Lmicroseconds
const Lmsgprefix = zzreal.Lmsgprefix
const Lshortfile = zzreal.Lshortfile
const LstdFlags = zzreal.LstdFlags
const Ltime = zzreal.Ltime
