//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package os

import zzreal "os"

const DevNull = zzreal.DevNull

type DirEntry = zzreal.DirEntry

var ErrClosed = zzreal.ErrClosed
var ErrDeadlineExceeded = zzreal.ErrDeadlineExceeded
var ErrExist = zzreal.ErrExist
var ErrInvalid = zzreal.ErrInvalid
var ErrNoDeadline = zzreal.ErrNoDeadline
var ErrNoHandle = zzreal.ErrNoHandle
var ErrNotExist = zzreal.ErrNotExist
var ErrPermission = zzreal.ErrPermission
var ErrProcessDone = zzreal.ErrProcessDone
var Expand = zzreal.Expand

type FileInfo = zzreal.FileInfo
type FileMode = zzreal.FileMode

var Getgroups = zzreal.Getgroups
var Getpagesize = zzreal.Getpagesize
var Interrupt = zzreal.Interrupt
var IsExist = zzreal.IsExist
var IsNotExist = zzreal.IsNotExist
var IsPathSeparator = zzreal.IsPathSeparator
var IsPermission = zzreal.IsPermission
var IsTimeout = zzreal.IsTimeout
var Kill = zzreal.Kill

type LinkError = zzreal.LinkError

const ModeAppend = zzreal.ModeAppend
const ModeCharDevice = zzreal.ModeCharDevice
const ModeDevice = zzreal.ModeDevice
const ModeDir = zzreal.ModeDir
const ModeExclusive = zzreal.ModeExclusive
const ModeIrregular = zzreal.ModeIrregular
const ModeNamedPipe = zzreal.ModeNamedPipe
const ModePerm = zzreal.ModePerm
const ModeSetgid = zzreal.ModeSetgid
const ModeSetuid = zzreal.ModeSetuid
const ModeSocket = zzreal.ModeSocket
const ModeSticky = zzreal.ModeSticky
const ModeSymlink = zzreal.ModeSymlink
const ModeTemporary = zzreal.ModeTemporary
const ModeType = zzreal.ModeType
const O_APPEND = zzreal.O_APPEND
const O_CREATE = zzreal.O_CREATE
const O_EXCL = zzreal.O_EXCL
const O_RDONLY = zzreal.O_RDONLY
const O_RDWR = zzreal.O_RDWR
const O_SYNC = zzreal.O_SYNC
const O_TRUNC = zzreal.O_TRUNC
const O_WRONLY = zzreal.O_WRONLY

type PathError = zzreal.PathError

const PathListSeparator = zzreal.PathListSeparator
const PathSeparator = zzreal.PathSeparator

type Process = zzreal.Process
type ProcessState = zzreal.ProcessState
type Root = zzreal.Root

const SEEK_CUR = zzreal.SEEK_CUR
const SEEK_END = zzreal.SEEK_END
const SEEK_SET = zzreal.SEEK_SET

type Signal = zzreal.Signal
type SyscallError = zzreal.SyscallError
