//go:build go1.25

// Package unix is the part of golang.org/x/sys/unix that file code uses, on the simulated disk.
package unix

import (
	"powsim/fs"
	sc "powsim/shim/syscall"
)

func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	return sc.Mmap(fd, offset, length, prot, flags)
}
func Munmap(b []byte) error                             { return sc.Munmap(b) }
func Mlock(b []byte) error                              { return sc.Mlock(b) }
func Munlock(b []byte) error                            { return sc.Munlock(b) }
func Msync(b []byte, flags int) error                   { return fs.Cur.Msync(b, flags) }
func Mprotect(b []byte, prot int) error                 { return sc.Mprotect(b, prot) }
func Madvise(b []byte, advice int) error                { return nil }
func Fsync(fd int) error                                { return sc.Fsync(fd) }
func Fdatasync(fd int) error                            { return sc.Fsync(fd) }
func Sync()                                             { sc.Sync() }
func Fallocate(fd int, mode uint32, off, n int64) error { return sc.Fallocate(fd, mode, off, n) }
func Flock(fd, how int) error                           { return sc.Flock(fd, how) }
func Ftruncate(fd int, n int64) error                   { return sc.Ftruncate(fd, n) }
func Truncate(p string, n int64) error                  { return sc.Truncate(p, n) }
func Open(p string, mode int, perm uint32) (int, error) { return sc.Open(p, mode, perm) }
func Close(fd int) error                                { return sc.Close(fd) }
func Read(fd int, b []byte) (int, error)                { return sc.Read(fd, b) }
func Write(fd int, b []byte) (int, error)               { return sc.Write(fd, b) }
func Pread(fd int, b []byte, o int64) (int, error)      { return sc.Pread(fd, b, o) }
func Pwrite(fd int, b []byte, o int64) (int, error)     { return sc.Pwrite(fd, b, o) }
func Rename(a, b string) error                          { return sc.Rename(a, b) }
func Link(a, b string) error                            { return sc.Link(a, b) }
func Unlink(p string) error                             { return sc.Unlink(p) }
func Mkdir(p string, mode uint32) error                 { return sc.Mkdir(p, mode) }
func Getpid() int                                       { return sc.Getpid() }

type Errno = sc.Errno
