//go:build go1.25

// Package mmap is github.com/edsrzf/mmap-go on the simulated disk.
package mmap

import (
	"errors"
	"syscall"

	"powsim/fs"
	"powsim/shim/os"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const ANON = 1 << iota

type MMap []byte

func Map(f *os.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *os.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%int64(os.Getpagesize()) != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	fd := uintptr(0)
	if flags&ANON == 0 {
		fd = f.Fd()
		if length < 0 {
			fi, err := f.Stat()
			if err != nil {
				return nil, err
			}
			length = int(fi.Size())
		}
	} else {
		if length <= 0 {
			return nil, errors.New("anonymous mapping requires non-zero length")
		}
		fd = ^uintptr(0)
	}
	fl, pr := syscall.MAP_SHARED, syscall.PROT_READ
	switch {
	case prot&COPY != 0:
		pr |= syscall.PROT_WRITE
		fl = syscall.MAP_PRIVATE
	case prot&RDWR != 0:
		pr |= syscall.PROT_WRITE
	}
	if flags&ANON != 0 {
		fl |= syscall.MAP_ANON
	}
	if fs.Cur == nil {
		return nil, syscall.ENOMEM
	}
	b, err := fs.Cur.Mmap(int(fd), offset, length, pr, fl)
	if err != nil {
		return nil, err
	}
	return b, nil
}

func (m MMap) Lock() error   { return fs.Cur.Mlock(m, true) }
func (m MMap) Unlock() error { return fs.Cur.Mlock(m, false) }
func (m MMap) Flush() error  { return fs.Cur.Msync(m, syscall.MS_SYNC) }
func (m *MMap) Unmap() error {
	err := fs.Cur.Munmap(*m)
	*m = nil
	return err
}
