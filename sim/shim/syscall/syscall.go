//go:build go1.25

// Package syscall is the syscall package with its file calls on the simulated disk.
package syscall

import (
	real "syscall"

	"powsim/fs"
	"powsim/rt"
)

func h(fd int) (*fs.Handle, error) {
	if fs.Cur == nil {
		return nil, real.EBADF
	}
	if x := fs.Cur.HandleFor(fd); x != nil {
		return x, nil
	}
	return nil, real.EBADF
}

func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	return fs.Cur.Mmap(fd, offset, length, prot, flags)
}
func Munmap(b []byte) error              { return fs.Cur.Munmap(b) }
func Mlock(b []byte) error               { return fs.Cur.Mlock(b, true) }
func Munlock(b []byte) error             { return fs.Cur.Mlock(b, false) }
func Mprotect(b []byte, prot int) error  { return fs.Cur.Mprotect(b, prot) }
func Madvise(b []byte, advice int) error { return nil }
func Fsync(fd int) error {
	x, err := h(fd)
	if err != nil {
		return err
	}
	return x.Sync()
}
func Fdatasync(fd int) error { return Fsync(fd) }
func Sync()                  { rt.Point("sync"); fs.Cur.Commit() }
func Fallocate(fd int, mode uint32, off, n int64) error {
	x, err := h(fd)
	if err != nil {
		return err
	}
	return x.Fallocate(mode, off, n)
}
func Flock(fd, how int) error {
	x, err := h(fd)
	if err != nil {
		return err
	}
	return x.Flock(how)
}
func Ftruncate(fd int, n int64) error {
	x, err := h(fd)
	if err != nil {
		return err
	}
	return x.Truncate(n)
}
func Truncate(p string, n int64) error { return fs.Cur.TruncatePath(p, n) }
func Open(p string, mode int, perm uint32) (int, error) {
	x, err := fs.Cur.Open(p, mode, perm)
	if err != nil {
		return -1, err
	}
	return x.FD, nil
}
func Close(fd int) error {
	x, err := h(fd)
	if err != nil {
		return err
	}
	return x.Close()
}
func Read(fd int, b []byte) (int, error) {
	x, err := h(fd)
	if err != nil {
		return -1, err
	}
	n, err := x.Read(b)
	if err != nil && err.Error() == "EOF" {
		return 0, nil
	}
	return n, err
}
func Write(fd int, b []byte) (int, error) {
	x, err := h(fd)
	if err != nil {
		return -1, err
	}
	return x.Write(b)
}
func Pread(fd int, b []byte, off int64) (int, error) {
	x, err := h(fd)
	if err != nil {
		return -1, err
	}
	return x.ReadAt(b, off)
}
func Pwrite(fd int, b []byte, off int64) (int, error) {
	x, err := h(fd)
	if err != nil {
		return -1, err
	}
	return x.WriteAt(b, off)
}
func Rename(a, b string) error          { return fs.Cur.Rename(a, b) }
func Link(a, b string) error            { return fs.Cur.LinkNames(a, b) }
func Symlink(a, b string) error         { return fs.Cur.Symlink(a, b) }
func Unlink(p string) error             { return fs.Cur.Remove(p) }
func Rmdir(p string) error              { return fs.Cur.Remove(p) }
func Mkdir(p string, mode uint32) error { return fs.Cur.Mkdir(p, mode) }
func Chmod(p string, mode uint32) error { return fs.Cur.Chmod(p, mode) }
func Stat(p string, st *Stat_t) error   { return stat(p, st, true) }
func Lstat(p string, st *Stat_t) error  { return stat(p, st, false) }
func stat(p string, st *Stat_t, follow bool) error {
	_, n, err := fs.Cur.Stat(p, follow)
	if err != nil {
		return err
	}
	fill(n, st)
	return nil
}
func fill(n *fs.Node, st *Stat_t) {
	*st = Stat_t{Size: n.Size(), Ino: uint64(n.Ino), Mode: n.Mode | real.S_IFREG, Nlink: uint64(max(0, n.Nlink))}
	if n.Dir {
		st.Mode = n.Mode | real.S_IFDIR
	}
}
func Fstat(fd int, st *Stat_t) error {
	x, err := h(fd)
	if err != nil {
		return err
	}
	if err := x.StatOp(); err != nil {
		return err
	}
	fill(x.Node, st)
	return nil
}
func Statfs(p string, st *Statfs_t) error {
	rt.Point("statfs")
	*st = Statfs_t{Bsize: 4096, Blocks: 1 << 20, Bfree: 1 << 19, Bavail: 1 << 19}
	if fs.Cur.Full {
		st.Bfree, st.Bavail = 0, 0
	}
	return nil
}
func Fstatfs(fd int, st *Statfs_t) error { return Statfs("", st) }
func Getpid() int                        { return rt.CurProc().Pid }
func Exit(code int)                      { rt.Exit(code) }
func Kill(pid int, s Signal) error       { panic(rt.Unsupported("syscall.Kill")) }
func Getenv(k string) (string, bool)     { v, ok := rt.CurProc().Env[k]; return v, ok }

func Syscall(a, b, c, d uintptr) (uintptr, uintptr, Errno) {
	return raw(a, b, c, d, 0, 0, 0)
}
func Syscall6(a, b, c, d, e, f, g uintptr) (uintptr, uintptr, Errno) {
	return raw(a, b, c, d, e, f, g)
}
func RawSyscall(a, b, c, d uintptr) (uintptr, uintptr, Errno) { return raw(a, b, c, d, 0, 0, 0) }
func RawSyscall6(a, b, c, d, e, f, g uintptr) (uintptr, uintptr, Errno) {
	return raw(a, b, c, d, e, f, g)
}

func raw(nr, a, b, c, d, e, f uintptr) (uintptr, uintptr, Errno) {
	var err error
	switch nr {
	case real.SYS_MSYNC:
		err = fs.Cur.Msync(fs.Slice(a, int(b)), int(c))
	case real.SYS_MLOCK:
		err = fs.Cur.Mlock(fs.Slice(a, int(b)), true)
	case real.SYS_MUNLOCK:
		err = fs.Cur.Mlock(fs.Slice(a, int(b)), false)
	case real.SYS_MUNMAP:
		err = fs.Cur.Munmap(fs.Slice(a, int(b)))
	case real.SYS_FSYNC, real.SYS_FDATASYNC:
		err = Fsync(int(a))
	case real.SYS_FALLOCATE:
		err = Fallocate(int(a), uint32(b), int64(c), int64(d))
	case real.SYS_FLOCK:
		err = Flock(int(a), int(b))
	case real.SYS_MADVISE:
	default:
		panic(rt.Unsupported("raw system call"))
	}
	if en, ok := err.(Errno); ok {
		return ^uintptr(0), 0, en
	}
	if err != nil {
		return ^uintptr(0), 0, real.EIO
	}
	return 0, 0, 0
}
