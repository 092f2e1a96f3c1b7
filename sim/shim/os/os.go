//go:build go1.25

// Package os is the os package on the simulated disk and in the simulated process.
package os

import (
	"errors"
	"io"
	iofs "io/fs"
	real "os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"powsim/fs"
	"powsim/rt"
)

// File is an open file of the simulated disk, or a sink for the standard streams.
type File struct {
	h    *fs.Handle
	name string
	std  bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
	Args   = []string{"program"}
)

func pe(op, path string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &PathError{Op: op, Path: path, Err: err}
}

func disk(what string) *fs.FS {
	if fs.Cur == nil {
		return nil
	}
	return fs.Cur
}

var errNoDisk = syscall.EIO

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d := disk("open")
	if d == nil {
		return nil, pe("open", name, errNoDisk)
	}
	if name == DevNull {
		return &File{name: name, std: true}, nil
	}
	h, err := d.Open(name, flag, uint32(perm.Perm()))
	if err != nil {
		return nil, pe("open", name, err)
	}
	return &File{h: h, name: name}, nil
}

func NewFile(fd uintptr, name string) *File {
	if fd <= 2 {
		return &File{name: name, std: true}
	}
	if d := disk("NewFile"); d != nil {
		if h := d.HandleFor(int(fd)); h != nil {
			return &File{h: h, name: name}
		}
	}
	return nil
}

// Handle is for the simulated mmap package.
func (f *File) Handle() *fs.Handle {
	if f == nil {
		return nil
	}
	return f.h
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.h == nil && !f.std {
		return pe(op, f.name, ErrClosed)
	}
	if f.h != nil && f.h.Closed {
		return pe(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f == nil || f.h == nil || f.h.Closed {
		return ^uintptr(0)
	}
	return uintptr(f.h.FD)
}
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	return pe("close", f.name, f.h.Close())
}
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.h.Read(b)
	return n, pe("read", f.name, err)
}
func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	for len(b) > 0 {
		m, e := f.h.ReadAt(b, off)
		if e != nil {
			err = pe("read", f.name, e)
			break
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return
}

// wrapErr mirrors os: a short write is retried by the poller until an error.
func (f *File) Write(b []byte) (n int, err error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(b), nil
	}
	n, e := f.h.Write(b)
	if e == nil && n < len(b) {
		e = io.ErrUnexpectedEOF
	}
	return n, pe("write", f.name, e)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(b), nil
	}
	n, e := f.h.WriteAt(b, off)
	return n, pe("write", f.name, e)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, nil
	}
	n, err := f.h.Seek(off, whence)
	return n, pe("seek", f.name, err)
}
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	return pe("truncate", f.name, f.h.Truncate(n))
}
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	return pe("sync", f.name, f.h.Sync())
}
func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	return pe("chmod", f.name, f.h.Chmod(uint32(m.Perm())))
}
func (f *File) Chown(int, int) error               { return f.check("chown") }
func (f *File) Chdir() error                       { panic(rt.Unsupported("File.Chdir")) }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	if err := f.check("SyscallConn"); err != nil {
		return nil, err
	}
	return rawConn{f}, nil
}

type rawConn struct{ f *File }

func (c rawConn) Control(fn func(fd uintptr)) error    { fn(c.f.Fd()); return nil }
func (c rawConn) Read(fn func(fd uintptr) bool) error  { fn(c.f.Fd()); return nil }
func (c rawConn) Write(fn func(fd uintptr) bool) error { fn(c.f.Fd()); return nil }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std {
		return &info{name: f.name, mode: 0600 | ModeCharDevice | ModeDevice}, nil
	}
	if err := f.h.StatOp(); err != nil {
		return nil, pe("stat", f.name, err)
	}
	return nodeInfo(filepath.Base(f.name), f.h.Node), nil
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if err := f.check("readdirent"); err != nil {
		return nil, err
	}
	if f.std {
		return nil, io.EOF
	}
	s, err := f.h.ReadDirNames(n)
	return append([]string(nil), s...), pe("readdirent", f.name, err)
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	names, err := f.Readdirnames(n)
	var out []FileInfo
	for _, x := range names {
		if nd := f.h.FS.Node(filepath.Join(f.h.Path, x)); nd != nil {
			out = append(out, nodeInfo(x, nd))
		}
	}
	return out, err
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	infos, err := f.Readdir(n)
	var out []DirEntry
	for _, i := range infos {
		out = append(out, iofs.FileInfoToDirEntry(i))
	}
	return out, err
}

type info struct {
	name string
	size int64
	mode FileMode
	mt   int64
	node *fs.Node
}

func nodeInfo(name string, n *fs.Node) *info {
	m := FileMode(n.Mode).Perm()
	if n.Dir {
		m |= ModeDir
	}
	if n.Link != "" {
		m |= ModeSymlink
	}
	return &info{name, n.Size(), m, n.Mtime, n}
}
func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() FileMode     { return i.mode }
func (i *info) ModTime() time.Time { return time.Unix(1600000000, i.mt) }
func (i *info) IsDir() bool        { return i.mode.IsDir() }
func (i *info) Sys() interface{} {
	st := &syscall.Stat_t{Size: i.size, Mode: uint32(i.mode.Perm()), Nlink: 1}
	if i.node != nil {
		st.Ino = uint64(i.node.Ino)
		st.Nlink = uint64(max(0, i.node.Nlink))
	}
	return st
}

func SameFile(a, b FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.node != nil && x.node == y.node
}

func Stat(name string) (FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name, false) }
func stat(op, name string, follow bool) (FileInfo, error) {
	d := disk(op)
	if d == nil {
		return nil, pe(op, name, errNoDisk)
	}
	_, n, err := d.Stat(name, follow)
	if err != nil {
		return nil, pe(op, name, err)
	}
	return nodeInfo(filepath.Base(name), n), nil
}

func Mkdir(name string, perm FileMode) error {
	d := disk("mkdir")
	if d == nil {
		return pe("mkdir", name, errNoDisk)
	}
	return pe("mkdir", name, d.Mkdir(name, uint32(perm.Perm())))
}

func MkdirAll(path string, perm FileMode) error {
	d := disk("mkdir")
	if d == nil {
		return pe("mkdir", path, errNoDisk)
	}
	if fi, err := Stat(path); err == nil {
		if fi.IsDir() {
			return nil
		}
		return pe("mkdir", path, syscall.ENOTDIR)
	}
	p := d.Abs(path)
	if parent := filepath.Dir(p); parent != p {
		if err := MkdirAll(parent, perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		if fi, e := Lstat(p); e == nil && fi.IsDir() {
			return nil
		}
	}
	return err
}

func Remove(name string) error {
	d := disk("remove")
	if d == nil {
		return pe("remove", name, errNoDisk)
	}
	return pe("remove", name, d.Remove(name))
}

func RemoveAll(path string) error {
	d := disk("remove")
	if d == nil {
		return pe("unlinkat", path, errNoDisk)
	}
	fi, err := Lstat(path)
	if err != nil {
		if IsNotExist(err) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		ents, err := ReadDir(path)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if err := RemoveAll(filepath.Join(path, e.Name())); err != nil {
				return err
			}
		}
	}
	err = Remove(path)
	if err != nil && IsNotExist(err) {
		return nil
	}
	return err
}

func Rename(from, to string) error {
	d := disk("rename")
	err := error(errNoDisk)
	if d != nil {
		err = d.Rename(from, to)
	}
	if err == nil {
		return nil
	}
	return &LinkError{"rename", from, to, err}
}

func Link(from, to string) error {
	d := disk("link")
	err := error(errNoDisk)
	if d != nil {
		err = d.LinkNames(from, to)
	}
	if err == nil {
		return nil
	}
	return &LinkError{"link", from, to, err}
}

func Symlink(from, to string) error {
	d := disk("symlink")
	err := error(errNoDisk)
	if d != nil {
		err = d.Symlink(from, to)
	}
	if err == nil {
		return nil
	}
	return &LinkError{"symlink", from, to, err}
}

func Readlink(name string) (string, error) {
	d := disk("readlink")
	if d == nil {
		return "", pe("readlink", name, errNoDisk)
	}
	s, err := d.Readlink(name)
	return s, pe("readlink", name, err)
}

func Truncate(name string, size int64) error {
	d := disk("truncate")
	if d == nil {
		return pe("truncate", name, errNoDisk)
	}
	return pe("truncate", name, d.TruncatePath(name, size))
}

func Chmod(name string, m FileMode) error {
	d := disk("chmod")
	if d == nil {
		return pe("chmod", name, errNoDisk)
	}
	return pe("chmod", name, d.Chmod(name, uint32(m.Perm())))
}
func Chown(name string, uid, gid int) error  { return nil }
func Lchown(name string, uid, gid int) error { return nil }
func Chtimes(name string, a, m time.Time) error {
	d := disk("chtimes")
	if d == nil {
		return pe("chtimes", name, errNoDisk)
	}
	_, n, err := d.Stat(name, true)
	if err != nil {
		return pe("chtimes", name, err)
	}
	n.SetMtime(m.UnixNano() - 1600000000*1e9)
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(struct{ io.Reader }{f})
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	d := disk("createtemp")
	if d == nil {
		return nil, pe("createtemp", pattern, errNoDisk)
	}
	if strings.ContainsRune(pattern, PathSeparator) {
		return nil, pe("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	for try := 0; ; try++ {
		name := d.CreateTempName(dir, pattern)
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	d := disk("mkdirtemp")
	if d == nil {
		return "", pe("mkdirtemp", pattern, errNoDisk)
	}
	for try := 0; ; try++ {
		name := d.CreateTempName(dir, pattern)
		err := Mkdir(name, 0700)
		if IsExist(err) && try < 10000 {
			continue
		}
		if err != nil {
			return "", err
		}
		return name, nil
	}
}

func TempDir() string { return "/tmp" }
func Getwd() (string, error) {
	if d := disk("getwd"); d != nil {
		if e := rt.Op("stat", d.Cwd, nil); e != "" {
			return "", syscall.EIO
		}
		return d.Cwd, nil
	}
	return "/work", nil
}
func Chdir(dir string) error { panic(rt.Unsupported("os.Chdir")) }

func env() map[string]string {
	if p := rt.CurProc(); p != nil {
		return p.Env
	}
	return map[string]string{"HOME": "/home/miner"}
}
func Getenv(k string) string            { return env()[k] }
func LookupEnv(k string) (string, bool) { v, ok := env()[k]; return v, ok }
func Setenv(k, v string) error          { env()[k] = v; return nil }
func Unsetenv(k string) error           { delete(env(), k); return nil }
func Clearenv() {
	for k := range env() {
		delete(env(), k)
	}
}
func Environ() []string {
	var out []string
	for k, v := range env() {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func ExpandEnv(s string) string { return real.Expand(s, Getenv) }
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}
func UserCacheDir() (string, error) {
	h, err := UserHomeDir()
	if x := Getenv("XDG_CACHE_HOME"); x != "" {
		return x, nil
	}
	return h + "/.cache", err
}
func UserConfigDir() (string, error) {
	h, err := UserHomeDir()
	return h + "/.config", err
}
func Hostname() (string, error)   { return "sim", nil }
func Executable() (string, error) { return "/usr/bin/program", nil }
func Getpid() int {
	if p := rt.CurProc(); p != nil {
		return p.Pid
	}
	return 1000
}
func Getppid() int { return 1 }
func Getuid() int  { return 1000 }
func Geteuid() int { return 1000 }
func Getgid() int  { return 1000 }
func Getegid() int { return 1000 }

func Exit(code int) { rt.Exit(code) }

func DirFS(dir string) iofs.FS { panic(rt.Unsupported("os.DirFS")) }
func CopyFS(dir string, f iofs.FS) error {
	panic(rt.Unsupported("os.CopyFS"))
}
func Pipe() (r, w *File, err error) { panic(rt.Unsupported("os.Pipe")) }
func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	panic(rt.Unsupported("os.StartProcess"))
}
func FindProcess(pid int) (*Process, error) { panic(rt.Unsupported("os.FindProcess")) }

// ProcAttr mirrors os.ProcAttr.
type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}

func OpenRoot(name string) (*real.Root, error)   { panic(rt.Unsupported("os.OpenRoot")) }
func OpenInRoot(dir, name string) (*File, error) { panic(rt.Unsupported("os.OpenInRoot")) }
func NewSyscallError(s string, err error) error  { return real.NewSyscallError(s, err) }
func keep()                                      { runtime.KeepAlive(0) }
