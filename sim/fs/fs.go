//go:build go1.25

// Package fs is the simulated file system: one tree per run, shared by the run's processes.
//
// Every file is a memfd and every mapping a real mmap of it, so aliasing between processes, write
// protection, use after unmap and access beyond the end behave as on Linux. What would survive
// a power loss is tracked separately.
package fs

import (
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"powsim/rt"
)

const (
	pageSize  = 4096
	sector    = 512
	fdBase    = 1 << 20
	sysMemfd  = 319
	seekData  = 3
	seekHole  = 4
	atNoAlloc = ^uintptr(0)
)

// Node is an inode.
type Node struct {
	Ino     int
	Dir     bool
	Link    string // symbolic link target
	Mode    uint32
	Mtime   int64
	mem     int // memfd
	size    int64
	dur     []byte         // content known to be on disk
	lost    map[int]string // sectors whose write-back failed: the kernel takes them for clean until they are written again
	Nlink   int
	Who     string // process that created it
	Foreign bool   // put there by the scenario, not by the code under test
	flocks  map[*Handle]bool
	flockX  *Handle
	flockQ  rt.WaitQ
}

// Handle is an open file description.
type Handle struct {
	FS       *FS
	Node     *Node
	Path     string
	FD       int
	Proc     *rt.Proc
	flag     int
	pos      int64
	Closed   bool
	dirPos   int
	unsynced bool
	dirEnt   []string
	By       string
}

// Mapping is one live or former mapping.
type Mapping struct {
	Addr   uintptr
	Len    int
	Node   *Node
	Path   string
	Proc   *rt.Proc
	Write  bool
	Shared bool
	Live   bool
	Locked bool
	barred bool // some pages are closed because the disk is full
}

type nsop struct {
	kind, a, b string
	node       *Node
}

// Event is a change of the tree or of a file, for observers.
type Event struct {
	Proc *rt.Proc
	Task string
	Kind string // create, write, truncate, rename, remove, mkdir, mapw, link
	Path string
	To   string
	Node *Node
}

// FS is one simulated disk.
type FS struct {
	S       *rt.Sim
	names   map[string]*Node
	disk    map[string]*Node // namespace known to be on disk
	journal []nsop
	inos    int
	handles []*Handle
	maps    []*Mapping
	memfds  []int
	nextFD  int
	Full    bool
	Deny    map[string]string // operation kind -> errno that always happens
	Cwd     string
	OnEvent func(Event)
	// LossyClose: when a close fails, half of what was written through the handle is lost.
	LossyClose bool
	tmpSeq     int
}

// Cur is the disk of the current run.
var Cur *FS

func New(s *rt.Sim) *FS {
	f := &FS{S: s, names: map[string]*Node{}, disk: map[string]*Node{}, nextFD: fdBase, Cwd: "/work", Deny: map[string]string{}}
	for _, d := range []string{"/", "/home", "/home/miner", "/tmp", "/work", "/dev"} {
		f.Put(d, nil, true)
	}
	f.Commit()
	s.SetFull = f.setFull
	s.PowerLoss = f.PowerLoss
	Cur = f
	rt.ExplainFault = f.explain
	return f
}

// ---- errors -----------------------------------------------------------------

var errnos = map[string]syscall.Errno{
	"EACCES": syscall.EACCES, "EPERM": syscall.EPERM, "EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE,
	"ENFILE": syscall.ENFILE, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "ENOMEM": syscall.ENOMEM, "EAGAIN": syscall.EAGAIN,
	"EFBIG": syscall.EFBIG, "EOPNOTSUPP": syscall.EOPNOTSUPP, "EBUSY": syscall.EBUSY, "ENODEV": syscall.ENODEV,
}

var faults = map[string][]string{
	"open":      {"EACCES", "EMFILE", "EIO", "ENFILE"},
	"create":    {"EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO"},
	"mkdir":     {"EACCES", "ENOSPC", "EROFS"},
	"truncate":  {"ENOSPC", "EIO", "EFBIG", "EDQUOT"},
	"fallocate": {"ENOSPC", "EOPNOTSUPP", "EIO"},
	"mmap":      {"ENOMEM", "ENODEV", "EAGAIN"},
	"mlock":     {"ENOMEM", "EAGAIN", "EPERM"},
	"munmap":    {"ENOMEM"},
	"msync":     {"EIO", "ENOSPC"},
	"fsync":     {"EIO", "ENOSPC"},
	"close":     {"EIO"},
	"rename":    {"EACCES", "EIO", "ENOSPC", "EROFS"},
	"link":      {"EACCES", "EIO", "ENOSPC", "EPERM"},
	"remove":    {"EACCES", "EIO", "EROFS", "EBUSY"},
	"stat":      {"EACCES", "EIO"},
	"read":      {"EIO", "SHORT"},
	"write":     {"ENOSPC", "EIO", "SHORT"},
	"readdir":   {"EIO", "EACCES"},
	"chmod":     {"EPERM"},
	"flock":     {"EIO"},
	"user":      {"EIO"},
}

// begin announces an operation; a non-nil error means it must have no effect (unless the caller
// applies part of it for "SHORT").
func (f *FS) begin(kind, path string) (string, error) {
	e := rt.Op(kind, path, faults[kind])
	if e == "DEAD" {
		return "DEAD", syscall.EIO
	}
	if e == "" {
		if d, ok := f.Deny[kind]; ok && rt.Active() {
			e = d
			f.S.Count("deny_" + kind)
		}
	}
	if e == "" {
		return "", nil
	}
	if e == "SHORT" {
		return e, nil
	}
	if n, ok := errnos[e]; ok {
		return e, n
	}
	return e, syscall.EIO
}

func (f *FS) end(kind, path string) { rt.Done(kind, path) }

func (f *FS) event(kind, path, to string, n *Node) {
	if f.OnEvent != nil && rt.Active() {
		f.OnEvent(Event{rt.CurProc(), rt.Cur().Name, kind, path, to, n})
	}
}

func taskName() string {
	if t := rt.Cur(); t != nil {
		return t.Name
	}
	return ""
}

func procName() string {
	if p := rt.CurProc(); p != nil {
		return p.Name
	}
	return ""
}

// Abs makes a path absolute and clean.
func (f *FS) Abs(p string) string {
	if p == "" {
		return ""
	}
	if !filepath.IsAbs(p) {
		p = filepath.Join(f.Cwd, p)
	}
	return filepath.Clean(p)
}

// ---- inodes --------------------------------------------------------------------

func (f *FS) newNode(dir bool) *Node {
	f.inos++
	n := &Node{Ino: f.inos, Dir: dir, mem: -1, Mode: 0644, Mtime: f.S.Now(), Who: procName()}
	if dir {
		n.Mode = 0755
	}
	return n
}

var memName = []byte("powsim\x00")

func (f *FS) memfd(n *Node) int {
	if n.mem >= 0 {
		return n.mem
	}
	r, _, e := syscall.Syscall(sysMemfd, uintptr(unsafe.Pointer(&memName[0])), 1, 0)
	if e != 0 {
		panic(rt.Unsupported("memfd_create: " + e.Error()))
	}
	n.mem = int(r)
	f.memfds = append(f.memfds, n.mem)
	if n.size > 0 {
		must(syscall.Ftruncate(n.mem, n.size))
	}
	return n.mem
}

func must(e error) {
	if e != nil {
		panic(rt.Unsupported("simulated disk: " + e.Error()))
	}
}

func (n *Node) Size() int64 { return n.size }

// Bytes returns a copy of the current content.
func (f *FS) Bytes(n *Node) []byte {
	b := make([]byte, n.size)
	if n.size > 0 {
		k, err := syscall.Pread(f.memfd(n), b, 0)
		must(err)
		if int64(k) != n.size {
			panic(rt.Unsupported("simulated disk: short pread"))
		}
	}
	return b
}

func (f *FS) setBytes(n *Node, b []byte) {
	f.setSize(n, 0)
	f.setSize(n, int64(len(b)))
	if len(b) > 0 {
		_, err := syscall.Pwrite(f.memfd(n), b, 0)
		must(err)
	}
}

func (f *FS) setSize(n *Node, sz int64) {
	n.size = sz
	must(syscall.Ftruncate(f.memfd(n), sz))
}

// hole reports whether the block holding off has no storage yet.
func (f *FS) hole(n *Node, off int64) bool {
	blk := off / pageSize * pageSize
	r, err := syscall.Seek(f.memfd(n), blk, seekData)
	return err != nil || r >= blk+pageSize
}

func (f *FS) setFull(v bool) {
	f.Full = v
	for _, m := range f.maps {
		if m.Live && m.Write && m.Shared && m.Node != nil {
			f.bar(m)
		}
	}
}

// bar closes, or reopens, the pages of a writable mapping that have no storage behind them.
func (f *FS) bar(m *Mapping) {
	if f.Full {
		for off := 0; off < m.Len; off += pageSize {
			if int64(off) < m.Node.size && f.hole(m.Node, int64(off)) {
				mprotect(m.Addr+uintptr(off), pageSize, syscall.PROT_NONE)
				m.barred = true
			}
		}
	} else if m.barred {
		mprotect(m.Addr, roundUp(m.Len), syscall.PROT_READ|syscall.PROT_WRITE)
		m.barred = false
	}
}

func roundUp(n int) int { return (n + pageSize - 1) / pageSize * pageSize }

func (f *FS) explain(addr uintptr) string {
	for i := len(f.maps) - 1; i >= 0; i-- {
		m := f.maps[i]
		if addr >= m.Addr && addr < m.Addr+uintptr(roundUp(m.Len)) {
			off := int64(addr - m.Addr)
			switch {
			case !m.Live:
				return "access to unmapped memory of " + m.Path
			case m.barred:
				return "bus error: disk full while writing through the mapping of " + m.Path
			case m.Node != nil && off/pageSize*pageSize >= (m.Node.size+pageSize-1)/pageSize*pageSize:
				return "bus error: access beyond the end of " + m.Path
			case !m.Write:
				return "write to the read-only mapping of " + m.Path
			}
			return "fault in the mapping of " + m.Path
		}
	}
	return ""
}

// ---- namespace -------------------------------------------------------------------

func (f *FS) resolve(p string, follow bool) (string, *Node, error) {
	p = f.Abs(p)
	if p == "" {
		return p, nil, syscall.ENOENT
	}
	for hops := 0; ; hops++ {
		if hops > 10 {
			return p, nil, syscall.ELOOP
		}
		d := filepath.Dir(p)
		for q := d; ; q = filepath.Dir(q) {
			if n, ok := f.names[q]; ok {
				if n.Link != "" {
					t := n.Link
					if !filepath.IsAbs(t) {
						t = filepath.Join(filepath.Dir(q), t)
					}
					p = filepath.Clean(t + p[len(q):])
					goto again
				}
				if !n.Dir {
					return p, nil, syscall.ENOTDIR
				}
				if q != d {
					return p, nil, syscall.ENOENT
				}
				break
			}
			if q == "/" || q == "." {
				return p, nil, syscall.ENOENT
			}
		}
		if n := f.names[p]; n != nil {
			if n.Link != "" && follow {
				t := n.Link
				if !filepath.IsAbs(t) {
					t = filepath.Join(d, t)
				}
				p = filepath.Clean(t)
				continue
			}
			return p, n, nil
		}
		return p, nil, nil
	again:
	}
}

func (f *FS) link(p string, n *Node) {
	if o := f.names[p]; o != nil {
		o.Nlink--
	}
	n.Nlink++
	f.names[p] = n
	f.journal = append(f.journal, nsop{"link", p, "", n})
}

func (f *FS) unlink(p string) {
	if o := f.names[p]; o != nil {
		o.Nlink--
	}
	delete(f.names, p)
	f.journal = append(f.journal, nsop{"unlink", p, "", nil})
}

// Put creates a file or directory directly, as the scenario's own act.
func (f *FS) Put(p string, b []byte, dir bool) *Node {
	n := f.newNode(dir)
	n.Foreign = true
	n.Who = ""
	if !dir {
		f.setBytes(n, b)
		n.dur = append([]byte(nil), b...)
	}
	f.link(p, n)
	return n
}

// Truncate sets a file's size directly, as the scenario's own act.
func (f *FS) PutLink(p, target string) {
	n := f.newNode(false)
	n.Link = target
	n.Foreign = true
	f.link(p, n)
}

// RemoveDirect removes a name as the scenario's own act.
func (f *FS) RemoveDirect(p string) {
	if f.names[p] != nil {
		f.unlink(p)
	}
}

// MutateDirect changes a file's content in place, as the scenario's own act (it damages it).
func (f *FS) MutateDirect(p string, b []byte) {
	if n := f.names[p]; n != nil && !n.Dir {
		f.setBytes(n, b)
		n.dur = append([]byte(nil), b...)
		n.Foreign = true
	}
}

// Commit makes everything durable.
func (f *FS) Commit() {
	f.disk = map[string]*Node{}
	for p, n := range f.names {
		f.disk[p] = n
		if !n.Dir && n.Link == "" {
			n.dur, n.lost = f.Bytes(n), nil
		}
	}
	f.journal = nil
}

// Node returns what a name refers to, without following links.
func (f *FS) Node(p string) *Node { return f.names[p] }

// List returns the names below dir, sorted.
func (f *FS) List(dir string) []string {
	var out []string
	for p := range f.names {
		if p != dir && strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/") {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (f *FS) children(dir string) []string {
	var out []string
	for p := range f.names {
		if p != dir && filepath.Dir(p) == dir {
			out = append(out, filepath.Base(p))
		}
	}
	sort.Strings(out)
	return out
}

// ---- power loss --------------------------------------------------------------------

// PowerLoss keeps a random prefix of the name changes and a random subset of unsynced sectors.
func (f *FS) PowerLoss(seed uint64) {
	r := rt.NewRand(seed)
	ns := map[string]*Node{}
	for p, n := range f.disk {
		ns[p] = n
	}
	k := len(f.journal)
	switch r.Intn(3) {
	case 0:
		k = r.Intn(k + 1)
	case 1: // all name changes survive
	case 2:
		if k > 0 {
			k -= r.Intn(min(k, 4) + 1)
		}
	}
	for _, o := range f.journal[:k] {
		switch o.kind {
		case "link":
			ns[o.a] = o.node
		case "unlink":
			delete(ns, o.a)
		case "rename":
			moved := map[string]*Node{}
			for p, n := range ns {
				if p == o.a || strings.HasPrefix(p, o.a+"/") {
					moved[p] = n
				}
			}
			for p := range moved {
				delete(ns, p)
			}
			for p, n := range moved {
				ns[o.b+p[len(o.a):]] = n
			}
		}
	}
	// the survivors are new inodes: the dead processes keep the old ones
	fresh := map[*Node]*Node{}
	paths := make([]string, 0, len(ns))
	for p := range ns {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	f.names = map[string]*Node{}
	for _, p := range paths {
		n := ns[p]
		m := fresh[n]
		if m == nil {
			c := *n
			m = &c
			m.mem = -1
			m.size = 0
			m.Nlink = 0
			m.flocks, m.flockX, m.lost = nil, nil, nil
			fresh[n] = m
			if !n.Dir && n.Link == "" {
				b, lost := f.survive(n, r)
				f.setBytes(m, b)
				m.dur = b
				if lost {
					f.S.Count("power_lost_data")
				}
			}
		}
		m.Nlink++
		f.names[p] = m
	}
	f.journal = nil
	f.disk = map[string]*Node{}
	for p, n := range f.names {
		f.disk[p] = n
	}
	f.S.Logf("after power loss: %d of the name changes survive, %d names", k, len(f.names))
}

func (f *FS) survive(n *Node, r *rt.Rand) ([]byte, bool) {
	cur := f.Bytes(n)
	if string(cur) == string(n.dur) {
		return cur, false
	}
	size := len(cur)
	mode := r.Intn(6)
	if r.P(0.15) {
		size = len(n.dur)
	}
	out := make([]byte, size)
	copy(out, n.dur)
	lost := size != len(cur)
	p := []float64{0, 0.5, 0.9, 1, 0, 0.98}[mode]
	first := r.Intn(max(1, (size+sector-1)/sector))
	for off := 0; off < size; off += sector {
		e := min(off+sector, size)
		keep := r.P(p)
		if mode == 4 { // everything up to some point reached the disk
			keep = off/sector <= first
		}
		if off >= len(cur) {
			continue
		}
		ce := min(e, len(cur))
		if keep {
			copy(out[off:ce], cur[off:ce])
		} else if string(out[off:ce]) != string(cur[off:ce]) {
			lost = true
		}
	}
	return out, lost
}

func (f *FS) syncNode(n *Node) {
	if n.Dir {
		f.disk = map[string]*Node{}
		for p, x := range f.names {
			f.disk[p] = x
		}
		f.journal = nil
		return
	}
	n.dur = f.writtenBack(n, f.Bytes(n))
}

func sectorOf(b []byte, i int) string {
	lo, hi := min(i*sector, len(b)), min((i+1)*sector, len(b))
	return string(b[lo:hi])
}

// loseDirty notes that writing back the dirty sectors failed. As in Linux, a later sync does not try them again.
func (f *FS) loseDirty(n *Node) {
	if n == nil || n.Dir || n.Link != "" {
		return
	}
	cur := f.Bytes(n)
	for i := 0; i*sector < len(cur); i++ {
		if c := sectorOf(cur, i); c != sectorOf(n.dur, i) {
			if n.lost == nil {
				n.lost = map[int]string{}
			}
			n.lost[i] = c
		}
	}
}

// writtenBack is what a successful sync leaves on the disk.
func (f *FS) writtenBack(n *Node, cur []byte) []byte {
	for i, c := range n.lost {
		if sectorOf(cur, i) != c {
			delete(n.lost, i)
			continue
		}
		lo, hi := i*sector, min((i+1)*sector, len(cur))
		for k := lo; k < hi; k++ {
			cur[k] = 0
		}
		copy(cur[lo:hi], sectorOf(n.dur, i))
	}
	return cur
}

// ---- open and close ----------------------------------------------------------------

func (f *FS) Open(path string, flag int, perm uint32) (*Handle, error) {
	p, n, rerr := f.resolve(path, flag&syscall.O_NOFOLLOW == 0)
	kind := "open"
	if flag&syscall.O_CREAT != 0 && n == nil {
		kind = "create"
	}
	_, err := f.begin(kind, p)
	if err != nil {
		return nil, err
	}
	p, n, rerr = f.resolve(path, flag&syscall.O_NOFOLLOW == 0) // another task may have run
	if rerr != nil {
		return nil, rerr
	}
	if n == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, syscall.ENOENT
		}
		n = f.newNode(false)
		n.Mode = perm
		f.link(p, n)
		f.event("create", p, "", n)
	} else {
		if flag&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return nil, syscall.EEXIST
		}
		if n.Dir && flag&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT) != 0 {
			return nil, syscall.EISDIR
		}
		if !n.Dir && n.Mode&0400 == 0 && flag&syscall.O_WRONLY == 0 {
			return nil, syscall.EACCES
		}
		if !n.Dir && n.Mode&0200 == 0 && flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			return nil, syscall.EACCES
		}
		if flag&syscall.O_TRUNC != 0 && !n.Dir {
			f.setSize(n, 0)
			f.event("truncate", p, "", n)
		}
	}
	h := &Handle{FS: f, Node: n, Path: p, FD: f.nextFD, Proc: rt.CurProc(), flag: flag, By: taskName()}
	f.nextFD++
	f.handles = append(f.handles, h)
	f.end(kind, p)
	return h, nil
}

func (f *FS) CreateTempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return filepath.Join(dir, pre) + fmt.Sprint(uint32(rt.ProcRand())) + suf
}

func (h *Handle) Close() error {
	if h.Closed {
		return syscall.EBADF
	}
	_, err := h.FS.begin("close", h.Path)
	if rt.Killed() {
		return err
	}
	h.Closed = true
	if err != nil && h.FS.LossyClose && h.unsynced {
		h.FS.setSize(h.Node, h.Node.size/2) // what was written behind the caller's back could not be written
	}
	h.FS.dropFlock(h)
	h.FS.end("close", h.Path)
	return err
}

func (h *Handle) writable() bool { return h.flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 }
func (h *Handle) readable() bool { return h.flag&syscall.O_WRONLY == 0 }

func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	if h.Closed {
		return 0, syscall.EBADF
	}
	if h.Node.Dir {
		return 0, syscall.EISDIR
	}
	if !h.readable() {
		return 0, syscall.EBADF
	}
	s, err := h.FS.begin("read", h.Path)
	if err != nil {
		return 0, err
	}
	if off >= h.Node.size {
		return 0, io.EOF
	}
	if int64(len(b)) > h.Node.size-off {
		b = b[:h.Node.size-off]
	}
	if s == "SHORT" && len(b) > 1 {
		b = b[:1+len(b)/2]
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := syscall.Pread(h.FS.memfd(h.Node), b, off)
	must(e)
	return n, nil
}

func (h *Handle) Read(b []byte) (int, error) {
	n, err := h.ReadAt(b, h.pos)
	h.pos += int64(n)
	return n, err
}

func (h *Handle) WriteAt(b []byte, off int64) (int, error) {
	if h.Closed || !h.writable() {
		return 0, syscall.EBADF
	}
	s, err := h.FS.begin("write", h.Path)
	if s == "DEAD" {
		return 0, err
	}
	want := len(b)
	if s == "SHORT" || s == "ENOSPC" || s == "EIO" {
		b = b[:len(b)/2] // part of it got through
		if err == nil {
			err = syscall.ENOSPC
		}
	}
	f, n := h.FS, h.Node
	if f.Full {
		for o := off / pageSize * pageSize; o < off+int64(len(b)); o += pageSize {
			if f.hole(n, o) {
				b = b[:max(0, o-off)]
				err = syscall.ENOSPC
				f.S.Count("disk_full_write")
				break
			}
		}
	}
	if len(b) > 0 {
		if off+int64(len(b)) > n.size {
			f.setSize(n, off+int64(len(b)))
		}
		_, e := syscall.Pwrite(f.memfd(n), b, off)
		must(e)
		for i := range n.lost {
			if int64(i*sector) < off+int64(len(b)) && int64((i+1)*sector) > off {
				delete(n.lost, i)
			}
		}
		n.Mtime = f.S.Now()
		h.unsynced = true
	}
	if err == nil && len(b) < want {
		err = syscall.ENOSPC
	}
	f.event("write", h.Path, "", n)
	f.end("write", h.Path)
	return len(b), err
}

func (h *Handle) Write(b []byte) (int, error) {
	if h.flag&syscall.O_APPEND != 0 {
		h.pos = h.Node.size
	}
	n, err := h.WriteAt(b, h.pos)
	h.pos += int64(n)
	return n, err
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.Closed {
		return 0, syscall.EBADF
	}
	switch whence {
	case 1:
		off += h.pos
	case 2:
		off += h.Node.size
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	h.pos = off
	h.dirEnt = nil
	return off, nil
}

func (h *Handle) Truncate(sz int64) error {
	if h.Closed {
		return syscall.EBADF
	}
	if !h.writable() || h.Node.Dir || sz < 0 {
		return syscall.EINVAL
	}
	if _, err := h.FS.begin("truncate", h.Path); err != nil {
		return err
	}
	h.FS.setSize(h.Node, sz)
	h.FS.event("truncate", h.Path, "", h.Node)
	h.FS.end("truncate", h.Path)
	return nil
}

func (f *FS) TruncatePath(path string, sz int64) error {
	h, err := f.Open(path, syscall.O_WRONLY, 0)
	if err != nil {
		return err
	}
	err = h.Truncate(sz)
	h.Closed = true
	return err
}

func (h *Handle) Sync() error {
	if h.Closed {
		return syscall.EBADF
	}
	if _, err := h.FS.begin("fsync", h.Path); err != nil {
		h.FS.loseDirty(h.Node)
		return err
	}
	h.FS.syncNode(h.Node)
	h.unsynced = false
	h.FS.end("fsync", h.Path)
	return nil
}

func (h *Handle) Fallocate(mode uint32, off, n int64) error {
	if h.Closed || !h.writable() {
		return syscall.EBADF
	}
	if _, err := h.FS.begin("fallocate", h.Path); err != nil {
		return err
	}
	if n <= 0 || off < 0 {
		return syscall.EINVAL
	}
	f := h.FS
	if f.Full {
		for o := off / pageSize * pageSize; o < off+n; o += pageSize {
			if f.hole(h.Node, o) {
				f.S.Count("disk_full_fallocate")
				return syscall.ENOSPC
			}
		}
	} else if err := syscall.Fallocate(f.memfd(h.Node), mode, off, n); err != nil {
		return err
	} else if mode&^1 == 0 {
		// what is reserved but never written counts as a hole in the memory that stands for the disk
		for o := off / pageSize * pageSize; o < off+n; o += pageSize {
			at := max(o, off)
			if f.hole(h.Node, o) && (mode&1 == 0 || at < h.Node.size) {
				if _, err := syscall.Pwrite(f.memfd(h.Node), []byte{0}, at); err != nil {
					return err
				}
			}
		}
	}
	if mode&1 == 0 && off+n > h.Node.size {
		h.Node.size = off + n
	}
	f.event("truncate", h.Path, "", h.Node)
	f.end("fallocate", h.Path)
	return nil
}

func (h *Handle) ReadDirNames(n int) ([]string, error) {
	if h.Closed {
		return nil, syscall.EBADF
	}
	if !h.Node.Dir {
		return nil, syscall.ENOTDIR
	}
	if _, err := h.FS.begin("readdir", h.Path); err != nil {
		return nil, err
	}
	if h.dirEnt == nil {
		h.dirEnt = h.FS.children(h.Path)
		// directory order is the file system's choice
		for i := len(h.dirEnt) - 1; i > 0; i-- {
			j := rt.SimRand(i + 1)
			h.dirEnt[i], h.dirEnt[j] = h.dirEnt[j], h.dirEnt[i]
		}
		if h.dirEnt == nil {
			h.dirEnt = []string{}
		}
		h.dirPos = 0
	}
	rest := h.dirEnt[h.dirPos:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		rest = rest[:min(n, len(rest))]
	}
	h.dirPos += len(rest)
	return rest, nil
}

// ---- name operations ------------------------------------------------------------------

func (f *FS) Mkdir(path string, perm uint32) error {
	p, n, err := f.resolve(path, true)
	if err != nil {
		return err
	}
	if n != nil {
		return syscall.EEXIST
	}
	if _, err := f.begin("mkdir", p); err != nil {
		return err
	}
	if p, n, err = f.resolve(path, true); err != nil {
		return err
	} else if n != nil {
		return syscall.EEXIST
	}
	d := f.newNode(true)
	d.Mode = perm
	f.link(p, d)
	f.event("mkdir", p, "", d)
	f.end("mkdir", p)
	return nil
}

func (f *FS) Remove(path string) error {
	p, n, err := f.resolve(path, false)
	if err != nil {
		return err
	}
	if _, err := f.begin("remove", p); err != nil {
		return err
	}
	if p, n, err = f.resolve(path, false); err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	if n.Dir && len(f.children(p)) > 0 {
		return syscall.ENOTEMPTY
	}
	f.event("remove", p, "", n)
	f.unlink(p)
	f.end("remove", p)
	return nil
}

func device(p string) string {
	if p == "/tmp" || strings.HasPrefix(p, "/tmp/") {
		return "tmp"
	}
	return "root"
}

func (f *FS) Rename(from, to string) error {
	a, _, err := f.resolve(from, false)
	if err != nil {
		return err
	}
	if _, err := f.begin("rename", a); err != nil {
		return err
	}
	a, n, err := f.resolve(from, false)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	b, o, err := f.resolve(to, false)
	if err != nil {
		return err
	}
	if device(a) != device(b) {
		return syscall.EXDEV
	}
	if o != nil {
		if o == n {
			return nil
		}
		if o.Dir && !n.Dir {
			return syscall.EISDIR
		}
		if !o.Dir && n.Dir {
			return syscall.ENOTDIR
		}
		if o.Dir && len(f.children(b)) > 0 {
			return syscall.ENOTEMPTY
		}
		o.Nlink--
	}
	f.event("rename", a, b, n)
	if n.Dir {
		var sub []string
		for p := range f.names {
			if strings.HasPrefix(p, a+"/") {
				sub = append(sub, p)
			}
		}
		for _, p := range sub {
			f.names[b+p[len(a):]] = f.names[p]
			delete(f.names, p)
		}
	}
	delete(f.names, a)
	f.names[b] = n
	f.journal = append(f.journal, nsop{"rename", a, b, n})
	f.end("rename", b)
	return nil
}

func (f *FS) LinkNames(from, to string) error {
	a, _, err := f.resolve(from, false)
	if err != nil {
		return err
	}
	if _, err := f.begin("link", a); err != nil {
		return err
	}
	a, n, err := f.resolve(from, false)
	if err != nil {
		return err
	}
	b, o, err := f.resolve(to, false)
	if err != nil {
		return err
	}
	switch {
	case n == nil:
		return syscall.ENOENT
	case o != nil:
		return syscall.EEXIST
	case n.Dir:
		return syscall.EPERM
	case device(a) != device(b):
		return syscall.EXDEV
	}
	f.event("link", a, b, n)
	f.link(b, n)
	f.end("link", b)
	return nil
}

func (f *FS) Symlink(target, path string) error {
	p, o, err := f.resolve(path, false)
	if err != nil {
		return err
	}
	if _, err := f.begin("create", p); err != nil {
		return err
	}
	if o = f.names[p]; o != nil {
		return syscall.EEXIST
	}
	n := f.newNode(false)
	n.Link = target
	f.event("create", p, "", n)
	f.link(p, n)
	return nil
}

func (f *FS) Readlink(path string) (string, error) {
	_, n, err := f.resolve(path, false)
	if err != nil {
		return "", err
	}
	if n == nil {
		return "", syscall.ENOENT
	}
	if n.Link == "" {
		return "", syscall.EINVAL
	}
	return n.Link, nil
}

// Stat returns the inode behind a name.
func (f *FS) Stat(path string, follow bool) (string, *Node, error) {
	p := f.Abs(path)
	if _, err := f.begin("stat", p); err != nil {
		return p, nil, err
	}
	p, n, err := f.resolve(path, follow)
	if err != nil {
		return p, nil, err
	}
	if n == nil {
		return p, nil, syscall.ENOENT
	}
	return p, n, nil
}

func (f *FS) Chmod(path string, mode uint32) error {
	p, n, err := f.resolve(path, true)
	if err != nil {
		return err
	}
	if _, err := f.begin("chmod", p); err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	n.Mode = mode
	return nil
}

func (h *Handle) Chmod(mode uint32) error {
	if h.Closed {
		return syscall.EBADF
	}
	if _, err := h.FS.begin("chmod", h.Path); err != nil {
		return err
	}
	h.Node.Mode = mode
	return nil
}

func (n *Node) SetMtime(t int64) { n.Mtime = t }

// ---- flock ---------------------------------------------------------------------------

func (h *Handle) Flock(how int) error {
	if h.Closed {
		return syscall.EBADF
	}
	if _, err := h.FS.begin("flock", h.Path); err != nil {
		return err
	}
	n := h.Node
	if how&syscall.LOCK_UN != 0 {
		h.FS.dropFlock(h)
		return nil
	}
	for {
		busy := n.flockX != nil && n.flockX != h
		if how&syscall.LOCK_EX != 0 {
			for o := range n.flocks {
				if o != h {
					busy = true
				}
			}
		}
		if !busy {
			break
		}
		if how&syscall.LOCK_NB != 0 {
			return syscall.EWOULDBLOCK
		}
		n.flockQ.Wait("flock " + h.Path)
	}
	if n.flocks == nil {
		n.flocks = map[*Handle]bool{}
	}
	delete(n.flocks, h)
	if n.flockX == h {
		n.flockX = nil
	}
	if how&syscall.LOCK_EX != 0 {
		n.flockX = h
	} else {
		n.flocks[h] = true
	}
	n.flockQ.WakeAll()
	return nil
}

func (f *FS) dropFlock(h *Handle) {
	n := h.Node
	if n == nil {
		return
	}
	if n.flockX == h {
		n.flockX = nil
	}
	delete(n.flocks, h)
	n.flockQ.WakeAll()
}

// ---- mappings --------------------------------------------------------------------------

func mprotect(a uintptr, n int, prot int) {
	_, _, e := syscall.Syscall(syscall.SYS_MPROTECT, a, uintptr(n), uintptr(prot))
	if e != 0 {
		panic(rt.Unsupported("mprotect: " + e.Error()))
	}
}

func rawMmap(addr uintptr, n int, prot, flags, fd int, off int64) (uintptr, error) {
	r, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, uintptr(n), uintptr(prot), uintptr(flags), uintptr(fd), uintptr(off))
	if e != 0 {
		return 0, e
	}
	return r, nil
}

// Slice views a region as bytes.
func Slice(a uintptr, n int) []byte { return toSlice(a, n) }

func toSlice(a uintptr, n int) []byte {
	var b []byte
	h := (*[3]uintptr)(unsafe.Pointer(&b))
	h[0], h[1], h[2] = a, uintptr(n), uintptr(n)
	return b
}

func addrOf(b []byte) uintptr { return (*[3]uintptr)(unsafe.Pointer(&b))[0] }

func (f *FS) byFD(fd int) *Handle {
	if i := fd - fdBase; i >= 0 && i < len(f.handles) {
		if h := f.handles[i]; !h.Closed && h.Proc == rt.CurProc() {
			return h
		}
	}
	return nil
}

// HandleFor returns the open handle behind a simulated descriptor number.
func (f *FS) HandleFor(fd int) *Handle { return f.byFD(fd) }

// IsSim tells simulated descriptors from real ones.
func IsSim(fd int) bool { return fd >= fdBase }

func (f *FS) Mmap(fd int, off int64, length, prot, flags int) ([]byte, error) {
	path := "(anonymous)"
	var h *Handle
	if flags&syscall.MAP_ANON == 0 {
		if h = f.byFD(fd); h == nil {
			if fd >= fdBase {
				// a descriptor this process has closed
				rt.Op("mmap", "(bad descriptor)", nil)
			}
			return nil, syscall.EBADF
		}
		path = h.Path
	}
	if _, err := f.begin("mmap", path); err != nil {
		return nil, err
	}
	if length <= 0 || off%pageSize != 0 || off < 0 {
		return nil, syscall.EINVAL
	}
	mfd := -1
	m := &Mapping{Len: length, Path: path, Proc: rt.CurProc(), Write: prot&syscall.PROT_WRITE != 0, Shared: flags&syscall.MAP_SHARED != 0, Live: true}
	if h != nil {
		if h.Node.Dir {
			return nil, syscall.ENODEV
		}
		if !h.readable() || (m.Write && m.Shared && h.flag&syscall.O_RDWR == 0) {
			return nil, syscall.EACCES
		}
		mfd = f.memfd(h.Node)
		m.Node = h.Node
	}
	a, err := rawMmap(0, length, prot, flags, mfd, off)
	if err != nil {
		panic(rt.Unsupported("mmap: " + err.Error()))
	}
	m.Addr = a
	f.maps = append(f.maps, m)
	if m.Node != nil && m.Write && m.Shared {
		if f.Full {
			f.bar(m)
		}
		f.event("mapw", path, "", m.Node)
	}
	f.end("mmap", path)
	return toSlice(a, length), nil
}

// MappingAt finds the mapping, live or not, that begins at b.
func (f *FS) mapping(b []byte) *Mapping {
	a := addrOf(b)
	for i := len(f.maps) - 1; i >= 0; i-- {
		if f.maps[i].Addr == a {
			return f.maps[i]
		}
	}
	return nil
}

func (f *FS) Munmap(b []byte) error {
	if len(b) == 0 {
		return syscall.EINVAL
	}
	m := f.mapping(b)
	path := "(unknown)"
	if m != nil {
		path = m.Path
	}
	if _, err := f.begin("munmap", path); err != nil {
		return err
	}
	if m == nil || m.Len != len(b) {
		f.S.Misuse = append(f.S.Misuse, "munmap of a region that is not a mapping")
		return syscall.EINVAL
	}
	if !m.Live {
		f.S.Misuse = append(f.S.Misuse, "mapping of "+m.Path+" unmapped twice")
		f.S.Logf("unmapped twice: %s", m.Path)
		return syscall.EINVAL
	}
	m.Live = false
	// keep the address range reserved, so that any later use faults
	_, err := rawMmap(m.Addr, roundUp(m.Len), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_FIXED|syscall.MAP_NORESERVE, -1, 0)
	must(err)
	f.end("munmap", path)
	return nil
}

func (f *FS) Msync(b []byte, flags int) error {
	if len(b) == 0 {
		return nil
	}
	m := f.mapping(b)
	if m == nil {
		// a part of a mapping
		for _, x := range f.maps {
			if x.Live && addrOf(b) >= x.Addr && addrOf(b) < x.Addr+uintptr(x.Len) {
				m = x
			}
		}
	}
	path := "(unknown)"
	if m != nil {
		path = m.Path
	}
	if _, err := f.begin("msync", path); err != nil {
		if m != nil && m.Shared {
			f.loseDirty(m.Node)
		}
		return err
	}
	if m == nil || !m.Live {
		return syscall.ENOMEM
	}
	if m.Node != nil && m.Shared && flags&syscall.MS_SYNC != 0 {
		lo := int(addrOf(b) - m.Addr)
		hi := lo + len(b)
		cur := f.Bytes(m.Node)
		d := m.Node.dur
		if len(d) != len(cur) {
			d = make([]byte, len(cur))
			copy(d, m.Node.dur)
		} else {
			d = append([]byte(nil), d...)
		}
		lo, hi = min(lo, len(cur)), min(roundUp(hi), len(cur))
		copy(d[lo:hi], f.writtenBack(m.Node, cur)[lo:hi])
		m.Node.dur = d
	}
	f.end("msync", path)
	return nil
}

func (f *FS) Mlock(b []byte, on bool) error {
	kind := "mlock"
	if !on {
		kind = "munlock"
	}
	m := f.mapping(b)
	path := "(memory)"
	if m != nil {
		path = m.Path
	}
	if _, err := f.begin(kind, path); err != nil {
		return err
	}
	if m != nil && !m.Live {
		return syscall.ENOMEM
	}
	if m != nil {
		m.Locked = on
	}
	return nil
}

func (f *FS) Mprotect(b []byte, prot int) error {
	m := f.mapping(b)
	if m == nil || !m.Live {
		return syscall.ENOMEM
	}
	if _, err := f.begin("mprotect", m.Path); err != nil {
		return err
	}
	mprotect(m.Addr, roundUp(len(b)), prot)
	m.Write = prot&syscall.PROT_WRITE != 0
	return nil
}

// ---- accounting -------------------------------------------------------------------------

// OpenHandles lists p's open descriptors.
func (f *FS) OpenHandles(p *rt.Proc) []*Handle {
	var out []*Handle
	for _, h := range f.handles {
		if !h.Closed && h.Proc == p {
			out = append(out, h)
		}
	}
	return out
}

// LiveMaps lists p's live file mappings.
func (f *FS) LiveMaps(p *rt.Proc) []*Mapping {
	var out []*Mapping
	for _, m := range f.maps {
		if m.Live && m.Proc == p && m.Node != nil {
			out = append(out, m)
		}
	}
	return out
}

// MappedRO reports whether a living process has the file mapped for reading only.
func (f *FS) MappedRO(n *Node) bool {
	for _, m := range f.maps {
		if m.Live && m.Proc != nil && m.Node == n && !m.Write {
			return true
		}
	}
	return false
}

// ProcDied closes what a dead process held.
func (f *FS) ProcDied(p *rt.Proc) {
	for _, h := range f.handles {
		if h.Proc == p && !h.Closed {
			h.Closed = true
			f.dropFlock(h)
		}
	}
	for _, m := range f.maps {
		if m.Proc == p && m.Live {
			// stays mapped until the run ends: the tasks still unwind
			m.Proc = nil
		}
	}
}

// Release frees all real resources at the end of a run.
func (f *FS) Release() {
	for _, m := range f.maps {
		syscall.Syscall(syscall.SYS_MUNMAP, m.Addr, uintptr(roundUp(m.Len)), 0)
	}
	for _, d := range f.memfds {
		syscall.Close(d)
	}
	f.maps, f.memfds, f.handles = nil, nil, nil
	Cur = nil
	rt.ExplainFault = nil
}

// StatOp announces an fstat.
func (h *Handle) StatOp() error {
	_, err := h.FS.begin("stat", h.Path)
	return err
}
