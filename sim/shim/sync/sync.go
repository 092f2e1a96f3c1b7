//go:build go1.25

// Package sync is the sync package under the simulated scheduler.
package sync

import (
	"fmt"
	real "sync"
	"unsafe"

	"powsim/rt"
)

// Mutex is a mutex whose waiters the simulator wakes.
type Mutex struct {
	held bool
	q    rt.WaitQ
}

func (m *Mutex) Lock() {
	t := rt.Ensure()
	if t == nil {
		if m.held {
			panic(rt.Unsupported("contended Mutex outside the simulation"))
		}
		m.held = true
		return
	}
	if rt.Killed() {
		return
	}
	rt.Point("lock")
	for m.held {
		m.q.Wait("Mutex.Lock")
	}
	m.held = true
	rt.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	rt.Ensure()
	if rt.Killed() {
		return true
	}
	rt.Point("lock")
	if m.held {
		return false
	}
	m.held = true
	rt.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	rt.Ensure()
	if rt.Killed() {
		return
	}
	if !m.held {
		panic(fatal("sync: unlock of unlocked mutex"))
	}
	rt.Release(unsafe.Pointer(m))
	m.held = false
	m.q.WakeOne()
	rt.Point("unlock")
}

type fatal string

func (f fatal) FatalError()   {}
func (f fatal) Error() string { return "fatal error: " + string(f) }

// RWMutex prefers writers, as sync.RWMutex does.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	q       rt.WaitQ
	rel     byte
}

func (m *RWMutex) Lock() {
	if rt.Ensure() == nil {
		if m.w || m.r > 0 {
			panic(rt.Unsupported("contended RWMutex outside the simulation"))
		}
		m.w = true
		return
	}
	if rt.Killed() {
		return
	}
	rt.Point("lock")
	for m.w || m.r > 0 {
		m.waiting++
		m.q.Wait("RWMutex.Lock")
		m.waiting--
	}
	m.w = true
	rt.Acquire(unsafe.Pointer(m))
	rt.Acquire(unsafe.Pointer(&m.rel))
}

func (m *RWMutex) Unlock() {
	rt.Ensure()
	if rt.Killed() {
		return
	}
	if !m.w {
		panic(fatal("sync: Unlock of unlocked RWMutex"))
	}
	rt.Release(unsafe.Pointer(m))
	m.w = false
	m.q.WakeAll()
	rt.Point("unlock")
}

func (m *RWMutex) RLock() {
	if rt.Ensure() == nil {
		if m.w {
			panic(rt.Unsupported("contended RWMutex outside the simulation"))
		}
		m.r++
		return
	}
	if rt.Killed() {
		return
	}
	rt.Point("rlock")
	for first := true; m.w || (m.waiting > 0 && first); first = false {
		m.q.Wait("RWMutex.RLock")
	}
	m.r++
	rt.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) RUnlock() {
	rt.Ensure()
	if rt.Killed() {
		return
	}
	if m.r == 0 {
		panic(fatal("sync: RUnlock of unlocked RWMutex"))
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.rel))
	m.r--
	if m.r == 0 {
		m.q.WakeAll()
	}
	rt.Point("runlock")
}

func (m *RWMutex) TryLock() bool {
	rt.Ensure()
	if rt.Killed() {
		return true
	}
	rt.Point("lock")
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	rt.Acquire(unsafe.Pointer(m))
	rt.Acquire(unsafe.Pointer(&m.rel))
	return true
}

func (m *RWMutex) TryRLock() bool {
	rt.Ensure()
	if rt.Killed() {
		return true
	}
	rt.Point("rlock")
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	rt.Acquire(unsafe.Pointer(m))
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs its function once; others wait for it.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if rt.Killed() {
		return
	}
	rt.Point("once")
	if o.done {
		rt.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			rt.Release(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

// WaitGroup counts tasks.
type WaitGroup struct {
	n int
	q rt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	rt.Ensure()
	if rt.Killed() {
		return
	}
	rt.Point("wgadd")
	if d < 0 {
		rt.ReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if rt.Ensure() == nil {
		if w.n > 0 {
			panic(rt.Unsupported("WaitGroup.Wait outside the simulation"))
		}
		return
	}
	if rt.Killed() {
		return
	}
	rt.Point("wgwait")
	for w.n > 0 {
		w.q.Wait("WaitGroup.Wait")
	}
	rt.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q rt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if rt.Ensure() == nil {
		panic(rt.Unsupported("Cond.Wait outside the simulation"))
	}
	if rt.Killed() {
		return
	}
	// joining the queue and releasing the lock is one step
	tk := c.q.Join()
	c.L.Unlock()
	tk.Wait("Cond.Wait")
	rt.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	rt.Point("signal")
	rt.ReleaseMerge(unsafe.Pointer(c))
	c.q.WakeOne()
}
func (c *Cond) Broadcast() {
	rt.Point("signal")
	rt.ReleaseMerge(unsafe.Pointer(c))
	c.q.WakeAll()
}

// Pool hands items back in an order the run decides, and sometimes forgets them.
type Pool struct {
	New   func() interface{}
	items []interface{}
	owner *rt.Sim
}

func (p *Pool) Get() interface{} {
	rt.Point("pool")
	if p.owner != rt.S {
		p.items, p.owner = nil, rt.S
	}
	if n := len(p.items); n > 0 && (!rt.Active() || rt.SimRand(8) > 0) {
		i := 0
		if rt.Active() {
			i = rt.SimRand(n)
		}
		x := p.items[i]
		p.items[i] = p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		rt.Acquire(unsafe.Pointer(p))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	rt.Point("pool")
	if x == nil || rt.Killed() {
		return
	}
	if p.owner != rt.S {
		p.items, p.owner = nil, rt.S
	}
	rt.ReleaseMerge(unsafe.Pointer(p))
	p.items = append(p.items, x)
}

// Map is a concurrent map; Range uses an order the run decides.
type Map struct {
	m map[interface{}]interface{}
}

func (m *Map) pt() {
	rt.Point("syncmap")
	rt.Acquire(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}
func (m *Map) rel() { rt.ReleaseMerge(unsafe.Pointer(m)) }
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.pt()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	m.pt()
	if !rt.Killed() {
		m.m[k] = v
	}
	m.rel()
}
func (m *Map) Clear() { m.pt(); m.m = nil; m.rel() }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.pt()
	defer m.rel()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.pt()
	defer m.rel()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.pt()
	defer m.rel()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.pt()
	defer m.rel()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.pt()
	defer m.rel()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.pt()
	for _, k := range rt.MapKeys(m.m).([]interface{}) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			break
		}
		m.pt()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var bad interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok && !rt.Killed() {
					bad = recover()
					panic(bad)
				}
			}()
			f()
			ok = true
		})
		if !ok && !rt.Killed() {
			panic(bad)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var u U
	g := OnceFunc(func() { v, u = f() })
	return func() (T, U) { g(); return v, u }
}

// Locker is sync.Locker.
type Locker = real.Locker

var _ = fmt.Sprint
