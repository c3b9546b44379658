// Package vsync replaces package sync in the instrumented proxy.
package vsync

import (
	real "sync"
	"unsafe"

	"verif/rt"
)

type Mutex struct {
	r      real.Mutex
	locked bool
}

func (m *Mutex) Lock() {
	if !rt.Active() {
		m.r.Lock()
		return
	}
	rt.WaitFor("mutex lock", func() bool { return !m.locked })
	rt.SetBool(&m.locked, true)
	rt.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !rt.Active() {
		return m.r.TryLock()
	}
	rt.Point("mutex trylock")
	if m.locked {
		return false
	}
	rt.SetBool(&m.locked, true)
	rt.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !rt.Active() {
		m.r.Unlock()
		return
	}
	if rt.Aborting() {
		return
	}
	rt.PointFine("mutex unlock")
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Release(unsafe.Pointer(m))
	rt.SetBool(&m.locked, false)
}

type RWMutex struct {
	r       real.RWMutex
	writer  bool
	readers int
	waiting int
	ra      byte
	wa      byte
}

func (m *RWMutex) Lock() {
	if !rt.Active() {
		m.r.Lock()
		return
	}
	m.waiting++
	rt.WaitFor("rwmutex lock", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
	rt.Acquire(unsafe.Pointer(&m.wa))
	rt.Acquire(unsafe.Pointer(&m.ra))
}

func (m *RWMutex) TryLock() bool {
	if !rt.Active() {
		return m.r.TryLock()
	}
	rt.Point("rwmutex trylock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	rt.Acquire(unsafe.Pointer(&m.wa))
	rt.Acquire(unsafe.Pointer(&m.ra))
	return true
}

func (m *RWMutex) Unlock() {
	if !rt.Active() {
		m.r.Unlock()
		return
	}
	if rt.Aborting() {
		return
	}
	rt.PointFine("rwmutex unlock")
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.Release(unsafe.Pointer(&m.wa))
	m.writer = false
}

func (m *RWMutex) RLock() {
	if !rt.Active() {
		m.r.RLock()
		return
	}
	rt.WaitFor("rwmutex rlock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.wa))
}

func (m *RWMutex) TryRLock() bool {
	if !rt.Active() {
		return m.r.TryRLock()
	}
	rt.Point("rwmutex tryrlock")
	if m.writer {
		return false
	}
	m.readers++
	rt.Acquire(unsafe.Pointer(&m.wa))
	return true
}

func (m *RWMutex) RUnlock() {
	if !rt.Active() {
		m.r.RUnlock()
		return
	}
	if rt.Aborting() {
		return
	}
	rt.PointFine("rwmutex runlock")
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.ra))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	r real.WaitGroup
	n int
}

func (w *WaitGroup) Add(d int) {
	if !rt.Active() {
		w.r.Add(d)
		return
	}
	if rt.Aborting() {
		return
	}
	if d < 0 {
		rt.PointFine("waitgroup done")
		rt.ReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !rt.Active() {
		w.r.Wait()
		return
	}
	rt.WaitFor("waitgroup wait", func() bool { return w.n == 0 })
	rt.Acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	rt.PointFine("once")
	if o.done {
		rt.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; rt.Release(unsafe.Pointer(o)) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L       Locker
	tickets []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	sig := false
	c.tickets = append(c.tickets, &sig)
	c.L.Unlock()
	rt.WaitFor("cond wait", func() bool { return sig })
	rt.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	rt.PointFine("cond signal")
	rt.ReleaseMerge(unsafe.Pointer(c))
	if len(c.tickets) > 0 {
		*c.tickets[0] = true
		c.tickets = c.tickets[1:]
	}
}
func (c *Cond) Broadcast() {
	rt.PointFine("cond broadcast")
	rt.ReleaseMerge(unsafe.Pointer(c))
	for _, t := range c.tickets {
		*t = true
	}
	c.tickets = nil
}

// Pool hands out the most recently put object by default; a fresh one or an older one is a deviation.
type Pool struct {
	New   func() interface{}
	r     real.Pool
	items rt.Stack
}

func (p *Pool) Get() interface{} {
	if !rt.Active() {
		p.r.New = p.New
		return p.r.Get()
	}
	rt.PointPool("pool get")
	n := p.items.Len()
	alts := 0
	if p.New != nil || n > 0 {
		alts = n + 1
	}
	if n == 0 {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	// 0: most recent; 1: fresh; 2..: older ones
	c := rt.ChooseKindIf(rt.KPool, alts)
	switch {
	case c == 1:
		if p.New == nil {
			return nil
		}
		return p.New()
	case c == 0:
		x := p.items.Take(n - 1)
		rt.Acquire(unsafe.Pointer(p))
		return x
	default:
		x := p.items.Take(n - c)
		rt.Acquire(unsafe.Pointer(p))
		return x
	}
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if !rt.Active() {
		p.r.Put(x)
		return
	}
	if rt.Aborting() {
		return
	}
	rt.PointPool("pool put")
	rt.Poison(x)
	rt.ReleaseMerge(unsafe.Pointer(p))
	if p.items.Len() == 0 {
		used.Push(p)
	}
	p.items.Push(x)
}

// used are the pools that have something.
var used rt.Stack

func init() { rt.RegisterReset("vsync", used.Clear) }

// DropPools empties all pools, as a garbage collection does.
func DropPools() {
	for used.Len() > 0 {
		used.Take(used.Len() - 1).(*Pool).items.Clear()
	}
}

// Map is a mutex protected map with a deterministic Range order.
type Map struct {
	mu Mutex
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	c := map[any]any{}
	for k, v := range m.m {
		c[k] = v
	}
	m.mu.Unlock()
	for it, k, v := rt.MapStart(c); it.Ok(); k, v = it.Next() {
		if !f(k, v) {
			return
		}
	}
}
