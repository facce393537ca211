// Package sync replaces the standard sync package in simulated code.
package sync

import (
	"unsafe"

	"ustack/zzsim"
)

// Mutex ...
type Mutex struct {
	locked bool
}

// Lock ...
func (m *Mutex) Lock() {
	if zzsim.Dying() {
		m.locked = true
		return
	}
	zzsim.S(-10)
	for m.locked {
		zzsim.Block(unsafe.Pointer(m), "mutex")
		if zzsim.Dying() {
			return
		}
	}
	m.locked = true
}

// TryLock ...
func (m *Mutex) TryLock() bool {
	zzsim.S(-11)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock ...
func (m *Mutex) Unlock() {
	if !m.locked {
		if zzsim.Dying() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	zzsim.Notify(unsafe.Pointer(m))
	zzsim.S(-12)
}

// RWMutex ...
type RWMutex struct {
	writer   bool
	readers  int
	wwaiting int
}

// Lock ...
func (m *RWMutex) Lock() {
	if zzsim.Dying() {
		m.writer = true
		return
	}
	zzsim.S(-13)
	m.wwaiting++
	for m.writer || m.readers > 0 {
		zzsim.Block(unsafe.Pointer(m), "rwmutex")
		if zzsim.Dying() {
			return
		}
	}
	m.wwaiting--
	m.writer = true
}

// TryLock ...
func (m *RWMutex) TryLock() bool {
	zzsim.S(-13)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// Unlock ...
func (m *RWMutex) Unlock() {
	if !m.writer {
		if zzsim.Dying() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	zzsim.Notify(unsafe.Pointer(m))
	zzsim.S(-14)
}

// RLock ...
func (m *RWMutex) RLock() {
	if zzsim.Dying() {
		m.readers++
		return
	}
	zzsim.S(-15)
	for m.writer || m.wwaiting > 0 {
		zzsim.Block(unsafe.Pointer(m), "rwmutex-r")
		if zzsim.Dying() {
			return
		}
	}
	m.readers++
}

// TryRLock ...
func (m *RWMutex) TryRLock() bool {
	zzsim.S(-15)
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock ...
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if zzsim.Dying() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	zzsim.Notify(unsafe.Pointer(m))
	zzsim.S(-16)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker ...
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Locker ...
type Locker interface {
	Lock()
	Unlock()
}

// WaitGroup ...
type WaitGroup struct{ n int }

// Add ...
func (g *WaitGroup) Add(d int) {
	zzsim.S(-17)
	g.n += d
	if g.n < 0 {
		if zzsim.Dying() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		zzsim.Notify(unsafe.Pointer(g))
	}
}

// Done ...
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait ...
func (g *WaitGroup) Wait() {
	zzsim.S(-18)
	for g.n > 0 && !zzsim.Dying() {
		zzsim.Block(unsafe.Pointer(g), "waitgroup")
	}
}

// Go ...
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	zzsim.Go(-18, "waitgroup.Go", func() {
		defer g.Done()
		f()
	})
}

// Once ...
type Once struct {
	m    Mutex
	done bool
}

// Do ...
func (o *Once) Do(f func()) {
	zzsim.S(-19)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc ...
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// Cond ...
type Cond struct {
	L       Locker
	waiters []*bool
}

// NewCond ...
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait ...
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	for !*woken && !zzsim.Dying() {
		zzsim.Block(unsafe.Pointer(woken), "cond")
	}
	c.L.Lock()
}

// Signal ...
func (c *Cond) Signal() {
	zzsim.S(-20)
	if len(c.waiters) > 0 {
		x := c.waiters[0]
		c.waiters = c.waiters[1:]
		*x = true
		zzsim.Notify(unsafe.Pointer(x))
	}
}

// Broadcast ...
func (c *Cond) Broadcast() {
	zzsim.S(-20)
	for _, x := range c.waiters {
		*x = true
		zzsim.Notify(unsafe.Pointer(x))
	}
	c.waiters = nil
}

// Map is a deterministic sync.Map.
type Map struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

// Load ...
func (m *Map) Load(k interface{}) (interface{}, bool) {
	zzsim.S(-21)
	v, ok := m.m[k]
	return v, ok
}

// Store ...
func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }

// Swap ...
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	zzsim.S(-21)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	p, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return p, ok
}

// LoadOrStore ...
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	zzsim.S(-21)
	if p, ok := m.m[k]; ok {
		return p, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

// LoadAndDelete ...
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	zzsim.S(-21)
	p, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return p, ok
}

// Delete ...
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

// CompareAndSwap ...
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	zzsim.S(-21)
	if p, ok := m.m[k]; ok && p == o {
		m.m[k] = n
		return true
	}
	return false
}

// CompareAndDelete ...
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	zzsim.S(-21)
	if p, ok := m.m[k]; ok && p == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

// Range ...
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}(nil), m.keys...) {
		zzsim.S(-21)
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Clear ...
func (m *Map) Clear() { zzsim.S(-21); m.keys, m.m = nil, nil }

// Pool is a deterministic sync.Pool.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

// Get ...
func (p *Pool) Get() interface{} {
	zzsim.S(-22)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put ...
func (p *Pool) Put(x interface{}) { zzsim.S(-22); p.items = append(p.items, x) }

// OnceValue ...
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues ...
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
