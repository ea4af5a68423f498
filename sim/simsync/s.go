//go:build go1.21

// Package simsync is package sync under the simulated scheduler.
package simsync

import (
	"fmt"
	"sort"
	"unsafe"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
)

// Locker is an object with Lock and Unlock
type Locker interface {
	Lock()
	Unlock()
}

type waitq struct{ q []*sim.Task }

//go:norace
func (w *waitq) block(what string) {
	w.q = append(w.q, sim.Current())
	sim.Block(what)
}

//go:norace
func (w *waitq) wakeAll() {
	q := w.q
	w.q = nil
	for _, t := range q {
		sim.WakeUp(t)
	}
}

//go:norace
func (w *waitq) wakeOne() {
	if len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		sim.WakeUp(t)
	}
}

// Mutex is a simulated mutex
type Mutex struct {
	world  *sim.World
	locked bool
	wait   waitq
	e      uint64
}

// enter forgets a lock taken by a task of another world, which ended (a killed
// process, a run out of budget) while it was held
//
//go:norace
func (m *Mutex) enter() {
	if w := sim.TheWorld(); m.world != w {
		m.world, m.locked, m.wait.q = w, false, nil
	}
}

//go:norace
func (m *RWMutex) enter() {
	if w := sim.TheWorld(); m.world != w {
		m.world, m.w, m.readers, m.waiting, m.wait.q = w, false, 0, 0, nil
	}
}

// Lock locks
//
//go:norace
func (m *Mutex) Lock() {
	m.enter()
	sim.Hot()
	for m.locked {
		if !sim.InWorld() {
			panic("simsync: deadlock outside of the simulation")
		}
		m.wait.block("mutex")
	}
	m.locked = true
	sim.RaceAcquire(unsafe.Pointer(&m.e))
}

// TryLock tries
//
//go:norace
func (m *Mutex) TryLock() bool {
	m.enter()
	sim.Hot()
	if m.locked {
		return false
	}
	m.locked = true
	sim.RaceAcquire(unsafe.Pointer(&m.e))
	return true
}

// Unlock unlocks
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	sim.RaceRelease(unsafe.Pointer(&m.e))
	m.locked = false
	m.wait.wakeAll()
	sim.Hot()
}

// RWMutex is a simulated reader/writer mutex
type RWMutex struct {
	world   *sim.World
	w       bool
	readers int
	waiting int
	wait    waitq
	e, r    uint64
}

// Lock locks for writing
//
//go:norace
func (m *RWMutex) Lock() {
	m.enter()
	sim.Hot()
	for m.w || m.readers > 0 {
		m.waiting++
		m.wait.block("rwmutex (write)")
		m.waiting--
	}
	m.w = true
	sim.RaceAcquire(unsafe.Pointer(&m.e))
	sim.RaceAcquire(unsafe.Pointer(&m.r))
}

// TryLock tries
//
//go:norace
func (m *RWMutex) TryLock() bool {
	m.enter()
	sim.Hot()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	sim.RaceAcquire(unsafe.Pointer(&m.e))
	sim.RaceAcquire(unsafe.Pointer(&m.r))
	return true
}

// Unlock unlocks
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sim.RaceRelease(unsafe.Pointer(&m.e))
	m.w = false
	m.wait.wakeAll()
	sim.Hot()
}

// RLock locks for reading; like the real one, it waits behind a waiting writer
//
//go:norace
func (m *RWMutex) RLock() {
	m.enter()
	sim.Hot()
	for m.w || m.waiting > 0 {
		m.wait.block("rwmutex (read)")
		if !m.w {
			break
		}
	}
	m.readers++
	sim.RaceAcquire(unsafe.Pointer(&m.e))
}

// TryRLock tries
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	m.enter()
	sim.Hot()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	sim.RaceAcquire(unsafe.Pointer(&m.e))
	return true
}

// RUnlock unlocks
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sim.RaceReleaseMerge(unsafe.Pointer(&m.r))
	m.readers--
	if m.readers == 0 {
		m.wait.wakeAll()
	}
	sim.Hot()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns the reading side
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a simulated wait group
type WaitGroup struct {
	n    int
	wait waitq
	e    uint64
}

// Add adds
//
//go:norace
func (g *WaitGroup) Add(d int) {
	sim.Hot()
	if d < 0 {
		sim.RaceReleaseMerge(unsafe.Pointer(&g.e))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.wait.wakeAll()
	}
}

// Done is Add(-1)
//
//go:norace
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for zero
//
//go:norace
func (g *WaitGroup) Wait() {
	sim.Hot()
	for g.n > 0 {
		g.wait.block("waitgroup")
	}
	sim.RaceAcquire(unsafe.Pointer(&g.e))
}

// Go runs a function in a task
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sim.Go(func() {
		defer g.Done()
		f()
	})
}

// Once runs once
type Once struct {
	done bool
	m    Mutex
	e    uint64
}

// Do runs f the first time
//
//go:norace
func (o *Once) Do(f func()) {
	sim.Hot()
	if o.done {
		sim.RaceAcquire(unsafe.Pointer(&o.e))
		return
	}
	o.slow(f)
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() {
	sim.RaceRelease(unsafe.Pointer(&o.e))
	o.done = true
}

// OnceFunc wraps
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue wraps
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues wraps
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Cond is a simulated condition variable
type Cond struct {
	L Locker
	q []*condWait
}

type condWait struct {
	t     *sim.Task
	woken bool
}

// NewCond returns a condition variable
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits; the caller is in the queue before it releases the lock
//
//go:norace
func (c *Cond) Wait() {
	cw := &condWait{t: sim.Current()}
	c.q = append(c.q, cw)
	c.L.Unlock()
	if !cw.woken {
		sim.Block("cond")
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) wake() {
	cw := c.q[0]
	c.q = c.q[1:]
	cw.woken = true
	sim.WakeUp(cw.t)
}

// Signal wakes one
//
//go:norace
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		c.wake()
	}
}

// Broadcast wakes all
//
//go:norace
func (c *Cond) Broadcast() {
	for len(c.q) > 0 {
		c.wake()
	}
}

// Pool is a simulated pool: what it hands out is a decision of the simulator
type Pool struct {
	New   func() interface{}
	items []interface{}
	world *sim.World
	e     uint64
}

// Get takes
//
//go:norace
func (p *Pool) Get() interface{} {
	sim.Hot()
	if p.world != sim.TheWorld() {
		// objects pooled by an earlier run are gone (the pool is emptied by the garbage collector)
		p.world, p.items = sim.TheWorld(), nil
	}
	if n := len(p.items); n > 0 && !sim.PoolForget() {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		sim.RaceAcquire(unsafe.Pointer(&p.e))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives back
//
//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if p.world != sim.TheWorld() {
		p.world, p.items = sim.TheWorld(), nil
	}
	sim.RaceReleaseMerge(unsafe.Pointer(&p.e))
	p.items = append(p.items, x)
	sim.Hot()
}

// Map is a simulated concurrent map
type Map struct {
	mu Mutex
	m  map[interface{}]interface{}
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

// Load reads
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

// Store writes
func (m *Map) Store(k, v interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.init()
	m.m[k] = v
}

// LoadOrStore reads or writes
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}

// LoadAndDelete reads and removes
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

// Delete removes
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

// Swap replaces
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.init()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

// CompareAndSwap replaces
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}

// CompareAndDelete removes
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}

// Clear empties
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}

// Range visits
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.mu.Lock()
	keys := make([]interface{}, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	m.mu.Unlock()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
