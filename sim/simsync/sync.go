// Package simsync stands in for package sync in the instrumented copy of the
// code under test. Its types wait in the simulator instead of blocking the
// goroutine. Where they wrap the real ones the race detector sees the real
// synchronisation; where they do not, they announce the same edges themselves
// and no others.
package simsync

import (
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"
	"weak"

	"verif.local/sim/simrt"
)

type Locker = sync.Locker

// Mutex is sync.Mutex under the simulator.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	simrt.Sync(1)
	for !m.mu.TryLock() {
		simrt.Block(unsafe.Pointer(m))
	}
}

func (m *Mutex) TryLock() bool {
	simrt.Sync(2)
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	if simrt.IsAborted() && simrt.Active() {
		if m.mu.TryLock() {
			m.mu.Unlock()
			return // the lock was never obtained: the run is being unwound
		}
	}
	m.mu.Unlock()
	if simrt.Active() {
		simrt.Wake(unsafe.Pointer(m))
		if !simrt.IsAborted() {
			simrt.Sync(3)
		}
	}
}

// RWMutex is sync.RWMutex under the simulator, including that a waiting writer
// keeps new readers out.
type RWMutex struct {
	mu      sync.RWMutex
	writers int // waiting
}

//go:norace
func (m *RWMutex) waiting() bool { return m.writers > 0 }

//go:norace
func (m *RWMutex) wait(d int) { m.writers += d }

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	simrt.Sync(4)
	if m.mu.TryLock() {
		return
	}
	m.wait(1)
	defer m.wait(-1)
	for !m.mu.TryLock() {
		simrt.Block(unsafe.Pointer(m))
	}
}

func (m *RWMutex) TryLock() bool {
	simrt.Sync(5)
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	if simrt.IsAborted() && simrt.Active() {
		if m.mu.TryLock() {
			m.mu.Unlock()
			return
		}
	}
	m.mu.Unlock()
	if simrt.Active() {
		simrt.Wake(unsafe.Pointer(m))
		if !simrt.IsAborted() {
			simrt.Sync(6)
		}
	}
}

func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.mu.RLock()
		return
	}
	simrt.Sync(7)
	for m.waiting() || !m.mu.TryRLock() {
		simrt.Block(unsafe.Pointer(m))
	}
}

func (m *RWMutex) TryRLock() bool {
	simrt.Sync(8)
	return !m.waiting() && m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	if simrt.IsAborted() && simrt.Active() {
		if m.mu.TryLock() {
			m.mu.Unlock()
			return
		}
	}
	m.mu.RUnlock()
	if simrt.Active() {
		simrt.Wake(unsafe.Pointer(m))
		if !simrt.IsAborted() {
			simrt.Sync(9)
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Map is sync.Map with a seeded iteration order. Its operations never block. It
// announces the edges the documentation promises, a write before every read
// that observes it, itself: part of the real one's code may be shared with a
// package compiled without the race detector, which then sees nothing of it.
type Map struct {
	m    sync.Map // any to *held
	gone byte     // whose address stands for the removals
}

type held struct{ v any }

func hold(v any) *held {
	h := &held{v}
	simrt.Release(unsafe.Pointer(h))
	return h
}

func (m *Map) seen(h any, ok bool) (any, bool) {
	if !ok {
		simrt.Acquire(unsafe.Pointer(&m.gone))
		return nil, false
	}
	simrt.Acquire(unsafe.Pointer(h.(*held)))
	return h.(*held).v, true
}

func (m *Map) Load(k any) (any, bool) { simrt.Sync(20); return m.seen(m.m.Load(k)) }
func (m *Map) Store(k, v any)         { simrt.Sync(21); m.m.Store(k, hold(v)) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Sync(22)
	h := hold(v)
	got, loaded := m.m.LoadOrStore(k, h)
	if !loaded {
		simrt.Acquire(unsafe.Pointer(&m.gone))
		return v, false
	}
	return m.seen(got, true)
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Sync(23)
	simrt.Release(unsafe.Pointer(&m.gone))
	return m.seen(m.m.LoadAndDelete(k))
}

func (m *Map) Delete(k any) {
	simrt.Sync(24)
	simrt.Release(unsafe.Pointer(&m.gone))
	m.seen(m.m.LoadAndDelete(k))
}

func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Sync(25)
	return m.seen(m.m.Swap(k, hold(v)))
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Sync(26)
	h := hold(new)
	for {
		got, ok := m.m.Load(k)
		if v, ok := m.seen(got, ok); !ok || v != old {
			return false
		}
		if m.m.CompareAndSwap(k, got, h) {
			return true
		}
	}
}

func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Sync(27)
	for {
		got, ok := m.m.Load(k)
		if v, ok := m.seen(got, ok); !ok || v != old {
			return false
		}
		simrt.Release(unsafe.Pointer(&m.gone))
		if m.m.CompareAndDelete(k, got) {
			return true
		}
	}
}

func (m *Map) Clear() { simrt.Sync(28); simrt.Release(unsafe.Pointer(&m.gone)); m.m.Clear() }

// Range visits keys present at its start, each as it is when its turn comes,
// which is one of the behaviours sync.Map allows.
func (m *Map) Range(f func(k, v any) bool) {
	if simrt.Active() {
		simrt.Sync(29)
	}
	var keys []any
	strs := true
	m.m.Range(func(k, h any) bool {
		m.seen(h, true)
		keys = append(keys, k)
		if _, ok := k.(string); !ok {
			strs = false
		}
		return true
	})
	if strs {
		sort.Slice(keys, func(i, j int) bool { return keys[i].(string) < keys[j].(string) })
	}
	if simrt.Active() {
		for i := len(keys) - 1; i > 0; i-- {
			j := int(simrt.EnvRnd(uint64(i + 1)))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	for _, k := range keys {
		if simrt.Active() {
			simrt.Sync(30)
		}
		if v, ok := m.seen(m.m.Load(k)); ok && !f(k, v) {
			return
		}
	}
}

// Once is sync.Once under the simulator.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Sync(10)
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc, OnceValue and OnceValues follow package sync.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		once  Once
		valid bool
		p     any
		r1    T1
		r2    T2
	)
	return func() (T1, T2) {
		once.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			r1, r2 = f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
		return r1, r2
	}
}

// WaitGroup is sync.WaitGroup under the simulator.
type WaitGroup struct{ n int }

//go:norace
func (w *WaitGroup) add(d int) int { w.n += d; return w.n }

func (w *WaitGroup) Add(d int) {
	simrt.Sync(11)
	if d < 0 {
		simrt.Release(unsafe.Pointer(w))
	}
	n := w.add(d)
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.Sync(12)
	for w.add(0) != 0 {
		if !simrt.Active() {
			panic("simulator: WaitGroup.Wait outside of a run")
		}
		simrt.Block(unsafe.Pointer(w))
	}
	simrt.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	t := simrt.NewTask()
	go func() {
		defer simrt.Enter(t)()
		defer w.Done()
		f()
	}()
}

// Cond is sync.Cond under the simulator.
type Cond struct {
	L   Locker
	seq int
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enter() int { c.seq++; return c.seq - 1 }

//go:norace
func (c *Cond) woken(me int) bool { return c.sig > me }

//go:norace
func (c *Cond) wake(all bool) {
	if all {
		c.sig = c.seq
	} else if c.sig < c.seq {
		c.sig++
	}
}

func (c *Cond) Wait() {
	me := c.enter()
	c.L.Unlock()
	for !c.woken(me) {
		simrt.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.wake(false)
	simrt.Wake(unsafe.Pointer(c))
	simrt.Sync(13)
}

func (c *Cond) Broadcast() {
	c.wake(true)
	simrt.Wake(unsafe.Pointer(c))
	simrt.Sync(14)
}

// Pool is sync.Pool; whether a pooled object survives is up to the simulator.
type Pool struct {
	New  func() any
	free *pooled
	n    int
}

const poolMax = 8 // a real one drops objects now and then, too

type pooled struct {
	x    any
	next *pooled
}

//go:norace
func (p *Pool) pop() *pooled {
	e := p.free
	if e != nil {
		p.free = e.next
		p.n--
	}
	return e
}

//go:norace
func (p *Pool) push(e *pooled) {
	if p.n >= poolMax {
		return
	}
	p.n++
	e.next = p.free
	p.free = e
	w := weak.Make(p)
	for i := range used {
		if used[i] == w {
			return
		}
	}
	used[usedN%len(used)] = w
	usedN++
}

// The pools last used.
var used [64]weak.Pointer[Pool]
var usedN int

// DropPools lets go what pools hold, as two collections of garbage do.
func DropPools() {
	for i := range used {
		if p := used[i].Value(); p != nil {
			p.free, p.n = nil, 0
		}
		used[i] = weak.Pointer[Pool]{}
	}
}

func (p *Pool) Get() any {
	simrt.Sync(15)
	if simrt.PoolChoice() {
		if e := p.pop(); e != nil {
			simrt.Acquire(unsafe.Pointer(e))
			return e.x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Sync(16)
	e := &pooled{x: x}
	simrt.Release(unsafe.Pointer(e))
	p.push(e)
	simrt.Sync(17)
}
