package vsync

import (
	"sync"
	"sync/atomic"
)

type Locker = sync.Locker

type Mutex struct {
	m    sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

//go:norace
func (m *Mutex) get() bool { return m.held }

func (m *Mutex) Lock() {
	point(pending{op: opMutex, m: m})
	m.m.Lock()
	m.set(true)
}

func (m *Mutex) TryLock() bool {
	Point()
	if !m.m.TryLock() {
		return false
	}
	m.set(true)
	return true
}

func (m *Mutex) Unlock() {
	if isAborted() {
		return
	}
	m.set(false)
	m.m.Unlock()
	Point()
}

// RWMutex: as with the real one, a reader waits once a writer waits.
type RWMutex struct {
	rw      sync.RWMutex
	pending bool
	readers int
}

//go:norace
func (rw *RWMutex) setPending(b bool) { rw.pending = b }

//go:norace
func (rw *RWMutex) addReaders(n int) { rw.readers += n }

func (rw *RWMutex) Lock() {
	point(pending{op: opWriter, rw: rw})
	rw.setPending(true)
	point(pending{op: opReaders, rw: rw})
	rw.rw.Lock()
}

func (rw *RWMutex) TryLock() bool {
	Point()
	if !rw.rw.TryLock() {
		return false
	}
	rw.setPending(true)
	return true
}

func (rw *RWMutex) Unlock() {
	if isAborted() {
		return
	}
	rw.setPending(false)
	rw.rw.Unlock()
	Point()
}

func (rw *RWMutex) RLock() {
	point(pending{op: opReader, rw: rw})
	rw.addReaders(1)
	rw.rw.RLock()
}

func (rw *RWMutex) TryRLock() bool {
	Point()
	if !rw.rw.TryRLock() {
		return false
	}
	rw.addReaders(1)
	return true
}

func (rw *RWMutex) RUnlock() {
	if isAborted() {
		return
	}
	// Not a point: what follows, up to the next one, is of no concern to the other threads, or
	// there is a data race.
	rw.addReaders(-1)
	rw.rw.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (wg *WaitGroup) add(d int) { wg.n += d }

func (wg *WaitGroup) Add(d int) {
	Point()
	wg.add(d)
	wg.wg.Add(d)
}

func (wg *WaitGroup) Done() {
	if isAborted() {
		return
	}
	wg.Add(-1)
}

func (wg *WaitGroup) Wait() {
	point(pending{op: opGroup, wg: wg})
	wg.wg.Wait()
}

type Once struct {
	fin  atomic.Bool
	busy bool
}

//go:norace
func (on *Once) setBusy(b bool) { on.busy = b }

func (on *Once) Do(f func()) {
	point(pending{op: opOnce, on: on})
	if on.fin.Load() {
		return
	}
	on.setBusy(true)
	defer on.setBusy(false)
	defer on.fin.Store(true)
	f()
}

func OnceFunc(f func()) func() {
	var on Once
	return func() { on.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var on Once
	var v T
	return func() T {
		on.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var on Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		on.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L       Locker
	waiting [MaxThreads]bool
	mu      sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enter() {
	c.waiting[cur] = true
	signal[cur] = false
}

//go:norace
func (c *Cond) wake(all bool) {
	for t := range c.waiting {
		if c.waiting[t] {
			c.waiting[t] = false
			signal[t] = true
			if !all {
				return
			}
		}
	}
}

func (c *Cond) Wait() {
	c.enter()
	c.L.Unlock()
	point(pending{op: opCond, c: c})
	c.mu.Lock()
	c.mu.Unlock()
	c.L.Lock()
}

func (c *Cond) Signal() {
	Point()
	c.mu.Lock()
	c.mu.Unlock()
	c.wake(false)
}

func (c *Cond) Broadcast() {
	Point()
	c.mu.Lock()
	c.mu.Unlock()
	c.wake(true)
}

type Map struct {
	m sync.Map
}

func (m *Map) Load(k any) (any, bool)              { Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                      { Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool)    { Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)     { Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                        { Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)           { Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool { Point(); return m.m.CompareAndSwap(k, old, new) }
func (m *Map) CompareAndDelete(k, old any) bool    { Point(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Range(f func(k, v any) bool)         { Point(); m.m.Range(f) }
func (m *Map) Clear()                              { Point(); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }

// Pool always gives back what was put last.
type Pool struct {
	New func() any
	mu  sync.Mutex
	vs  []any
}

func (p *Pool) Get() any {
	Point()
	p.mu.Lock()
	if n := len(p.vs); n > 0 {
		v := p.vs[n-1]
		p.vs = p.vs[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	Point()
	p.mu.Lock()
	p.vs = append(p.vs, v)
	p.mu.Unlock()
}
