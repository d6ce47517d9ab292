// Package vsync replaces package sync in instrumented code: same API, but blocking is visible to the explorer.
package vsync

import (
	"sync"
	"sync/atomic"
	"time"

	"verif.local/h/vsched"
)

type Locker = sync.Locker

// Mutex is a sync.Mutex whose waiting is done in the explorer.
type Mutex struct {
	m      sync.Mutex
	locked atomic.Bool
}

func (m *Mutex) Lock() {
	vsched.Block("Mutex.Lock", func() bool { return !m.locked.Load() })
	m.m.Lock()
	m.setLocked(true)
}

func (m *Mutex) setLocked(b bool) {
	vsched.Quiet(func() { m.locked.Store(b) })
}

func (m *Mutex) TryLock() bool {
	vsched.Point("Mutex.TryLock")
	if m.m.TryLock() {
		m.setLocked(true)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	vsched.Point("Mutex.Unlock")
	l := false
	vsched.Quiet(func() { l = m.locked.Load() })
	if !l {
		if vsched.Killing() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.setLocked(false)
	m.m.Unlock()
}

// RWMutex follows sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	m       sync.RWMutex
	writer  atomic.Bool
	readers atomic.Int32
	waiting atomic.Int32
}

func (m *RWMutex) Lock() {
	vsched.Point("RWMutex.Lock")
	vsched.Quiet(func() { m.waiting.Add(1) })
	vsched.Block("RWMutex.Lock", func() bool { return !m.writer.Load() && m.readers.Load() == 0 })
	m.m.Lock()
	vsched.Quiet(func() { m.waiting.Add(-1); m.writer.Store(true) })
}

func (m *RWMutex) TryLock() bool {
	vsched.Point("RWMutex.TryLock")
	if m.m.TryLock() {
		vsched.Quiet(func() { m.writer.Store(true) })
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	vsched.Point("RWMutex.Unlock")
	w := false
	vsched.Quiet(func() { w = m.writer.Load() })
	if !w {
		if vsched.Killing() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.Quiet(func() { m.writer.Store(false) })
	m.m.Unlock()
}

func (m *RWMutex) RLock() {
	vsched.Block("RWMutex.RLock", func() bool { return !m.writer.Load() && m.waiting.Load() == 0 })
	m.m.RLock()
	vsched.Quiet(func() { m.readers.Add(1) })
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point("RWMutex.TryRLock")
	if m.m.TryRLock() {
		vsched.Quiet(func() { m.readers.Add(1) })
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	vsched.Point("RWMutex.RUnlock")
	n := int32(0)
	vsched.Quiet(func() { n = m.readers.Load() })
	if n <= 0 {
		if vsched.Killing() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.Quiet(func() { m.readers.Add(-1) })
	m.m.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup keeps its own count (a real one may not be shared by several bubbles); the atomic operations on n give the
// happens-before edges from Done to Wait.
type WaitGroup struct {
	n atomic.Int64
}

func (w *WaitGroup) Add(n int) {
	vsched.Point("WaitGroup.Add")
	if w.n.Add(int64(n)) < 0 && !vsched.Killing() {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !vsched.Block("WaitGroup.Wait", func() bool { return w.n.Load() <= 0 }) {
		for w.n.Load() > 0 && !vsched.Killing() { // not a controlled task
			time.Sleep(50 * time.Microsecond)
		}
	}
	w.n.Load()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	vsched.Point("Once.Do")
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type Cond struct {
	L       Locker
	m       sync.Mutex
	waiters []*atomic.Bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &atomic.Bool{}
	c.m.Lock()
	c.waiters = append(c.waiters, w)
	c.m.Unlock()
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return w.Load() })
	w.Load() // happens-before edge
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.Point("Cond.Signal")
	c.m.Lock()
	defer c.m.Unlock()
	if len(c.waiters) > 0 {
		c.waiters[0].Store(true)
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	vsched.Point("Cond.Broadcast")
	c.m.Lock()
	defer c.m.Unlock()
	for _, w := range c.waiters {
		w.Store(true)
	}
	c.waiters = nil
}

type Pool struct {
	New func() any
	p   []any
	m   sync.Mutex
}

func (p *Pool) Get() any {
	vsched.Point("Pool.Get")
	p.m.Lock()
	if n := len(p.p); n > 0 {
		v := p.p[n-1]
		p.p = p.p[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	vsched.Point("Pool.Put")
	p.m.Lock()
	defer p.m.Unlock()
	p.p = append(p.p, v)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)               { vsched.Point("Map"); return m.m.Load(k) }
func (m *Map) Store(k, v any)                       { vsched.Point("Map"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool)     { vsched.Point("Map"); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)      { vsched.Point("Map"); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                         { vsched.Point("Map"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)            { vsched.Point("Map"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool      { vsched.Point("Map"); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool       { vsched.Point("Map"); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)          { vsched.Point("Map"); m.m.Range(f) }
func (m *Map) Clear()                               { vsched.Point("Map"); m.m.Clear() }
