// Package vsync replaces package sync in instrumented code: the same primitives, but a
// goroutine that would wait tells the scheduler instead.
package vsync

import (
	"sync"
	"sync/atomic"

	"verif/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Mutex is sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		vsched.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); vsched.Wake() }

// RWMutex is sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		vsched.Block()
	}
}
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		vsched.Block()
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); vsched.Wake() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); vsched.Wake() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done atomic.Uint32
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Pool is sync.Pool, except that it always returns what was put last.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, v)
	p.m.Unlock()
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	m sync.Mutex
	n int
}

func (w *WaitGroup) Add(n int) {
	w.m.Lock()
	w.n += n
	neg := w.n < 0
	w.m.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
	vsched.Wake()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		ok := w.n == 0
		w.m.Unlock()
		if ok {
			return
		}
		vsched.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	m    sync.Mutex
	tick int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.m.Lock()
	t := c.tick
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		ok := c.tick != t
		c.m.Unlock()
		if ok {
			break
		}
		vsched.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal() { c.Broadcast() } // spurious wake-ups are within what callers must handle
func (c *Cond) Broadcast() {
	c.m.Lock()
	c.tick++
	c.m.Unlock()
	vsched.Wake()
}
