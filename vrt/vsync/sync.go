// Package vsync stands in for package sync.
package vsync

import (
	"sync"
	"unsafe"

	"verif/vrt"
)

type Locker = sync.Locker

// Mutex is sync.Mutex under the controlled scheduler.
type Mutex struct{ m vrt.Mutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// RWMutex is sync.RWMutex under the controlled scheduler.
type RWMutex struct{ m vrt.RWMutex }

func (m *RWMutex) Lock()           { m.m.Lock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) RLock()          { m.m.RLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is sync.WaitGroup under the controlled scheduler.
type WaitGroup struct{ w vrt.WaitGroup }

func (w *WaitGroup) Add(d int) { w.w.Add(d) }
func (w *WaitGroup) Done()     { w.w.Add(-1) }
func (w *WaitGroup) Wait()     { w.w.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.w.Add(1)
	vrt.Go(func() {
		defer w.w.Add(-1)
		f()
	})
}

// Once is sync.Once under the controlled scheduler.
type Once struct {
	m    vrt.Mutex
	done vrt.Flag
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Get() {
		defer o.done.Set()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// Cond is sync.Cond under the controlled scheduler.
type Cond struct {
	L Locker
	c vrt.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.c.Enqueue()
	c.L.Unlock()
	c.c.Await()
	c.L.Lock()
}
func (c *Cond) Signal()    { c.c.Signal(false) }
func (c *Cond) Broadcast() { c.c.Signal(true) }

// Pool is sync.Pool: what was put last is got first, and never anything that was not put.
type Pool struct {
	New func() any
	m   vrt.PoolState
}

func (p *Pool) Get() any {
	if v, ok := p.m.Get(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v != nil {
		p.m.Put(v)
	}
}

// Map is sync.Map under the controlled scheduler.
type Map struct {
	m vrt.MapState
}

func (m *Map) Load(key any) (any, bool) { m.m.Point(false); return m.m.Load(key) }
func (m *Map) Store(key, value any)     { m.m.Point(true); m.m.Store(key, value) }
func (m *Map) Clear()                   { m.m.Point(true); m.m.Clear() }
func (m *Map) Delete(key any)           { m.m.Point(true); m.m.Delete(key) }
func (m *Map) Swap(key, value any) (any, bool) {
	m.m.Point(true)
	o, ok := m.m.Load(key)
	m.m.Store(key, value)
	return o, ok
}
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.m.Point(true)
	if o, ok := m.m.Load(key); ok {
		return o, true
	}
	m.m.Store(key, value)
	return value, false
}
func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.m.Point(true)
	o, ok := m.m.Load(key)
	m.m.Delete(key)
	return o, ok
}
func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.m.Point(true)
	if o, ok := m.m.Load(key); ok && o == old {
		m.m.Store(key, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(key, old any) bool {
	m.m.Point(true)
	if o, ok := m.m.Load(key); ok && o == old {
		m.m.Delete(key)
		return true
	}
	return false
}
func (m *Map) Range(f func(key, value any) bool) {
	m.m.Point(false)
	for _, k := range m.m.Keys() {
		m.m.Point(false)
		v, ok := m.m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

var _ unsafe.Pointer
