package vrt

import (
	"runtime"
	"unsafe"
)

// Mutex is the modelled sync.Mutex.
type Mutex struct {
	ep     uint32
	locked bool
	race   byte
	obj    object
}

func (m *Mutex) fresh(e *exec) {
	if m.ep != e.serial {
		m.ep = e.serial
		m.locked = false
		m.obj = object{}
	}
}

func (m *Mutex) Lock() {
	if dead() {
		return
	}
	e, t := me()
	m.fresh(e)
	t.kind, t.obj = opLock, unsafe.Pointer(m)
	e.point(t)
	m.locked = true
	e.touch(t, &m.obj, 'L')
	raceAcquire(unsafe.Pointer(&m.race))
}

func (m *Mutex) TryLock() bool {
	if dead() {
		return true
	}
	e, t := me()
	m.fresh(e)
	t.kind = opPoint
	t.lbl = "trylock"
	e.point(t)
	if m.locked {
		e.touch(t, &m.obj, 'T')
		return false
	}
	m.locked = true
	e.touch(t, &m.obj, 'L')
	raceAcquire(unsafe.Pointer(&m.race))
	return true
}

func (m *Mutex) Unlock() {
	if dead() {
		return
	}
	e, t := me()
	m.fresh(e)
	if !m.locked {
		e.setViolation("panic", "fatal error: sync: unlock of unlocked mutex (goroutine "+t.name()+")")
		e.stop(t)
	}
	e.touch(t, &m.obj, 'U')
	raceRelease(unsafe.Pointer(&m.race))
	m.locked = false
	if e.trace {
		e.tracef2(t, "  unlock")
	}
}

// RWMutex is the modelled sync.RWMutex; like the real one it lets a waiting writer block new readers.
type RWMutex struct {
	ep      uint32
	readers int32
	writing bool
	pending *thread
	race    byte
	raceR   byte
	obj     object
}

func (m *RWMutex) fresh(e *exec) {
	if m.ep != e.serial {
		*m = RWMutex{ep: e.serial}
	}
}

func (m *RWMutex) Lock() {
	if dead() {
		return
	}
	e, t := me()
	m.fresh(e)
	t.kind, t.obj = opRW1, unsafe.Pointer(m)
	e.point(t)
	m.pending = t
	e.touch(t, &m.obj, 'P')
	if m.readers > 0 {
		t.kind = opRW2
		e.point(t)
	}
	m.writing = true
	e.touch(t, &m.obj, 'W')
	raceAcquire(unsafe.Pointer(&m.race))
	raceAcquire(unsafe.Pointer(&m.raceR))
}

func (m *RWMutex) TryLock() bool {
	if dead() {
		return true
	}
	e, t := me()
	m.fresh(e)
	t.kind = opPoint
	t.lbl = "trylock"
	e.point(t)
	if m.pending != nil || m.readers > 0 {
		e.touch(t, &m.obj, 'T')
		return false
	}
	m.pending = t
	m.writing = true
	e.touch(t, &m.obj, 'W')
	raceAcquire(unsafe.Pointer(&m.race))
	raceAcquire(unsafe.Pointer(&m.raceR))
	return true
}

func (m *RWMutex) Unlock() {
	if dead() {
		return
	}
	e, t := me()
	m.fresh(e)
	if !m.writing {
		e.setViolation("panic", "fatal error: sync: Unlock of unlocked RWMutex (goroutine "+t.name()+")")
		e.stop(t)
	}
	e.touch(t, &m.obj, 'U')
	raceRelease(unsafe.Pointer(&m.race))
	m.writing = false
	m.pending = nil
	if e.trace {
		e.tracef2(t, "  unlock")
	}
}

func (m *RWMutex) RLock() {
	if dead() {
		return
	}
	e, t := me()
	m.fresh(e)
	t.kind, t.obj = opRLock, unsafe.Pointer(m)
	e.point(t)
	m.readers++
	e.touchR(t, &m.obj, 'R')
	raceAcquire(unsafe.Pointer(&m.race))
}

func (m *RWMutex) TryRLock() bool {
	if dead() {
		return true
	}
	e, t := me()
	m.fresh(e)
	t.kind = opPoint
	t.lbl = "tryrlock"
	e.point(t)
	if m.pending != nil {
		e.touch(t, &m.obj, 'T')
		return false
	}
	m.readers++
	e.touchR(t, &m.obj, 'R')
	raceAcquire(unsafe.Pointer(&m.race))
	return true
}

func (m *RWMutex) RUnlock() {
	if dead() {
		return
	}
	e, t := me()
	m.fresh(e)
	if m.readers == 0 {
		e.setViolation("panic", "fatal error: sync: RUnlock of unlocked RWMutex (goroutine "+t.name()+")")
		e.stop(t)
	}
	m.readers--
	e.touchR(t, &m.obj, 'r')
	raceReleaseMerge(unsafe.Pointer(&m.raceR))
	if e.trace {
		e.tracef2(t, "  runlock")
	}
}

// WaitGroup is the modelled sync.WaitGroup.
type WaitGroup struct {
	ep   uint32
	n    int
	race byte
	obj  object
}

func (w *WaitGroup) fresh(e *exec) {
	if w.ep != e.serial {
		*w = WaitGroup{ep: e.serial}
	}
}

func (w *WaitGroup) Add(d int) {
	if dead() {
		return
	}
	e, t := me()
	w.fresh(e)
	t.kind = opPoint
	t.lbl = "wg.Add"
	e.point(t)
	w.n += d
	e.touch(t, &w.obj, uint64(d)+'A')
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.race))
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Wait() {
	if dead() {
		return
	}
	e, t := me()
	w.fresh(e)
	t.kind, t.obj = opWG, unsafe.Pointer(w)
	e.point(t)
	e.touchR(t, &w.obj, 'w')
	raceAcquire(unsafe.Pointer(&w.race))
}

// Cond queue.
type Cond struct {
	ep    uint32
	queue []*thread
	obj   object
	race  byte
}

func (c *Cond) fresh(e *exec) {
	if c.ep != e.serial {
		c.ep = e.serial
		c.queue = nil
		c.obj = object{}
	}
}

// Enqueue registers the running thread as a waiter (before it releases the lock).
func (c *Cond) Enqueue() {
	if dead() {
		return
	}
	e, t := me()
	c.fresh(e)
	t.flag = false
	c.queue = append(c.queue, t)
	e.touch(t, &c.obj, 'e')
}

// Await blocks until the running thread is signalled.
func (c *Cond) Await() {
	if dead() {
		if ex != nil {
			runtime.Goexit()
		}
		return
	}
	e, t := me()
	t.kind, t.obj = opFlag, unsafe.Pointer(c)
	e.point(t)
	t.flag = false
	e.touch(t, &c.obj, 'a')
	raceAcquire(unsafe.Pointer(&c.race))
}

// Signal wakes one waiter or all.
func (c *Cond) Signal(all bool) {
	if dead() {
		return
	}
	e, t := me()
	c.fresh(e)
	t.kind = opPoint
	t.lbl = "cond.Signal"
	e.point(t)
	e.touch(t, &c.obj, 's')
	raceReleaseMerge(unsafe.Pointer(&c.race))
	for len(c.queue) > 0 {
		c.queue[0].flag = true
		c.queue = c.queue[1:]
		if !all {
			break
		}
	}
}

// Atomic is the visible point before an atomic operation on the object at p; write tells whether it may change it.
func Atomic(p unsafe.Pointer, write bool) {
	if dead() {
		return
	}
	e, t := me()
	t.kind = opPoint
	t.lbl = "atomic"
	e.point(t)
	o := e.objs.get(p)
	if write {
		e.touch(t, o, 'x')
	} else {
		e.touchR(t, o, 'y')
	}
}

// StateFlag is the visible point before reading the object at p (context errors); with set, it is the change of
// it, which is part of the caller's current step.
func StateFlag(p unsafe.Pointer, set bool) {
	if dead() {
		return
	}
	e, t := me()
	if set {
		e.touch(t, e.objs.get(p), 'x')
		raceReleaseMerge(p)
		return
	}
	t.kind = opPoint
	t.lbl = "context error"
	e.point(t)
	e.touchR(t, e.objs.get(p), 'y')
	raceAcquire(p)
}

// objTable maps addresses to objects (atomics).
type objTable struct {
	weak *object // stands for all addresses: keeps nothing alive
	keys []unsafe.Pointer
	vals []*object
	used []int
	n    int
}

func (h *objTable) reset() {
	h.weak = nil
	for _, i := range h.used {
		h.keys[i] = nil
		h.vals[i] = nil
	}
	h.used = h.used[:0]
	h.n = 0
}

func (h *objTable) get(p unsafe.Pointer) *object {
	if h.weak != nil {
		return h.weak
	}
	if len(h.keys) == 0 {
		h.keys = make([]unsafe.Pointer, 64)
		h.vals = make([]*object, 64)
	}
	m := uint64(len(h.keys) - 1)
	i := ptrHash(p) & m
	for h.keys[i] != nil {
		if h.keys[i] == p {
			return h.vals[i]
		}
		i = (i + 1) & m
	}
	if h.n*2 >= len(h.keys) {
		ok, ov := h.keys, h.vals
		h.keys = make([]unsafe.Pointer, 2*len(ok))
		h.vals = make([]*object, 2*len(ok))
		h.used = h.used[:0]
		m = uint64(len(h.keys) - 1)
		for j, k := range ok {
			if k != nil {
				i := ptrHash(k) & m
				for h.keys[i] != nil {
					i = (i + 1) & m
				}
				h.keys[i] = k
				h.vals[i] = ov[j]
				h.used = append(h.used, int(i))
			}
		}
		i = ptrHash(p) & m
		for h.keys[i] != nil {
			i = (i + 1) & m
		}
	}
	o := new(object)
	h.keys[i] = p
	h.vals[i] = o
	h.used = append(h.used, int(i))
	h.n++
	return o
}
