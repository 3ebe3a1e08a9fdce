package vrt

import "unsafe"

// Flag is a boolean that is reset for every execution (sync.Once).
type Flag struct {
	ep uint32
	v  bool
}

func (f *Flag) Get() bool { return ex != nil && f.ep == ex.serial && f.v }
func (f *Flag) Set() {
	if ex != nil {
		f.ep = ex.serial
		f.v = true
	}
}

// PoolState is the content of a sync.Pool.
type PoolState struct {
	ep   uint32
	l    []any
	obj  object
	race byte
}

func (p *PoolState) fresh() {
	if p.ep != ex.serial {
		p.ep = ex.serial
		p.l = nil
		p.obj = object{}
	}
}

func (p *PoolState) Get() (any, bool) {
	if dead() {
		return nil, false
	}
	e, t := me()
	p.fresh()
	t.kind = opPoint
	t.lbl = "pool.Get"
	e.point(t)
	e.touch(t, &p.obj, 'g')
	raceAcquire(unsafe.Pointer(&p.race))
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v, true
	}
	return nil, false
}

func (p *PoolState) Put(v any) {
	if dead() {
		return
	}
	e, t := me()
	p.fresh()
	t.kind = opPoint
	t.lbl = "pool.Put"
	e.point(t)
	e.touch(t, &p.obj, 'p')
	raceReleaseMerge(unsafe.Pointer(&p.race))
	p.l = append(p.l, v)
}

// MapState is the content of a sync.Map (a list, because instrumented runtime maps would look like races).
type MapState struct {
	ep   uint32
	ks   []any
	vs   []any
	obj  object
	race byte
}

func (m *MapState) fresh() {
	if ex != nil && m.ep != ex.serial {
		m.ep = ex.serial
		m.ks, m.vs = nil, nil
		m.obj = object{}
	}
}

// Point is the visible point before an operation.
func (m *MapState) Point(write bool) {
	if dead() {
		return
	}
	e, t := me()
	m.fresh()
	t.kind = opPoint
	t.lbl = "sync.Map"
	e.point(t)
	if write {
		e.touch(t, &m.obj, 'm')
		raceAcquire(unsafe.Pointer(&m.race))
		raceReleaseMerge(unsafe.Pointer(&m.race))
	} else {
		e.touchR(t, &m.obj, 'l')
		raceAcquire(unsafe.Pointer(&m.race))
	}
}

func (m *MapState) Load(k any) (any, bool) {
	for i := range m.ks {
		if m.ks[i] == k {
			return m.vs[i], true
		}
	}
	return nil, false
}

func (m *MapState) Store(k, v any) {
	for i := range m.ks {
		if m.ks[i] == k {
			m.vs[i] = v
			return
		}
	}
	m.ks = append(m.ks, k)
	m.vs = append(m.vs, v)
}

func (m *MapState) Delete(k any) {
	for i := range m.ks {
		if m.ks[i] == k {
			var ks, vs []any
			for j := range m.ks {
				if j != i {
					ks = append(ks, m.ks[j])
					vs = append(vs, m.vs[j])
				}
			}
			m.ks, m.vs = ks, vs
			return
		}
	}
}

func (m *MapState) Clear() { m.ks, m.vs = nil, nil }

func (m *MapState) Keys() []any {
	var ks []any
	for _, k := range m.ks {
		ks = append(ks, k)
	}
	return ks
}
