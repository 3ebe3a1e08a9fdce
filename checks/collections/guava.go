package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/lin"
	"verif/vrt"
)

// ---- the specification of GuavaMap as a sequential machine over virtual time ----

type gcfg struct {
	name        string
	max         int
	read, write time.Duration
	loader      bool // keys 0 and 1 load, key 2 fails
	lock        bool
	unload      bool
	alpha       []gop
	pre         []gop // executed before every sequence
	nest        bool  // loaders, update functions and unload callbacks use the cache themselves
}

const maxKeys = 5

type gstate struct {
	now  int64
	val  [maxKeys]int16
	dl   [maxKeys]int64
	ord  [maxKeys + 1]int8
	n    int8
	unl  uint64 // commutative hash of the unload calls
	used uint64 // loads that were stored
}

func unlHash(k, v int) uint64 {
	h := uint64(k*1000+v+1) * 0x9E3779B97F4A7C15
	return h ^ h>>31
}

func (s *gstate) remove(k int) {
	s.unl += unlHash(k, int(s.val[k]))
	s.val[k], s.dl[k] = 0, 0
	j := int8(0)
	for i := int8(0); i < s.n; i++ {
		if int(s.ord[i]) != k {
			s.ord[j] = s.ord[i]
			j++
		}
	}
	for i := j; i < s.n; i++ {
		s.ord[i] = 0
	}
	s.n = j
}

// at emits the states that the entries' expiry can lead to at time t: past deadlines have passed, a
// deadline that is just now may have taken effect or not.
func (s gstate) at(t int64, f func(gstate)) {
	if t < s.now {
		return
	}
	s.now = t
	opt := 0
	for k := 0; k < maxKeys; k++ {
		if s.val[k] != 0 && s.dl[k] != 0 {
			if s.dl[k] < t {
				s.remove(k)
			} else if s.dl[k] == t {
				opt |= 1 << k
			}
		}
	}
	for m := opt; ; m = (m - 1) & opt { // all subsets
		n := s
		for k := 0; k < maxKeys; k++ {
			if m&(1<<k) != 0 {
				n.remove(k)
			}
		}
		f(n)
		if m == 0 {
			break
		}
	}
}

func (c *gcfg) writeDL(t int64) int64 {
	if c.write > 0 {
		return t + int64(c.write)
	}
	if c.read > 0 {
		return t + int64(c.read)
	}
	return 0
}

func (c *gcfg) put(s gstate, k, v int, f func(gstate)) {
	if s.val[k] == 0 {
		if c.max > 0 && int(s.n) >= c.max {
			s.remove(int(s.ord[0]))
		}
		s.ord[s.n] = int8(k)
		s.n++
	}
	s.val[k] = int16(v)
	s.dl[k] = c.writeDL(s.now)
	f(s)
}

// touch is a read of a present entry: it extends the entry's life, except that a read at the very moment
// the entry expires may also come too late to keep it.
func (c *gcfg) touch(s gstate, k int, f func(gstate)) {
	if c.read > 0 && s.dl[k] != 0 {
		n := s
		n.dl[k] = s.now + int64(c.read)
		f(n)
		if s.dl[k] == s.now {
			f(s)
		}
		return
	}
	f(s)
}

func (c *gcfg) step(s gstate, o *vrt.HistOp, emit func(gstate)) {
	c.stepAt(s, o, o.TCall, emit)
	if o.Ret != 0 && o.TRet != o.TCall {
		c.stepAt(s, o, o.TRet, emit)
	}
}

func (c *gcfg) stepAt(s gstate, o *vrt.HistOp, t int64, emit func(gstate)) {
	done := o.Ret != 0
	s.at(t, func(s gstate) {
		k, _ := o.A.(int)
		switch o.Name {
		case "Get":
			e, _ := o.R1.(int)
			r, _ := o.R0.(int)
			if s.val[k] != 0 {
				if !done || (e == 0 && r == int(s.val[k])) {
					c.touch(s, k, emit)
				}
				return
			}
			if !c.loader {
				if !done || (e == 0 && r == 0) {
					emit(s)
				}
				return
			}
			if e != 0 {
				if r == 0 && k == 2 {
					emit(s)
				}
				return
			}
			if r >= 100 && (r-100)/16 == k && s.used&(1<<((r-100)%16%12+12*k)) == 0 {
				s.used |= 1 << ((r-100)%16%12 + 12*k)
				c.put(s, k, r, emit)
			}
		case "Set":
			c.put(s, k, o.B.(int), emit)
		case "LFU":
			if !done || o.R0.(int) == o.B.(int) {
				c.put(s, k, o.B.(int), emit)
			}
		case "Has":
			if !done || o.R0.(bool) == (s.val[k] != 0) {
				if s.val[k] != 0 {
					c.touch(s, k, emit)
				} else {
					emit(s)
				}
			}
		case "HoC":
			if s.val[k] != 0 {
				if !done || o.R0.(bool) {
					c.touch(s, k, emit)
				}
			} else if !done || !o.R0.(bool) {
				c.put(s, k, o.B.(int), emit)
			}
		case "Delete":
			if s.val[k] != 0 {
				s.remove(k)
			}
			emit(s)
		case "Clear":
			for i := range s.val {
				if s.val[i] != 0 {
					s.remove(i)
				}
			}
			emit(s)
		case "Size":
			n := 0
			for i := range s.val {
				if s.val[i] != 0 {
					n++
				}
			}
			if !done || n == o.R0.(int) {
				emit(s)
			}
		case "Stored":
			p := 0
			for i := maxKeys - 1; i >= 0; i-- {
				p = p*1000 + int(s.val[i])
			}
			if !done || p == o.R0.(int) {
				emit(s)
			}
		default:
			emit(s)
		}
	})
}

// ---- driving the real cache ----

type grun struct {
	x *X
	c *gcfg
	m *collections.GuavaMap[int, int]
	n *vrt.Cell
	t int // goroutines of the cache itself
}

var errLoad = errors.New("load failed")

func newGuava(x *X, c *gcfg) *grun {
	r := &grun{x: x, c: c, n: x.NewCell()}
	b := collections.NewGuavaMap[int, int]().WithMaxCount(c.max).WithReadTimeout(c.read).WithWriteTimeout(c.write).WithLockLoad(c.lock)
	if c.loader {
		b = b.WithLoadFunc(func(k int) (int, error) {
			i := x.Call("load", k, nil)
			n := int(r.n.Add(1)) - 1
			v := 100 + 16*k + n
			if k == 2 {
				x.Ret(i, 0, 1)
				return v, errLoad
			}
			x.Point()
			if c.nest && k == 0 {
				r.do(gop{k: 'g', key: 1}, 0)
			}
			x.Ret(i, v, 0)
			return v, nil
		})
	}
	if c.unload {
		b = b.WithUnloadFunc(func(k, v int) {
			x.Ev("unload", k, v)
			if c.nest {
				r.do(gop{k: 'h', key: k}, 0)
				r.do(gop{k: 'S'}, 0)
			}
		})
	}
	r.m = b.Build()
	x.Settle()
	r.t = x.Threads()
	return r
}

// quiet is called when everything has settled: only entries that are still there may have a goroutine each
// (one more is granted to the cache itself).
func (r *grun) quiet() {
	if r.c.read > 0 || r.c.write > 0 {
		if n := r.x.Threads() - r.t; n > r.m.Size()+1 {
			r.x.Failf("%d goroutines are left for %d entries (%s)\n%s", n, r.m.Size(), r.c.name, r.x.LiveDump())
		}
	}
}

func (r *grun) do(o gop, v int) {
	x, m := r.x, r.m
	switch o.k {
	case 'g':
		i := x.Call("Get", o.key, nil)
		v, err := m.Get(o.key)
		e := 0
		if err != nil {
			e = 1
		}
		x.Ret(i, v, e)
	case 's':
		i := x.Call("Set", o.key, v)
		m.Set(o.key, v)
		x.Ret(i, nil, nil)
	case 'h':
		i := x.Call("Has", o.key, nil)
		x.Ret(i, m.Has(o.key), nil)
	case 'c':
		i := x.Call("HoC", o.key, v)
		x.Ret(i, m.HasOrCreate(o.key, v), nil)
	case 'd':
		i := x.Call("Delete", o.key, nil)
		m.Delete(o.key)
		x.Ret(i, nil, nil)
	case 'C':
		i := x.Call("Clear", nil, nil)
		m.Clear()
		x.Ret(i, nil, nil)
	case 'z':
		i := x.Call("Size", nil, nil)
		x.Ret(i, m.Size(), nil)
	case 'S':
		i := x.Call("Stored", nil, nil)
		x.Ret(i, packMap(m.GetStored()), nil)
	case 'u':
		i := x.Call("LFU", o.key, v)
		x.Ret(i, m.LockForUpdate(o.key, func() int {
			if r.c.nest && o.key == 0 {
				r.do(gop{k: 'g', key: 1}, 0)
			}
			return v
		}), nil)
	case 'w':
		x.Sleep(o.d)
	}
}

func (r *grun) judge() {
	x := r.x
	lin.Once(x, salt(r.c.name)^uint64(r.c.max*7919)^uint64(r.c.read)<<8^uint64(r.c.write)<<3, func() {
		var want uint64
		if r.c.unload {
			for _, e := range x.Events() {
				if e.Name == "unload" {
					want += unlHash(e.A.(int), e.B.(int))
				}
			}
		}
		// loads are not operations of the cache
		ops := make([]vrt.HistOp, 0, 16)
		for _, o := range x.Hist() {
			if o.Name != "load" {
				ops = append(ops, o)
			}
		}
		if !lin.Check(ops, gstate{}, r.c.step, nil) {
			x.Fail("results are not those of one map (" + r.c.name + ")")
		}
		end := int64(x.Now())
		if r.c.unload && !lin.Check(ops, gstate{}, r.c.step, func(s gstate) bool {
			ok := false
			s.at(end, func(n gstate) { ok = ok || n.unl == want })
			return ok
		}) {
			x.Fail("unload calls do not match the entries that left (" + r.c.name + ")")
		}
	})
}

func (c gcfg) seq(depth int, tail time.Duration) func(x *X) {
	return func(x *X) {
		r := newGuava(x, &c)
		for i, o := range c.pre {
			r.do(o, gval(9, i))
		}
		seqRun(x, c.alpha, depth, r.do, func() {
			x.Settle()
			r.do(gop{k: 'S'}, 0)
			r.do(gop{k: 'z'}, 0)
			r.quiet()
		})
		if tail > 0 {
			x.Sleep(tail)
			r.do(gop{k: 'S'}, 0)
		}
		x.Settle()
		r.judge()
	}
}

func (c gcfg) par(pre []gop, shape []int, obs ...gop) func(x *X) {
	return func(x *X) {
		r := newGuava(x, &c)
		parRun(x, c.alpha, pre, shape, obs, r.do)
		r.quiet()
		r.judge()
	}
}

func init() {
	obs := ops("S z g0 g1 S")
	// C02: concurrent atomicity
	for _, ld := range []bool{true, false} {
		n := "noload"
		if ld {
			n = "load"
		}
		full := gcfg{name: n, loader: ld, unload: true, alpha: ops("g0 s0 d0 c0 h0 C z S u0 g1 s1 c1 d1")}
		add("C02", S{Name: n + "/2x1", Bound: 5, BoundT: 9}, full.par(nil, []int{1, 1}, obs...))
		add("C02", S{Name: n + "/2x1+present", Bound: 5, BoundT: 9}, full.par(ops("s0"), []int{1, 1}, obs...))
		core := gcfg{name: n, loader: ld, unload: true, alpha: ops("g0 s0 d0 c0 C S u0 g1")}
		add("C02", S{Name: n + "/2x2", Bound: 2, BoundT: 4, Shards: 8}, core.par(nil, []int{2, 2}, obs...))
		add("C02", S{Name: n + "/2x2+present", Bound: 2, BoundT: 4, Shards: 8}, core.par(ops("s0"), []int{2, 2}, obs...))
		add("C02", S{Name: n + "/3x1", Bound: 2, BoundT: 5, Shards: 8}, full.par(nil, []int{1, 1, 1}, obs...))
		add("C02", S{Name: n + "/3x1+present", Bound: 2, BoundT: 5, Shards: 8}, full.par(ops("s0"), []int{1, 1, 1}, obs...))
		add("C02", S{Name: n + "/3,2,1", Thor: true, BoundT: 2, Shards: 32}, core.par(nil, []int{3, 2, 1}, obs...))
		add("C02", S{Name: n + "/seq4", Bound: 0, BoundT: 0, Shards: 4}, full.seq(4, 0))
		add("C02", S{Name: n + "/seq5", Thor: true, Shards: 16}, full.seq(5, 0))
	}
	for _, lock := range []bool{false, true} {
		n := "nested"
		if lock {
			n += ", load lock"
		}
		c := gcfg{name: n, loader: true, lock: lock, nest: true, alpha: ops("g0 g1 u0 u1 s1 d0 C")}
		add("C02", S{Name: n + "/2x1", Bound: 2, BoundT: 4, Shards: 4}, c.par(nil, []int{1, 1}, obs...))
		add("C02", S{Name: n + "/1x3", Shards: 4}, c.par(nil, []int{3}, obs...))
		c.max = 1
		add("C02", S{Name: n + ", max1/2x1", Bound: 2, BoundT: 4, Shards: 4}, c.par(nil, []int{1, 1}, obs...))
		c.unload, c.alpha = true, ops("s0 s1 d0 C c2 g0 u1 w3")
		for max := 0; max <= 2; max += 2 {
			c.max, c.write = max, 3*sec
			add("C04", S{Name: fmt.Sprintf("%s, max%d/seq3", n, max), Shards: 4}, c.seq(3, 10*sec))
			add("C04", S{Name: fmt.Sprintf("%s, max%d/2x1", n, max), Bound: 1, BoundT: 3, Shards: 4}, c.par(ops("s0"), []int{1, 1}, ops("S")...))
		}
	}
	lk := gcfg{name: "load lock", loader: true, lock: true, unload: true, alpha: ops("g0 s0 d0 c0 h0 C u0 g1 S")}
	add("C02", S{Name: "load lock/2x1", Bound: 4, BoundT: 9}, lk.par(nil, []int{1, 1}, obs...))
	add("C02", S{Name: "load lock/2x2", Bound: 1, BoundT: 3, Shards: 8}, lk.par(nil, []int{2, 2}, obs...))
	add("C02", S{Name: "load lock/2x2+present", Bound: 1, BoundT: 3, Shards: 8}, lk.par(ops("s0"), []int{2, 2}, obs...))
	add("C02", S{Name: "load lock/3x1", Bound: 2, BoundT: 4, Shards: 8}, lk.par(nil, []int{1, 1, 1}, obs...))
	add("C02", S{Name: "load lock/seq4", Shards: 4}, lk.seq(4, 0))
	bad := gcfg{name: "load error", loader: true, alpha: ops("g2 s2 d2 c2 u2 g0 h2")}
	add("C02", S{Name: "loaderr/2x2", Bound: 2, BoundT: 4, Shards: 4}, bad.par(nil, []int{2, 2}, ops("S z g2 S")...))
	tm := gcfg{name: "timeouts", loader: true, unload: true, read: 3 * sec, write: 5 * sec, max: 2, alpha: ops("g0 s0 d0 c0 h0 C S u0 g1 z")}
	add("C02", S{Name: "timed/2x1+present", Bound: 3, BoundT: 6, Shards: 2}, tm.par(ops("s0"), []int{1, 1}, obs...))
	add("C02", S{Name: "timed/2x2+present", Thor: true, BoundT: 2, Shards: 16}, tm.par(ops("s0"), []int{2, 2}, obs...))
	add("C02", S{Name: "timed/3x1", Bound: 1, BoundT: 3, Shards: 8}, tm.par(ops("s0"), []int{1, 1, 1}, obs...))

	// C03: capacity and eviction order
	for max := 1; max <= 3; max++ {
		c := gcfg{name: fmt.Sprint("max ", max), max: max, loader: true, unload: true, alpha: ops("s0 s1 s2 c0 c1 c2 g0 g1 g2 u0 u1 u2 d0 d1 d2 C h0")}
		add("C03", S{Name: fmt.Sprintf("max%d/seq4", max), Shards: 8}, c.seq(4, 0))
		add("C03", S{Name: fmt.Sprintf("max%d/seq5", max), Shards: 32, Thor: true, MaxT: 10e6}, c.seq(5, 0))
		d := gcfg{name: fmt.Sprint("max ", max), max: max, loader: true, unload: true, alpha: ops("s0 s1 s2 c0 g0 g1 u0 d0")}
		add("C03", S{Name: fmt.Sprintf("max%d/seq6", max), Shards: 8, Max: 1e6}, d.seq(6, 0))
		add("C03", S{Name: fmt.Sprintf("max%d/seq7", max), Shards: 32, Thor: true, MaxT: 10e6}, d.seq(7, 0))
		if max == 3 {
			continue
		}
		p := gcfg{name: fmt.Sprint("max ", max), max: max, loader: true, unload: true, alpha: ops("s0 s1 s2 c1 g1 u1 d0 C")}
		add("C03", S{Name: fmt.Sprintf("max%d/2x2", max), Bound: 1, BoundT: 3, Shards: 8}, p.par(ops("s0"), []int{2, 2}, ops("S z s2 S s1 S")...))
		add("C03", S{Name: fmt.Sprintf("max%d/3x1", max), Bound: 2, BoundT: 4, Shards: 4}, p.par(ops("s0"), []int{1, 1, 1}, ops("S z s2 S s1 S")...))
		q := gcfg{name: fmt.Sprint("max ", max, " timeouts"), max: max, loader: true, unload: true, write: 3 * sec, alpha: ops("s0 s1 s2 c0 u1 g1 d0 w2 w4")}
		add("C03", S{Name: fmt.Sprintf("max%d/timed/seq5", max), Shards: 8}, q.seq(5, 0))
		add("C03", S{Name: fmt.Sprintf("max%d/timed/seq6", max), Shards: 32, Thor: true}, q.seq(6, 0))
	}

	for max := 0; max <= 2; max++ {
		{
			max := max
			for way, name := range []string{"", "/cleared", "/evicted"} {
				way := way
				if way == 2 && max == 0 {
					continue
				}
				add("C03", S{Name: fmt.Sprintf("max%d/memory%s", max, name), Steps: 1e7}, memory(func() func(i int) {
					b := collections.NewGuavaMap[bigKey, int]().WithMaxCount(max).WithLoadFunc(func(bigKey) (int, error) { return 1, nil })
					m := b.Build()
					return func(i int) {
						k := bigKey{i}
						del := func() {
							switch way {
							case 0:
								m.Delete(k)
							case 1:
								if i%8 == 0 {
									m.Clear()
								}
							}
							k[1]++
						}
						m.Set(k, 1)
						del()
						m.HasOrCreate(k, 2)
						del()
						m.Get(k)
						del()
						m.LockForUpdate(k, func() int { return 3 })
						del()
					}
				}))
			}
		}
	}
	for max := 1; max <= 2; max++ { // without loader and unload function
		c := gcfg{name: fmt.Sprint("plain max ", max), max: max, alpha: ops("s0 s1 s2 c0 c1 g0 g2 u0 d0 C h1")}
		add("C03", S{Name: fmt.Sprintf("max%d/plain/seq4", max), Shards: 4}, c.seq(4, 0))
		add("C03", S{Name: fmt.Sprintf("max%d/plain/seq6", max), Shards: 16, Thor: true}, c.seq(6, 0))
	}
	// departures from the middle of a full cache
	full3 := gcfg{name: "max 3 filled", max: 3, loader: true, unload: true, pre: ops("s0 c1 g0 s3"), alpha: ops("s4 c2 g0 g1 u4 d0 d1 d3 s0")}
	add("C03", S{Name: "max3/filled/seq4", Shards: 4}, full3.seq(4, 0))
	add("C03", S{Name: "max3/filled/seq5", Shards: 16, Thor: true}, full3.seq(5, 0))
	full4 := gcfg{name: "max 4 filled", max: 4, unload: true, pre: ops("s0 c1 s2 u3"), alpha: ops("s4 c4 d0 d1 d2 d3 s1 u0")}
	add("C03", S{Name: "max4/filled/seq4", Shards: 4}, full4.seq(4, 0))
	add("C03", S{Name: "max4/filled/seq6", Shards: 16, Thor: true}, full4.seq(6, 0))

	// the same with load locking, and a cache whose entries expire from the middle
	lk3 := gcfg{name: "max 2, load lock", max: 2, loader: true, lock: true, unload: true, write: 3 * sec, alpha: ops("s0 s1 g0 g1 g2 c0 u1 d0 w2")}
	add("C03", S{Name: "max2/load lock/seq4", Shards: 4}, lk3.seq(4, 0))
	add("C03", S{Name: "max2/load lock/seq6", Shards: 16, Thor: true}, lk3.seq(6, 0))
	add("C03", S{Name: "max2/load lock/2x2", Bound: 1, BoundT: 2, Shards: 8}, lk3.par(ops("s0"), []int{2, 2}, ops("S z s2 S s1 S")...))
	exp3 := gcfg{name: "max 3, expiring", max: 3, loader: true, unload: true, read: 5 * sec, write: 3 * sec, pre: ops("s0 w1 c1 w1 s3 g0"), alpha: ops("s4 g1 u0 d3 c2 w1 w2 h0")}
	add("C03", S{Name: "max3/expiring/seq4", Shards: 4}, exp3.seq(4, 10*sec))
	add("C03", S{Name: "max3/expiring/seq5", Shards: 16, Thor: true}, exp3.seq(5, 10*sec))

	// C04: unload calls
	for _, lock := range []bool{false, true} {
		c := gcfg{name: fmt.Sprint("unload max 3 filled, load lock ", lock), max: 3, loader: true, lock: lock, unload: true, write: 3 * sec, pre: ops("s0 w1 c1 w1 s3 g0"), alpha: ops("s4 s0 g1 g2 u0 u4 d0 d3 d1 C w1 w2")}
		add("C04", S{Name: fmt.Sprintf("max3,lock %v/filled/seq4", lock), Shards: 4}, c.seq(4, 10*sec))
		add("C04", S{Name: fmt.Sprintf("max3,lock %v/filled/seq5", lock), Shards: 16, Thor: true}, c.seq(5, 10*sec))
	}
	for _, tmo := range []time.Duration{0, 3 * sec} {
		for max := 0; max <= 1; max++ {
			c := gcfg{name: fmt.Sprint("unload max ", max, " timeout ", tmo), max: max, loader: true, unload: true, write: tmo, alpha: ops("s0 d0 d1 C c1 g0 u0 h0")}
			if tmo > 0 {
				c.alpha = append(c.alpha, ops("w2 w4")...)
			}
			nm := fmt.Sprintf("max%d,timeout%d", max, tmo/sec)
			add("C04", S{Name: nm + "/seq5", Shards: 8}, c.seq(5, 10*sec))
			add("C04", S{Name: nm + "/seq6", Shards: 16, Thor: true}, c.seq(6, 10*sec))
			p := gcfg{name: c.name, max: max, loader: true, unload: true, write: tmo, alpha: ops("s0 d0 C c1 g0 u0")}
			add("C04", S{Name: nm + "/2x2", Bound: 1, BoundT: 3, Shards: 8}, p.par(ops("s0"), []int{2, 2}, ops("S C S")...))
			if tmo > 0 { // removals just when the entry expires
				e := gcfg{name: c.name, max: max, loader: true, unload: true, write: tmo, alpha: ops("s0 d0 C c1 g0 u0 c0")}
				add("C04", S{Name: nm + "/expiring/2x1", Bound: 3, BoundT: 6, Shards: 4}, e.par(ops("s0 w3"), []int{1, 1}, ops("S w3 S w1 S")...))
				add("C04", S{Name: nm + "/expiring/2x2", Thor: true, BoundT: 2, Shards: 16}, e.par(ops("s0 w3"), []int{2, 2}, ops("S w3 S w1 S")...))
			}
		}
	}

	// C05: expiry
	for _, t := range [][2]time.Duration{{3, 0}, {0, 3}, {3, 5}, {5, 3}} {
		c := gcfg{name: fmt.Sprint("filled read ", t[0], " write ", t[1]), max: 3, loader: true, lock: true, unload: true, read: t[0] * sec, write: t[1] * sec, pre: ops("s0 w1 c1 w1 s3 g0"), alpha: ops("s4 s0 g1 g2 u0 d0 d1 h3 w1 w2")}
		add("C05", S{Name: fmt.Sprintf("r%d,w%d,max3/filled/seq4", t[0], t[1]), Shards: 4}, c.seq(4, 10*sec))
		add("C05", S{Name: fmt.Sprintf("r%d,w%d,max3/filled/seq5", t[0], t[1]), Shards: 16, Thor: true}, c.seq(5, 10*sec))
	}
	for _, t := range [][2]time.Duration{{3, 0}, {0, 3}, {3, 5}, {5, 3}, {0, 0}} {
		for max := 0; max <= 1; max++ {
			c := gcfg{name: fmt.Sprint("read ", t[0], " write ", t[1], " max ", max), max: max, loader: true, unload: true, read: t[0] * sec, write: t[1] * sec, alpha: ops("s0 c0 g0 h0 u0 d0 C s1 w2 w4")}
			nm := fmt.Sprintf("r%d,w%d,max%d", t[0], t[1], max)
			if t[0]+t[1] == 0 {
				c.alpha = ops("s0 c0 g0 d0 w9")
			}
			add("C05", S{Name: nm + "/seq4", Shards: 4}, c.seq(4, 20*sec))
			d := c
			d.unload, d.loader, d.alpha = false, false, ops("s0 s1 c0 g0 u0 d0 C w2")
			add("C05", S{Name: nm + "/plain/seq4", Shards: 4}, d.seq(4, 20*sec))
			add("C05", S{Name: nm + "/plain/seq5", Shards: 4, Thor: true}, d.seq(5, 20*sec))
			d = c
			d.alpha = ops("s0 g0 h0 u0 d0 w2")
			add("C05", S{Name: nm + "/seq6", Shards: 4}, d.seq(6, 20*sec))
			add("C05", S{Name: nm + "/seq8", Shards: 16, Thor: true, MaxT: 10e6}, d.seq(8, 20*sec))
			add("C05", S{Name: nm + "/full/seq6", Shards: 32, Thor: true, MaxT: 10e6}, c.seq(6, 20*sec))
			if t[0]+t[1] == 0 {
				continue
			}
			e := c
			first := t[1]
			if first == 0 {
				first = t[0]
			}
			e.alpha = ops("s0 d0 C g0 h0 u0 c0 s1")
			pre := append(ops("s0"), gop{k: 'w', d: first * sec})
			tail := ops("S w1 S w1 S w1 S w1 S w1 S")
			for _, as := range []bool{false, true} {
				n2 := nm
				if as {
					n2 += ",old timers"
				}
				add("C05", S{Name: n2 + "/expiring/2x1", Bound: 2, BoundT: 5, Shards: 4, Async: as}, e.par(pre, []int{1, 1}, tail...))
				add("C05", S{Name: n2 + "/expiring/1x2", Bound: 2, BoundT: 5, Shards: 4, Async: as}, e.par(pre, []int{2}, tail...))
				add("C05", S{Name: n2 + "/expiring/2x2", Thor: true, BoundT: 2, Shards: 16, Async: as}, e.par(pre, []int{2, 2}, tail...))
			}
		}
	}
}
