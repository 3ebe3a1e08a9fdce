package main

import (
	"crypto/md5"
	"errors"
	"fmt"
	"hash/maphash"
	"strings"

	"github.com/axgrid/axutils/collections"

	"verif/lin"
	"verif/vrt"
	"verif/vrt/vcontext"
)

var nameSeed = maphash.MakeSeed()

func salt(s string) uint64 { return maphash.String(nameSeed, s) }

// prog runs programs on an object made afresh for each execution and compares with a sequential specification
type prog[T comparable] struct {
	name  string
	pre   []gop // executed before every sequence
	alpha []gop
	obs   []gop
	init  T
	mk    func(x *X) func(gop, int)
	step  func(s T, o *vrt.HistOp, emit func(T))
	post  func(x *X) // more checks on history and events
}

func (p *prog[T]) judge(x *X) {
	lin.Once(x, salt(p.name), func() {
		if p.post != nil {
			p.post(x)
		}
		ops := make([]vrt.HistOp, 0, 24)
		for _, o := range x.Hist() {
			if o.Name != "" {
				ops = append(ops, o)
			}
		}
		if !lin.Check(ops, p.init, p.step, nil) {
			x.Fail("results do not agree with any order of the operations (" + p.name + ")")
		}
	})
}

func (p prog[T]) seq(depth int, each ...gop) func(x *X) {
	return func(x *X) {
		do := p.mk(x)
		for i, o := range p.pre {
			do(o, gval(9, i))
		}
		seqRun(x, p.alpha, depth, do, func() {
			for _, o := range each {
				do(o, 0)
			}
		})
		for _, o := range p.obs {
			do(o, 90)
		}
		p.judge(x)
	}
}

func (p prog[T]) par(pre []gop, shape ...int) func(x *X) {
	return func(x *X) {
		parRun(x, p.alpha, pre, shape, p.obs, p.mk(x))
		p.judge(x)
	}
}

// ---- C07 HashSet ----

type hstate struct {
	ord [6]int8 // members plus one, oldest first
}

func (s *hstate) has(k int) bool {
	for _, v := range s.ord {
		if int(v) == k+1 {
			return true
		}
	}
	return false
}

func (s *hstate) del(k int) {
	var n [6]int8
	j := 0
	for _, v := range s.ord {
		if v != 0 && int(v) != k+1 {
			n[j] = v
			j++
		}
	}
	s.ord = n
}

func (s *hstate) count() int {
	n := 0
	for _, v := range s.ord {
		if v != 0 {
			n++
		}
	}
	return n
}

func (s *hstate) add(k, max int) {
	if s.has(k) {
		return
	}
	if max > 0 && s.count() >= max {
		s.del(int(s.ord[0]) - 1)
	}
	s.ord[s.count()] = int8(k + 1)
}

func (s *hstate) keys() int {
	r := 0
	for _, v := range s.ord {
		if v != 0 {
			r |= 1 << (v - 1)
		}
	}
	return r
}

func hashSet(name string, max int, alpha, obs []gop) prog[hstate] {
	return prog[hstate]{name: name, alpha: alpha, obs: obs,
		mk: func(x *X) func(gop, int) {
			m := collections.NewHashSet[int]().WithMaxCount(max).Build()
			return func(o gop, v int) {
				switch o.k {
				case 'a':
					i := x.Call("Add", o.key, nil)
					m.Add(o.key)
					x.Ret(i, nil, nil)
				case 'c':
					i := x.Call("HoC", o.key, nil)
					x.Ret(i, m.HasOrCreate(o.key), nil)
				case 'h':
					i := x.Call("Has", o.key, nil)
					x.Ret(i, m.Has(o.key), nil)
				case 'd':
					i := x.Call("Delete", o.key, nil)
					m.Delete(o.key)
					x.Ret(i, nil, nil)
				case 'z':
					i := x.Call("Count", nil, nil)
					x.Ret(i, m.Count(), nil)
				case 'S':
					i := x.Call("Keys", nil, nil)
					ks := m.Keys()
					r := packKeys(ks)
					for j := range ks { // the result belongs to the caller
						ks[j] = 15
					}
					x.Ret(i, r, nil)
				case 'C':
					i := x.Call("Clear", nil, nil)
					m.Clear()
					x.Ret(i, nil, nil)
				}
			}
		},
		step: func(s hstate, o *vrt.HistOp, emit func(hstate)) {
			done := o.Ret != 0
			k, _ := o.A.(int)
			switch o.Name {
			case "Add":
				s.add(k, max)
			case "HoC":
				if done && o.R0.(bool) != s.has(k) {
					return
				}
				s.add(k, max)
			case "Has":
				if done && o.R0.(bool) != s.has(k) {
					return
				}
			case "Delete":
				s.del(k)
			case "Count":
				if done && o.R0.(int) != s.count() {
					return
				}
			case "Keys":
				if done && o.R0.(int) != s.keys() {
					return
				}
			case "Clear":
				s = hstate{}
			}
			emit(s)
		}}
}

// ---- C10 maps ----

type mstate [3]int16 // value plus one

func mapProg(name string, mk func() collections.Map[int, int], shard func(int) int, shards int, alpha, obs []gop) prog[mstate] {
	return prog[mstate]{name: name, alpha: alpha, obs: obs,
		mk: func(x *X) func(gop, int) {
			m := mk()
			b := func(v bool) int {
				if v {
					return 1
				}
				return 0
			}
			return func(o gop, v int) {
				switch o.k {
				case 'g':
					i := x.Call("Get", o.key, nil)
					r, ok := m.Get(o.key)
					x.Ret(i, r, b(ok))
				case 's':
					i := x.Call("Set", o.key, v)
					m.Set(o.key, v)
					x.Ret(i, nil, nil)
				case 'd':
					i := x.Call("Delete", o.key, nil)
					m.Delete(o.key)
					x.Ret(i, nil, nil)
				case 'h':
					i := x.Call("Has", o.key, nil)
					x.Ret(i, b(m.Has(o.key)), nil)
				case 'c':
					i := x.Call("SetNX", o.key, v)
					x.Ret(i, b(m.SetIfNotExists(o.key, v)), nil)
				case 'f':
					i := x.Call("SetNXF", o.key, v)
					n := 0
					r, ok := m.SetIfNotExistsWithFunc(o.key, func() int {
						n++
						x.Point()
						return v
					})
					x.Check(n == b(ok), "the function runs for a caller that did not store its value, or more than once")
					x.Ret(i, r, b(ok))
				case 'z':
					i := x.Call("Size", nil, nil)
					x.Ret(i, m.Size(), nil)
				case 'C':
					c := m.(interface{ Clear() })
					// one pseudo operation per shard in use
					var is []int
					used := map[int]bool{}
					for k := 0; k < 3; k++ {
						j := shard(k)
						if used[j] {
							continue
						}
						used[j] = true
						if k == 0 {
							is = append(is, x.Call("Clear", j, nil))
						} else {
							is = append(is, x.CallQuiet("Clear", j, nil))
						}
					}
					c.Clear()
					for _, i := range is {
						x.Ret(i, nil, nil)
					}
				}
			}
		},
		step: func(s mstate, o *vrt.HistOp, emit func(mstate)) {
			done := o.Ret != 0
			k, _ := o.A.(int)
			r0, _ := o.R0.(int)
			r1, _ := o.R1.(int)
			set := func() { s[k] = int16(o.B.(int)) + 1 }
			switch o.Name {
			case "Get":
				if done && !(s[k] != 0 && r1 == 1 && r0 == int(s[k])-1 || s[k] == 0 && r1 == 0 && r0 == 0) {
					return
				}
			case "Set":
				set()
			case "Delete":
				s[k] = 0
			case "Has":
				if done && (r0 == 1) != (s[k] != 0) {
					return
				}
			case "SetNX":
				if done && (r0 == 1) != (s[k] == 0) {
					return
				}
				if s[k] == 0 {
					set()
				}
			case "SetNXF":
				if s[k] != 0 {
					if done && (r1 != 0 || r0 != int(s[k])-1) {
						return
					}
				} else {
					if done && (r1 != 1 || r0 != o.B.(int)) {
						return
					}
					set()
				}
			case "Size":
				n := 0
				for _, v := range s {
					if v != 0 {
						n++
					}
				}
				if done && n != r0 && o.B == nil {
					return
				}
			case "Clear":
				for i := range s {
					if shard(i) == k {
						s[i] = 0
					}
				}
			}
			emit(s)
		},
		post: func(x *X) {
			if shards < 2 {
				return
			}
			h := x.Hist()
			for i := range h {
				if h[i].Name != "Size" {
					continue
				}
				for j := range h {
					switch h[j].Name {
					case "Set", "Delete", "SetNX", "SetNXF", "Clear":
						if overlap(&h[i], &h[j]) {
							h[i].B = true // the shards are counted one after the other
						}
					}
				}
			}
		}}
}

// ---- C19 TwoKeyMap ----

type tstate struct {
	v  [3]int16 // value plus one, by first key
	k2 [3]int8  // second key plus one, by first key
}

func (s *tstate) owner(k2 int) int {
	for i, k := range s.k2 {
		if int(k) == k2+1 {
			return i
		}
	}
	return -1
}

func twoKey(name string, alpha, obs []gop) prog[tstate] {
	return prog[tstate]{name: name, alpha: alpha, obs: obs,
		mk: func(x *X) func(gop, int) {
			m := collections.NewTwoKeyMap[int, string, int]()
			str := []string{"", "b", "c"}
			num := map[string]int{"": 0, "b": 1, "c": 2}
			return func(o gop, v int) {
				switch o.k {
				case 'p':
					i := x.Call("Put", o.key*3+o.key2, v)
					m.Put(o.key, str[o.key2], v)
					x.Ret(i, nil, nil)
				case 'g':
					i := x.Call("Get", o.key, nil)
					r, ok := m.Get(o.key)
					x.Ret(i, r, ok)
				case 'G':
					i := x.Call("GetByK2", o.key, nil)
					r, ok := m.GetByK2(str[o.key])
					x.Ret(i, r, ok)
				case 'r':
					i := x.Call("Remove", o.key, nil)
					m.Remove(o.key)
					x.Ret(i, nil, nil)
				case 'R':
					i := x.Call("RemoveByK2", o.key, nil)
					m.RemoveByK2(str[o.key])
					x.Ret(i, nil, nil)
				case 'z':
					i := x.Call("Len", nil, nil)
					x.Ret(i, m.Len(), nil)
				case 'S':
					i := x.Call("Keys", nil, nil)
					x.Ret(i, packKeys(m.Keys()), nil)
				case 'T':
					i := x.Call("KeysK2", nil, nil)
					var ks []int
					for _, s := range m.KeysK2() {
						n, ok := num[s]
						if !ok {
							n = 9
						}
						ks = append(ks, n)
					}
					x.Ret(i, packKeys(ks), nil)
				}
			}
		},
		step: func(s tstate, o *vrt.HistOp, emit func(tstate)) {
			done := o.Ret != 0
			k, _ := o.A.(int)
			r0, _ := o.R0.(int)
			r1, _ := o.R1.(bool)
			switch o.Name {
			case "Put":
				k1, k2 := k/3, k%3
				if w := s.owner(k2); w >= 0 {
					s.k2[w] = 0
				}
				s.v[k1], s.k2[k1] = int16(o.B.(int))+1, int8(k2)+1
			case "Get":
				if done && !(s.v[k] != 0 && r1 && r0 == int(s.v[k])-1 || s.v[k] == 0 && !r1 && r0 == 0) {
					return
				}
			case "GetByK2":
				w := s.owner(k)
				if done && !(w >= 0 && r1 && r0 == int(s.v[w])-1 || w < 0 && !r1 && r0 == 0) {
					return
				}
			case "Remove":
				s.v[k], s.k2[k] = 0, 0
			case "RemoveByK2":
				if w := s.owner(k); w >= 0 {
					s.v[w], s.k2[w] = 0, 0
				}
			case "Len", "Keys", "KeysK2":
				n, a, b := 0, 0, 0
				for i := range s.v {
					if s.v[i] != 0 {
						n++
						a |= 1 << i
					}
					if s.k2[i] != 0 {
						b |= 1 << (s.k2[i] - 1)
					}
				}
				if done && r0 != map[string]int{"Len": n, "Keys": a, "KeysK2": b}[o.Name] {
					return
				}
			}
			emit(s)
		}}
}

func puts(s string) []gop { // "00 12": Put(0,0), Put(1,2)
	var r []gop
	for _, f := range strings.Fields(s) {
		r = append(r, gop{k: 'p', key: int(f[0] - '0'), key2: int(f[1] - '0')})
	}
	return r
}

// ---- C17 StructUniqSet ----

type inner struct {
	Tags []string
	F    float64
}
type el struct {
	ID   int
	Name string
	In   *inner
	L    []int
}

// values 0 and 1 differ in the name, 2 in a nested field, 3 in the id; each call gives a fresh copy
func mkEl(k int) el {
	e := el{ID: 1, Name: "a", In: &inner{Tags: []string{"x", "y"}, F: 1.5}, L: []int{1, 2}}
	switch k {
	case 1:
		e.Name = "b"
	case 2:
		e.In.Tags[1] = "z"
	case 3:
		e.ID = 2
	}
	return e
}

var errHash = errors.New("no hash")

type ucfg17 struct {
	name string
	eq   func(int) int // class of value k under the configured equality; -1: no hash
	mk   func(x *X) (add, rem, has func(int) (bool, error), count func() int)
}

func uniq(c ucfg17, alpha, obs []gop) prog[uint8] {
	return prog[uint8]{name: c.name, alpha: alpha, obs: obs,
		mk: func(x *X) func(gop, int) {
			add, rem, has, count := c.mk(x)
			return func(o gop, v int) {
				call := func(n string, f func(int) (bool, error)) {
					i := x.Call(n, o.key, nil)
					r, err := f(o.key)
					x.Ret(i, r, err != nil)
				}
				switch o.k {
				case 'a':
					call("Add", add)
				case 'r':
					call("Remove", rem)
				case 'h':
					call("Has", has)
				case 'z':
					i := x.Call("Count", nil, nil)
					x.Ret(i, count(), nil)
				}
			}
		},
		step: func(s uint8, o *vrt.HistOp, emit func(uint8)) {
			done := o.Ret != 0
			if o.Name == "Count" {
				n := 0
				for b := s; b != 0; b >>= 1 {
					n += int(b & 1)
				}
				if !done || n == o.R0.(int) {
					emit(s)
				}
				return
			}
			e := c.eq(o.A.(int))
			if e < 0 {
				if !done || o.R1.(bool) && !o.R0.(bool) {
					emit(s)
				}
				return
			}
			in := s&(1<<e) != 0
			if done && (o.R1.(bool) || o.R0.(bool) != (in != (o.Name == "Add"))) {
				return
			}
			switch o.Name {
			case "Add":
				s |= 1 << e
			case "Remove":
				s &^= 1 << e
			}
			emit(s)
		}}
}

func hash1(s string) [16]byte { return md5.Sum([]byte(s)) }

func init() {
	// C07
	for max := 0; max <= 3; max++ {
		nm := fmt.Sprint("max", max)
		obs := ops("S z h0 h1 h2")
		p := hashSet(nm, max, ops("a0 a1 a2 c0 c1 d0 d1 C h0"), obs)
		add("C07", S{Name: nm + "/seq5", Shards: 4}, p.seq(5, ops("S z")...))
		add("C07", S{Name: nm + "/seq6", Shards: 16, Thor: true}, p.seq(6, ops("S z")...))
		q := hashSet(nm, max, ops("a0 a1 a2 d0 c1"), obs)
		add("C07", S{Name: nm + "/seq7", Shards: 4}, q.seq(7, ops("S")...))
		add("C07", S{Name: nm + "/seq9", Shards: 16, Thor: true, MaxT: 5e6}, q.seq(9, ops("S")...))
		w := hashSet(nm, max, ops("a0 a1 a2 a3 d1"), ops("S z h0 h1 h2 h3"))
		add("C07", S{Name: nm + "/4 keys/seq6", Shards: 4}, w.seq(6, ops("S z")...))
		r := hashSet(nm, max, ops("a0 c0 d0 h0 c1 a2 C z S"), ops("S z a0 S a1 S a2 S"))
		add("C07", S{Name: nm + "/2x2", Bound: 2, BoundT: 4, Shards: 8}, r.par(ops("a1"), 2, 2))
		add("C07", S{Name: nm + "/3x1", Bound: 3, BoundT: 6, Shards: 4}, r.par(nil, 1, 1, 1))
		add("C07", S{Name: nm + "/3x1+present", Bound: 3, BoundT: 6, Shards: 4}, r.par(ops("a1 a0"), 1, 1, 1))
		add("C07", S{Name: nm + "/3,2,2", Thor: true, BoundT: 2, Shards: 32, MaxT: 10e6}, r.par(ops("a1"), 3, 2, 2))
		r4 := hashSet(nm, max, ops("c0 a0 d0"), ops("S z"))
		add("C07", S{Name: nm + "/4x1", Bound: 2, BoundT: 5, Shards: 4}, r4.par(nil, 1, 1, 1, 1))
	}
	f3 := hashSet("max3 filled", 3, ops("a3 a4 c3 c0 d0 d1 d2 d3 a1 C"), ops("S z a5 S"))
	f3.pre = ops("a0 c1 a2")
	add("C07", S{Name: "max3/filled/seq4", Shards: 4}, f3.seq(4, ops("S z")...))
	add("C07", S{Name: "max3/filled/seq5", Shards: 16, Thor: true}, f3.seq(5, ops("S z")...))
	f4 := hashSet("max4 filled", 4, ops("a4 c5 d0 d1 d2 d3 a1"), ops("S z"))
	f4.pre = ops("a0 c1 a2 a3")
	add("C07", S{Name: "max4/filled/seq5", Shards: 4}, f4.seq(5, ops("S z")...))
	for max := 0; max <= 2; max++ {
		max := max
		for way, name := range []string{"", "/deleted", "/cleared", "/evicted"} {
			way := way
			if way == 3 && max == 0 {
				continue
			}
			add("C07", S{Name: fmt.Sprintf("max%d/memory%s", max, name), Steps: 1e7}, memory(func() func(i int) {
				m := collections.NewHashSet[bigKey]().WithMaxCount(max).Build()
				return func(i int) {
					m.Add(bigKey{i})
					m.HasOrCreate(bigKey{i, 1})
					m.Add(bigKey{i})
					if way < 2 {
						m.Delete(bigKey{i})
						m.Add(bigKey{i})
						m.Delete(bigKey{i})
						m.Delete(bigKey{i, 1})
					}
					if i%64 == 0 && way%2 == 0 {
						m.Clear()
					}
				}
			}))
		}
	}
	// C10
	type mc struct {
		name   string
		shards int
		sf     func(int) int
	}
	mods := []mc{{"simple", 0, func(int) int { return 0 }}}
	for n := 1; n <= 3; n++ {
		n := n
		mods = append(mods, mc{fmt.Sprintf("%d shards", n), n, func(k int) int { return k % n }})
	}
	mods = append(mods, mc{"3 shards, all in the last", 3, func(k int) int { return 2 }}, mc{"2 shards, crossed", 2, func(k int) int { return (k + 1) / 2 % 2 }},
		mc{"default shards", 6, func(k int) int { return 5 - 2*k }})
	for _, c := range mods {
		c := c
		mk := func() collections.Map[int, int] {
			if c.shards == 0 {
				return collections.NewSimpleMap[int, int]()
			}
			b := collections.NewShardMap[int, int]().WithShardsFunc(c.sf)
			if c.shards != 6 {
				b = b.WithShardsCount(c.shards)
			}
			return b.Build()
		}
		cl := ""
		if c.shards > 0 {
			cl = " C"
		}
		obs := ops("z g0 g1 g2")
		p := mapProg(c.name, mk, c.sf, c.shards, ops("s0 s1 s2 d0 d1 c0 f0 f1 h0"+cl), obs)
		add("C10", S{Name: c.name + "/seq4", Shards: 4}, p.seq(4, ops("z g0 g1")...))
		add("C10", S{Name: c.name + "/seq6", Shards: 16, Thor: true}, p.seq(6, ops("z")...))
		q := mapProg(c.name, mk, c.sf, c.shards, ops("g0 s0 d0 c0 f0 h1 f1 z"+cl), obs)
		add("C10", S{Name: c.name + "/2x2", Bound: 2, BoundT: 5, Shards: 8}, q.par(ops("s1"), 2, 2))
		add("C10", S{Name: c.name + "/3x1", Bound: 3, BoundT: 6, Shards: 4}, q.par(nil, 1, 1, 1))
		add("C10", S{Name: c.name + "/3x1+present", Bound: 3, BoundT: 6, Shards: 4}, q.par(ops("s0"), 1, 1, 1))
		q4 := mapProg(c.name, mk, c.sf, c.shards, ops("c0 f0 d0"), obs)
		add("C10", S{Name: c.name + "/4x1", Bound: 2, BoundT: 5, Shards: 2}, q4.par(nil, 1, 1, 1, 1))
		add("C10", S{Name: c.name + "/3,2,2", Thor: true, BoundT: 2, Shards: 32, MaxT: 10e6}, q.par(nil, 3, 2, 2))
	}
	// C19
	all := puts("00 01 02 10 11 12 20 21 22")
	obs := append(ops("z S g0 g1 g2 G0 G1 G2"), gop{k: 'T'})
	p := twoKey("all", append(append([]gop{}, all...), ops("r0 r1 r2 R0 R1 R2")...), obs)
	add("C19", S{Name: "seq4", Shards: 8}, p.seq(4))
	add("C19", S{Name: "seq5", Shards: 32, Thor: true}, p.seq(5))
	p = twoKey("observed", append(puts("00 01 11 10"), ops("r0 r1 R0 R1")...), obs)
	add("C19", S{Name: "observed/seq3", Shards: 2}, p.seq(3, append(ops("S z G0 G1"), gop{k: 'T'})...))
	p = twoKey("deep", append(puts("00 01 11 10"), ops("r0 r1 R0 R1")...), obs)
	add("C19", S{Name: "deep/seq6", Shards: 8}, p.seq(6))
	add("C19", S{Name: "deep/seq8", Shards: 32, Thor: true, MaxT: 10e6}, p.seq(8))
	p = twoKey("conc", append(puts("00 01 11 10"), append(ops("r0 R0 g0 G0 G1 z S"), gop{k: 'T'})...), obs)
	add("C19", S{Name: "2x2", Bound: 2, BoundT: 4, Shards: 8}, p.par(puts("00"), 2, 2))
	add("C19", S{Name: "3x1", Bound: 3, BoundT: 6, Shards: 4}, p.par(puts("00 11"), 1, 1, 1))
	add("C19", S{Name: "3,2,1", Thor: true, BoundT: 2, Shards: 32}, p.par(puts("00"), 3, 2, 1))

	// C17
	def := ucfg17{name: "default hash", eq: func(k int) int { return k }, mk: func(x *X) (a, r, h func(int) (bool, error), c func() int) {
		ctx, _ := vcontext.WithCancel(vcontext.Background())
		m := collections.NewStructUniqSet[el]().WithContext(ctx).Build()
		return func(k int) (bool, error) { return m.Add(mkEl(k)) }, func(k int) (bool, error) { return m.Remove(mkEl(k)) },
			func(k int) (bool, error) { return m.Has(mkEl(k)) }, m.Count
	}}
	ptr := ucfg17{name: "default hash of pointers", eq: func(k int) int {
		if k == 1 {
			return -1 // nil: has no hash
		}
		return k
	}, mk: func(x *X) (a, r, h func(int) (bool, error), c func() int) {
		m := collections.NewStructUniqSet[*el]().Build()
		v := func(k int) *el {
			if k == 1 {
				return nil
			}
			e := mkEl(k)
			return &e
		}
		return func(k int) (bool, error) { return m.Add(v(k)) }, func(k int) (bool, error) { return m.Remove(v(k)) },
			func(k int) (bool, error) { return m.Has(v(k)) }, m.Count
	}}
	anyv := ucfg17{name: "values of any type", eq: func(k int) int { return []int{0, -1, -1, 3}[k] }, mk: func(x *X) (a, r, h func(int) (bool, error), c func() int) {
		m := collections.NewStructUniqSet[any]().Build()
		v := func(k int) any { return []any{mkEl(0), make(chan int), nil, mkEl(3)}[k] }
		return func(k int) (bool, error) { return m.Add(v(k)) }, func(k int) (bool, error) { return m.Remove(v(k)) },
			func(k int) (bool, error) { return m.Has(v(k)) }, m.Count
	}}
	custom := ucfg17{name: "custom hash", eq: func(k int) int { return []int{0, 0, -1, 1}[k] }, mk: func(x *X) (a, r, h func(int) (bool, error), c func() int) {
		m := collections.NewStructUniqSet[el]().WithBuildFunc(func(v el, _ ...any) ([16]byte, error) {
			x.Point()
			if v.In.Tags[1] == "z" {
				return hash1("id1"), errHash // the hash that comes with an error must not be used
			}
			return hash1(fmt.Sprint("id", v.ID)), nil
		}).Build()
		return func(k int) (bool, error) { return m.Add(mkEl(k)) }, func(k int) (bool, error) { return m.Remove(mkEl(k)) },
			func(k int) (bool, error) { return m.Has(mkEl(k)) }, m.Count
	}}
	ints := ucfg17{name: "hash of numbers", eq: func(k int) int { return []int{0, 1, 2, 2}[k] }, mk: func(x *X) (a, r, h func(int) (bool, error), c func() int) {
		m := collections.NewStructUniqSet[int]().WithBuildFunc(func(v int, _ ...any) (r [16]byte, err error) {
			r[15] = byte(v) // differ in the last byte only
			if v == 3 {
				r[15] = 2
			}
			return
		}).Build()
		return m.Add, m.Remove, m.Has, m.Count
	}}
	for _, c := range []ucfg17{def, ptr, anyv, custom, ints} {
		a := ops("a0 a1 a2 a3 r0 r1 r3 h0")
		p := uniq(c, a, ops("z h0 h1 h2 h3"))
		add("C17", S{Name: c.name + "/seq4", Shards: 4}, p.seq(4, ops("z")...))
		add("C17", S{Name: c.name + "/seq6", Shards: 16, Thor: true}, p.seq(6, ops("z")...))
		q := uniq(c, ops("a0 a1 r0 h0 z a2 r3"), ops("z h0 h1 h2 h3"))
		add("C17", S{Name: c.name + "/2x2", Bound: 2, BoundT: 4, Shards: 4}, q.par(ops("a3"), 2, 2))
		add("C17", S{Name: c.name + "/3x1", Bound: 3, BoundT: 5, Shards: 4}, q.par(ops("a3"), 1, 1, 1))
		add("C17", S{Name: c.name + "/3,2,2", Thor: true, BoundT: 1, Shards: 32}, q.par(nil, 3, 2, 2))
		r := uniq(c, ops("a0 r0"), ops("z h0 h1"))
		add("C17", S{Name: c.name + "/4x1", Bound: 2, BoundT: 4, Shards: 2}, r.par(nil, 1, 1, 1, 1))
	}
	// elements with maps: the same contents must be the same element
	for n := 0; n <= 3; n++ {
		n := n
		add("C17", S{Name: fmt.Sprintf("elements with a map of %d", n)}, func(x *X) {
			type me struct{ M map[string]int }
			m := collections.NewStructUniqSet[me]().Build()
			mk := func() me {
				e := me{M: map[string]int{}}
				for i := 0; i < n; i++ {
					e.M[string(rune('a'+i))] = i
				}
				return e
			}
			x.Branching(false)
			ok, err := m.Add(mk())
			x.Check(ok && err == nil, "the first Add fails")
			for i := 0; i < 64; i++ {
				ok, err := m.Add(mk())
				x.Check(!ok && err == nil, "an element with a map is added twice")
				ok, err = m.Has(mk())
				x.Check(ok && err == nil, "an element with a map is not found")
			}
			x.Check(m.Count() == 1, "more than one element")
			ok, err = m.Remove(mk())
			x.Check(ok && err == nil && m.Count() == 0, "an element with a map cannot be removed")
			x.Cases(64)
		})
	}
}

// Elements that the caller goes on to change: two variables of values 0..2, in all sequences. An element is what its
// contents were when it was handed over.
func init() {
	type inner struct{ A, B int }
	type withSlice struct{ S []inner }
	type withPointer struct{ P *inner }
	changing[*inner](func() (*inner, func(int)) { e := &inner{}; return e, func(v int) { e.A = v } }, "pointers")
	changing[[]int](func() ([]int, func(int)) { e := make([]int, 2); return e, func(v int) { e[1] = v } }, "slices")
	changing[withSlice](func() (withSlice, func(int)) {
		e := withSlice{[]inner{{1, 2}, {}}}
		return e, func(v int) { e.S[1].B = v }
	}, "structures with slices")
	changing[withPointer](func() (withPointer, func(int)) {
		e := withPointer{&inner{B: 5}}
		return e, func(v int) { e.P.A = v }
	}, "structures with pointers")
	changing[map[string]int](func() (map[string]int, func(int)) {
		e := map[string]int{"a": 0}
		return e, func(v int) { e["a"] = v }
	}, "maps")
}

func changing[V any](mk func() (V, func(int)), name string) {
	changingTo(4, false, mk, "elements that change/"+name)
	changingTo(5, true, mk, "elements that change, longer/"+name)
}

func changingTo[V any](depth int, thor bool, mk func() (V, func(int)), name string) {
	add("C17", S{Name: name, Thor: thor, Shards: 4, Max: 1 << 30, MaxT: 1 << 30}, func(x *X) {
		x.Branching(false)
		s := collections.NewStructUniqSet[V]().WithContext(memCtx()).Build()
		var e [2]V
		var set [2]func(int)
		var cur [2]int
		for i := range e {
			e[i], set[i] = mk()
		}
		in := map[int]bool{}
		for i := 0; i < depth; i++ {
			j := x.Choose(2)
			if i > 0 { // what it holds from now on
				cur[j] = x.Choose(3)
				set[j](cur[j])
			}
			var ok, want bool
			var err error
			switch x.Choose(3) {
			case 0:
				ok, err = s.Add(e[j])
				want = !in[cur[j]]
				in[cur[j]] = true
			case 1:
				ok, err = s.Has(e[j])
				want = in[cur[j]]
			case 2:
				ok, err = s.Remove(e[j])
				want = in[cur[j]]
				delete(in, cur[j])
			}
			x.Check(err == nil && ok == want, "an operation with an element that changed since has another result than its contents demand")
			x.Check(s.Count() == len(in), "Count is wrong")
		}
	})
}
