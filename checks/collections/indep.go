package main

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// ---- C39: objects do not influence each other ----
//
// Two objects of one kind, configured differently and built by one builder or by two, each run a program of their
// own in a thread of their own. What an object does must be what an object with that configuration does when it is
// the only one in the process: the same programs are run again one at a time.

// icfg is the configuration of one object; base tells its functions from those of the others.
type icfg struct {
	name string
	base int
	max  int
	t1   time.Duration
	t2   time.Duration
	n    int
	on   bool
}

var icfgs = [3]icfg{
	{"a", 1000, 2, 1370 * ms, 2110 * ms, 2, true},
	{"b", 2000, 3, 2390 * ms, 3670 * ms, 3, false},
	{"z", 9000, 1, 310 * ms, 170 * ms, 1, true},
}

// iobj is an object with its operations
type iobj struct {
	do     func(op byte, k, v int) string
	end    string // observations at the end: operations without a key
	cancel func()
	out    *vrt.Cell // sum of what left through callbacks
}

// ikind is one kind of object. next(cfg) sets the builder (a new one unless one) and returns the build function.
type ikind struct {
	name  string
	alpha string // operations: letter and key, lower case run in the thread, upper case in one of their own
	mk    func(x *X, one bool) func(c icfg) func() *iobj
}

func srt(v []int) string { sort.Ints(v); return fmt.Sprint(v) }

// scribble overwrites what a call returned
func scribble(v []int) string {
	r := srt(v)
	for i := range v {
		v[i] = -1
	}
	_ = append(v, -1)
	return r
}

// own checks that what f does to the result of a call does not change the object
func own(x *X, f func() string) string {
	r := f()
	x.Check(f() == r, "an object changes with the collection that it returned")
	return r
}

func ikinds() []ikind {
	ctxOf := func(c icfg) (context.Context, func()) {
		return vcontext.WithCancel(vcontext.WithValue(vcontext.Background(), ictx(1), c.name))
	}
	return []ikind{
		{"GuavaMap", "s0 s1 s2 g0 g1 d0 l1 h0 c_ w_", func(x *X, one bool) func(icfg) func() *iobj {
			var b *collections.GuavaMapBuilder[int, int]
			return func(c icfg) func() *iobj {
				if b == nil || !one {
					b = collections.NewGuavaMap[int, int]()
				}
				ctx, cancel := ctxOf(c)
				out := x.NewCell()
				b = b.WithContext(ctx).WithMaxCount(c.max).WithWriteTimeout(c.t1).WithReadTimeout(c.t2).WithLockLoad(c.on).
					WithLoadFunc(func(k int) (int, error) { return c.base + k, nil }).
					WithUnloadFunc(func(k, v int) { out.Add(int64(c.base*1000 + k*100 + v)) })
				return func() *iobj {
					m := b.Build()
					o := &iobj{end: "zm", cancel: cancel, out: out}
					o.do = func(op byte, k, v int) string {
						switch op {
						case 's':
							m.Set(k, v)
						case 'g':
							r, err := m.Get(k)
							return fmt.Sprint(r, err)
						case 'l':
							return fmt.Sprint(m.LockForUpdate(k, func() int { return v }))
						case 'h':
							return fmt.Sprint(m.Has(k))
						case 'd':
							m.Delete(k)
						case 'c':
							m.Clear()
						case 'z':
							return fmt.Sprint(m.Size())
						case 'm':
							return own(x, func() string {
								g := m.GetStored()
								r := fmt.Sprint(g)
								for k := range g {
									g[k] = -1
								}
								g[99] = 1
								return r
							})
						}
						return ""
					}
					return o
				}
			}
		}},
		{"HashSet", "a0 a1 a2 a3 d0 h1 o0 c_ k_", func(x *X, one bool) func(icfg) func() *iobj {
			var b *collections.HashSetBuilder[int]
			return func(c icfg) func() *iobj {
				if b == nil || !one {
					b = collections.NewHashSet[int]()
				}
				b = b.WithMaxCount(c.max)
				return func() *iobj {
					m := b.Build()
					return &iobj{end: "zk", do: func(op byte, k, _ int) string {
						switch op {
						case 'a':
							m.Add(k)
						case 'd':
							m.Delete(k)
						case 'h':
							return fmt.Sprint(m.Has(k))
						case 'o':
							return fmt.Sprint(m.HasOrCreate(k))
						case 'c':
							m.Clear()
						case 'z':
							return fmt.Sprint(m.Count())
						case 'k':
							return own(x, func() string { return scribble(m.Keys()) })
						}
						return ""
					}}
				}
			}
		}},
		{"HolderMap", "W0 W1 r0 r1 e0 u0 g0 w_ w_ x_", func(x *X, one bool) func(icfg) func() *iobj {
			var b *collections.HolderMapBuilder[int, int]
			return func(c icfg) func() *iobj {
				if b == nil || !one {
					b = collections.NewHolderMap[int, int]()
				}
				ctx, cancel := ctxOf(c)
				b = b.WithContext(ctx).WithTimeout(c.t1).WithTTL(c.t2)
				return func() *iobj {
					m := b.Build()
					return &iobj{end: "z", cancel: cancel, do: func(op byte, k, v int) string {
						switch op {
						case 'W':
							return fmt.Sprint(m.Wait(k, v))
						case 'r':
							return fmt.Sprint(m.Release(k))
						case 'e':
							return fmt.Sprint(m.Error(k, errProd))
						case 'u':
							return fmt.Sprint(m.Update(k, v))
						case 'g':
							r, err := m.Get(k)
							return fmt.Sprint(r, err)
						case 'z':
							return fmt.Sprint(m.Count())
						}
						return ""
					}}
				}
			}
		}},
		{"WaitMap", "W0 W1 s0 s1 z_ w_ w_ x_", func(x *X, one bool) func(icfg) func() *iobj {
			var b *collections.WaitMapBuilder[int, int]
			return func(c icfg) func() *iobj {
				if b == nil || !one {
					b = collections.NewWaitMap[int, int]()
				}
				ctx, cancel := ctxOf(c)
				b = b.WithContext(ctx).WithRequestTimeout(c.t1).WithResponseTtl(c.t2)
				return func() *iobj {
					m := b.Build()
					return &iobj{end: "z", cancel: cancel, do: func(op byte, k, v int) string {
						switch op {
						case 'W':
							return fmt.Sprint(m.Wait(k))
						case 's':
							m.Set(k, v)
						case 'z':
							return fmt.Sprint(m.Count())
						}
						return ""
					}}
				}
			}
		}},
		{"ResponseMap", "W0 W1 s0 s1 w_ w_", func(x *X, one bool) func(icfg) func() *iobj {
			var b *collections.ResponseMapBuilder[int, int]
			return func(c icfg) func() *iobj {
				if b == nil || !one {
					b = collections.NewResponseMap[int, int](vcontext.Background())
				}
				b = b.WithResponseTimeout(c.t1).WithClearTimeout(c.t2)
				return func() *iobj {
					m := b.Build()
					return &iobj{do: func(op byte, k, v int) string {
						switch op {
						case 'W':
							return fmt.Sprint(m.Wait(k))
						case 's':
							m.Set(k, v)
						}
						return ""
					}}
				}
			}
		}},
		{"RequestMap", "Q0 Q1 q0 e0 E1 z_ w_ w_", func(x *X, one bool) func(icfg) func() *iobj {
			return func(c icfg) func() *iobj {
				ctx, cancel := ctxOf(c)
				return func() *iobj {
					m := collections.NewRequestMap[int, int](ctx, c.t2, &collections.RequestMapInitializer[int, int]{Key: 2, Result: c.base})
					n := x.NewCell()
					return &iobj{end: "z", cancel: cancel, do: func(op byte, k, v int) string {
						switch op {
						case 'Q', 'q':
							return fmt.Sprint(m.GetOrCreate(k, func(k int) int {
								x.Sleep(c.t1 / 7)
								return c.base + 10*k + int(n.Add(1))
							}))
						case 'E', 'e':
							r, err := m.GetOrCreateWithErr(k, func(k int) (int, error) {
								x.Sleep(c.t1 / 5)
								return c.base + 10*k + int(n.Add(1)), errProd
							})
							return fmt.Sprint(r, err)
						case 'z':
							return fmt.Sprint(m.Count())
						}
						return ""
					}}
				}
			}
		}},
		{"ShardMap", "s0 s1 s5 g1 d0 h5 f0 i1 c_", func(x *X, one bool) func(icfg) func() *iobj {
			var b *collections.ShardMapBuilder[int, int]
			return func(c icfg) func() *iobj {
				if b == nil || !one {
					b = collections.NewShardMap[int, int]()
				}
				b = b.WithShardsCount(c.n).WithShardsFunc(func(k int) int { return (k + c.base/1000) % c.n })
				return func() *iobj {
					m := b.Build()
					return &iobj{end: "z", do: func(op byte, k, v int) string { return mapOp(m, op, k, v, m.Clear) }}
				}
			}
		}},
		{"SimpleMap", "s0 s1 g1 d0 h0 f0 i1", func(x *X, one bool) func(icfg) func() *iobj {
			return func(c icfg) func() *iobj {
				return func() *iobj {
					m := collections.NewSimpleMap[int, int]()
					return &iobj{end: "z", do: func(op byte, k, v int) string { return mapOp(m, op, k, v, nil) }}
				}
			}
		}},
		{"StructUniqSet", "a0 a1 h0 r0 z_ w_ w_ x_", func(x *X, one bool) func(icfg) func() *iobj {
			var b *collections.StructUniqSetBuilder[int]
			return func(c icfg) func() *iobj {
				if b == nil || !one {
					b = collections.NewStructUniqSet[int]()
				}
				ctx, cancel := ctxOf(c)
				b = b.WithContext(ctx).WithElementTtl(c.t1).WithCheckInterval(c.t2 / 9).WithBuildFunc(func(v int, _ ...any) ([16]byte, error) {
					if c.on && v == 1 {
						return [16]byte{}, errProd
					}
					return [16]byte{byte(v + 1)}, nil
				})
				return func() *iobj {
					m := b.Build()
					return &iobj{end: "z", cancel: cancel, do: func(op byte, k, v int) string {
						switch op {
						case 'a':
							r, err := m.Add(k)
							return fmt.Sprint(r, err)
						case 'h':
							r, err := m.Has(k)
							return fmt.Sprint(r, err)
						case 'r':
							r, err := m.Remove(k)
							return fmt.Sprint(r, err)
						case 'z':
							return fmt.Sprint(m.Count())
						}
						return ""
					}}
				}
			}
		}},
		{"Set", "a0 a1 A2 r0 h0 k_ c_ q_ n_", func(x *X, one bool) func(icfg) func() *iobj {
			return func(c icfg) func() *iobj {
				return func() *iobj {
					init := []int{7, c.n}
					m := collections.NewSet[int](init...)
					init[0] = 0
					return &iobj{end: "zk", do: func(op byte, k, v int) string {
						switch op {
						case 'a':
							m.Add(k)
						case 'A':
							m.AddAll(k, k+1, k+c.n)
						case 'r':
							m.Remove(k)
						case 'h':
							return fmt.Sprint(m.Has(k), m.HasAll(k, c.n), m.HasAny(k, 7))
						case 'k':
							return own(x, func() string { return scribble(m.Values()) + scribble(m.All()) })
						case 'q': // what is done to a clone does not change the set, nor the other way round
							q := m.Clone()
							q.Add(c.base)
							r := fmt.Sprint(q.Equals(m), m.Equals(q), m.Has(c.base))
							m.Add(50)
							r += fmt.Sprint(q.Has(50), srt(q.Values()))
							q.Clear()
							return r + fmt.Sprint(m.Size(), q.Size())
						case 'n':
							o := collections.NewSet[int](m.Values()...)
							o.Remove(7)
							return fmt.Sprint(o.Equals(m), m.Has(7))
						case 'c':
							m.Clear()
						case 'z':
							return fmt.Sprint(m.Size())
						}
						return ""
					}}
				}
			}
		}},
		{"TwoKeyMap", "p0 p1 P0 P1 g0 j0 r0 R1 k_", func(x *X, one bool) func(icfg) func() *iobj {
			return func(c icfg) func() *iobj {
				return func() *iobj {
					m := collections.NewTwoKeyMap[int, int, int]()
					return &iobj{end: "zk", do: func(op byte, k, v int) string {
						switch op {
						case 'p':
							m.Put(k, k+c.n, v)
						case 'P':
							m.Put(k, 1, v)
						case 'g':
							r, ok := m.Get(k)
							return fmt.Sprint(r, ok)
						case 'j':
							r, ok := m.GetByK2(k + c.n)
							return fmt.Sprint(r, ok)
						case 'r':
							m.Remove(k)
						case 'R':
							m.RemoveByK2(k)
						case 'k':
							return own(x, func() string { return scribble(m.Keys()) + scribble(m.KeysK2()) })
						case 'z':
							return fmt.Sprint(m.Len())
						}
						return ""
					}}
				}
			}
		}},
		{"MapMutex", "l0 l1 v0 w_", func(x *X, one bool) func(icfg) func() *iobj {
			return func(c icfg) func() *iobj {
				return func() *iobj {
					m := collections.NewMapMutex[int]()
					rw := collections.NewMapRWMutex[int]()
					return &iobj{do: func(op byte, k, v int) string {
						switch op {
						case 'l':
							m.Lock(k)
							x.Sleep(c.t1 / 3)
							m.Unlock(k)
						case 'v':
							rw.Lock(k)
							x.Sleep(c.t1 / 3)
							rw.Unlock(k)
							rw.RLock(k)
							x.Sleep(c.t1 / 5)
							rw.RUnlock(k)
						}
						return ""
					}}
				}
			}
		}},
	}
}

type ictx int

func mapOp(m collections.Map[int, int], op byte, k, v int, clear func()) string {
	switch op {
	case 's':
		m.Set(k, v)
	case 'g':
		r, ok := m.Get(k)
		return fmt.Sprint(r, ok)
	case 'd':
		m.Delete(k)
	case 'h':
		return fmt.Sprint(m.Has(k))
	case 'i':
		return fmt.Sprint(m.SetIfNotExists(k, v))
	case 'f':
		r, ok := m.SetIfNotExistsWithFunc(k, func() int { return v })
		return fmt.Sprint(r, ok)
	case 'c':
		clear()
	case 'z':
		return fmt.Sprint(m.Size())
	}
	return ""
}

type iop struct {
	op byte
	k  int
}

func (o iop) String() string { return fmt.Sprintf("%c%d", o.op, o.k) }

// irun is one run of a program on an object
type irun struct {
	x    *X
	o    *iobj
	prog []iop
	t0   time.Duration
	res  []string // a result per operation, with the time at which it came
	end  string
}

func (r *irun) start() {
	x := r.x
	r.t0 = x.Now()
	r.res = make([]string, len(r.prog))
	x.Go(func() {
		for i, p := range r.prog {
			i, p := i, p
			switch p.op {
			case 'w':
				x.Sleep(1021 * ms)
			case 'x':
				if r.o.cancel != nil {
					r.o.cancel()
				}
			default:
				do := func() {
					v := 100 + 11*i
					s := r.o.do(p.op, p.k, v)
					r.res[i] = fmt.Sprint(x.Now()-r.t0, " ", s)
				}
				if p.op >= 'A' && p.op <= 'Z' && (p.op == 'W' || p.op == 'Q' || p.op == 'E') {
					x.Go(do)
					x.Sleep(3 * ms) // it waits now
				} else {
					do()
				}
			}
		}
	})
}

func (r *irun) finish() {
	for i := range r.o.end {
		r.end += r.o.do(r.o.end[i], 0, 0) + " "
	}
	if r.o.out != nil {
		r.end += fmt.Sprint(r.o.out.N())
	}
}

func (r *irun) String() string { return fmt.Sprint(r.prog, r.res, r.end) }

func iparse(s string) []iop {
	var r []iop
	for i := 0; i+1 < len(s); i += 3 {
		k := 0
		if s[i+1] != '_' {
			k = int(s[i+1] - '0')
		}
		r = append(r, iop{s[i], k})
	}
	return r
}

func init() {
	for _, k := range ikinds() {
		k := k
		alpha := iparse(k.alpha + " ")
		pair := func(x *X, how int, late int, pa, pb []iop, conc bool) {
			h := time.Duration(6+len(pa)) * sec
			if k.name == "RequestMap" { // it looks at what it has every 100 ms
				h = time.Duration(4+len(pa)/2) * sec
			}
			cfgs := icfgs
			next := k.mk(x, how > 0)
			mka := next(cfgs[0])
			a := &irun{x: x, o: mka(), prog: pa}
			mkb := mka
			if how < 2 {
				mkb = next(cfgs[1])
			} else { // both are built without any setting in between
				cfgs[1] = cfgs[0]
			}
			b := &irun{x: x, o: mkb(), prog: pb}
			cancel := a.o.cancel
			if how == 2 { // the context is that of both
				a.o.cancel, b.o.cancel = nil, nil
			}
			after := func() {
				if late > 0 {
					mkz := next(cfgs[2])
					if late > 1 {
						z := mkz()
						for _, p := range alpha {
							if p.op >= 'a' && k.name != "RequestMap" && k.name != "MapMutex" { // nothing that takes time
								z.do(p.op, p.k, 77)
							}
						}
						if z.cancel != nil {
							z.cancel()
						}
					}
				}
			}
			if !conc {
				after()
			}
			a.start()
			b.start()
			if conc {
				x.GoAux(after)
			}
			x.Join()
			x.Branching(false)
			x.SleepUntil(a.t0 + h)
			x.Settle()
			if how == 2 {
				a.o.out, b.o.out = nil, nil
			}
			a.finish()
			b.finish()
			for _, r := range []*irun{a, b} {
				if r.o.cancel != nil {
					r.o.cancel()
				}
			}
			if how == 2 && cancel != nil {
				cancel()
			}
			x.Settle()
			for i, r := range []*irun{a, b} {
				s := &irun{x: x, o: k.mk(x, false)(cfgs[i])(), prog: r.prog}
				if how == 2 {
					s.o.out, s.o.cancel = nil, nil
				}
				s.start()
				x.Join()
				x.SleepUntil(s.t0 + h)
				x.Settle()
				s.finish()
				if g, w := r.String(), s.String(); g != w {
					x.Failf("an object is influenced by another one: %s, alone: %s", g, w)
				}
			}
		}
		for _, d := range []struct {
			a, b int
			thor bool
		}{{2, 2, false}, {3, 2, true}, {2, 3, true}} {
			d := d
			add("C39", S{Name: fmt.Sprintf("%s, %d and %d operations", k.name, d.a, d.b), Bound: 0, BoundT: 0, Shards: 16, ShardAt: 3, Thor: d.thor}, func(x *X) {
				x.Branching(false)
				how, late := x.Choose(3), x.Choose(3)
				if k.name == "RequestMap" && (how > 0 || late > 1) { // it has no builder
					return
				}
				prog := func(n int) []iop {
					var r []iop
					for i := 0; i < n; i++ {
						r = append(r, alpha[x.Choose(len(alpha))])
					}
					return r
				}
				pair(x, how, late, prog(d.a), prog(d.b), false)
			})
		}
		add("C39", S{Name: k.name + ", long programs", Bound: 0, BoundT: 0, Shards: 8, ShardAt: 3}, func(x *X) {
			x.Branching(false)
			how, late := x.Choose(3), x.Choose(3)
			if k.name == "RequestMap" && (how > 0 || late > 1) { // it has no builder
				return
			}
			prog := func() []iop { // every operation, from each on, every one or every second or third or ...
				i, d := x.Choose(len(alpha)), 1+x.Choose(len(alpha)-1)
				var r []iop
				for n := 0; n < len(alpha); n++ {
					r = append(r, alpha[(i+n*d)%len(alpha)])
				}
				return r
			}
			pair(x, how, late, prog(), prog(), false)
		})
		add("C39", S{Name: k.name + ", schedules", Delay: true, Bound: 1, BoundT: 2, Shards: 8, ShardAt: 3}, func(x *X) {
			prog := []iop{alpha[x.Choose(len(alpha))]}
			pair(x, 1, 1, prog, alpha[:1], true)
		})
	}
}
