package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/axgrid/axutils/collections"
)

// Long histories: thousands of keys in patterns (growing, sliding window, holes, back and forth, refilled, one key
// over and over), each operation compared with a plain model. What depends on sizes, rather than on orders of events,
// shows here.

type longOp struct {
	k byte // a: add or set, d: delete, h: look up, c: clear
	i int
}

// patterns over n keys
func patterns(n int) map[string][]longOp {
	p := map[string][]longOp{}
	put := func(name string, k byte, i int) { p[name] = append(p[name], longOp{k, i}) }
	for i := 0; i < n; i++ {
		put("grow and shrink", 'a', i)
		put("grow and shrink backwards", 'a', i)
		put("slide", 'a', i)
		if i >= 10 {
			put("slide", 'd', i-10)
		}
		if i%3 == 0 {
			put("slide", 'h', i-5)
		}
		put("window of 100", 'a', i)
		if i >= 100 {
			put("window of 100", 'd', i-100+i%50)
		}
		put("over and over", 'a', i%7)
		if i%5 == 0 {
			put("over and over", 'd', i/5%7)
		}
		put("holes", 'a', i)
		if i%2 == 1 {
			put("holes", 'd', i/2)
			put("holes", 'a', i/4)
		}
		put("waves", 'a', i%1200)
		if i%300 == 299 {
			put("waves", 'c', 0)
		}
	}
	for i := 0; i < n; i++ {
		put("grow and shrink", 'd', i)
		put("grow and shrink backwards", 'd', n-1-i)
		if i%10 == 0 {
			put("grow and shrink", 'a', i)
		}
	}
	for i := n - 1; i >= 0; i-- {
		put("holes", 'h', i)
		put("holes", 'a', i)
	}
	return p
}

func patternNames() []string {
	var r []string
	for k := range patterns(1) {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// runLong runs all patterns; do performs an operation and whole compares everything.
func runLong(prop, name string, n int, mk func(x *X) (do func(o longOp, step int), whole func())) {
	for _, pn := range patternNames() {
		pn := pn
		if len(patterns(2)[pn]) == 0 {
			continue
		}
		add(prop, S{Name: "long history/" + name + "/" + pn, Steps: 1e7}, func(x *X) {
			x.Branching(false)
			do, whole := mk(x)
			for s, o := range patterns(n)[pn] {
				do(o, s)
				if s%97 == 0 {
					whole()
				}
			}
			whole()
		})
	}
}

// window is a model with the order of insertion and a maximum
type window struct {
	m    map[int]int
	at   map[int]int // age
	seq  int
	max  int
	gone func(k, v int)
}

func newWindow(max int) *window { return &window{m: map[int]int{}, at: map[int]int{}, max: max} }

func (w *window) del(k int) {
	if v, ok := w.m[k]; ok {
		delete(w.m, k)
		delete(w.at, k)
		if w.gone != nil {
			w.gone(k, v)
		}
	}
}

func (w *window) set(k, v int) (isNew bool) {
	if _, ok := w.m[k]; ok {
		w.m[k] = v
		return false
	}
	if w.max > 0 && len(w.m) >= w.max {
		old := -1
		for q := range w.m {
			if old < 0 || w.at[q] < w.at[old] {
				old = q
			}
		}
		w.del(old)
	}
	w.m[k] = v
	w.seq++
	w.at[k] = w.seq
	return true
}

func (w *window) clear() {
	for k := range w.m {
		w.del(k)
	}
}

func (w *window) keys() []int {
	r := make([]int, 0, len(w.m))
	for k := range w.m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func init() {
	for _, max := range []int{0, 5, 90} {
		max := max
		runLong("C07", fmt.Sprint("max", max), 2500, func(x *X) (func(longOp, int), func()) {
			s := collections.NewHashSet[int]().WithMaxCount(max).Build()
			w := newWindow(max)
			return func(o longOp, step int) {
					switch o.k {
					case 'a':
						isNew := w.set(o.i, 1)
						if step%2 == 0 {
							x.Check(s.HasOrCreate(o.i) == !isNew, "HasOrCreate is wrong")
						} else {
							s.Add(o.i)
						}
					case 'd':
						s.Delete(o.i)
						w.del(o.i)
					case 'c':
						s.Clear()
						w.clear()
					}
					_, ok := w.m[o.i]
					x.Check(s.Has(o.i) == ok, "Has is wrong")
					x.Check(s.Count() == len(w.m), "Count is wrong")
				}, func() {
					k := s.Keys()
					sort.Ints(k)
					x.Check(fmt.Sprint(k) == fmt.Sprint(w.keys()), "the keys are not those of the model")
				}
		})
		runLong("C03", fmt.Sprint("max", max), 1500, func(x *X) (func(longOp, int), func()) {
			w := newWindow(max)
			left, seen := map[[2]int]int{}, 0
			w.gone = func(k, v int) { left[[2]int{k, v}]++ }
			m := collections.NewGuavaMap[int, int]().WithMaxCount(max).WithUnloadFunc(func(k, v int) { x.Ev("unload", k, v) }).Build()
			return func(o longOp, step int) {
					switch o.k {
					case 'a':
						if step%3 == 0 {
							_, was := w.m[o.i]
							x.Check(m.HasOrCreate(o.i, step) == was, "HasOrCreate is wrong")
							if !was {
								w.set(o.i, step)
							}
						} else {
							w.set(o.i, step)
							m.Set(o.i, step)
						}
					case 'd':
						m.Delete(o.i)
						w.del(o.i)
					case 'c':
						m.Clear()
						w.clear()
					}
					v, ok := w.m[o.i]
					g, err := m.Get(o.i)
					x.Check(m.Has(o.i) == ok && err == nil && g == v, "Has or Get is wrong")
					x.Check(m.Size() == len(w.m), "Size is wrong")
				}, func() {
					x.Check(fmt.Sprint(m.GetStored()) == fmt.Sprint(w.m), "the contents are not those of the model")
					x.Sleep(time.Millisecond)
					x.Settle()
					for _, e := range x.Events()[seen:] {
						left[[2]int{e.A.(int), e.B.(int)}]--
					}
					seen = len(x.Events())
					for k, n := range left {
						if n != 0 {
							x.Failf("the unload function was called too often or not often enough for %v: %d", k, n)
						}
						delete(left, k)
					}
				}
		})
	}
	mapLong := func(m collections.Map[int, int], clear func()) func(x *X) (func(longOp, int), func()) {
		return func(x *X) (func(longOp, int), func()) {
			w := map[int]int{}
			for k := range patterns(3000)["grow and shrink"] {
				m.Delete(k)
			}
			return func(o longOp, step int) {
					switch o.k {
					case 'a':
						_, was := w[o.i]
						switch step % 3 {
						case 0:
							x.Check(m.SetIfNotExists(o.i, step) == !was, "SetIfNotExists is wrong")
						case 1:
							v, ok := m.SetIfNotExistsWithFunc(o.i, func() int { return step })
							x.Check(ok == !was, "SetIfNotExistsWithFunc is wrong")
							if was {
								x.Check(v == w[o.i], "SetIfNotExistsWithFunc returns another value")
							}
						case 2:
							m.Set(o.i, step)
							was = false
						}
						if !was {
							w[o.i] = step
						}
					case 'd':
						m.Delete(o.i)
						delete(w, o.i)
					case 'c':
						if clear != nil {
							clear()
						} else {
							for k := range w {
								m.Delete(k)
							}
						}
						w = map[int]int{}
					}
					v, ok := w[o.i]
					g, has := m.Get(o.i)
					x.Check(m.Has(o.i) == ok && has == ok && g == v, "Has or Get is wrong")
					x.Check(m.Size() == len(w), "Size is wrong")
				}, func() {
					for k, v := range w {
						g, ok := m.Get(k)
						x.Check(ok && g == v, "a key is lost or has another value")
					}
				}
		}
	}
	runLong("C10", "SimpleMap", 2500, func(x *X) (func(longOp, int), func()) {
		return mapLong(collections.NewSimpleMap[int, int](), nil)(x)
	})
	for _, n := range []int{1, 7} {
		n := n
		runLong("C10", fmt.Sprint("ShardMap ", n), 2500, func(x *X) (func(longOp, int), func()) {
			m := collections.NewShardMap[int, int]().WithShardsCount(n).WithShardsFunc(func(k int) int { return (k%n + n) % n }).Build()
			return mapLong(m, m.Clear)(x)
		})
	}
	runLong("C16", "Set", 2500, func(x *X) (func(longOp, int), func()) {
		s := collections.NewSet[int]()
		w := newWindow(0)
		return func(o longOp, step int) {
				switch o.k {
				case 'a':
					s.Add(o.i)
					w.set(o.i, 1)
				case 'd':
					s.Remove(o.i)
					w.del(o.i)
				case 'c':
					s.Clear()
					w.clear()
				}
				_, ok := w.m[o.i]
				x.Check(s.Has(o.i) == ok && s.HasAny(o.i) == ok && s.HasAll(o.i) == ok, "Has is wrong")
				x.Check(s.Size() == len(w.m), "Size is wrong")
			}, func() {
				k := w.keys()
				v := s.Values()
				sort.Ints(v)
				c := s.Clone()
				x.Check(fmt.Sprint(v) == fmt.Sprint(k), "Values is wrong")
				x.Check(s.HasAll(k...) && c.Equals(s) && s.Equals(c), "HasAll, Clone or Equals is wrong")
				c.Add(-1)
				x.Check(!s.Has(-1) && !s.Equals(c) && !c.Equals(s) && !s.HasAll(append(k, -1)...) && !s.HasAny(-1), "the clone is not independent")
			}
	})
	runLong("C17", "StructUniqSet", 1500, func(x *X) (func(longOp, int), func()) {
		s := collections.NewStructUniqSet[int]().WithElementTtl(time.Hour).Build()
		w := newWindow(0)
		return func(o longOp, step int) {
			switch o.k {
			case 'a':
				isNew := w.set(o.i, 1)
				ok, err := s.Add(o.i)
				x.Check(err == nil && ok == isNew, "Add is wrong")
			case 'd':
				_, was := w.m[o.i]
				ok, err := s.Remove(o.i)
				x.Check(err == nil && ok == was, "Remove is wrong")
				w.del(o.i)
			case 'c':
				for k := range w.m {
					s.Remove(k)
				}
				w.clear()
			}
			_, is := w.m[o.i]
			ok, err := s.Has(o.i)
			x.Check(err == nil && ok == is, "Has is wrong")
			x.Check(s.Count() == len(w.m), "Count is wrong")
		}, func() {}
	})
	runLong("C19", "TwoKeyMap", 2000, func(x *X) (func(longOp, int), func()) {
		m := collections.NewTwoKeyMap[int, int, int]()
		type kv struct{ k2, v int }
		w := map[int]kv{}
		by := map[int]int{}
		del := func(k int) {
			if e, ok := w[k]; ok && by[e.k2] == k {
				delete(by, e.k2)
			}
			delete(w, k)
		}
		return func(o longOp, step int) {
				k2 := -1 - o.i - step%2*100000
				switch o.k {
				case 'a':
					del(o.i)
					m.Put(o.i, k2, step)
					w[o.i] = kv{k2, step}
					by[k2] = o.i
				case 'd':
					if step%2 == 0 {
						m.Remove(o.i)
						del(o.i)
					} else {
						m.RemoveByK2(k2)
						if k, ok := by[k2]; ok {
							del(k)
						}
					}
				case 'c':
					for k := range w {
						m.Remove(k)
					}
					w, by = map[int]kv{}, map[int]int{}
				}
				e, ok := w[o.i]
				v, has := m.Get(o.i)
				x.Check(has == ok && v == e.v, "Get is wrong")
				for j := 0; j < 2; j++ {
					q := -1 - o.i - j*100000
					k, is := by[q]
					v, has := m.GetByK2(q)
					x.Check(has == is && v == w[k].v || !is && !has, "GetByK2 is wrong")
				}
				x.Check(m.Len() == len(w), "Len is wrong")
			}, func() {
				x.Check(len(m.Keys()) == len(w) && len(m.KeysK2()) == len(by), "Keys or KeysK2 is wrong")
				for _, k := range m.Keys() {
					_, ok := w[k]
					x.Check(ok, "Keys is wrong")
				}
				for _, k := range m.KeysK2() {
					_, ok := by[k]
					x.Check(ok, "KeysK2 is wrong")
				}
			}
	})
}
