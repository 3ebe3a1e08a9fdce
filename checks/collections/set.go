package main

import (
	"fmt"
	"sort"

	"github.com/axgrid/axutils/collections"
)

// ---- C16: Set ----

// all lists over 0..n-1 up to a length
func lists(n, max int) [][]int {
	r := [][]int{{}}
	from := 0
	for l := 0; l < max; l++ {
		to := len(r)
		for ; from < to; from++ {
			for v := 0; v < n; v++ {
				r = append(r, append(append([]int{}, r[from]...), v))
			}
		}
	}
	return r
}

func bits(l []int) int {
	r := 0
	for _, v := range l {
		r |= 1 << v
	}
	return r
}

const univ = 3

// setIs compares everything a set tells with the subset w
func setIs(x *X, s *collections.Set[int], w int, qs [][]int, what func() string) {
	n := 0
	var want []int
	for v := 0; v < univ; v++ {
		if w>>v&1 == 1 {
			n++
			want = append(want, v)
		}
		if s.Has(v) != (w>>v&1 == 1) {
			x.Failf("Has(%d) is %v after %s", v, s.Has(v), what())
		}
	}
	if s.Size() != n {
		x.Failf("Size is %d after %s", s.Size(), what())
	}
	for i, f := range []func() []int{s.Values, s.All} {
		got := f()
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Failf("Values/All (%d) gives %v after %s", i, got, what())
		}
		for j := range got { // the result belongs to the caller
			got[j] = 99
		}
	}
	for _, q := range qs {
		b := bits(q)
		if s.HasAll(q...) != (b&^w == 0) {
			x.Failf("HasAll(%v) is %v after %s", q, s.HasAll(q...), what())
		}
		if s.HasAny(q...) != (b&w != 0) {
			x.Failf("HasAny(%v) is %v after %s", q, s.HasAny(q...), what())
		}
	}
}

type setOp struct {
	name string
	f    func(a, b *collections.Set[int], wa, wb int) (*collections.Set[int], *collections.Set[int], int, int)
}

func setOps() []setOp {
	type C = *collections.Set[int]
	var r []setOp
	on := func(name string, f func(s C, w int) int) {
		r = append(r, setOp{"a." + name, func(a, b C, wa, wb int) (C, C, int, int) { return a, b, f(a, wa), wb }},
			setOp{"b." + name, func(a, b C, wa, wb int) (C, C, int, int) { return a, b, wa, f(b, wb) }})
	}
	for v := 0; v < univ; v++ {
		v := v
		on(fmt.Sprintf("Add(%d)", v), func(s C, w int) int { s.Add(v); return w | 1<<v })
		on(fmt.Sprintf("Remove(%d)", v), func(s C, w int) int { s.Remove(v); return w &^ (1 << v) })
	}
	for _, l := range [][]int{{}, {0, 1}, {2, 2, 0}} {
		l := l
		on(fmt.Sprintf("AddAll(%v)", l), func(s C, w int) int { s.AddAll(l...); return w | bits(l) })
	}
	on("Clear()", func(s C, w int) int { s.Clear(); return 0 })
	r = append(r, setOp{"b = a.Clone()", func(a, b C, wa, wb int) (C, C, int, int) { return a, a.Clone(), wa, wa }},
		setOp{"a = b.Clone()", func(a, b C, wa, wb int) (C, C, int, int) { return b.Clone(), b, wb, wb }},
		setOp{"a = NewSet(1, 1, 2)", func(a, b C, wa, wb int) (C, C, int, int) { return collections.NewSet(1, 1, 2), b, 6, wb }})
	return r
}

func init() {
	type C = *collections.Set[int]
	all := setOps()
	seq := func(depth int, qs [][]int) func(x *X) {
		return func(x *X) {
			x.Branching(false)
			first := x.Choose(len(all))
			idx := make([]int, depth)
			// every sequence of the depth that starts with first; states are checked after each operation
			n := 0
			for {
				idx[0] = first
				a, b, wa, wb := collections.NewSet[int](), collections.NewSet[int](), 0, 0
				done := 0
				what := func() string {
					s := ""
					for i := 0; i <= done; i++ {
						s += all[idx[i]].name + "; "
					}
					return s
				}
				for i, o := range idx {
					done = i
					a, b, wa, wb = all[o].f(a, b, wa, wb)
					if i+1 == depth || i > 0 && allZero(idx[i+1:]) {
						setIs(x, a, wa, qs, what)
						setIs(x, b, wb, qs, what)
						if a.Equals(b) != (wa == wb) || b.Equals(a) != (wa == wb) || !a.Equals(a) {
							x.Failf("Equals is %v/%v after %s", a.Equals(b), b.Equals(a), what())
						}
					}
				}
				n++
				i := depth - 1
				for ; i > 0; i-- {
					idx[i]++
					if idx[i] < len(all) {
						break
					}
					idx[i] = 0
				}
				if i == 0 {
					break
				}
			}
			x.Cases(n)
		}
	}
	add("C16", S{Name: "seq4", Shards: 4}, seq(4, lists(univ, 2)))
	add("C16", S{Name: "seq5", Thor: true, Shards: 16}, seq(5, lists(univ, 2)))
	add("C16", S{Name: "construction"}, func(x *X) {
		x.Branching(false)
		ls, qs := lists(univ, 4), lists(univ, 3)
		for _, l := range ls {
			arg := append([]int{}, l...)
			s := collections.NewSet(arg...)
			for i := range arg { // the list belongs to the caller
				arg[i] = 9
			}
			setIs(x, s, bits(l), qs, func() string { return fmt.Sprintf("NewSet(%v)", l) })
			t := collections.NewSet[int]()
			arg = append([]int{}, l...)
			t.AddAll(arg...)
			setIs(x, t, bits(l), qs, func() string { return fmt.Sprintf("AddAll(%v)", l) })
			x.Check(s.Equals(t) && t.Equals(s), "AddAll and construction differ")
			x.Cases(1)
		}
		// pairs of lists: equality, and independence of a clone
		for _, l := range ls[:40] {
			for _, m := range ls[:40] {
				a, b := collections.NewSet(l...), collections.NewSet(m...)
				if a.Equals(b) != (bits(l) == bits(m)) {
					x.Failf("Equals(%v, %v) is %v", l, m, a.Equals(b))
				}
				c := a.Clone()
				c.AddAll(m...)
				setIs(x, a, bits(l), nil, func() string { return "changing a clone" })
				setIs(x, c, bits(l)|bits(m), nil, func() string { return "adding to a clone" })
				d := a.Clone()
				for _, v := range m {
					a.Remove(v)
				}
				setIs(x, d, bits(l), nil, func() string { return "removing from the original" })
				setIs(x, a, bits(l)&^bits(m), nil, func() string { return "removing after cloning" })
				d.Clear()
				setIs(x, a, bits(l)&^bits(m), nil, func() string { return "clearing the clone" })
				x.Cases(1)
			}
		}
	})
	// larger sets, other element types
	add("C16", S{Name: "sizes"}, func(x *X) {
		x.Branching(false)
		type pt struct {
			A string
			B int
		}
		for n := 0; n <= 200; n++ {
			s, t := collections.NewSet[pt](), collections.NewSet[pt]()
			for i := 0; i < n; i++ {
				s.Add(pt{fmt.Sprint(i % 7), i})
				t.Add(pt{fmt.Sprint((n - 1 - i) % 7), n - 1 - i})
			}
			x.Check(s.Size() == n && s.Equals(t) && t.Equals(s), "equal sets differ")
			seen := map[pt]bool{}
			for _, v := range s.Values() {
				x.Check(!seen[v] && s.Has(v), "Values repeats an element or has a foreign one")
				seen[v] = true
			}
			x.Check(len(seen) == n, "Values misses an element")
			c := s.Clone()
			x.Check(c.Equals(s), "a clone differs")
			for i := 0; i < n; i++ {
				v := pt{fmt.Sprint(i % 7), i}
				c.Remove(v)
				x.Check(!c.Has(v) && s.Has(v) && c.Size() == n-1-i && !c.Equals(s) && !s.Equals(c), "removing one element of a clone")
			}
			if n > 0 {
				v := pt{"x", n}
				t.Remove(pt{fmt.Sprint((n - 1) % 7), n - 1})
				t.Add(v)
				x.Check(t.Size() == n && !t.Equals(s) && !s.Equals(t), "different sets of equal size are equal")
			}
			s.Clear()
			x.Check(s.Size() == 0 && len(s.Values()) == 0 && s.Equals(collections.NewSet[pt]()), "Clear")
			x.Cases(1)
		}
	})
	_ = C(nil)
}

func allZero(l []int) bool {
	for _, v := range l {
		if v != 0 {
			return false
		}
	}
	return true
}
