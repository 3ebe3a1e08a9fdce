package main

import (
	"fmt"

	"github.com/axgrid/axutils/collections"

	"verif/vrt"
)

// ---- C09: per-key locks ----

type locker interface {
	Lock(int)
	Unlock(int)
	RLock(int)
	RUnlock(int)
}

type plain struct{ *collections.MapMutex[int] }

func (p plain) RLock(k int)   { p.Lock(k) }
func (p plain) RUnlock(k int) { p.Unlock(k) }

func newLocker(rw bool) locker {
	if rw {
		return collections.NewMapRWMutex[int]()
	}
	return plain{collections.NewMapMutex[int]()}
}

// L, R: lock key for writing or reading, do something, unlock; N: hold key and then key2
func lockRun(rw bool, alpha []gop, pre string, shape ...int) func(x *X) {
	return func(x *X) {
		l := newLocker(rw)
		var data [3]int // the race detector checks that the locks order the accesses
		var body func(o gop, inner []gop)
		body = func(o gop, inner []gop) {
			w := o.k == 'L' || !rw
			if w {
				if rw && o.k != 'L' {
					panic("harness")
				}
				l.Lock(o.key)
			} else {
				l.RLock(o.key)
			}
			i := x.Call("hold", o.key, w)
			if w {
				data[o.key]++
			} else {
				_ = data[o.key]
			}
			x.Point()
			for _, n := range inner {
				body(n, nil)
			}
			x.Ret(i, nil, nil)
			if w {
				l.Unlock(o.key)
			} else {
				l.RUnlock(o.key)
			}
		}
		do := func(o gop, v int) {
			switch o.k {
			case 'N': // in ascending order, so that nobody waits in a circle
				body(gop{k: 'L', key: o.key}, []gop{{k: 'L', key: o.key + 1}})
			case 'M':
				body(gop{k: 'R', key: o.key}, []gop{{k: 'R', key: o.key + 1}})
			default:
				body(o, nil)
			}
		}
		parRun(x, alpha, ops(pre), shape, ops("L0 L1 L2"), do)
		h := x.Hist()
		for i := range h {
			for j := i + 1; j < len(h); j++ {
				a, b := &h[i], &h[j]
				if a.A == b.A && (a.B.(bool) || b.B.(bool)) && overlap(a, b) {
					x.Fail("two holders of one key at the same time")
				}
			}
		}
	}
}

func init() {
	for _, rw := range []bool{false, true} {
		n, a, b := "mutex", ops("L0 L1 N0"), ops("L0 L1")
		if rw {
			n, a, b = "rwmutex", ops("L0 R0 L1 R1 N0 M0"), ops("L0 R0 L1")
		}
		for _, pre := range []string{"", "L0"} {
			m := n
			if pre != "" {
				m += ",used"
			}
			add("C09", S{Name: m + "/2x2", Bound: 2, BoundT: 6, Shards: 4}, lockRun(rw, a, pre, 2, 2))
			add("C09", S{Name: m + "/3x1", Bound: 3, BoundT: 6, Shards: 4}, lockRun(rw, a, pre, 1, 1, 1))
			add("C09", S{Name: m + "/4x1", Bound: 2, BoundT: 4, Shards: 4}, lockRun(rw, b, pre, 1, 1, 1, 1))
			add("C09", S{Name: m + "/2,2,1", Bound: 1, BoundT: 4, Shards: 8}, lockRun(rw, b, pre, 2, 2, 1))
			add("C09", S{Name: m + "/3,3", Bound: 1, BoundT: 4, Shards: 4}, lockRun(rw, b, pre, 3, 3))
			add("C09", S{Name: m + "/3x2", Thor: true, BoundT: 3, Shards: 32, MaxT: 10e6}, lockRun(rw, b, pre, 2, 2, 2))
		}
		rw := rw
		// key 0 is held until key 1 was locked and unlocked by another caller, also while a third waits for key 0
		for _, third := range []string{"", "L0", "L1", "L2", "R0", "R1"} {
			for _, hold := range []byte{'L', 'R'} {
				for _, other := range []byte{'L', 'R'} {
					if !rw && (hold == 'R' || other == 'R') {
						continue
					}
					th := ops(third)
					if !rw && third != "" && third[0] == 'R' {
						continue
					}
					hold, other := hold, other
					lock := func(l locker, o gop, f func()) {
						if o.k == 'L' {
							l.Lock(o.key)
							f()
							l.Unlock(o.key)
						} else {
							l.RLock(o.key)
							f()
							l.RUnlock(o.key)
						}
					}
					add("C09", S{Name: fmt.Sprintf("%s/independent %c%c %s", n, hold, other, third), Bound: 3, BoundT: 6}, func(x *X) {
						l := newLocker(rw)
						if x.Bool() { // not the first use of the keys
							for k := 0; k < 3; k++ {
								l.Lock(k)
								l.Unlock(k)
							}
						}
						done := make(chan int)
						x.Go(func() {
							lock(l, gop{k: hold, key: 0}, func() { vrt.Recv(done) })
						})
						x.Go(func() {
							lock(l, gop{k: other, key: 1}, x.Point)
							vrt.Close(done)
						})
						for _, o := range th {
							o := o
							x.Go(func() { lock(l, o, x.Point) })
						}
						x.Join()
					})
				}
			}
		}
		if !rw {
			continue
		}
		// any number of readers at the same time
		for readers := 2; readers <= 3; readers++ {
			readers := readers
			add("C09", S{Name: fmt.Sprintf("rwmutex/%d readers together", readers), Bound: 2, BoundT: 5}, func(x *X) {
				l := newLocker(true)
				var chs []chan int
				for i := 0; i < readers; i++ {
					chs = append(chs, make(chan int, readers))
				}
				for i := 0; i < readers; i++ {
					i := i
					x.Go(func() {
						l.RLock(0)
						// each waits for the others to be in
						for j := range chs {
							if j != i {
								vrt.S(chs[j])(i)
							}
						}
						for j := range chs {
							if j != i {
								vrt.Recv(chs[i])
							}
						}
						l.RUnlock(0)
					})
				}
				x.Go(func() {
					l.Lock(1)
					x.Point()
					l.Unlock(1)
				})
				x.Join()
			})
		}
	}
}
