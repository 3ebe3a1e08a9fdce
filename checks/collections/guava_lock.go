package main

import (
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/lin"
	"verif/vrt"
)

// ---- C01: load locking ----

type lcfg struct {
	gcfg
	fail  bool // loads may fail
	sleep time.Duration
}

type lrun struct {
	grun
	c *lcfg
}

func newLock(x *X, c *lcfg) *lrun {
	r := &lrun{grun: grun{x: x, c: &c.gcfg, n: x.NewCell()}, c: c}
	r.m = collections.NewGuavaMap[int, int]().WithMaxCount(c.max).WithReadTimeout(c.read).WithWriteTimeout(c.write).
		WithLockLoad(true).WithLoadFunc(func(k int) (int, error) {
		i := x.Call("load", k, nil)
		n := int(r.n.Add(1)) - 1
		v := 100 + 16*k + n
		if c.sleep > 0 {
			x.Sleep(c.sleep)
		} else {
			x.Point()
		}
		if c.fail && x.Bool() {
			x.Ret(i, 0, 1)
			return v, errLoad // the value that comes with an error must not be used
		}
		x.Ret(i, v, 0)
		return v, nil
	}).Build()
	return r
}

func overlap(a, b *vrt.HistOp) bool {
	return (b.Ret == 0 || a.Call < b.Ret) && (a.Ret == 0 || b.Call < a.Ret)
}

func (r *lrun) judge(removable bool) {
	x := r.x
	lin.Once(x, uint64(r.c.max+2*int(r.c.sleep)), func() {
		h := x.Hist()
		errs, fails := [maxKeys]int{}, [maxKeys]int{}
		for i := range h {
			a := &h[i]
			if a.Name == "Get" && a.R1.(int) != 0 {
				errs[a.A.(int)]++
				x.Check(a.R0.(int) == 0, "a failed load is reported with a value")
			}
			if a.Name != "load" {
				continue
			}
			k := a.A.(int)
			if a.Ret != 0 && a.R1.(int) != 0 {
				fails[k]++
			}
			for j := i + 1; j < len(h); j++ {
				b := &h[j]
				if b.Name != "load" || b.A.(int) != k {
					continue
				}
				x.Check(!overlap(a, b), "two loads of one key overlap")
				if a.R1.(int) != 0 {
					continue // failed: may be loaded again
				}
				// a succeeded, b started afterwards: the entry must have left in between
				if removable {
					continue
				}
				ok := false
				for l := range h {
					d := &h[l]
					if (d.Name == "Clear" || d.Name == "Delete" && d.A.(int) == k) && d.Call < b.Call && d.Ret > a.Ret {
						ok = true
					}
				}
				x.Check(ok, "the key is loaded again while its entry is cached")
			}
		}
		x.Check(errs == fails, "not every failed load is reported to exactly its caller")
		ops := make([]vrt.HistOp, 0, 16)
		for _, o := range h {
			if o.Name != "load" {
				ops = append(ops, o)
			}
		}
		if !lin.Check(ops, gstate{}, r.step, nil) {
			x.Fail("results are not those of one map with loads (" + r.c.name + ")")
		}
	})
}

// step is the specification with loads that fail at will: a Get that reports an error found nothing
func (r *lrun) step(s gstate, o *vrt.HistOp, emit func(gstate)) {
	if o.Name == "Get" && o.Ret != 0 && o.R1.(int) != 0 {
		for _, t := range []int64{o.TCall, o.TRet} {
			s.at(t, func(s gstate) {
				if s.val[o.A.(int)] == 0 && o.R0.(int) == 0 {
					emit(s)
				}
			})
		}
		return
	}
	r.c.gcfg.step(s, o, emit)
}

func (c lcfg) par(pre []gop, shape []int, removable bool, obs ...gop) func(x *X) {
	return func(x *X) {
		r := newLock(x, &c)
		parRun(x, c.alpha, pre, shape, obs, r.do)
		r.judge(removable)
	}
}

func (c lcfg) fixed(pre []gop, threads [][]gop, removable bool, obs ...gop) func(x *X) {
	return func(x *X) {
		r := newLock(x, &c)
		fixRun(x, pre, threads, obs, r.do)
		r.judge(removable)
	}
}

// ---- C06: LockForUpdate ----

type ucfg struct {
	name  string
	max   int
	write time.Duration
	alpha []gop
	pause time.Duration
}

// updates of one key never overlap, each returns its own result, and results agree with one map
func (c ucfg) par(pre []gop, shape []int, obs ...gop) func(x *X) {
	return func(x *X) {
		g := gcfg{name: c.name, max: c.max, write: c.write}
		r := newGuava(x, &g)
		do := func(o gop, v int) {
			if o.k != 'u' {
				r.do(o, v)
				return
			}
			i := x.Call("LFU", o.key, v)
			got := r.m.LockForUpdate(o.key, func() int {
				j := x.Call("upd", o.key, v)
				if c.pause > 0 {
					x.Sleep(c.pause)
				} else {
					x.Point()
				}
				x.Ret(j, nil, nil)
				return v
			})
			x.Ret(i, got, nil)
		}
		parRun(x, c.alpha, pre, shape, obs, do)
		lin.Once(x, uint64(c.max)<<8^uint64(c.write)^uint64(c.pause)<<20, func() {
			h := x.Hist()
			ops := make([]vrt.HistOp, 0, 16)
			for i := range h {
				a := &h[i]
				if a.Name != "upd" {
					ops = append(ops, *a)
					continue
				}
				for j := i + 1; j < len(h); j++ {
					if b := &h[j]; b.Name == "upd" && b.A == a.A {
						x.Check(!overlap(a, b), "two updates of one key run at the same time")
					}
				}
			}
			if !lin.Check(ops, gstate{}, g.step, nil) {
				x.Fail("results are not those of one map (" + c.name + ")")
			}
		})
	}
}

// increments: no removal, so none may be lost
func incr(threads, per int, keys int, c ucfg) func(x *X) {
	return func(x *X) {
		g := gcfg{name: c.name, max: c.max, write: c.write}
		r := newGuava(x, &g)
		if c.max > 0 {
			r.m.Set(0, 0)
		}
		for t := 0; t < threads; t++ {
			k := t % keys
			x.Go(func() {
				for i := 0; i < per; i++ {
					want := 0
					got := r.m.LockForUpdate(k, func() int {
						v, _ := r.m.Get(k)
						x.Point()
						want = v + 1
						return want
					})
					x.Check(got == want, "LockForUpdate does not return its function's result")
				}
			})
		}
		x.Join()
		for k := 0; k < keys; k++ {
			n := 0
			for t := 0; t < threads; t++ {
				if t%keys == k {
					n += per
				}
			}
			v, _ := r.m.Get(k)
			if v != n {
				x.Failf("%d increments of key %d give %d", n, k, v)
			}
		}
	}
}

// an update of key 0 is under way until an update of key 1 has been made; nothing may block
func independent(c ucfg, third string, nested bool) func(x *X) {
	return func(x *X) {
		g := gcfg{name: c.name, max: c.max, write: c.write}
		r := newGuava(x, &g)
		if third != "" {
			r.m.Set(0, 5)
			r.m.Set(1, 6)
		}
		ch := make(chan int)
		x.Go(func() {
			r.m.LockForUpdate(0, func() int {
				vrt.Recv(ch)
				return 1
			})
		})
		x.Go(func() {
			r.m.LockForUpdate(1, func() int {
				if nested {
					r.m.LockForUpdate(2, func() int { return 3 })
				}
				return 2
			})
			vrt.Close(ch)
		})
		if third != "" {
			x.Go(func() {
				for i, o := range ops(third) {
					if o.k == 'u' {
						r.m.LockForUpdate(o.key, func() int { return 7 })
					} else {
						r.do(o, 80+i)
					}
				}
			})
		}
		x.Join()
	}
}

func init() {
	for _, sl := range []time.Duration{0, 2 * sec} {
		n := ""
		if sl > 0 {
			n = "slow "
		}
		for _, fail := range []bool{false, true} {
			m := n + "sure"
			if fail {
				m = n + "failing"
			}
			c := lcfg{gcfg: gcfg{name: "load lock, " + m, loader: true, alpha: ops("g0 s0 d0 C c0 h0 u0 g1")}, fail: fail, sleep: sl}
			obs := ops("S g0 S")
			add("C01", S{Name: m + "/gets3", Bound: 3, BoundT: 6, Shards: 4}, c.fixed(nil, [][]gop{ops("g0"), ops("g0"), ops("g0")}, false, obs...))
			add("C01", S{Name: m + "/gets2x2", Bound: 3, BoundT: 6, Shards: 4}, c.fixed(nil, [][]gop{ops("g0 g0"), ops("g0 g1")}, false, obs...))
			add("C01", S{Name: m + "/gets4", Bound: 1, BoundT: 3, Shards: 4}, c.fixed(nil, [][]gop{ops("g0"), ops("g0"), ops("g0"), ops("g0")}, false, obs...))
			add("C01", S{Name: m + "/gets2+delete", Bound: 3, BoundT: 5, Shards: 4}, c.fixed(nil, [][]gop{ops("g0"), ops("g0"), ops("d0 g0")}, false, obs...))
			add("C01", S{Name: m + "/2x2", Bound: 1, BoundT: 3, Shards: 8}, c.par(nil, []int{2, 2}, false, obs...))
			add("C01", S{Name: m + "/3x1", Bound: 2, BoundT: 4, Shards: 8}, c.par(nil, []int{1, 1, 1}, false, obs...))
			add("C01", S{Name: m + "/3,2", Thor: true, BoundT: 2, Shards: 16}, c.par(nil, []int{3, 2}, false, obs...))
			e := c
			e.max = 1
			e.alpha = ops("g0 g1 d0 s1")
			add("C01", S{Name: m + "/max1/2x2", Bound: 1, BoundT: 3, Shards: 4}, e.par(nil, []int{2, 2}, true, obs...))
			f := c
			f.write = 1 * sec
			f.alpha = ops("g0 d0 w1 w2")
			add("C01", S{Name: m + "/expiring/2x2", Bound: 1, BoundT: 3, Shards: 4}, f.par(nil, []int{2, 2}, true, obs...))
		}
	}

	for _, t := range []time.Duration{0, 3 * sec} {
		for max := 0; max <= 1; max++ {
			c := ucfg{name: fmt.Sprintf("updates, max %d, timeout %v", max, t), max: max, write: t, alpha: ops("u0 d0 C s0 u1 s1")}
			nm := fmt.Sprintf("max%d,timeout%d", max, t/sec)
			obs := ops("S u0 S")
			add("C06", S{Name: nm + "/3x1", Bound: 2, BoundT: 4, Shards: 8}, c.par(nil, []int{1, 1, 1}, obs...))
			b4 := 1
			if t > 0 {
				c.alpha, b4 = ops("u0 d0 C s0 s1"), 0
			}
			add("C06", S{Name: nm + "/2x2", Bound: 1, BoundT: 3, Shards: 16}, c.par(ops("s0"), []int{2, 2}, obs...))
			d := c
			d.alpha = ops("u0 d0 C s1")
			add("C06", S{Name: nm + "/4x1", Bound: b4, BoundT: 3, Shards: 8}, d.par(ops("u0"), []int{1, 1, 1, 1}, obs...))
			add("C06", S{Name: nm + "/3,2,2", Thor: true, BoundT: 1, Shards: 16}, d.par(nil, []int{3, 2, 2}, obs...))
			if t > 0 { // the entry expires while updates run or wait
				e := c
				e.pause = 2 * sec
				e.alpha = ops("u0 d0 w1 w2 s0")
				add("C06", S{Name: nm + "/slow/2x2", Bound: 1, BoundT: 3, Shards: 4}, e.par(ops("s0"), []int{2, 2}, obs...))
				add("C06", S{Name: nm + "/slow/3x1", Bound: 1, BoundT: 3, Shards: 4}, e.par(ops("u0"), []int{1, 1, 1}, obs...))
				add("C06", S{Name: nm + "/slow/2,2,1", Bound: 0, BoundT: 1, Shards: 4}, e.par(ops("u0"), []int{2, 2, 1}, obs...))
			}
			for _, th := range []string{"", "d0", "C", "s0", "u1", "d1", "s2"} {
				for _, ne := range []bool{false, true} {
					add("C06", S{Name: fmt.Sprintf("%s/independent%s%v", nm, th, ne), Bound: 2 - int(t/(3*sec)), BoundT: 4}, independent(c, th, ne))
				}
			}
		}
		add("C06", S{Name: fmt.Sprintf("incr/2x2/timeout%d", t/sec), Bound: 2, BoundT: 5, Shards: 2}, incr(2, 2, 1, ucfg{write: t}))
		add("C06", S{Name: fmt.Sprintf("incr/3x1/timeout%d", t/sec), Bound: 3, BoundT: 5, Shards: 2}, incr(3, 1, 1, ucfg{write: t}))
		add("C06", S{Name: fmt.Sprintf("incr/4x1,2keys/timeout%d", t/sec), Bound: 1, BoundT: 3, Shards: 2}, incr(4, 1, 2, ucfg{write: t}))
	}
}
