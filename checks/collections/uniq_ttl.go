package main

import (
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// ---- C18: life times in StructUniqSet ----

type ttlState struct {
	now int64
	dl  [3]int64 // end of the TTL, 0 if absent
}

type ttlCfg struct {
	name      string
	ttl, intv time.Duration
	alpha     []gop
}

// at emits the sets that the cleaner can have left at time t
func (s ttlState) at(t int64, slack time.Duration, f func(ttlState)) {
	s.now = t
	opt := 0
	for k, d := range s.dl {
		if d != 0 && t > d+int64(slack) {
			s.dl[k] = 0
		} else if d != 0 && t >= d {
			opt |= 1 << k
		}
	}
	for m := 0; m < 8; m++ {
		if m&^opt != 0 {
			continue
		}
		n := s
		for k := range n.dl {
			if m&(1<<k) != 0 {
				n.dl[k] = 0
			}
		}
		f(n)
	}
}

func (c ttlCfg) prog() prog[ttlState] {
	return prog[ttlState]{name: c.name, alpha: c.alpha, obs: ops("z h0 h1"),
		mk: func(x *X) func(gop, int) {
			m := collections.NewStructUniqSet[int]().WithElementTtl(c.ttl).WithCheckInterval(c.intv).
				WithBuildFunc(func(v int, _ ...any) (r [16]byte, err error) { r[3] = byte(v); return }).Build()
			return func(o gop, v int) {
				call := func(n string, f func(int) (bool, error)) {
					i := x.Call(n, o.key, nil)
					r, err := f(o.key)
					x.Ret(i, r, err != nil)
				}
				switch o.k {
				case 'a':
					call("Add", m.Add)
				case 'r':
					call("Remove", m.Remove)
				case 'h':
					call("Has", m.Has)
				case 'z':
					i := x.Call("Count", nil, nil)
					x.Ret(i, m.Count(), nil)
				case 'w':
					x.Sleep(o.d)
					x.Settle()
				}
			}
		},
		step: func(s ttlState, o *vrt.HistOp, emit func(ttlState)) {
			done := o.Ret != 0
			// all operations take no time
			s.at(o.TCall, 2*c.intv, func(s ttlState) {
				if o.Name == "Count" {
					n := 0
					for _, d := range s.dl {
						if d != 0 {
							n++
						}
					}
					if !done || n == o.R0.(int) {
						emit(s)
					}
					return
				}
				k := o.A.(int)
				in := s.dl[k] != 0
				if done && (o.R1.(bool) || o.R0.(bool) != (in != (o.Name == "Add"))) {
					return
				}
				switch o.Name {
				case "Add":
					if !in {
						s.dl[k] = s.now + int64(c.ttl)
					}
				case "Remove":
					s.dl[k] = 0
				}
				emit(s)
			})
		}}
}

func init() {
	for _, t := range [][2]time.Duration{{3, 1}, {1, 2}, {2, 2}, {5, 2}} {
		c := ttlCfg{name: fmt.Sprintf("ttl %d, interval %d", t[0], t[1]), ttl: t[0] * sec, intv: t[1] * sec, alpha: ops("a0 a1 r0 h0 w1 w2 w4")}
		tail := func(f func(do func(gop, int))) func(x *X, p prog[ttlState], do func(gop, int)) {
			return func(x *X, p prog[ttlState], do func(gop, int)) {
				f(do)
				for i := 0; i < 3; i++ { // afterwards everything goes, and the set still works
					x.Sleep(t[0]*sec/2 + t[1]*sec + time.Millisecond)
					do(gop{k: 'z'}, 0)
				}
				do(gop{k: 'a', key: 2}, 0)
				x.Sleep(t[0]*sec - time.Millisecond)
				do(gop{k: 'h', key: 2}, 0)
				x.Sleep(2*t[1]*sec + 2*time.Millisecond)
				do(gop{k: 'h', key: 2}, 0)
				do(gop{k: 'z'}, 0)
				p.judge(x)
			}
		}
		seq := func(p prog[ttlState], depth int) func(x *X) {
			return func(x *X) {
				do := p.mk(x)
				tail(func(do func(gop, int)) {
					seqRun(x, p.alpha, depth, do, func() { do(gop{k: 'z'}, 0); do(gop{k: 'h', key: 0}, 0) })
				})(x, p, do)
			}
		}
		par := func(p prog[ttlState], pre []gop, shape ...int) func(x *X) {
			return func(x *X) {
				do := p.mk(x)
				tail(func(do func(gop, int)) { parRun(x, p.alpha, pre, shape, ops("z h0"), do) })(x, p, do)
			}
		}
		add("C18", S{Name: c.name + "/seq5", Shards: 4}, seq(c.prog(), 5))
		add("C18", S{Name: c.name + "/seq7", Shards: 16, Thor: true}, seq(c.prog(), 7))
		d := c
		d.alpha = ops("a0 r0 w1 w2")
		add("C18", S{Name: c.name + "/deep/seq7", Shards: 4}, seq(d.prog(), 7))
		add("C18", S{Name: c.name + "/deep/seq9", Shards: 16, Thor: true}, seq(d.prog(), 9))
		e := c
		e.alpha = ops("a0 r0 h0 z a1")
		for _, as := range []bool{false, true} {
			n := c.name
			if as {
				n += ", old timers"
			}
			for w := t[0]; w <= t[0]+t[1]; w++ { // when the cleaner may look
				pre := append(ops("a0 a1"), gop{k: 'w', d: w * sec})
				if w > t[0] {
					pre = append(ops("w1 a0 a1"), gop{k: 'w', d: w * sec})
				}
				// the cleaner is still to run at that instant: no settling
				p := e.prog()
				mk := p.mk
				p.mk = func(x *X) func(gop, int) {
					do := mk(x)
					return func(o gop, v int) {
						if o.k == 'w' {
							x.Sleep(o.d)
						} else {
							do(o, v)
						}
					}
				}
				add("C18", S{Name: fmt.Sprintf("%s/at%d/2x1", n, w), Bound: 3, BoundT: 6, Async: as}, par(p, pre, 1, 1))
				add("C18", S{Name: fmt.Sprintf("%s/at%d/1x2", n, w), Bound: 3, BoundT: 6, Async: as}, par(p, pre, 2))
				add("C18", S{Name: fmt.Sprintf("%s/at%d/2x2", n, w), Bound: 1, BoundT: 3, Shards: 2, Async: as}, par(p, pre, 2, 2))
				add("C18", S{Name: fmt.Sprintf("%s/at%d/3x1", n, w), Bound: 2, BoundT: 4, Shards: 2, Async: as}, par(p, pre, 1, 1, 1))
			}
		}
		// the cleaner ends with the context, whatever the set holds and whenever that happens
		add("C18", S{Name: c.name + "/cancel", Bound: 3, BoundT: 5}, func(x *X) {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			m := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(c.ttl).WithCheckInterval(c.intv).Build()
			n := x.Choose(3)
			for i := 0; i < n; i++ {
				m.Add(i)
			}
			x.Sleep(time.Duration(x.Choose(5)) * sec)
			x.Go(func() { m.Add(7) })
			x.Go(cancel)
			x.Join()
			x.Sleep(c.intv + 1)
			x.Settle()
			if x.Threads() != 0 {
				x.Fail("the cleaner is still there after cancellation\n" + x.LiveDump())
			}
			_, err := m.Add(8)
			has, err2 := m.Has(8)
			x.Check(err == nil && err2 == nil && has, "the set does not work after cancellation")
		})
		// a long idle time
		add("C18", S{Name: c.name + "/idle", Bound: 0}, func(x *X) {
			p := c.prog()
			do := p.mk(x)
			for i := 0; i < 5; i++ {
				x.Sleep(20 * sec)
				do(gop{k: 'z'}, 0)
			}
			do(gop{k: 'a', key: 1}, 0)
			x.Sleep(c.ttl - 1)
			do(gop{k: 'h', key: 1}, 0)
			x.Sleep(2*c.intv + 2)
			do(gop{k: 'h', key: 1}, 0)
			x.Sleep(20 * sec)
			do(gop{k: 'a', key: 1}, 0)
			do(gop{k: 'a', key: 1}, 0)
			p.judge(x)
		})
	}
}
