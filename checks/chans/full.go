package main

import (
	"context"
	"time"

	"github.com/axgrid/axutils/workers"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Long queues: the objects have queues of lengths that cannot be configured (1000 messages, 100 tasks). They are
// filled in one deterministic schedule; what happens at the full queue is explored.

func init() {
	for _, cancel := range []bool{false, true} {
		cancel := cancel
		name := "behind full queues"
		if cancel {
			name += ", cancellation"
		}
		bound := 1
		if cancel {
			bound = 0
		}
		add("C25", S{Name: name, Bound: bound, BoundT: bound + 1, Shards: 4, Steps: 1e6}, func(x *X) {
			x.Branching(false)
			c := kcfg{n: 1, size: 2}
			r := newShardChunk(x, c, nil, nil)
			n := 1000 + c.size - 1 + x.Choose(3)
			r.sent = make([][]ksent, 1)
			goOn := make(chan struct{})
			x.Go(func() {
				for i := 0; i < n+3; i++ {
					if i == n {
						vrt.Recv(goOn)
					}
					m := msg{v: 1, id: 10000 + i}
					s, d := vrt.SendCase(r.inc)(m), vrt.RecvCase(r.ctx.Done())
					if vrt.Select(false, s.C(), d.C()) == 1 {
						return
					}
					r.sent[0] = append(r.sent[0], ksent{m, x.Now()})
				}
			})
			x.Settle()
			x.Branching(true)
			vrt.Close(goOn)
			e, ch := r.es[0], r.ch.C(0)
			r.nDone++
			x.GoAux(func() {
				for n := 0; ; n++ {
					if n == 2 && !cancel {
						x.Branching(false)
					}
					rc, rs := vrt.RecvCase(ch), vrt.RecvCase(r.stop)
					if vrt.Select(false, rc.C(), rs.C()) == 1 || cancel && n == 2 {
						break
					}
					e.take(rc.V())
				}
				vrt.S(r.done)(struct{}{})
			})
			if cancel {
				x.Go(func() { r.cancel(); x.Branching(false) })
				x.Join()
				x.Branching(false)
				x.Settle()
				x.Sleep(2 * tmo)
				x.Settle()
				r.end()
				r.judge(false)
				return
			}
			x.Join()
			x.Branching(false)
			x.Sleep(2 * tmo)
			x.Settle()
			r.end()
			r.judge(true)
		})
		add("C26", S{Name: name, Bound: 1, BoundT: 2, Shards: 4, Steps: 1e6}, func(x *X) {
			x.Branching(false)
			n := 1 + x.Choose(2)
			ctx, stop := vcontext.WithCancel(vcontext.Background())
			r := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
			withCtx := x.Choose(2) == 1
			fill := n + 99 + x.Choose(3)
			total := fill + 2
			ran := make([]*vrt.Cell, total)
			for i := range ran {
				ran[i] = x.NewCell()
			}
			cur, done := x.NewCell(), x.NewCell()
			gate, goOn := make(chan struct{}), make(chan struct{})
			submit := func(i int) {
				do := func() {
					x.Check(cur.Add(1) <= int64(n), "more functions run at the same time than there are workers")
					x.Check(ran[i].Add(1) == 1, "a function is executed twice")
					vrt.Recv(gate)
					if done.Add(1) > 2 {
						x.Branching(false)
					}
					cur.Add(-1)
				}
				if withCtx {
					r.RunWithContext(func(c context.Context) {
						x.Check(c == ctx, "RunWithContext does not pass the runner's context")
						do()
					})
				} else {
					r.Run(do)
				}
			}
			x.Go(func() {
				for i := 0; i < fill; i++ {
					submit(i)
				}
				vrt.Recv(goOn)
				submit(fill)
			})
			x.Go(func() {
				vrt.Recv(goOn)
				submit(fill + 1)
			})
			x.Settle()
			x.Branching(true)
			vrt.Close(goOn)
			x.Go(func() {
				if cancel {
					stop()
				}
				vrt.Close(gate)
			})
			x.Join()
			x.Branching(false)
			x.Sleep(time.Second)
			x.Settle()
			for i, c := range ran {
				if !cancel && c.N() != 1 {
					x.Failf("function %d of %d is executed %d times", i, total, c.N())
				}
			}
			stop()
			x.Settle()
			x.Check(x.Threads() == 0, "workers are left after the context was cancelled")
		})
	}
}
