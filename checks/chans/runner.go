package main

import (
	"context"
	"fmt"
	"time"

	"github.com/axgrid/axutils/workers"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// ---- C26: Runner ----

type wrun struct {
	x       *X
	n       int
	r       *workers.Runner
	ctx     context.Context
	cancel  func()
	runs    *vrt.Cell
	cur     *vrt.Cell
	count   []*vrt.Cell // executions per task
	started []bool
}

type ctxKey int

func newRunner(x *X, n int, ctx context.Context, cancel func()) *wrun {
	r := &wrun{x: x, n: n, ctx: ctx, cancel: cancel, runs: x.NewCell(), cur: x.NewCell()}
	if ctx == nil {
		r.ctx, r.cancel = vcontext.WithCancel(vcontext.WithValue(vcontext.Background(), ctxKey(1), 42))
	}
	b := workers.NewRunner().WithContext(r.ctx)
	if n > 0 {
		b = b.WithWorkerCount(n)
	} else {
		r.n = 5
	}
	r.r = b.Build()
	return r
}

// task submits task i of kind 'r' or 'c', which does body.
func (r *wrun) task(kind byte, i int, body func()) {
	x := r.x
	do := func() {
		x.Check(r.cur.Add(1) <= int64(r.n), "more functions run at the same time than there are workers")
		x.Check(r.count[i].Add(1) == 1, "a function is executed twice")
		r.runs.Add(1)
		x.Log("run", i, nil)
		if body != nil {
			body()
		}
		r.cur.Add(-1)
	}
	if kind == 'c' {
		r.r.RunWithContext(func(ctx context.Context) {
			x.Check(ctx == r.ctx, "RunWithContext does not pass the runner's context")
			do()
		})
	} else {
		r.r.Run(do)
	}
	x.Log("accepted", i, nil)
}

func (r *wrun) tasks(n int) {
	for i := 0; i < n; i++ {
		r.count = append(r.count, r.x.NewCell())
	}
}

// end cancels and checks that nothing is left.
func (r *wrun) end(longest time.Duration) {
	x := r.x
	x.Branching(false)
	r.cancel()
	x.Sleep(longest)
	x.Settle()
	x.Check(x.Threads() == 0, "workers are left after the context was cancelled")
}

func init() {
	// every mix of kinds, bodies that pass time or not, by producers
	mix := func(x *X, n int, shape []int, bodies []time.Duration) {
		r := newRunner(x, n, nil, nil)
		total := 0
		for _, k := range shape {
			total += k
		}
		r.tasks(total)
		kind := make([]byte, total)
		body := make([]time.Duration, total)
		for i := range kind {
			kind[i] = choose[byte](x, 'r', 'c')
			body[i] = choose(x, bodies...)
		}
		i := 0
		for _, k := range shape {
			from, to := i, i+k
			i = to
			x.Go(func() {
				for j := from; j < to; j++ {
					j := j
					r.task(kind[j], j, func() {
						if body[j] > 0 {
							x.Sleep(body[j])
						} else {
							x.Point()
						}
					})
				}
			})
		}
		x.Join()
		x.Branching(false)
		x.Sleep(time.Duration(total) * time.Second)
		x.Settle()
		x.Check(r.runs.N() == int64(total), "an accepted function is not executed")
		r.end(0)
	}
	add("C26", S{Name: "one producer", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		mix(x, 1+x.Choose(3), []int{3}, []time.Duration{0, time.Second})
	})
	add("C26", S{Name: "one producer, preemptions", Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		mix(x, 1+x.Choose(2), []int{2 + x.Choose(2)}, []time.Duration{0})
	})
	add("C26", S{Name: "two producers", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		mix(x, 1+x.Choose(2), []int{2, 1}, []time.Duration{0, time.Second})
	})
	add("C26", S{Name: "three producers", Bound: 0, BoundT: 2, Shards: 8}, func(x *X) {
		mix(x, 1+x.Choose(2), []int{1, 1, 1}, []time.Duration{0})
	})
	// a free worker never leaves a function waiting: as many tasks as workers can wait for each other,
	// and n workers finish k tasks of a second each in ceil(k/n) seconds
	for _, d := range []struct {
		n, b int
		thor bool
	}{{1, 3, false}, {2, 1, false}, {3, 0, false}, {4, 0, true}} {
		d := d
		add("C26", S{Name: fmt.Sprint("tasks that wait for each other, ", d.n, " workers"), Bound: d.b, BoundT: d.b + 1, Shards: 8, Thor: d.thor}, func(x *X) {
			n := d.n
			r := newRunner(x, n, nil, nil)
			r.tasks(n)
			in := x.NewCell()
			all := make(chan struct{})
			x.Go(func() {
				for i := 0; i < n; i++ {
					r.task(choose[byte](x, 'r', 'c'), i, func() {
						if in.Add(1) == int64(n) {
							vrt.Close(all)
						}
						vrt.Recv(all)
					})
				}
			})
			x.Join()
			x.Settle()
			x.Check(r.runs.N() == int64(n) && r.cur.N() == 0, "a free worker leaves an accepted function waiting")
			r.end(0)
		})
	}
	add("C26", S{Name: "no idle worker", Bound: 0, BoundT: 1, Shards: 8}, func(x *X) {
		n := 1 + x.Choose(3)
		k := 1 + x.Choose(5)
		r := newRunner(x, n, nil, nil)
		r.tasks(k)
		x.Go(func() {
			for i := 0; i < k; i++ {
				r.task(choose[byte](x, 'r', 'c'), i, func() { x.Sleep(time.Second) })
			}
		})
		x.Join()
		x.Branching(false)
		for t := 0; t < k; t++ {
			x.Settle()
			busy := k - t*n
			if busy > n {
				busy = n
			}
			if busy < 0 {
				busy = 0
			}
			x.Check(r.cur.N() == int64(busy), "a free worker leaves an accepted function waiting")
			x.Sleep(time.Second)
		}
		x.Settle()
		x.Check(r.runs.N() == int64(k), "an accepted function is not executed")
		r.end(0)
	})
	add("C26", S{Name: "tasks that submit tasks", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		n := 1 + x.Choose(2)
		r := newRunner(x, n, nil, nil)
		r.tasks(4)
		a, b, c := choose[byte](x, 'r', 'c'), choose[byte](x, 'r', 'c'), choose[byte](x, 'r', 'c')
		x.Go(func() {
			r.task(a, 0, func() { r.task(b, 1, func() { r.task(c, 2, nil) }) })
		})
		x.Go(func() { r.task(c, 3, nil) })
		x.Join()
		x.Settle()
		x.Check(r.runs.N() == 4, "an accepted function is not executed")
		r.end(0)
	})
	add("C26", S{Name: "default number of workers", Bound: 0, BoundT: 0}, func(x *X) {
		x.Branching(false)
		r := newRunner(x, 0, nil, nil)
		r.tasks(12)
		x.Go(func() {
			for i := 0; i < 12; i++ {
				r.task("rc"[i&1], i, func() { x.Sleep(time.Second) })
			}
		})
		x.Join()
		x.Sleep(10 * time.Second)
		x.Check(r.runs.N() == 12, "an accepted function is not executed")
		r.end(0)
	})
	add("C26", S{Name: "many tasks", Bound: 0, BoundT: 0, Shards: 4}, func(x *X) {
		x.Branching(false)
		n := 1 + x.Choose(3)
		k := choose(x, 99, 100, 101, 150, 202, 230)
		r := newRunner(x, n, nil, nil)
		r.tasks(k)
		slow := choose(x, 0, time.Millisecond)
		m := x.Choose(3)
		x.Go(func() {
			for i := 0; i < k; i++ {
				r.task("rcrr"[m*(i&1)], i, func() {
					if slow > 0 {
						x.Sleep(slow)
					}
				})
			}
		})
		x.Join()
		x.Sleep(time.Second)
		x.Settle()
		x.Check(r.runs.N() == int64(k), "an accepted function is not executed")
		r.end(0)
	})
	// cancellation
	add("C26", S{Name: "cancelled at any point", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		r := newRunner(x, 1+x.Choose(2), nil, nil)
		r.tasks(4)
		d := choose(x, 0, time.Second)
		ks := [3]byte{choose[byte](x, 'r', 'c'), choose[byte](x, 'r', 'c'), choose[byte](x, 'r', 'c')}
		two := x.Bool()
		f := func() {
			if d > 0 {
				x.Sleep(d)
			}
		}
		x.Go(func() {
			for i, k := range ks {
				r.task(k, i, f)
			}
		})
		if two {
			x.Go(func() { r.task('r', 3, f) })
		}
		x.GoAux(func() {
			r.cancel()
		})
		if !x.JoinOr(5 * time.Second) {
			x.Fail("a caller stays blocked after the context was cancelled")
		}
		x.Sleep(d)
		x.Settle()
		x.Check(x.Threads() == 0, "workers are left after the context was cancelled")
	})
	add("C26", S{Name: "cancelled during functions", Bound: 0, BoundT: 1, Shards: 8}, func(x *X) {
		n := 1 + x.Choose(2)
		at := choose(x, 500*ms, time.Second, 1500*ms)
		var r *wrun
		if x.Bool() {
			ctx, cancel := vcontext.WithTimeout(vcontext.Background(), at)
			r = newRunner(x, n, ctx, cancel)
		} else {
			r = newRunner(x, n, nil, nil)
			x.GoAux(func() { x.Sleep(at); r.cancel() })
		}
		r.tasks(5)
		x.Go(func() {
			for i := 0; i < 5; i++ {
				r.task(choose[byte](x, 'r', 'c'), i, func() { x.Sleep(time.Second) })
			}
		})
		x.Join()
		x.Branching(false)
		x.SleepUntil(at)
		x.Settle()
		// whoever runs a function may finish it, and then it ends
		x.SleepUntil(at + time.Second)
		x.Settle()
		x.Check(r.cur.N() == 0, "functions are still started after the context was cancelled")
		x.Check(x.Threads() == 0, "workers are left after the context was cancelled")
	})
	add("C26", S{Name: "cancelled with callers blocked", Bound: 0, BoundT: 0, Shards: 4}, func(x *X) {
		x.Branching(false)
		n := 1 + x.Choose(2)
		kinds := choose(x, "rr", "cc", "rc")
		late := x.Choose(2) == 1
		r := newRunner(x, n, nil, nil)
		r.tasks(700)
		x.GoAux(func() { x.Sleep(500 * ms); r.cancel() })
		for t := 0; t < 2; t++ {
			t := t
			x.Go(func() {
				for i := 0; i < 250; i++ {
					r.task(kinds[t], 300*t+i, func() { x.Sleep(time.Second) })
				}
			})
		}
		if !x.JoinOr(5 * time.Second) {
			x.Fail("a caller stays blocked after the context was cancelled")
		}
		x.SleepUntil(1600 * ms)
		x.Settle()
		x.Check(x.Threads() == 0, "workers are left after the context was cancelled")
		if late {
			x.Go(func() {
				for i := 0; i < 60; i++ {
					r.task(kinds[0], 620+i, nil)
				}
			})
			x.Settle()
			x.Check(x.Running() == 0, "a caller blocks after the context was cancelled")
		}
	})
	add("C26", S{Name: "cancelled before it is built", Bound: 1, BoundT: 2}, func(x *X) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		cancel()
		r := newRunner(x, 1+x.Choose(2), ctx, cancel)
		r.tasks(2)
		a, b := choose[byte](x, 'r', 'c'), choose[byte](x, 'r', 'c')
		x.Go(func() { r.task(a, 0, nil) })
		x.Go(func() { r.task(b, 1, nil) })
		if !x.JoinOr(time.Second) {
			x.Fail("a caller stays blocked after the context was cancelled")
		}
		x.Settle()
		x.Check(x.Threads() == 0, "workers are left after the context was cancelled")
	})
}
