package main

import (
	"context"
	"fmt"
	"time"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/workers"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Volume: thousands of items, large chunks, many shards and workers, in one deterministic schedule. What holds for
// the small numbers of the other scenarios holds for these.

func volume(prop, name string, variants int, body func(x *X, o int)) {
	for o := 0; o < variants; o++ {
		o := o
		add(prop, S{Name: fmt.Sprintf("volume/%s/%d", name, o), Steps: 2e7}, func(x *X) {
			x.Branching(false)
			body(x, o)
		})
	}
}

// vol checks items of several producers in chunks per output; item p*volBase+i is the i-th of producer p.
const volBase = 1 << 20

type vol struct {
	x      *X
	size   int
	next   map[[2]int]int // output and producer: the last number seen
	seen   map[int]bool
	kept   [][]int
	copies [][]int
	sentAt map[int]time.Duration
	tmo    time.Duration
	late   bool // deliveries may be late
}

func newVol(x *X, size int, tmo time.Duration) *vol {
	return &vol{x: x, size: size, tmo: tmo, next: map[[2]int]int{}, seen: map[int]bool{}, sentAt: map[int]time.Duration{}}
}

func (v *vol) chunk(out int, c []int) {
	x := v.x
	x.Check(len(c) > 0 && len(c) <= v.size, "a chunk is empty or too large")
	for _, m := range c {
		v.item(out, m)
	}
	v.kept = append(v.kept, c)
	v.copies = append(v.copies, append([]int{}, c...))
}

func (v *vol) item(out int, m int) {
	x := v.x
	p, i := m/volBase, m%volBase+1
	x.Check(!v.seen[m], "an item is delivered twice")
	v.seen[m] = true
	x.Check(i > v.next[[2]int{out, p}], "the items of a producer change their order")
	v.next[[2]int{out, p}] = i
	if at, ok := v.sentAt[m]; ok && !v.late {
		x.Check(x.Now() <= at+v.tmo, "an item is delivered too late")
	}
}

func (v *vol) end(total int) {
	x := v.x
	x.Check(len(v.seen) == total, "items are lost")
	for i, c := range v.kept {
		for j := range c {
			x.Check(c[j] == v.copies[i][j], "a delivered chunk is changed")
		}
	}
}

func init() {
	const ms = time.Millisecond
	chunked := []struct {
		size, in, out int
		fn, stall     bool
	}{{100, 1000, 100, false, false}, {1000, 10, 2, true, false}, {257, 0, 0, false, false}, {64, 300, 5, true, false}, {100, 1000, 100, false, true}, {5000, 100, 1, false, false}}
	for _, p := range []string{"C22", "C23"} {
		volume(p, "many items", len(chunked), func(x *X, o int) {
			c := chunked[o]
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			v := newVol(x, c.size, 50*ms)
			v.late = c.stall
			b := chans.NewChunkChan[int]().WithContext(ctx)
			if o > 0 {
				b.WithChunkSize(c.size).WithIncomingBufferSize(c.in).WithOutgoingBufferSize(c.out).WithChunkTimeout(50 * ms)
			}
			if c.fn {
				b.WithChunkFunc(func(k []int) { x.Collect(); v.chunk(0, k); x.Publish() })
			}
			ch := b.Build()
			const n, ps = 1830, 2
			for q := 0; q < ps; q++ {
				q := q
				x.Go(func() {
					for i := 0; i < n; i++ {
						m := q*volBase + i
						if i%500 == 499 {
							x.Sleep(20 * ms)
						}
						x.Collect()
						v.sentAt[m] = x.Now() // accepted as soon as there is room: nobody else takes it
						x.Publish()
						ch.Add(m)
					}
				})
			}
			eat := func() {
				for {
					rc, rs := vrt.RecvCase(ch.C()), vrt.RecvCase(ctx.Done())
					if vrt.Select(false, rc.C(), rs.C()) == 1 {
						return
					}
					x.Collect()
					v.chunk(0, rc.V())
					x.Publish()
				}
			}
			if !c.fn && !c.stall {
				x.GoAux(eat)
			}
			if c.stall {
				x.Sleep(10 * time.Second)
				x.GoAux(eat)
			}
			x.Join()
			x.Sleep(100 * ms)
			x.Settle()
			cancel()
			x.Settle()
			x.Collect()
			v.end(ps * n)
			x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
		})
	}
	shards := []struct {
		n, in, out int
		worker     bool
	}{{64, 1000, 100, false}, {100, 0, 0, true}, {4, 1000, 100, true}, {33, 5, 1, false}}
	volume("C24", "many shards", len(shards), func(x *X, o int) {
		c := shards[o]
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		v := newVol(x, 1, time.Hour)
		val := func(m int) int { return (m%volBase)*7919%5003 - 2500 }
		take := func(s, m int) {
			w := val(m) % c.n
			if w < 0 {
				w += c.n
			}
			x.Check(w == s, "a message is on the wrong shard")
			x.Collect()
			v.item(s, m)
			x.Publish()
		}
		b := chans.NewShardChan[int]().WithContext(ctx).WithShardFunc(val).WithShardCount(c.n).WithIncomingBufferSize(c.in).WithOutgoingBufferSize(c.out)
		if c.worker {
			b.WithWorkerFunc(take)
		}
		ch, err := b.Build()
		x.Check(err == nil, "Build fails")
		if !c.worker {
			for s := 0; s < c.n; s++ {
				s := s
				x.GoAux(func() {
					for {
						rc, rs := vrt.RecvCase(ch.C(s)), vrt.RecvCase(ctx.Done())
						if vrt.Select(false, rc.C(), rs.C()) == 1 {
							return
						}
						take(s, rc.V())
					}
				})
			}
		}
		const n, ps = 700, 2
		for q := 0; q < ps; q++ {
			q := q
			x.Go(func() {
				for i := 0; i < n; i++ {
					x.Check(ch.Add(q*volBase+i) == nil, "Add fails")
				}
			})
		}
		x.Join()
		x.Settle()
		cancel()
		x.Settle()
		x.Collect()
		v.end(ps * n)
		x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
	})
	volume("C25", "many shards", 3, func(x *X, o int) {
		n, size := []int{16, 4, 40}[o], []int{20, 500, 3}[o]
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		v := newVol(x, size, 50*ms)
		val := func(m int) int { return (m%volBase)*7919%5003 - 2500 }
		take := func(s int, k []int) {
			for _, m := range k {
				w := val(m) % n
				if w < 0 {
					w += n
				}
				x.Check(w == s, "a message is on the wrong shard")
			}
			x.Collect()
			v.chunk(s, k)
			x.Publish()
		}
		inc := make(chan int, 100)
		b := chans.NewShardChunk[int]().WithContext(ctx).WithShardFunc(val).WithShardCount(n).WithChunkSize(size).WithChunkTimeout(50 * ms).WithIncomingChan(inc)
		if o == 1 {
			b.WithShardWorker(take)
		}
		ch, err := b.Build()
		x.Check(err == nil, "Build fails")
		if o != 1 {
			for s := 0; s < n; s++ {
				s := s
				x.GoAux(func() {
					for {
						rc, rs := vrt.RecvCase(ch.C(s)), vrt.RecvCase(ctx.Done())
						if vrt.Select(false, rc.C(), rs.C()) == 1 {
							return
						}
						take(s, rc.V())
					}
				})
			}
		}
		const k, ps = 900, 2
		for q := 0; q < ps; q++ {
			q := q
			x.Go(func() {
				for i := 0; i < k; i++ {
					m := q*volBase + i
					if i%200 == 199 {
						x.Sleep(20 * ms)
					}
					vrt.S(inc)(m)
					x.Collect()
					if !v.seen[m] {
						v.sentAt[m] = x.Now()
					}
					x.Publish()
				}
			})
		}
		x.Join()
		x.Sleep(100 * ms)
		x.Settle()
		cancel()
		x.Settle()
		x.Collect()
		v.end(ps * k)
		x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
	})
	// o: Run, RunWithContext, both; twice
	volume("C26", "many workers", 6, func(x *X, o int) {
		n := []int{5, 100}[o/3]
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		b := workers.NewRunner().WithContext(ctx)
		if o/3 == 1 {
			b.WithWorkerCount(n)
		}
		r := b.Build()
		const tasks = 1500
		var ran [tasks]*vrt.Cell
		for i := range ran {
			ran[i] = x.NewCell()
		}
		cur, top := x.NewCell(), x.NewCell()
		submit := func(i int) {
			do := func() {
				x.Check(ran[i].Add(1) == 1, "a function is executed twice")
				c := cur.Add(1)
				x.Check(c <= int64(n), "more functions run at the same time than there are workers")
				if c == int64(n) {
					top.Add(1)
				}
				x.Sleep(ms)
				cur.Add(-1)
			}
			if o%3 == 1 || o%3 == 2 && i%2 == 0 {
				r.RunWithContext(func(c context.Context) {
					x.Check(c == ctx, "RunWithContext does not pass the runner's context")
					do()
				})
			} else {
				r.Run(do)
			}
		}
		for q := 0; q < 3; q++ {
			q := q
			x.Go(func() {
				for i := q; i < tasks; i += 3 {
					submit(i)
				}
			})
		}
		x.Join()
		x.Sleep(time.Duration(tasks/n+2) * ms)
		x.Settle()
		for i := range ran {
			x.Check(ran[i].N() == 1, "a function is not executed, though the workers had the time for it")
		}
		x.Check(x.Now() <= time.Duration(2*tasks/n+4)*ms && top.N() >= int64(tasks/n/2), "workers were idle while functions waited")
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "workers are left after the context was cancelled")
	})
}
