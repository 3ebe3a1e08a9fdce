package main

import (
	"context"
	"time"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/workers"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Callbacks that use the object that calls them: chunk functions and workers that feed what they get back in, tasks
// that submit tasks, and callbacks that cancel.

type loop struct {
	x      *X
	depth  int // how often an item comes back: v, 10v, 100v, ...
	in     int
	out    int
	size   int
	stopAt int // the item at which the callback cancels
	ctx    context.Context
	cancel func()
	got    map[int]*vrt.Cell // written by nobody after the start
	add    func(v int)
}

// take is called for each item from a callback.
func (l *loop) take(v int) {
	c := l.got[v]
	if c == nil {
		l.x.Failf("item %d comes out that was not fed in", v)
		return
	}
	if c.Add(1) > 1 {
		l.x.Failf("item %d comes out twice", v)
		return
	}
	l.x.Log("item", v, nil)
	l.x.Publish()
	if v == l.stopAt {
		l.cancel()
	}
	k := v
	n := 0
	for k%10 == 0 {
		k /= 10
		n++
	}
	if n < l.depth {
		l.add(v * 10)
	}
}

func (l *loop) expect(items ...int) {
	for _, v := range items {
		for k := 0; k <= l.depth; k++ {
			l.got[v] = l.x.NewCell()
			v *= 10
		}
	}
}

func (l *loop) run(items ...int) {
	x := l.x
	for _, v := range items {
		v := v
		x.Go(func() { l.add(v) })
	}
	x.Join()
	x.Branching(false)
	x.Sleep(time.Duration(len(items)*(l.depth+2)) * tmo)
	x.Settle()
	x.Collect()
	if l.stopAt == 0 {
		for v, c := range l.got {
			if c.N() != 1 {
				x.Failf("item %d comes out %d times", v, c.N())
			}
		}
		l.cancel()
		x.Settle()
	}
	x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
}

func newLoop(x *X, depth int) *loop {
	l := &loop{x: x, depth: depth, got: map[int]*vrt.Cell{}}
	l.ctx, l.cancel = vcontext.WithCancel(vcontext.Background())
	return l
}

func init() {
	// chain: one item that is fed back, without any buffer; busy: several, with room for all
	type form struct {
		name  string
		items []int
		bound int
		room  bool
		stop  []int
	}
	forms := []form{{"one item fed back", []int{1}, 3, false, nil}, {"items fed back", []int{1, 2}, 1, true, nil},
		{"callback that cancels", []int{1, 2}, 1, true, []int{1, 10, 20}}}
	for _, f := range forms {
		f := f
		begin := func(x *X) *loop {
			l := newLoop(x, 1+x.Choose(2))
			if f.room {
				l.in, l.out = 8, x.Choose(2)*8
			}
			l.size = 1 + x.Choose(2)
			l.expect(f.items...)
			if f.stop != nil {
				l.stopAt = choose(x, f.stop...)
			}
			return l
		}
		p22, p24, p25 := "C22", "C24", "C25"
		if f.stop != nil {
			p22 = "C23"
		}
		add(p22, S{Name: "chunk function: " + f.name, Bound: f.bound + 1, BoundT: f.bound + 2, Shards: 4}, func(x *X) {
			l := begin(x)
			var c *chans.ChunkChan[int]
			l.add = func(v int) { c.Add(v) }
			ready := make(chan struct{})
			c = chans.NewChunkChan[int]().WithContext(l.ctx).WithChunkSize(l.size).WithChunkTimeout(tmo).
				WithIncomingBufferSize(l.in).WithOutgoingBufferSize(l.out).WithChunkFunc(func(k []int) {
				vrt.Recv(ready)
				for _, v := range k {
					l.take(v)
				}
			}).Build()
			vrt.Close(ready)
			l.run(f.items...)
		})
		add(p24, S{Name: "worker function: " + f.name, Bound: f.bound, BoundT: f.bound + 2, Shards: 4}, func(x *X) {
			l := begin(x)
			same := l.size == 1
			var c *chans.ShardChan[int]
			ready := make(chan struct{})
			l.add = func(v int) {
				if err := c.Add(v); err != nil {
					x.Check(l.ctx.Err() != nil, "Add fails before cancellation")
				}
			}
			var err error
			c, err = chans.NewShardChan[int]().WithContext(l.ctx).WithShardCount(2).WithIncomingBufferSize(l.in).WithOutgoingBufferSize(l.out).
				WithShardFunc(func(v int) int {
					if same {
						return 1
					}
					return v / 10 % 2
				}).WithWorkerFunc(func(_ int, v int) {
				vrt.Recv(ready)
				l.take(v)
			}).Build()
			if err != nil {
				x.Failf("Build: %v", err)
			}
			vrt.Close(ready)
			l.run(f.items...)
		})
		add(p25, S{Name: "shard worker: " + f.name, Bound: f.bound + 1, BoundT: f.bound + 3, Shards: 4, Delay: true}, func(x *X) {
			l := begin(x)
			inc := make(chan int, l.in)
			l.add = func(v int) {
				s, d := vrt.SendCase(inc)(v), vrt.RecvCase(l.ctx.Done())
				vrt.Select(false, s.C(), d.C())
			}
			_, err := chans.NewShardChunk[int]().WithContext(l.ctx).WithShardCount(2).WithChunkSize(l.size).WithChunkTimeout(tmo).
				WithIncomingBufferSize(l.in).WithOutgoingBufferSize(l.out).WithIncomingChan(inc).
				WithShardFunc(func(v int) int { return v / 10 % 2 }).WithShardWorker(func(_ int, k []int) {
				for _, v := range k {
					l.take(v)
				}
			}).Build()
			if err != nil {
				x.Failf("Build: %v", err)
			}
			l.run(f.items...)
		})
		add("C26", S{Name: "tasks: " + f.name, Bound: f.bound, BoundT: f.bound + 2, Shards: 4}, func(x *X) {
			l := begin(x)
			n := l.size
			r := workers.NewRunner().WithContext(l.ctx).WithWorkerCount(n).Build()
			ctx := x.Choose(2) == 1
			l.add = func(v int) {
				if ctx != (v >= 10) {
					r.RunWithContext(func(c context.Context) {
						x.Check(c == l.ctx, "RunWithContext does not pass the runner's context")
						l.take(v)
					})
				} else {
					r.Run(func() { l.take(v) })
				}
			}
			l.run(f.items...)
		})
	}
}
