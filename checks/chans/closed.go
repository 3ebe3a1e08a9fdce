package main

import (
	"github.com/axgrid/axutils/chans"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Closed input: who owns the incoming channel may close it. What was sent is delivered, what was not is not, and
// cancellation still ends everything.

func init() {
	type run struct {
		x      *X
		in     chan int
		n      int
		size   int
		cancel func()
		got    []*vrt.Cell
	}
	begin := func(x *X) (*run, vcontext.Context) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		r := &run{x: x, in: make(chan int, choose(x, 0, 2)), n: x.Choose(4), size: choose(x, 1, 2, 3), cancel: cancel}
		for i := 0; i < r.n; i++ {
			r.got = append(r.got, x.NewCell())
		}
		return r, ctx
	}
	take := func(r *run, v int) {
		r.x.Check(v >= 1 && v <= r.n, "an item is delivered that nobody sent")
		r.got[v-1].Add(1)
	}
	end := func(r *run) {
		x := r.x
		x.Go(func() {
			for i := 1; i <= r.n; i++ {
				vrt.S(r.in)(i)
			}
			vrt.Close(r.in)
		})
		x.Join()
		x.Sleep(3 * tmo)
		x.Settle()
		for _, c := range r.got {
			x.Check(c.N() == 1, "an item that was sent before the close is not delivered once")
		}
		r.cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	}
	add("C22", S{Name: "closed input", Bound: 2, BoundT: 4, Shards: 4}, func(x *X) {
		r, ctx := begin(x)
		chans.NewChunkChan[int]().WithContext(ctx).WithIncomingChan(r.in).WithChunkSize(r.size).WithChunkTimeout(tmo).
			WithOutgoingBufferSize(x.Choose(2)).WithChunkFunc(func(k []int) {
			x.Check(len(k) > 0 && len(k) <= r.size, "a chunk is empty or too large")
			for _, v := range k {
				take(r, v)
			}
		}).Build()
		end(r)
	})
	add("C24", S{Name: "closed input", Bound: 2, BoundT: 4, Shards: 4}, func(x *X) {
		r, ctx := begin(x)
		_, err := chans.NewShardChan[int]().WithContext(ctx).WithIncomingChan(r.in).WithShardCount(r.size).
			WithOutgoingBufferSize(x.Choose(2)).WithShardFunc(func(v int) int { return v }).WithWorkerFunc(func(k int, v int) {
			take(r, v)
			x.Check(k == v%r.size, "a message is on the wrong shard")
		}).Build()
		x.Check(err == nil, "Build fails")
		end(r)
	})
	add("C25", S{Name: "closed input", Bound: 1, BoundT: 3, Shards: 4, Delay: true}, func(x *X) {
		r, ctx := begin(x)
		_, err := chans.NewShardChunk[int]().WithContext(ctx).WithIncomingChan(r.in).WithShardCount(2).WithChunkSize(r.size).WithChunkTimeout(tmo).
			WithIncomingBufferSize(2).WithOutgoingBufferSize(x.Choose(2)).WithShardFunc(func(v int) int { return v }).WithShardWorker(func(k int, c []int) {
			x.Check(len(c) > 0 && len(c) <= r.size, "a chunk is empty or too large")
			for _, v := range c {
				take(r, v)
				x.Check(k == v%2, "a message is on the wrong shard")
			}
		}).Build()
		x.Check(err == nil, "Build fails")
		end(r)
	})
}
