package main

import (
	"math"

	"github.com/axgrid/axutils/chans"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Queues: the configured sizes are what callers of Add notice when nobody reads.

func init() {
	const slack = 8 // items in work
	sizes := []int{0, 1, 2, 7, 60}
	accepted := func(x *X, add func(i int)) *int {
		n := new(int)
		x.Go(func() {
			for i := 0; i < 1500; i++ {
				add(i)
				*n++
				x.Publish()
			}
		})
		x.Settle()
		x.Collect()
		return n
	}
	add("C38", S{Name: "queues of a ChunkChan", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		in, out, size := choose(x, sizes...), choose(x, sizes...), choose(x, 1, 3)
		b := chans.NewChunkChan[int]().WithContext(ctx).WithIncomingBufferSize(in).WithOutgoingBufferSize(out).WithChunkSize(size).WithChunkTimeout(math.MaxInt64)
		c := b.Build()
		b.WithIncomingBufferSize(1000).WithOutgoingBufferSize(1000).WithChunkSize(9)
		n := accepted(x, c.Add)
		x.Check(*n >= in+out*size, "Add blocks although the queues are not full")
		x.Check(*n <= in+(out+2)*size+slack, "more items are accepted than the queues hold")
		x.Check(vrt.Len(c.C()) <= out && vrt.Len(c.Incoming()) <= in, "a queue holds more than configured")
		cancel()
		x.Join()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
	add("C38", S{Name: "queues of a ShardChan", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		in, out, shards := choose(x, sizes...), choose(x, sizes...), choose(x, 1, 3)
		b := chans.NewShardChan[int]().WithContext(ctx).WithIncomingBufferSize(in).WithOutgoingBufferSize(out).WithShardCount(shards).WithShardFunc(func(int) int { return 0 })
		c, err := b.Build()
		x.Check(err == nil, "Build fails")
		b.WithIncomingBufferSize(1000).WithOutgoingBufferSize(1000)
		n := accepted(x, func(i int) { c.Add(i) })
		x.Check(*n >= in+out, "Add blocks although the queues are not full")
		x.Check(*n <= in+out+slack, "more messages are accepted than the queues hold")
		for k := 0; k < shards; k++ {
			x.Check(vrt.Len(c.C(k)) <= out, "a queue holds more than configured")
		}
		cancel()
		x.Join()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
}
