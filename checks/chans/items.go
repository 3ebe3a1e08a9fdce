package main

import (
	"fmt"

	"github.com/axgrid/axutils/chans"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Items of any kind: nil, zero values and equal items are items.

var oddItems = []any{nil, nil, 0, 0, "", (*int)(nil), false, 0.0, struct{}{}, nil, 1, 1, 1, int64(1), "1", error(nil), "", nil, nil, nil}

func init() {
	kind := func(v any) int { return len(fmt.Sprintf("%T", v)) }
	feed := func(x *X, in chan any) {
		x.Go(func() {
			for _, v := range oddItems {
				vrt.S(in)(v)
			}
		})
	}
	same := func(x *X, got []any, shards, s int) {
		n := 0
		for _, v := range oddItems {
			if kind(v)%shards != s {
				continue
			}
			x.Check(n < len(got) && got[n] == v, "an item is lost, added, or not in its place")
			n++
		}
		x.Check(n == len(got), "items are delivered that nobody sent")
	}
	add("C22", S{Name: "items of any kind", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		in, size := make(chan any, x.Choose(2)), choose(x, 1, 2, 3, 7)
		b := chans.NewChunkChan[any]().WithContext(ctx).WithIncomingChan(in).WithChunkSize(size).WithChunkTimeout(tmo).WithOutgoingBufferSize(x.Choose(2))
		var got []any
		take := func(k []any) {
			x.Check(len(k) > 0 && len(k) <= size, "a chunk is empty or too large")
			got = append(got, k...)
		}
		if x.Choose(2) == 0 {
			c := b.Build()
			feed(x, in)
			for len(got) < len(oddItems) {
				take(vrt.Recv(c.C()))
			}
			x.Join()
		} else {
			b.WithChunkFunc(func(k []any) { take(k); x.Publish() }).Build()
			feed(x, in)
			x.Join()
		}
		x.Sleep(3 * tmo)
		x.Settle()
		x.Collect()
		same(x, got, 1, 0)
		cancel()
	})
	add("C24", S{Name: "items of any kind", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		in, shards := make(chan any, x.Choose(2)), choose(x, 1, 2, 3)
		c, err := chans.NewShardChan[any]().WithContext(ctx).WithIncomingChan(in).WithShardCount(shards).WithOutgoingBufferSize(len(oddItems)).
			WithShardFunc(kind).Build()
		x.Check(err == nil, "Build fails")
		feed(x, in)
		x.Join()
		x.Settle()
		for s := 0; s < shards; s++ {
			var got []any
			for vrt.Len(c.C(s)) > 0 {
				got = append(got, vrt.Recv(c.C(s)))
			}
			same(x, got, shards, s)
		}
		cancel()
	})
	add("C25", S{Name: "items of any kind", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		in, shards, size := make(chan any, x.Choose(2)), choose(x, 1, 2, 3), choose(x, 1, 2, 3)
		c, err := chans.NewShardChunk[any]().WithContext(ctx).WithIncomingChan(in).WithShardCount(shards).WithChunkSize(size).WithChunkTimeout(tmo).
			WithIncomingBufferSize(6).WithOutgoingBufferSize(len(oddItems)).WithShardFunc(kind).Build()
		x.Check(err == nil, "Build fails")
		feed(x, in)
		x.Join()
		x.Sleep(3 * tmo)
		x.Settle()
		for s := 0; s < shards; s++ {
			var got []any
			for vrt.Len(c.C(s)) > 0 {
				k := vrt.Recv(c.C(s))
				x.Check(len(k) > 0 && len(k) <= size, "a chunk is empty or too large")
				got = append(got, k...)
			}
			same(x, got, shards, s)
		}
		cancel()
	})
}
