package main

import (
	"math"
	"time"

	"github.com/axgrid/axutils/chans"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Settings: chunk timeouts at the ends of their range.

func init() {
	longs := []time.Duration{math.MaxInt64, math.MaxInt64 - 1, 250 * 365 * 24 * time.Hour, 1 << 56}
	gaps := func(x *X) func(i int) time.Duration {
		m := x.Choose(6)
		return func(i int) time.Duration {
			if m == 5 || i%5 == m {
				return time.Second
			}
			return 0
		}
	}
	for _, p := range []string{"C22", "C23"} {
		add(p, S{Name: "timeouts without end", Steps: 1e6}, func(x *X) {
			x.Branching(false)
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			c := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(3).WithChunkTimeout(choose(x, longs...)).WithIncomingBufferSize(x.Choose(2)).WithOutgoingBufferSize(x.Choose(2)).Build()
			gap := gaps(x)
			x.Go(func() {
				for i := 0; i < 12; i++ {
					c.Add(i)
					x.Sleep(gap(i))
				}
			})
			n, at := 0, time.Duration(0)
			for n < 12 {
				k := vrt.Recv(c.C())
				x.Check(len(k) > 0 && len(k) <= 3, "a chunk is empty or too large")
				for _, v := range k {
					x.Check(v == n, "items are lost or out of order")
					n++
				}
				x.Check(x.Now()-at <= 3*time.Second, "a full chunk is not delivered")
				at = x.Now()
			}
			x.Join()
			cancel()
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
		add(p, S{Name: "shortest timeouts", Steps: 1e6}, func(x *X) {
			x.Branching(false)
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			d := choose(x, time.Nanosecond, time.Microsecond)
			c := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(3).WithChunkTimeout(d).WithIncomingBufferSize(x.Choose(2)).WithOutgoingBufferSize(x.Choose(2)).Build()
			var sent [6]time.Duration
			x.Go(func() {
				for i := range sent {
					sent[i] = x.Now()
					x.Publish()
					c.Add(i)
					x.Sleep(choose(x, 0, 3*d))
				}
			})
			for n := 0; n < len(sent); {
				k := vrt.Recv(c.C())
				x.Collect()
				x.Check(len(k) > 0 && len(k) <= 3, "a chunk is empty or too large")
				for _, v := range k {
					x.Check(v == n, "items are lost or out of order")
					x.Check(x.Now() <= sent[n]+d, "an item is delivered too late")
					n++
				}
			}
			x.Join()
			cancel()
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
	}
	add("C25", S{Name: "timeouts without end", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		in := make(chan int)
		c, err := chans.NewShardChunk[int]().WithContext(ctx).WithIncomingChan(in).WithShardCount(2).WithShardFunc(func(v int) int { return v }).
			WithChunkSize(3).WithChunkTimeout(choose(x, longs...)).Build()
		x.Check(err == nil, "Build fails")
		gap := gaps(x)
		x.Go(func() {
			for i := 0; i < 12; i++ {
				vrt.S(in)(i)
				x.Sleep(gap(i))
			}
		})
		for n := 0; n < 12; {
			for s := 0; s < 2; s++ {
				k := vrt.Recv(c.C(s))
				x.Check(len(k) == 3, "a chunk is neither full nor over its time")
				for _, v := range k {
					x.Check(v == n/6*6+s+(n%6%3)*2, "items are lost or out of order")
					n++
				}
			}
		}
		x.Join()
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
}
