package main

import (
	"verif/vrt"
)

// The sizes that ChunkChan, ShardChan and ShardChunk report: what is in their queues (C22, C24, C25).
func init() {
	add("C22", S{Name: "sizes", Bound: 1, BoundT: 2, Shards: 4}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(3), in: x.Choose(4), out: x.Choose(3), own: x.Bool()}
		r := newChunk(x, c, nil, nil)
		eats := x.Choose(3)
		x.GoAux(func() {
			for i := 0; i < eats; i++ {
				rc, rs := vrt.RecvCase(r.ch.C()), vrt.RecvCase(r.stop)
				if vrt.Select(false, rc.C(), rs.C()) == 1 {
					break
				}
				r.e.take(0, rc.V())
			}
			vrt.Recv(r.stop)
			vrt.Close(r.done)
		})
		k := 1 + x.Choose(7)
		x.GoAux(func() { // as many as go in
			for i := 0; i < k; i++ {
				r.ch.Add(101 + i)
			}
		})
		x.Go(func() {
			in, out := r.ch.Sizes()
			x.Check(in >= 0 && in <= c.in && out >= 0 && out <= c.out, "Sizes reports more than a queue holds")
		})
		x.Join()
		x.Branching(false)
		for i := 0; i < 3; i++ {
			x.Settle()
			in, out := r.ch.Sizes()
			x.Check(in == vrt.Len(r.ch.Incoming()) && out == vrt.Len(r.ch.C()), "Sizes is not what is in the queues")
			x.Sleep(tmo)
		}
		r.end()
		r.e.unchanged(x)
	})
	add("C24", S{Name: "sizes", Bound: 1, BoundT: 2, Shards: 4}, func(x *X) {
		c := scfg{n: 1 + x.Choose(3), in: x.Choose(2), out: x.Choose(3)}
		r := newShard(x, c, nil, nil)
		vs := choose(x, []int{0, 0, 0, 0, 0}, []int{0, 1, 2, 0, 1}, []int{2, 2, 1}, []int{1})
		x.GoAux(func() {
			for i, v := range vs {
				r.ch.Add(msg{v, i})
			}
		})
		x.Go(func() {
			sz := r.ch.Sizes()
			x.Check(len(sz) == c.n, "Sizes does not report every shard")
			for _, n := range sz {
				x.Check(n >= 0 && n <= c.out, "Sizes reports more than a queue holds")
			}
		})
		x.Join()
		x.Branching(false)
		for left := true; left; {
			x.Settle()
			sz := r.ch.Sizes()
			x.Check(len(sz) == c.n, "Sizes does not report every shard")
			left = false
			for k, n := range sz {
				x.Check(n == vrt.Len(r.ch.C(k)), "Sizes is not what is in the queues")
			}
			for k := range sz {
				rc := vrt.RecvCase(r.ch.C(k))
				if vrt.Select(true, rc.C()) == 0 {
					left = true
					break
				}
			}
		}
		r.end()
	})
	add("C25", S{Name: "sizes", Bound: 0, BoundT: 1, Shards: 4}, func(x *X) {
		x.Branching(false)
		c := kcfg{n: 1 + x.Choose(3), size: 1, in: 3 * x.Choose(2), out: x.Choose(3)}
		r := newShardChunk(x, c, nil, nil)
		spread := 1 + x.Choose(c.n)
		m := choose(x, 1, 2, 3, 5, 9)
		x.Go(func() {
			for i := 0; i < m; i++ {
				vrt.S(r.inc)(msg{i % spread, i})
			}
		})
		x.Join()
		for left := m; left >= 0; left-- {
			x.Settle()
			sz, in, out := r.ch.Sizes()
			x.Check(len(sz) == c.n, "Sizes does not report every shard")
			n, all := 0, in+out+vrt.Len(r.inc)
			for k := 0; k < c.n; k++ {
				n += vrt.Len(r.ch.C(k))
				x.Check(sz[k] >= 0, "Sizes reports less than nothing")
				all += sz[k]
			}
			x.Check(n == out, "Sizes is not what is in the outgoing queues")
			x.Check(in >= 0 && all <= left && all >= left-2*c.n-1, "Sizes does not account for the messages that were sent")
			var cases []*vrt.Case
			for k := 0; k < c.n; k++ {
				rc := vrt.RecvCase(r.ch.C(k))
				cases = append(cases, rc.C())
			}
			if left > 0 {
				vrt.Select(false, cases...)
			}
		}
		r.end()
	})
}
