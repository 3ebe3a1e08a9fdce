package main

import (
	"context"
	"fmt"
	"time"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/workers"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// ---- C38: what a builder builds keeps its own configuration and state ----

// half is one of the two objects of a scenario.
type half struct {
	x      *X
	name   string
	base   int // its items are base, base+1, ...
	size   int // chunk size
	n      int // shards or workers
	tmo    time.Duration
	in     int
	out    int
	fn     bool     // a worker function takes what comes out
	inc    chan int // the caller's incoming channel
	ctx    context.Context
	cancel func()
	add    func(int)              // sends an item
	outs   func(k int) chan int   // output of a shard
	chunks func(k int) chan []int // the same, chunks
	got    [8][]gotten
	runs   *vrt.Cell
	over   *vrt.Cell // the worker function runs in this object's name although its context is over
	sent   []sent
}

type gotten struct {
	shard int
	vs    []int
	t     time.Duration
}

func newHalf(x *X, name string, base int) *half {
	h := &half{x: x, name: name, base: base, n: 1, size: 1, tmo: tmo, runs: x.NewCell(), over: x.NewCell()}
	h.ctx, h.cancel = vcontext.WithCancel(vcontext.WithValue(vcontext.Background(), ctxKey(2), name))
	return h
}

func (h *half) take(k int, vs []int) {
	h.x.Check(k >= 0 && k < h.n, "a worker gets an index of another object's configuration")
	h.got[k] = append(h.got[k], gotten{k, append([]int(nil), vs...), h.x.Now()})
	h.x.Log("got "+h.name, k, fmt.Sprint(vs))
	h.x.Publish()
}

func (h *half) all() []gotten {
	var r []gotten
	for _, g := range h.got {
		r = append(r, g...)
	}
	return r
}

// eat takes everything that comes out of output k until the context ends.
func (h *half) eat(k int) {
	x := h.x
	x.GoAux(func() {
		for {
			rd := vrt.RecvCase(h.ctx.Done())
			if h.chunks != nil {
				rc := vrt.RecvCase(h.chunks(k))
				if vrt.Select(false, rc.C(), rd.C()) == 1 {
					return
				}
				h.take(k, rc.V())
				continue
			}
			rc := vrt.RecvCase(h.outs(k))
			if vrt.Select(false, rc.C(), rd.C()) == 1 {
				return
			}
			h.take(k, []int{rc.V()})
		}
	})
}

func (h *half) send(k int) {
	for i := 0; i < k; i++ {
		v := h.base + i
		t := h.x.Now()
		h.add(v)
		h.sent = append(h.sent, sent{v: v, t0: t, t1: h.x.Now()})
	}
}

// judge: exactly the items of owners came out of h's outputs, chunks and shards by h's configuration.
func (h *half) judge(own bool) map[int]bool {
	x := h.x
	seen := map[int]bool{}
	for _, g := range h.all() {
		x.Check(len(g.vs) > 0 && len(g.vs) <= h.size, "a chunk is not of the size configured for this object")
		for _, v := range g.vs {
			x.Check(!seen[v], "an item is delivered twice")
			seen[v] = true
			if h.outs != nil || h.n > 1 {
				x.Check(shardOf(v, h.n) == g.shard, "an item is on a shard of another object's configuration")
			}
		}
	}
	if own {
		for _, s := range h.sent {
			x.Check(seen[s.v], "an item did not come out of the object that it was given to")
			for _, g := range h.all() {
				for _, v := range g.vs {
					if v == s.v {
						x.Check(g.t <= s.t1+h.tmo, "an item is not delivered within the timeout configured for its object")
					}
				}
			}
		}
		x.Check(len(seen) == len(h.sent), "an item came out of another object than it was given to")
	}
	return seen
}

// maker builds halves of one kind, all with one builder (set anew before each Build) or each with its own.
type maker struct {
	kind string
	one  bool
	c    *chans.ChunkChanBuilder[int]
	s    *chans.ShardChanBuilder[int]
	k    *chans.ShardChunkBuilder[int]
	r    *workers.RunnerBuilder
}

// set gives every option of the builder a value for h.
func (m *maker) set(h *half) {
	switch m.kind {
	case "chunk":
		if m.c == nil || !m.one {
			m.c = chans.NewChunkChan[int]()
		}
		m.c = m.c.WithContext(h.ctx).WithChunkSize(h.size).WithChunkTimeout(h.tmo).WithIncomingBufferSize(h.in).WithOutgoingBufferSize(h.out)
		if h.inc != nil {
			m.c = m.c.WithIncomingChan(h.inc)
		}
		if h.fn {
			m.c = m.c.WithChunkFunc(func(c []int) { h.take(0, c) })
		} else {
			m.c = m.c.WithChunkFunc(nil)
		}
	case "shard":
		if m.s == nil || !m.one {
			m.s = chans.NewShardChan[int]()
		}
		m.s = m.s.WithContext(h.ctx).WithShardCount(h.n).WithIncomingBufferSize(h.in).WithOutgoingBufferSize(h.out).WithShardFunc(h.shard)
		if h.inc != nil {
			m.s = m.s.WithIncomingChan(h.inc)
		}
		if h.fn {
			m.s = m.s.WithWorkerFunc(func(k, v int) { h.take(k, []int{v}) })
		} else {
			m.s = m.s.WithWorkerFunc(nil)
		}
	case "shardchunk":
		if m.k == nil || !m.one {
			m.k = chans.NewShardChunk[int]()
		}
		m.k = m.k.WithContext(h.ctx).WithShardCount(h.n).WithChunkSize(h.size).WithChunkTimeout(h.tmo).WithIncomingBufferSize(h.in).WithOutgoingBufferSize(h.out).WithShardFunc(h.shard)
		if h.inc != nil {
			m.k = m.k.WithIncomingChan(h.inc)
		}
		if h.fn {
			m.k = m.k.WithShardWorker(func(k int, c []int) { h.take(k, c) })
		} else {
			m.k = m.k.WithShardWorker(nil)
		}
	case "runner":
		if m.r == nil || !m.one {
			m.r = workers.NewRunner()
		}
		m.r = m.r.WithContext(h.ctx).WithWorkerCount(h.n)
	}
}

func (h *half) shard(v int) int {
	if h.inc == nil {
		h.x.Check(v >= h.base && v < h.base+1000, "the shard function of another object is asked")
	}
	return v
}

func (m *maker) build(h *half) {
	x := h.x
	h.add = func(v int) {
		s, d := vrt.SendCase(h.inc)(v), vrt.RecvCase(h.ctx.Done())
		vrt.Select(false, s.C(), d.C())
	}
	switch m.kind {
	case "chunk":
		c := m.c.Build()
		h.chunks = func(int) chan []int { return c.C() }
		if h.inc != nil {
			x.Check(c.Incoming() == h.inc, "the incoming channel is not the one that was given")
		}
		x.Check(cap(c.Incoming()) == h.in, "the incoming buffer is not of the size configured for this object")
		x.Check(cap(c.C()) == h.out, "the outgoing buffer is not of the size configured for this object")
		h.add = c.Add
	case "shard":
		c, err := m.s.Build()
		x.Check(err == nil, "Build fails")
		x.Check(c.ShardCount() == h.n, "ShardCount is not the one configured for this object")
		for k := 0; k < h.n; k++ {
			x.Check(cap(c.C(k)) == h.out, "an outgoing buffer is not of the size configured for this object")
		}
		x.Check(c.C(h.n) == nil, "an object has the shards of another")
		h.outs = c.C
		h.add = func(v int) { c.Add(v) }
	case "shardchunk":
		c, err := m.k.Build()
		x.Check(err == nil, "Build fails")
		x.Check(c.ShardCount() == h.n, "ShardCount is not the one configured for this object")
		for k := 0; k < h.n; k++ {
			x.Check(cap(c.C(k)) == h.out, "an outgoing buffer is not of the size configured for this object")
		}
		x.Check(c.C(h.n) == nil, "an object has the shards of another")
		h.chunks = c.C
	}
}

func (h *half) outputs() int {
	if h.outs == nil && h.chunks == nil {
		return 0
	}
	return h.n
}

func init() {
	kinds := []string{"chunk", "shard", "shardchunk"}
	// two objects, given different options; the builder is set to something else after (or while) they work
	type opts struct {
		kind        string
		one         bool
		late        int  // what is done to the builder afterwards: nothing, its options are set to a third object's, and that is built too
		conc        bool // at the same time as the objects work
		items       int
		ownIncoming bool
	}
	pair := func(x *X, o opts) (m *maker, a, b, z *half) {
		m = &maker{kind: o.kind, one: o.one}
		a, b, z = newHalf(x, "a", 1000), newHalf(x, "b", 2000), newHalf(x, "z", 9000)
		if o.kind != "shard" {
			a.size, b.size, z.size = 1+x.Choose(2), 3, 5
		}
		if o.kind != "chunk" {
			a.n, b.n, z.n = 1+x.Choose(2), 3, 4
		}
		a.in, b.in, z.in = x.Choose(2), 2, 3
		a.out, b.out, z.out = x.Choose(2), 2, 3
		a.tmo, b.tmo, z.tmo = tmo, 2*tmo, 7*tmo
		a.fn, b.fn, z.fn = x.Bool(), x.Bool(), true
		if x.Bool() {
			z.fn = false
		}
		if o.ownIncoming || o.kind == "shardchunk" { // the only way to feed a ShardChunk
			for _, h := range []*half{a, b, z} {
				h.inc = make(chan int, h.in)
			}
		}
		return
	}
	play := func(x *X, o opts) {
		m, a, b, z := pair(x, o)
		m.set(a)
		m.build(a)
		m.set(b)
		m.build(b)
		after := func() {
			if o.late > 0 {
				m.set(z)
			}
			if o.late > 1 {
				m.build(z)
			}
		}
		if !o.conc {
			after()
		}
		for _, h := range []*half{a, b} {
			if !h.fn {
				for k := 0; k < h.outputs(); k++ {
					h.eat(k)
				}
			}
		}
		x.Go(func() { a.send(o.items) })
		x.Go(func() { b.send(o.items) })
		if o.conc {
			x.GoAux(after)
		}
		x.Join()
		x.Branching(false)
		x.Sleep(3 * tmo)
		x.Settle()
		x.Collect()
		x.Check(len(z.all()) == 0, "an item came out of another object than it was given to")
		// each lives as long as its own context
		z.cancel()
		x.Settle()
		b.send(0)
		first, second := a, b
		if x.Bool() {
			first, second = b, a
		}
		first.cancel()
		x.Settle()
		// the other one still works
		second.base += 100
		x.Go(func() { second.send(2) })
		x.Join()
		x.Sleep(3 * tmo)
		x.Settle()
		second.cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left after the context of their object was cancelled")
		x.Collect()
		a.judge(true)
		b.judge(true)
	}
	for _, kind := range kinds {
		kind := kind
		add("C38", S{Name: kind + ", two objects", Bound: 0, BoundT: 1, Shards: 8}, func(x *X) {
			x.Branching(false)
			o := opts{kind: kind, one: x.Bool(), late: x.Choose(3), items: 1 + x.Choose(4), ownIncoming: kind == "shardchunk" || x.Bool()}
			play(x, o)
		})
		add("C38", S{Name: kind + ", two objects, schedules", Delay: true, Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
			o := opts{kind: kind, one: true, late: 1, conc: true, items: 2}
			play(x, o)
		})
		// two objects that share the caller's channel: every item comes out of one of them, also when one ends
		add("C38", S{Name: kind + ", shared incoming channel", Delay: true, Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
			m, a, b, z := pair(x, opts{kind: kind, one: x.Bool()})
			a.in, b.in = 1, 1
			shared := make(chan int, 1)
			a.inc, b.inc = shared, shared
			m.set(a)
			m.build(a)
			m.set(b)
			m.build(b)
			for _, h := range []*half{a, b} {
				if !h.fn {
					for k := 0; k < h.outputs(); k++ {
						h.eat(k)
					}
				}
			}
			x.Go(func() { a.send(3) })
			x.Go(func() { b.send(2) })
			x.Join()
			x.Branching(false)
			x.Sleep(3 * tmo)
			x.Settle()
			b.cancel()
			z.cancel()
			x.Settle()
			a.base += 100
			x.Go(func() { a.send(3) })
			x.Join()
			x.Sleep(3 * tmo)
			x.Settle()
			a.cancel()
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left after the context of their object was cancelled")
			x.Collect()
			sa, sb := a.judge(false), b.judge(false)
			for _, s := range append(a.sent, b.sent...) {
				x.Check(sa[s.v] != sb[s.v], "an item of the shared channel does not come out exactly once")
			}
			x.Check(len(sa)+len(sb) == len(a.sent)+len(b.sent), "an item is delivered that nobody sent")
			for v := a.base; v < a.base+3; v++ {
				x.Check(sa[v], "an object takes items after its context was cancelled")
			}
		})
	}
	// defaults: what is not set is what the documentation of the package promises a new builder has
	add("C38", S{Name: "builder used again without a new incoming channel", Bound: 0, BoundT: 1, Shards: 4}, func(x *X) {
		x.Branching(false)
		// Build n objects from one builder without touching it: each has its own channels
		kind := kinds[x.Choose(2)]
		n := 2 + x.Choose(2)
		hs := make([]*half, n)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := &maker{kind: kind, one: true}
		set := false
		for i := range hs {
			hs[i] = newHalf(x, fmt.Sprint(i), 1000*(i+1))
			hs[i].ctx, hs[i].cancel = ctx, cancel
			hs[i].in, hs[i].out, hs[i].n = 1, 1, 1
			if kind == "shard" {
				hs[i].n = 2
			} else {
				hs[i].size = 2
			}
			if !set {
				m.set(hs[i])
				if kind == "shard" {
					m.s.WithShardFunc(func(v int) int { return v })
				}
				set = true
			}
			m.build(hs[i])
		}
		for _, h := range hs {
			for k := 0; k < h.outputs(); k++ {
				h.eat(k)
			}
		}
		for _, h := range hs {
			h := h
			x.Go(func() { h.send(3) })
		}
		x.Join()
		x.Sleep(3 * tmo)
		x.Settle()
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left after the context of their object was cancelled")
		x.Collect()
		for _, h := range hs {
			h.judge(true)
		}
	})
	// runners
	runners := func(x *X, one bool, late int, conc bool) {
		m := &maker{kind: "runner", one: one}
		a, b, z := newHalf(x, "a", 1000), newHalf(x, "b", 2000), newHalf(x, "z", 3000)
		a.n, b.n, z.n = 1+x.Choose(2), 3, 4
		m.set(a)
		ra := m.r.Build()
		m.set(b)
		rb := m.r.Build()
		after := func() {
			if late > 0 {
				m.set(z)
			}
			if late > 1 {
				m.r.Build()
			}
		}
		if !conc {
			after()
		}
		kind := [2]byte{choose[byte](x, 'r', 'c'), choose[byte](x, 'r', 'c')}
		cur := [2]*vrt.Cell{x.NewCell(), x.NewCell()}
		task := func(i int, d time.Duration) func() {
			h := []*half{a, b}[i]
			return func() {
				x.Check(cur[i].Add(1) <= int64(h.n), "more functions run at the same time than the object has workers")
				h.runs.Add(1)
				if d > 0 {
					x.Sleep(d)
				} else {
					x.Point()
				}
				cur[i].Add(-1)
			}
		}
		submit := func(i int, d time.Duration) {
			r, h := []*workers.Runner{ra, rb}[i], []*half{a, b}[i]
			f := task(i, d)
			if kind[i] == 'c' {
				r.RunWithContext(func(ctx context.Context) {
					x.Check(ctx == h.ctx, "a function is run with the context of another object")
					f()
				})
				return
			}
			r.Run(f)
		}
		if conc {
			x.GoAux(after)
			x.Go(func() { submit(0, 0) })
			x.Go(func() { submit(1, 0) })
			x.Join()
			x.Branching(false)
			x.Settle()
			x.Check(a.runs.N() == 1 && b.runs.N() == 1, "an accepted function is not executed")
		} else {
			x.Go(func() {
				for i := 0; i < 4; i++ {
					submit(0, time.Second)
					submit(1, time.Second)
				}
			})
			x.Join()
			x.Settle()
			x.Check(cur[0].N() == int64(a.n), "not all workers of an object work for it")
			x.Check(cur[1].N() == int64(b.n), "not all workers of an object work for it")
			x.Sleep(10 * time.Second)
			x.Settle()
			x.Check(a.runs.N() == 4 && b.runs.N() == 4, "an accepted function is not executed")
		}
		z.cancel()
		i := x.Choose(2)
		hs := []*half{a, b}
		hs[i].cancel()
		x.Settle()
		n := hs[1-i].runs.N()
		x.Go(func() { submit(1-i, 0); submit(1-i, 0) })
		x.Join()
		x.Settle()
		x.Check(hs[1-i].runs.N() == n+2, "an object does not work after the context of another one was cancelled")
		hs[1-i].cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left after the context of their object was cancelled")
	}
	add("C38", S{Name: "runner, two objects", Bound: 0, BoundT: 1, Shards: 4}, func(x *X) {
		x.Branching(false)
		runners(x, x.Bool(), x.Choose(3), false)
	})
	add("C38", S{Name: "runner, two objects, schedules", Delay: true, Bound: 2, BoundT: 3, Shards: 4}, func(x *X) {
		runners(x, true, 1+x.Choose(2), true)
	})
}
