package main

import (
	"context"
	"fmt"
	"time"

	"github.com/axgrid/axutils/chans"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// ---- C22, C23: ChunkChan ----

type ccfg struct {
	size, in, out int
	fn            bool          // chunks are taken by a chunk function
	own           bool          // the incoming channel is the caller's
	slow          time.Duration // what the consumer does with every chunk
	late          time.Duration // when it starts
	scribble      bool          // the consumer overwrites its chunks
}

// sent is an item with the times between which it was accepted
type sent struct {
	v      int
	t0, t1 time.Duration
}

// taken is a chunk as it was delivered
type taken struct {
	shard int
	c     []int // the slice itself
	was   []int // its contents
	t     time.Duration
}

func (k *taken) String() string { return fmt.Sprintf("shard %d %v: %v", k.shard, k.t, k.was) }

// eater consumes chunks.
type eater struct {
	x        *X
	slow     time.Duration
	scribble bool
	got      []*taken
}

func (e *eater) take(shard int, c []int) {
	k := &taken{shard: shard, c: c, was: append([]int(nil), c...), t: e.x.Now()}
	e.got = append(e.got, k)
	e.x.Log("chunk", shard, fmt.Sprint(c))
	if e.scribble {
		for i := range c {
			c[i] = -1
		}
		_ = append(c, -2)
		for i := range k.was {
			k.c[i] = -1
		}
	}
	e.x.Publish()
	if e.slow > 0 {
		e.x.Sleep(e.slow)
	}
}

// loop takes chunks from c until stop is closed; it closes done at its end.
func (e *eater) loop(shard int, c chan []int, late time.Duration, stop, done chan struct{}) {
	if late > 0 {
		e.x.Sleep(late)
	}
	for {
		rc, rs := vrt.RecvCase(c), vrt.RecvCase(stop)
		if vrt.Select(false, rc.C(), rs.C()) == 1 {
			break
		}
		e.take(shard, rc.V())
	}
	vrt.Close(done)
}

// unchanged checks that delivered chunks are what they were.
func (e *eater) unchanged(x *X) {
	for _, k := range e.got {
		if e.scribble {
			for _, v := range k.c {
				x.Check(v == -1, "a delivered chunk is changed later")
			}
			continue
		}
		x.Check(fmt.Sprint(k.c) == fmt.Sprint(k.was), "a delivered chunk is changed later")
	}
}

type crun struct {
	x      *X
	c      ccfg
	ch     *chans.ChunkChan[int]
	ctx    context.Context
	cancel func()
	e      *eater
	stop   chan struct{}
	done   chan struct{}
	sent   [][]sent // per producer
}

func newChunk(x *X, c ccfg, ctx context.Context, cancel func()) *crun {
	r := &crun{x: x, c: c, e: &eater{x: x, slow: c.slow, scribble: c.scribble}, stop: make(chan struct{}), done: make(chan struct{}), ctx: ctx, cancel: cancel}
	if ctx == nil {
		r.ctx, r.cancel = vcontext.WithCancel(vcontext.Background())
	}
	b := chans.NewChunkChan[int]().WithContext(r.ctx).WithChunkSize(c.size).WithChunkTimeout(tmo).
		WithOutgoingBufferSize(c.out)
	if c.own {
		b = b.WithIncomingChan(make(chan int, c.in))
	} else {
		b = b.WithIncomingBufferSize(c.in)
	}
	if c.fn {
		b = b.WithChunkFunc(func(k []int) { r.e.take(0, k) })
	}
	r.ch = b.Build()
	return r
}

// consume starts a consumer, unless a chunk function does it.
func (r *crun) consume() {
	if !r.c.fn {
		r.x.GoAux(func() { r.e.loop(0, r.ch.C(), r.c.late, r.stop, r.done) })
	}
}

func (r *crun) produce(ps ...[]step) {
	r.sent = make([][]sent, len(ps))
	for t := range ps {
		t := t
		r.x.Go(func() {
			for _, s := range ps[t] {
				r.do(t, s)
			}
		})
	}
}

func (r *crun) do(t int, s step) {
	x := r.x
	if s.k == 'w' {
		x.Sleep(s.d)
		return
	}
	q := sent{v: s.v, t0: x.Now()}
	if s.k == 'a' {
		r.ch.Add(s.v)
	} else {
		vrt.S(r.ch.Incoming())(s.v)
	}
	q.t1 = x.Now()
	x.Log("sent", s.v, nil)
	r.sent[t] = append(r.sent[t], q)
}

// finish waits for the producers and the consumer and ends the context.
func (r *crun) finish(tail time.Duration) {
	x := r.x
	x.Join()
	x.Branching(false)
	x.Sleep(tail)
	x.Settle()
	r.end()
}

func (r *crun) end() {
	x := r.x
	r.cancel()
	if !r.c.fn {
		vrt.Close(r.stop)
		vrt.Recv(r.done)
	}
	x.Sleep(r.c.slow)
	x.Settle()
	x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
	x.Collect()
}

// complete checks that every accepted item is delivered exactly once, in order, in chunks within the bound.
// size -1: no items may be missing but chunks after cancellation are not considered
func complete(x *X, size int, sent [][]sent, got []*taken, all bool) {
	pos := map[int]int{}
	n := 0
	for _, k := range got {
		x.Check(len(k.was) > 0, "an empty chunk is delivered")
		x.Check(len(k.was) <= size, "a chunk is larger than configured")
		for _, v := range k.was {
			_, dup := pos[v]
			x.Check(!dup, "an item is delivered twice")
			pos[v] = n
			n++
		}
	}
	m := 0
	for _, p := range sent {
		last := -1
		for _, s := range p {
			i, ok := pos[s.v]
			if !ok {
				x.Check(!all, "an accepted item is not delivered")
				continue
			}
			m++
			x.Check(i > last, "the items of one producer are out of order")
			last = i
		}
	}
	x.Check(m == n, "an item is delivered that nobody sent")
}

// timely checks the delivery times of a consumer that keeps up.
func timely(x *X, size int, sent []sent, got []*taken) {
	at := map[int]time.Duration{}
	for _, k := range got {
		for _, v := range k.was {
			at[v] = k.t
		}
	}
	for _, s := range sent {
		d, ok := at[s.v]
		x.Check(ok && d <= s.t1+tmo, "an accepted item is not delivered within the chunk timeout")
		// whenever time passes there are fewer items left than a chunk takes
		n := 0
		for _, q := range sent {
			if q.t1 <= s.t1 && at[q.v] > s.t1 {
				n++
			}
		}
		x.Check(n < size, "a full chunk has to wait")
	}
}

func flat(s [][]sent) []sent {
	var r []sent
	for _, p := range s {
		r = append(r, p...)
	}
	return r
}

func init() {
	run := func(c ccfg, tail time.Duration, progs ...string) func(x *X) {
		return func(x *X) {
			r := newChunk(x, c, nil, nil)
			r.consume()
			var ps [][]step
			for t, p := range progs {
				ps = append(ps, steps(t+1, p))
			}
			r.produce(ps...)
			r.finish(tail)
			complete(x, c.size, r.sent, r.e.got, true)
			r.e.unchanged(x)
		}
	}
	// every size, buffer and way of taking the chunks
	cfg := func(x *X, maxIn, maxOut int) ccfg {
		c := ccfg{size: 1 + x.Choose(3), in: x.Choose(maxIn + 1), out: x.Choose(maxOut + 1)}
		c.fn = x.Bool()
		c.scribble = x.Bool()
		return c
	}
	add("C22", S{Name: "one producer, any sizes", Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		c := cfg(x, 2, 2)
		run(c, 2*tmo, choose(x, "aaaa", "aa4aa", "aaa2a"))(x)
	})
	add("C22", S{Name: "one producer, any sizes, slow consumer", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		c := cfg(x, 1, 2)
		c.slow = choose(x, tmo/2, tmo, 5*tmo/4)
		run(c, 10*tmo, choose(x, "aaaaa", "aa4aaa", "aa2a2a4a"))(x)
	})
	add("C22", S{Name: "one producer, late consumer", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(3), in: x.Choose(3), out: x.Choose(3), late: choose(x, tmo, 5*tmo/2, 4*tmo)}
		run(c, 6*tmo, choose(x, "aaaa", "a4a4a4a", "aa4aa"))(x)
	})
	add("C22", S{Name: "two producers", Bound: 2, BoundT: 3, Shards: 8}, func(x *X) {
		c := cfg(x, 1, 1)
		run(c, 2*tmo, choose(x, "aa", "a4a"), choose(x, "aa", "ii", "4aa"))(x)
	})
	add("C22", S{Name: "two producers, delays", Delay: true, Bound: 3, BoundT: 5, Shards: 8}, func(x *X) {
		c := cfg(x, 2, 2)
		c.slow = choose(x, 0, tmo/2)
		run(c, 10*tmo, choose(x, "aaaa", "a4aa1a"), choose(x, "aaa", "ii1i"))(x)
	})
	add("C22", S{Name: "three producers", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := cfg(x, 1, 1)
		run(c, 2*tmo, "aa", "a", choose(x, "i", "4a"))(x)
	})
	add("C22", S{Name: "incoming channel of the caller", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		c := cfg(x, 2, 1)
		c.own = true
		run(c, 2*tmo, choose(x, "aii", "iiii", "i4ai"), choose(x, "", "ia"))(x)
	})
	// every sequence of items and waits
	seq := func(x *X, alpha string, depth int) string {
		p := ""
		for i := 0; i < depth; i++ {
			p += string(alpha[x.Choose(len(alpha))])
		}
		return p
	}
	for _, d := range []struct {
		depth int
		thor  bool
	}{{6, false}, {9, true}} {
		d := d
		add("C22", S{Name: fmt.Sprint("sequences of ", d.depth), Bound: 0, BoundT: 0, Shards: 16, Thor: d.thor}, func(x *X) {
			c := ccfg{size: 1 + x.Choose(4), in: x.Choose(2), out: x.Choose(2), fn: x.Bool(), slow: choose(x, 0, tmo/2, 3*tmo/2)}
			x.Branching(false)
			run(c, time.Duration(d.depth+2)*2*tmo, seq(x, "a14", d.depth))(x)
		})
	}
	add("C22", S{Name: "many items", Bound: 0, BoundT: 0, Shards: 8}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(8), in: x.Choose(4), out: x.Choose(3), fn: x.Bool(), scribble: x.Bool()}
		p := ""
		for i := x.Choose(25); i > 0; i-- {
			p += "a"
		}
		x.Branching(false)
		run(c, 2*tmo, p)(x)
	})

	// C23: delivery times
	timed := func(c ccfg, progs ...string) func(x *X) {
		return func(x *X) {
			r := newChunk(x, c, nil, nil)
			r.consume()
			var ps [][]step
			for t, p := range progs {
				ps = append(ps, steps(t+1, p))
			}
			r.produce(ps...)
			r.finish(2 * tmo)
			complete(x, c.size, r.sent, r.e.got, true)
			timely(x, c.size, flat(r.sent), r.e.got)
		}
	}
	for _, d := range []struct {
		depth int
		thor  bool
	}{{6, false}, {9, true}} {
		d := d
		add("C23", S{Name: fmt.Sprint("times, sequences of ", d.depth), Bound: 0, BoundT: 0, Shards: 16, Thor: d.thor}, func(x *X) {
			c := ccfg{size: 1 + x.Choose(4), in: x.Choose(3), out: x.Choose(2), fn: x.Bool()}
			x.Branching(false)
			timed(c, seq(x, "a134", d.depth))(x)
		})
	}
	add("C23", S{Name: "times, one producer", Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(3), in: x.Choose(3), out: x.Choose(3), fn: x.Bool()}
		timed(c, choose(x, "aaaa", "1a3a", "4aaaa", "aa4aa", "3aa1aa"))(x)
	})
	add("C23", S{Name: "times, two producers", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(3), in: x.Choose(2), out: x.Choose(2), fn: x.Bool()}
		timed(c, choose(x, "aa", "4a", "3aa"), choose(x, "a", "aa", "1a3a", "4aa"))(x)
	})

	// C23: cancellation at every point
	stop := func(c ccfg, eats int, mk func(x *X) (context.Context, func(), func()), progs ...string) func(x *X) {
		return func(x *X) {
			ctx, cancel, trigger := mk(x)
			r := newChunk(x, c, ctx, cancel)
			if !c.fn {
				x.GoAux(func() { // takes some chunks and then no more
					for i := 0; i < eats; i++ {
						rc, rs := vrt.RecvCase(r.ch.C()), vrt.RecvCase(r.stop)
						if vrt.Select(false, rc.C(), rs.C()) == 1 {
							break
						}
						r.e.take(0, rc.V())
					}
					vrt.Close(r.done)
				})
			}
			var ps [][]step
			for t, p := range progs {
				ps = append(ps, steps(t+1, p))
			}
			r.produce(ps...)
			if trigger != nil {
				x.GoAux(trigger)
			}
			if !x.JoinOr(time.Second) {
				x.Fail("a caller of Add stays blocked after the context was cancelled")
			}
			x.Branching(false)
			x.Sleep(10 * tmo)
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
			done := make(chan struct{})
			x.Go(func() { // and later calls
				for i := 0; i < 3+c.in; i++ {
					r.ch.Add(900 + i)
				}
				vrt.Close(done)
			})
			x.Settle()
			x.Check(x.Running() == 0, "Add blocks after the context was cancelled")
			r.end()
			for p := range r.sent { // Adds that were let go may have delivered or not
				for range r.sent[p] {
				}
			}
			complete(x, c.size, append(r.sent, []sent{{v: 900}, {v: 901}, {v: 902}, {v: 903}, {v: 904}}), r.e.got, false)
			r.e.unchanged(x)
		}
	}
	anytime := func(x *X) (context.Context, func(), func()) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		return ctx, cancel, func() { cancel() }
	}
	at := func(d time.Duration) func(x *X) (context.Context, func(), func()) {
		return func(x *X) (context.Context, func(), func()) {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			return ctx, cancel, func() { x.Sleep(d); cancel() }
		}
	}
	limit := func(d time.Duration) func(x *X) (context.Context, func(), func()) {
		return func(x *X) (context.Context, func(), func()) {
			ctx, cancel := vcontext.WithTimeout(vcontext.Background(), d)
			return ctx, cancel, nil
		}
	}
	before := func(x *X) (context.Context, func(), func()) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		cancel()
		return ctx, cancel, nil
	}
	add("C23", S{Name: "cancelled at any point", Bound: 2, BoundT: 3, Shards: 8}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), fn: x.Bool()}
		n := 0
		if !c.fn {
			n = x.Choose(3)
		}
		stop(c, n, anytime, choose(x, "aaaaa", "a4aaa"))(x)
	})
	add("C23", S{Name: "cancelled at any point, two producers", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), fn: x.Bool()}
		n := 0
		if !c.fn {
			n = x.Choose(2)
		}
		stop(c, n, anytime, "aaa", choose(x, "aa", "4a"))(x)
	})
	add("C23", S{Name: "cancelled later", Delay: true, Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(3), in: x.Choose(2), out: x.Choose(2), fn: x.Bool()}
		n := 0
		if !c.fn {
			n = x.Choose(3)
		} else {
			c.slow = choose(x, 0, tmo/2, 2*tmo)
		}
		d := choose(x, tmo/2, tmo, 2*tmo, 5*tmo/2)
		stop(c, n, choose(x, at(d), limit(d)), choose(x, "aaaaaaa", "aa4aaaa", "1a3aa4aa"))(x)
	})
	add("C23", S{Name: "cancelled before it is built", Bound: 1, BoundT: 2, Shards: 4}, func(x *X) {
		c := ccfg{size: 1 + x.Choose(3), in: x.Choose(2), out: x.Choose(2), fn: x.Bool()}
		stop(c, 0, before, "aaa")(x)
	})
}
