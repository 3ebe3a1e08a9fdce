package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/axgrid/axutils/chans"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// ---- C24: ShardChan ----

// msg is a message: the value that the shard function gives, and who sent it
type msg struct{ v, id int }

type scfg struct {
	n, in, out int
	worker     bool
	own        bool
	slow       time.Duration
}

type rec struct {
	shard int
	m     msg
}

type srun struct {
	x      *X
	c      scfg
	ctx    context.Context
	cancel func()
	ch     *chans.ShardChan[msg]
	inc    chan msg
	got    [][]rec // per shard
	busy   []*vrt.Cell
	stop   chan struct{}
	done   chan struct{}
	nDone  int
	sent   [][]msg
}

func shardOf(v, n int) int { // the remainder that is not negative
	r := v % n
	if r < 0 {
		r += n
	}
	return r
}

func newShard(x *X, c scfg, ctx context.Context, cancel func()) *srun {
	r := &srun{x: x, c: c, ctx: ctx, cancel: cancel, got: make([][]rec, c.n), stop: make(chan struct{}), done: make(chan struct{}, 8)}
	if ctx == nil {
		r.ctx, r.cancel = vcontext.WithCancel(vcontext.Background())
	}
	for i := 0; i < c.n; i++ {
		r.busy = append(r.busy, x.NewCell())
	}
	b := chans.NewShardChan[msg]().WithContext(r.ctx).WithShardCount(c.n).WithOutgoingBufferSize(c.out).
		WithShardFunc(func(m msg) int { return m.v })
	if c.own {
		r.inc = make(chan msg, c.in)
		b = b.WithIncomingChan(r.inc)
	} else {
		b = b.WithIncomingBufferSize(c.in)
	}
	if c.worker {
		b = b.WithWorkerFunc(r.work)
	}
	ch, err := b.Build()
	x.Check(err == nil && ch != nil, "Build fails")
	r.ch = ch
	x.Check(ch.ShardCount() == c.n, "ShardCount is not the configured one")
	for _, k := range []int{-1, -c.n, c.n, c.n + 1, 2 * c.n, math.MaxInt, math.MinInt} {
		x.Check(ch.C(k) == nil, "C of an index out of range is not nil")
	}
	for k := 0; k < c.n; k++ {
		x.Check(ch.C(k) != nil, "C of a shard is nil")
		for j := 0; j < k; j++ {
			x.Check(ch.C(k) != ch.C(j), "two shards have the same channel")
		}
	}
	return r
}

func (r *srun) work(k int, m msg) {
	x := r.x
	x.Check(k >= 0 && k < r.c.n, "the worker gets an index out of range")
	x.Check(r.busy[k].Add(1) == 1, "two messages of one shard are worked on at the same time")
	r.got[k] = append(r.got[k], rec{k, m})
	x.Log("work", k, m.id)
	x.Publish()
	if r.c.slow > 0 {
		x.Sleep(r.c.slow)
	} else {
		x.Point()
	}
	r.busy[k].Add(-1)
}

// consume starts a consumer of shard k.
func (r *srun) consume(k int) {
	if r.c.worker {
		return
	}
	r.nDone++
	c := r.ch.C(k)
	r.x.GoAux(func() {
		for {
			rc, rs := vrt.RecvCase(c), vrt.RecvCase(r.stop)
			if vrt.Select(false, rc.C(), rs.C()) == 1 {
				break
			}
			m := rc.V()
			r.got[k] = append(r.got[k], rec{k, m})
			r.x.Log("got", k, m.id)
		}
		vrt.S(r.done)(struct{}{})
	})
}

// produce starts a producer per list of values
func (r *srun) produce(ps ...[]int) {
	r.sent = make([][]msg, len(ps))
	for t := range ps {
		t := t
		r.x.Go(func() {
			for i, v := range ps[t] {
				m := msg{v, (t+1)*100 + i}
				if r.inc != nil && i&1 == 1 {
					s, d := vrt.SendCase(r.inc)(m), vrt.RecvCase(r.ctx.Done())
					if vrt.Select(false, s.C(), d.C()) == 0 {
						r.sent[t] = append(r.sent[t], m)
					}
					continue
				}
				err := r.ch.Add(m)
				if err == nil {
					r.sent[t] = append(r.sent[t], m)
					continue
				}
				r.x.Check(r.ctx.Err() != nil, "Add gives an error although the context is alive")
				r.x.Check(err == r.ctx.Err(), "Add does not give the context's error")
			}
		})
	}
}

// end cancels and stops the consumers.
func (r *srun) end() {
	x := r.x
	r.cancel()
	vrt.Close(r.stop)
	for i := 0; i < r.nDone; i++ {
		vrt.Recv(r.done)
	}
	x.Sleep(2 * r.c.slow)
	x.Settle()
	x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
	x.Collect()
}

func (r *srun) judge(all bool) {
	x := r.x
	at := map[int][2]int{}
	n := 0
	for k := range r.got {
		for i, g := range r.got[k] {
			x.Check(g.shard == k, "")
			_, dup := at[g.m.id]
			x.Check(!dup, "a message is delivered twice")
			x.Check(k == shardOf(g.m.v, r.c.n), "a message is delivered on another shard")
			at[g.m.id] = [2]int{k, i}
			n++
		}
	}
	m := 0
	for _, p := range r.sent {
		last := make([]int, r.c.n)
		for i := range last {
			last[i] = -1
		}
		for _, s := range p {
			w, ok := at[s.id]
			if !ok {
				x.Check(!all, "an accepted message is not delivered")
				continue
			}
			m++
			x.Check(w[1] > last[w[0]], "the messages of one producer are out of order within their shard")
			last[w[0]] = w[1]
		}
	}
	x.Check(!all || m == n, "a message is delivered that nobody sent")
}

func init() {
	run := func(c scfg, ps ...[]int) func(x *X) {
		return func(x *X) {
			r := newShard(x, c, nil, nil)
			for k := 0; k < c.n; k++ {
				r.consume(k)
			}
			r.produce(ps...)
			x.Join()
			x.Branching(false)
			x.Sleep(10 * tmo)
			x.Settle()
			r.end()
			r.judge(true)
		}
	}
	cfg := func(x *X, maxN int) scfg {
		return scfg{n: 1 + x.Choose(maxN), in: x.Choose(2), out: x.Choose(2), worker: x.Bool()}
	}
	list := func(x *X, n int, of ...int) []int {
		var r []int
		for i := 0; i < n; i++ {
			r = append(r, choose(x, of...))
		}
		return r
	}
	add("C24", S{Name: "one producer", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		c := cfg(x, 2)
		c.own = x.Bool()
		run(c, list(x, 4, 0, 1))(x)
	})
	add("C24", S{Name: "one producer, three shards, negative values", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := scfg{n: 3, in: 1, out: 1, worker: x.Bool()}
		run(c, list(x, 3, -4, -1, 0, 2))(x)
	})
	add("C24", S{Name: "two producers", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := cfg(x, 2)
		run(c, list(x, 2, 0, 1), list(x, 2, 0, 1))(x)
	})
	add("C24", S{Name: "two producers, own channel", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := scfg{n: 2, in: x.Choose(2), out: x.Choose(2), worker: x.Bool(), own: true}
		run(c, []int{0, 1, 0}, list(x, 2, 0, 1))(x)
	})
	add("C24", S{Name: "three producers, delays", Delay: true, Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		c := scfg{n: 1 + x.Choose(3), in: x.Choose(3), out: x.Choose(3), worker: x.Bool()}
		run(c, choose(x, []int{0, 1, 2, 0, 1}, []int{0, 0, 0, 0}), choose(x, []int{-1, 0, -1}, []int{2, 1}), []int{0, 1})(x)
	})
	add("C24", S{Name: "slow workers", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := scfg{n: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), worker: true, slow: tmo}
		run(c, list(x, 4, 0, 1))(x)
	})
	// every value of a range, and the extreme ones
	add("C24", S{Name: "values", Bound: 0, BoundT: 0, Shards: 4}, func(x *X) {
		x.Branching(false)
		c := scfg{n: 1 + x.Choose(9), in: 2 * x.Choose(2), out: 2 * x.Choose(2), worker: x.Bool()}
		var vs []int
		for v := -20; v <= 20; v++ {
			vs = append(vs, v)
		}
		for d := 0; d < 5; d++ {
			vs = append(vs, math.MinInt+d, math.MaxInt-d, math.MinInt32-d, math.MinInt32+d, math.MaxInt32-d, math.MaxInt32+d, math.MaxUint32+d)
		}
		x.Cases(len(vs))
		run(c, append(vs, vs...))(x)
	})
	add("C24", S{Name: "no shard function"}, func(x *X) {
		x.Branching(false)
		b := chans.NewShardChan[msg]()
		if x.Bool() {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			b = b.WithContext(ctx).WithShardCount(2)
			defer cancel()
		}
		if x.Bool() {
			b = b.WithWorkerFunc(func(int, msg) {})
		}
		if x.Bool() {
			b = b.WithIncomingChan(make(chan msg))
		}
		ch, err := b.Build()
		x.Check(err != nil, "Build without a shard function gives no error")
		x.Check(ch == nil, "Build without a shard function gives a ShardChan")
		x.Settle()
		x.Check(x.Threads() == 0, "Build without a shard function starts goroutines")
	})

	// cancellation; eats: shard i is read eats[i] times
	stop := func(c scfg, eats []int, ctx context.Context, cancel, trigger func(), ps ...[]int) func(x *X) {
		return func(x *X) {
			r := newShard(x, c, ctx, cancel)
			if !c.worker {
				for k, n := range eats {
					k, n := k, n
					if n == 0 {
						continue
					}
					r.nDone++
					x.GoAux(func() {
						for i := 0; i < n; i++ {
							rc, rs := vrt.RecvCase(r.ch.C(k)), vrt.RecvCase(r.stop)
							if vrt.Select(false, rc.C(), rs.C()) == 1 {
								break
							}
							r.got[k] = append(r.got[k], rec{k, rc.V()})
						}
						vrt.S(r.done)(struct{}{})
					})
				}
			}
			r.produce(ps...)
			if trigger != nil {
				x.GoAux(trigger)
			}
			if !x.JoinOr(time.Second) {
				x.Fail("a caller of Add stays blocked after the context was cancelled")
			}
			x.Branching(false)
			x.Sleep(10 * tmo)
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
			errs := x.NewCell()
			x.Go(func() { // later calls: the buffer may take some, nobody takes the others
				for i := 0; i < 2+c.in; i++ {
					err := r.ch.Add(msg{0, 900 + i})
					x.Check(err == nil || err == r.ctx.Err(), "Add does not give the context's error")
					if err != nil {
						errs.Add(1)
					}
				}
			})
			x.Settle()
			x.Check(x.Running() == 0, "Add blocks after the context was cancelled")
			x.Check(errs.N() >= 2, "Add gives no error after the context was cancelled although nobody took the message")
			r.end()
			r.judge(false)
		}
	}
	shapes := func(x *X) [][]int {
		return choose(x, [][]int{{0, 0, 0, 0}}, [][]int{{0, 1, 0, 1, 0}}, [][]int{{0, 0, 0}, {0, 1}})
	}
	add("C24", S{Name: "cancelled at any point", Bound: 1, BoundT: 3, Shards: 8}, func(x *X) {
		c := scfg{n: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2)}
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		eats := []int{x.Choose(2), x.Choose(2)}
		stop(c, eats[:c.n], ctx, cancel, cancel, shapes(x)...)(x)
	})
	add("C24", S{Name: "cancelled at any point, workers", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := scfg{n: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), worker: true, slow: choose(x, 0, tmo)}
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		stop(c, nil, ctx, cancel, cancel, choose(x, [][]int{{0, 0, 0, 0, 0}}, [][]int{{0, 0}, {0, 1}})...)(x)
	})
	add("C24", S{Name: "cancelled later", Delay: true, Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		c := scfg{n: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), worker: x.Bool(), slow: tmo}
		d := choose(x, tmo/2, tmo, 2*tmo, 5*tmo/2)
		switch x.Choose(3) {
		case 0:
			ctx, cancel := vcontext.WithTimeout(vcontext.Background(), d)
			stop(c, []int{x.Choose(2), 0}[:c.n], ctx, cancel, nil, shapes(x)...)(x)
			return
		case 1: // the parent has a deadline or ends with a cause
			root, end := vcontext.WithTimeout(vcontext.Background(), d)
			top, cause := vcontext.WithCancelCause(root)
			ctx, cancel := vcontext.WithTimeout(top, 100*d)
			both := func() { cancel(); end() }
			if x.Bool() {
				stop(c, []int{x.Choose(2), 0}[:c.n], ctx, both, nil, []int{0, 0, 1})(x)
			} else {
				stop(c, []int{x.Choose(2), 0}[:c.n], ctx, both, func() { x.Sleep(d / 2); cause(errors.New("the cause")) }, []int{0, 0, 1})(x)
			}
			return
		}
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		stop(c, []int{x.Choose(2), 0}[:c.n], ctx, cancel, func() { x.Sleep(d); cancel() }, shapes(x)...)(x)
	})
	add("C24", S{Name: "cancelled before it is built", Bound: 1, BoundT: 2, Shards: 2}, func(x *X) {
		c := scfg{n: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), worker: x.Bool()}
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		cancel()
		stop(c, []int{1, 1}[:c.n], ctx, cancel, nil, []int{0, 0, 0}, []int{0})(x)
	})

	// ---- C25: ShardChunk ----
	chunked := func(c kcfg, tail time.Duration, timed bool, progs ...string) func(x *X) {
		return func(x *X) {
			r := newShardChunk(x, c, nil, nil)
			r.consume()
			r.produce(progs...)
			x.Join()
			x.Branching(false)
			x.Sleep(tail)
			x.Settle()
			r.end()
			r.judge(true)
			if timed {
				r.timely()
			}
		}
	}
	kc := func(x *X) kcfg {
		return kcfg{n: 1 + x.Choose(2), size: 1 + x.Choose(3), in: x.Choose(2), out: x.Choose(2), worker: x.Bool()}
	}
	add("C25", S{Name: "one producer", Bound: 0, BoundT: 1, Shards: 8}, func(x *X) {
		c := kc(x)
		chunked(c, 3*tmo, true, choose(x, "xxx", "xyxy", "xy4yx"))(x)
	})
	add("C25", S{Name: "one producer, preemptions", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		c := kcfg{n: 2, size: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), worker: x.Bool()}
		chunked(c, 3*tmo, true, choose(x, "xxy", "x4x"))(x)
	})
	add("C25", S{Name: "two producers", Bound: 0, BoundT: 1, Shards: 8}, func(x *X) {
		c := kc(x)
		chunked(c, 3*tmo, true, choose(x, "xx", "xy"), choose(x, "xx", "4x"))(x)
	})
	add("C25", S{Name: "slow consumers", Delay: true, Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		c := kc(x)
		c.slow = choose(x, tmo/2, 5*tmo/4)
		chunked(c, 12*tmo, false, choose(x, "xxxxxx", "xy4xyx", "xx1xy3x"))(x)
	})
	add("C25", S{Name: "two producers, delays", Delay: true, Bound: 2, BoundT: 4, Shards: 8}, func(x *X) {
		c := kc(x)
		c.scribble = true
		chunked(c, 3*tmo, true, choose(x, "xyx", "xxxx", "x4yx"), choose(x, "xx", "4xy", "3x1x"))(x)
	})
	for _, d := range []struct {
		depth int
		thor  bool
	}{{5, false}, {8, true}} {
		d := d
		add("C25", S{Name: fmt.Sprint("sequences of ", d.depth), Bound: 0, BoundT: 0, Shards: 8, Thor: d.thor}, func(x *X) {
			c := kcfg{n: 1 + x.Choose(3), size: 1 + x.Choose(3), in: x.Choose(3), out: x.Choose(2), worker: x.Bool(), scribble: x.Bool()}
			p := ""
			for i := 0; i < d.depth; i++ {
				p += choose(x, "x", "y", "1", "4")
			}
			x.Branching(false)
			chunked(c, 3*tmo, true, p)(x)
		})
	}
	add("C25", S{Name: "values", Bound: 0, BoundT: 0, Shards: 4}, func(x *X) {
		x.Branching(false)
		c := kcfg{n: 1 + x.Choose(5), size: 1 + x.Choose(4), in: 5 * x.Choose(3), out: 2 * x.Choose(2), worker: x.Bool()}
		c.vals = true
		p := ""
		for i := 0; i < 30; i++ {
			p += "x"
		}
		x.Cases(30)
		chunked(c, 3*tmo, true, p)(x)
	})
	add("C25", S{Name: "no shard function"}, func(x *X) {
		x.Branching(false)
		b := chans.NewShardChunk[msg]().WithShardCount(2)
		if x.Bool() {
			b = b.WithShardWorker(func(int, []msg) {})
		}
		ch, err := b.Build()
		x.Check(err != nil && ch == nil, "Build without a shard function gives no error")
		x.Settle()
		x.Check(x.Threads() == 0, "Build without a shard function starts goroutines")
	})
	kstop := func(c kcfg, eats int, ctx context.Context, cancel, trigger func(), progs ...string) func(x *X) {
		return func(x *X) {
			r := newShardChunk(x, c, ctx, cancel)
			r.eats = eats
			r.consume()
			r.produce(progs...)
			if trigger != nil {
				x.GoAux(trigger)
			}
			if !x.JoinOr(time.Second) {
				x.Fail("a sender that observes the context is still there")
			}
			x.Branching(false)
			x.Sleep(10 * tmo)
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
			r.end()
			r.judge(false)
		}
	}
	add("C25", S{Name: "cancelled at any point", Delay: true, Bound: 2, BoundT: 3, Shards: 8}, func(x *X) {
		c := kcfg{n: 1 + x.Choose(2), size: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), worker: x.Bool()}
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		kstop(c, x.Choose(2), ctx, cancel, cancel, choose(x, "xxx", "xyx"))(x)
	})
	add("C25", S{Name: "cancelled later", Delay: true, Bound: 2, BoundT: 3, Shards: 8}, func(x *X) {
		c := kcfg{n: 1 + x.Choose(2), size: 1 + x.Choose(2), in: x.Choose(2), out: x.Choose(2), worker: x.Bool(), slow: tmo}
		d := choose(x, tmo/2, tmo, 2*tmo)
		ctx, cancel := vcontext.WithTimeout(vcontext.Background(), d)
		kstop(c, x.Choose(2), ctx, cancel, nil, choose(x, "xxxx", "xy4x", "xx4xxx"))(x)
	})
	add("C25", S{Name: "cancelled when everything is full", Bound: 0, BoundT: 1, Shards: 8}, func(x *X) {
		x.Branching(false)
		c := kcfg{n: 1 + x.Choose(2), size: 1 + x.Choose(2), in: 2 * x.Choose(2), out: x.Choose(2)}
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		p := ""
		for i := 0; i < 1030; i++ { // the chunkers buffer a thousand
			p += "x"
		}
		kstop(c, 0, ctx, cancel, func() { x.Sleep(time.Duration(1+x.Choose(3)) * tmo / 2); cancel() }, p)(x)
	})
}

type kcfg struct {
	n, size, in, out int
	worker           bool
	slow             time.Duration
	scribble         bool
	vals             bool
}

type krun struct {
	x      *X
	c      kcfg
	ctx    context.Context
	cancel func()
	ch     *chans.ShardChunk[msg]
	inc    chan msg
	es     []*keater
	eats   int // chunks that are taken per shard, -1: all
	stop   chan struct{}
	done   chan struct{}
	nDone  int
	sent   [][]ksent
}

type ksent struct {
	m  msg
	t1 time.Duration
}

type keater struct {
	r    *krun
	k    int
	busy *vrt.Cell
	got  []ktaken
}

type ktaken struct {
	c, was []msg
	t      time.Duration
}

func newShardChunk(x *X, c kcfg, ctx context.Context, cancel func()) *krun {
	r := &krun{x: x, c: c, ctx: ctx, cancel: cancel, eats: -1, inc: make(chan msg, c.in), stop: make(chan struct{}), done: make(chan struct{}, 8)}
	if ctx == nil {
		r.ctx, r.cancel = vcontext.WithCancel(vcontext.Background())
	}
	for i := 0; i < c.n; i++ {
		r.es = append(r.es, &keater{r: r, k: i, busy: x.NewCell()})
	}
	b := chans.NewShardChunk[msg]().WithContext(r.ctx).WithShardCount(c.n).WithOutgoingBufferSize(c.out).
		WithIncomingBufferSize(c.in).WithChunkSize(c.size).WithChunkTimeout(tmo).WithIncomingChan(r.inc).
		WithShardFunc(func(m msg) int { return m.v })
	if c.worker {
		b = b.WithShardWorker(func(k int, b []msg) {
			x.Check(k >= 0 && k < c.n, "the worker gets an index out of range")
			e := r.es[k]
			x.Check(e.busy.Add(1) == 1, "two chunks of one shard are worked on at the same time")
			e.take(b)
			e.busy.Add(-1)
		})
	}
	ch, err := b.Build()
	x.Check(err == nil && ch != nil, "Build fails")
	r.ch = ch
	x.Check(ch.ShardCount() == c.n, "ShardCount is not the configured one")
	for _, k := range []int{-1, -c.n, c.n, c.n + 1, 2 * c.n, math.MaxInt, math.MinInt} {
		x.Check(ch.C(k) == nil, "C of an index out of range is not nil")
	}
	return r
}

func (e *keater) take(b []msg) {
	x := e.r.x
	e.got = append(e.got, ktaken{c: b, was: append([]msg(nil), b...), t: x.Now()})
	x.Log("chunk", e.k, fmt.Sprint(b))
	if e.r.c.scribble {
		for i := range b {
			b[i].id = -1
		}
		_ = append(b, msg{0, -2})
	}
	x.Publish()
	if e.r.c.slow > 0 {
		x.Sleep(e.r.c.slow)
	}
}

func (r *krun) consume() {
	if r.c.worker {
		return
	}
	for k := 0; k < r.c.n; k++ {
		if r.eats == 0 {
			continue
		}
		e, c := r.es[k], r.ch.C(k)
		r.nDone++
		r.x.GoAux(func() {
			for n := 0; r.eats < 0 || n < r.eats; n++ {
				rc, rs := vrt.RecvCase(c), vrt.RecvCase(r.stop)
				if vrt.Select(false, rc.C(), rs.C()) == 1 {
					break
				}
				e.take(rc.V())
			}
			vrt.S(r.done)(struct{}{})
		})
	}
}

// produce: "x" and "y" send to shards 0 and 1 (values i*n and i*n+1), digits wait
func (r *krun) produce(progs ...string) {
	x := r.x
	r.sent = make([][]ksent, len(progs))
	for t := range progs {
		t := t
		x.Go(func() {
			for i, ch := range []byte(progs[t]) {
				if ch >= '0' && ch <= '9' {
					x.Sleep(time.Duration(ch-'0') * tmo / 4)
					continue
				}
				m := msg{v: i * r.c.n, id: (t+1)*10000 + i}
				if ch == 'y' {
					m.v++
				}
				if r.c.vals {
					m.v = i - 15
				}
				s, d := vrt.SendCase(r.inc)(m), vrt.RecvCase(r.ctx.Done())
				if vrt.Select(false, s.C(), d.C()) == 0 {
					r.sent[t] = append(r.sent[t], ksent{m, x.Now()})
					x.Log("sent", m.v, m.id)
				}
			}
		})
	}
}

func (r *krun) end() {
	x := r.x
	r.cancel()
	vrt.Close(r.stop)
	for i := 0; i < r.nDone; i++ {
		vrt.Recv(r.done)
	}
	x.Sleep(2 * r.c.slow)
	x.Settle()
	x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
	x.Collect()
}

func (r *krun) judge(all bool) {
	x := r.x
	at := map[int]int{}
	n := 0
	for k, e := range r.es {
		for _, g := range e.got {
			x.Check(len(g.was) > 0, "an empty chunk is delivered")
			x.Check(len(g.was) <= r.c.size, "a chunk is larger than configured")
			for i, m := range g.was {
				_, dup := at[m.id]
				x.Check(!dup, "a message is delivered twice")
				x.Check(shardOf(m.v, r.c.n) == k, "a message is delivered on another shard")
				if r.c.scribble {
					x.Check(g.c[i].id == -1, "a delivered chunk is changed later")
				} else {
					x.Check(g.c[i] == m, "a delivered chunk is changed later")
				}
				at[m.id] = n
				n++
			}
		}
	}
	m := 0
	for _, p := range r.sent {
		last := make([]int, r.c.n)
		for i := range last {
			last[i] = -1
		}
		for _, s := range p {
			i, ok := at[s.m.id]
			if !ok {
				x.Check(!all, "an accepted message is not delivered")
				continue
			}
			m++
			k := shardOf(s.m.v, r.c.n)
			x.Check(i > last[k], "the messages of one producer are out of order within their shard")
			last[k] = i
		}
	}
	x.Check(!all || m == n, "a message is delivered that nobody sent")
}

func (r *krun) timely() {
	x := r.x
	at := map[int]time.Duration{}
	for _, e := range r.es {
		for _, g := range e.got {
			for _, m := range g.was {
				at[m.id] = g.t
			}
		}
	}
	for _, p := range r.sent {
		for _, s := range p {
			x.Check(at[s.m.id] <= s.t1+tmo, "an accepted message is not delivered within the chunk timeout")
		}
	}
}
