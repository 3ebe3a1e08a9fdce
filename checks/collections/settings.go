package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt/vcontext"
)

// Settings: durations at the ends of their range and contexts that end in every way. A timeout that means "never"
// in practice must not wrap around, the shortest one must not be taken for none, and a context may be over before
// the object is built, may end by a deadline, by its parent or with a cause.

const year = 365 * 24 * time.Hour

// long durations, as used for "never"
var longs = []time.Duration{math.MaxInt64, math.MaxInt64 - 1, 250 * year, 100 * year, 1 << 56}

// waits, not so long that an implementation could not poll
var pauses = [][]time.Duration{{1, time.Microsecond, sec, 30 * sec}, {0, 250 * sec}}

// ctxKind is a way in which a context ends.
type ctxKind struct {
	name string
	mk   func(x *X) (ctx context.Context, end func(), at time.Duration)
	err  error
}

// ctxEnd is when they end
const ctxEnd = 2 * sec

var ctxKinds = []ctxKind{
	{"before it is built", func(x *X) (context.Context, func(), time.Duration) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		cancel()
		return ctx, cancel, 0
	}, context.Canceled},
	{"by a deadline", func(x *X) (context.Context, func(), time.Duration) {
		ctx, cancel := vcontext.WithTimeout(vcontext.Background(), ctxEnd)
		return ctx, cancel, ctxEnd
	}, context.DeadlineExceeded},
	{"by a deadline long ago", func(x *X) (context.Context, func(), time.Duration) {
		ctx, cancel := vcontext.WithTimeout(vcontext.Background(), -ctxEnd)
		return ctx, cancel, 0
	}, context.DeadlineExceeded},
	{"with its parent", func(x *X) (context.Context, func(), time.Duration) {
		root, cancel := vcontext.WithCancel(vcontext.WithValue(vcontext.Background(), ictx(1), 1))
		mid, midCancel := vcontext.WithTimeout(root, 100*ctxEnd)
		ctx, ctxCancel := vcontext.WithCancel(vcontext.WithValue(mid, ictx(2), 2))
		x.GoAux(func() { x.Sleep(ctxEnd); cancel() })
		return ctx, func() { ctxCancel(); midCancel() }, ctxEnd
	}, context.Canceled},
	{"with the deadline of its parent", func(x *X) (context.Context, func(), time.Duration) {
		root, cancel := vcontext.WithTimeout(vcontext.Background(), ctxEnd)
		ctx, ctxCancel := vcontext.WithTimeout(root, 50*ctxEnd)
		return ctx, func() { ctxCancel(); cancel() }, ctxEnd
	}, context.DeadlineExceeded},
	{"with a cause", func(x *X) (context.Context, func(), time.Duration) {
		ctx, cancel := vcontext.WithCancelCause(vcontext.Background())
		x.GoAux(func() { x.Sleep(ctxEnd); cancel(errors.New("the cause")) })
		return ctx, func() { cancel(nil) }, ctxEnd
	}, context.Canceled},
}

func init() {
	setLong()
	setContexts()
}

// long adds a scenario for every long duration and every rhythm; f gets the duration and a function that passes time.
func long(prop, name string, f func(x *X, d time.Duration, pass func(check func()))) {
	add(prop, S{Name: name, Steps: 1e6}, func(x *X) {
		x.Branching(false)
		d := longs[x.Choose(len(longs))]
		ps := pauses[x.Choose(len(pauses))]
		f(x, d, func(check func()) {
			check()
			for _, p := range ps {
				x.Sleep(p)
				check()
			}
		})
	})
}

func setLong() {
	// the three timeouts of a cache in all combinations of none, short and for ever
	long("C05", "timeouts without end", func(x *X, d time.Duration, pass func(func())) {
		how := x.Choose(3)
		store := x.Choose(4)
		b := collections.NewGuavaMap[int, int]().WithLoadFunc(func(k int) (int, error) { return 7, nil })
		if how != 1 {
			b.WithWriteTimeout(d)
		}
		if how != 0 {
			b.WithReadTimeout(d)
		}
		m := b.Build()
		switch store {
		case 0:
			m.Set(1, 7)
		case 1:
			m.HasOrCreate(1, 7)
		case 2:
			m.Get(1)
		case 3:
			m.LockForUpdate(1, func() int { return 7 })
		}
		pass(func() {
			x.Check(m.Size() == 1 && m.GetStored()[1] == 7, "an entry leaves before its timeout")
			x.Check(m.Has(1), "an entry leaves before its timeout")
			v, err := m.Get(1)
			x.Check(v == 7 && err == nil, "an entry leaves before its timeout")
		})
		m.Clear()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
	add("C05", S{Name: "shortest timeouts", Bound: 1}, func(x *X) {
		how := x.Choose(3)
		b := collections.NewGuavaMap[int, int]()
		long := x.Bool()
		if how != 1 {
			b.WithWriteTimeout(1)
		}
		if how == 1 || how == 2 && !long {
			b.WithReadTimeout(1)
		} else if how == 2 {
			b.WithReadTimeout(math.MaxInt64)
		}
		m := b.Build()
		x.Branching(false)
		m.Set(1, 7)
		m.HasOrCreate(2, 8)
		x.Sleep(2)
		x.Settle()
		x.Check(m.Size() == 0 && x.Threads() == 0, "an entry does not leave at its timeout")
		m.Set(1, 9)
		if how == 2 && long && m.Has(1) { // reading makes it stay
			x.Sleep(100 * sec)
			x.Check(m.Has(1) && m.Size() == 1, "an entry leaves before its timeout")
			m.Delete(1)
		} else {
			x.Sleep(2)
		}
		x.Settle()
		x.Check(m.Size() == 0 && x.Threads() == 0, "an entry does not leave at its timeout")
	})
	add("C05", S{Name: "cancelled cache", Bound: 1, BoundT: 2, Shards: 8}, func(x *X) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		b := collections.NewGuavaMap[int, int]().WithContext(ctx).WithLoadFunc(func(k int) (int, error) { return k, nil })
		if how := x.Choose(3); how != 1 {
			b.WithWriteTimeout(3 * sec)
		} else {
			b.WithReadTimeout(5 * sec)
		}
		if x.Bool() {
			b.WithUnloadFunc(func(int, int) {})
		}
		m := b.Build()
		op := func(o int) {
			switch o {
			case 0:
				m.Set(1, 7)
			case 1:
				m.HasOrCreate(1, 7)
			case 2:
				m.Get(1)
			case 3:
				m.LockForUpdate(1, func() int { return 7 })
			case 4:
				m.Delete(1)
			case 5:
				m.Clear()
			}
		}
		m.Set(1, 1)
		m.Set(2, 2)
		if x.Bool() {
			x.Sleep(3 * sec)
		}
		x.Go(func() { op(x.Choose(6)) })
		x.Go(func() { cancel() })
		x.Join()
		x.Branching(false)
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
		op(x.Choose(6)) // also afterwards
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left after the context was cancelled")
	})
	long("C12", "results for ever", func(x *X, d time.Duration, pass func(func())) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, d, &collections.RequestMapInitializer[int, int]{Key: 2, Result: 8})
		calls := 0
		pass(func() {
			x.Check(m.GetOrCreate(1, func(int) int { calls++; return 7 }) == 7, "a caller gets another result")
			x.Check(m.GetOrCreate(2, func(int) int { calls += 10; return 9 }) == 8, "a preloaded result is dropped before its TTL")
			x.Check(calls == 1, "a result is dropped before its TTL")
			x.Check(m.Count() == 2, "Count is wrong")
		})
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
	add("C12", S{Name: "results for an instant", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		d := []time.Duration{0, 1, time.Microsecond, 50 * ms}[x.Choose(4)]
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, d, &collections.RequestMapInitializer[int, int]{Key: 2, Result: 8})
		calls := 0
		for i := 0; i < 5; i++ {
			x.Check(m.GetOrCreate(1, func(int) int { calls++; return 7 + i }) == 7+i, "a result is served after its TTL")
			x.Sleep(d + sec + 1)
			x.Settle()
			x.Check(m.Count() == 0 && calls == i+1, "a result stays after its TTL")
		}
		cancel()
	})
	long("C13", "deadlines without end", func(x *X, d time.Duration, pass func(func())) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, sec)
		fail := errors.New("failed")
		took := []time.Duration{0, sec, 20 * sec}[x.Choose(3)]
		v, err := m.Timeout(d, func(k int) (int, error) { x.Sleep(took); return k + 1, fail })(6)
		x.Check(v == 7 && err == fail && x.Now() == took, "the result of a call in time is not returned")
		cancel()
	})
	add("C13", S{Name: "shortest deadlines", Bound: 1}, func(x *X) {
		d := []time.Duration{1, time.Microsecond}[x.Choose(2)]
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, sec)
		fail := errors.New("failed")
		x.Branching(false)
		v, err := m.Timeout(d, func(k int) (int, error) { x.Sleep(2 * time.Microsecond); return k + 1, fail })(6)
		x.Check(v == 0 && err == error(collections.ErrTimeout) && x.Now() == d, "a late call does not end with ErrTimeout in time")
		cancel()
		x.Sleep(sec)
		x.Check(x.Threads() == 0, "goroutines are left")
	})
	long("C18", "elements for ever", func(x *X, d time.Duration, pass func(func())) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		iv := []time.Duration{d, 50 * year, 7 * sec}[x.Choose(3)]
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(d).WithCheckInterval(iv).Build()
		ok, err := s.Add(1)
		x.Check(ok && err == nil, "a new element is not added")
		pass(func() {
			ok, err := s.Has(1)
			x.Check(ok && err == nil && s.Count() == 1, "an element leaves before its TTL")
			ok, err = s.Add(1)
			x.Check(!ok && err == nil, "an element is added twice")
		})
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
	add("C18", S{Name: "elements for an instant", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		ttl := []time.Duration{0, 1, time.Microsecond}[x.Choose(3)]
		iv := []time.Duration{1, time.Microsecond, sec}[x.Choose(3)]
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(ttl).WithCheckInterval(iv).Build()
		for i := 0; i < 4; i++ {
			ok, err := s.Add(1)
			x.Check(ok && err == nil, "an element that left is not added again")
			x.Sleep(ttl + 2*iv + 1)
			x.Settle()
			x.Check(s.Count() == 0, "an element stays after its TTL")
		}
		cancel()
	})
	// request timeout, TTL or both without end
	long("C08", "timeouts without end", func(x *X, d time.Duration, pass func(func())) {
		how := 1 + x.Choose(3)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		b := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(sec).WithTTL(sec)
		if how&1 != 0 {
			b.WithTimeout(d)
		}
		if how&2 != 0 {
			b.WithTTL(d)
		}
		m := b.Build()
		failed := errors.New("failed")
		out := x.NewCell()
		x.Go(func() {
			if m.Wait(1, 7) == failed {
				out.Add(1)
			}
		})
		x.Settle()
		if how&1 != 0 {
			pass(func() {
				v, err := m.Get(1)
				x.Check(x.Running() == 1 && v == 7 && err == nil, "a Wait ends before its timeout")
			})
		}
		x.Check(m.Error(1, failed) == nil, "Error fails for a key that is waited for")
		x.Join()
		x.Check(out.N() == 1, "a waiter gets another outcome")
		if how&2 != 0 {
			pass(func() {
				x.Check(m.Count() == 1 && m.Wait(1, 8) == failed, "an outcome is dropped before its TTL")
			})
		} else {
			x.Sleep(sec + 1)
			x.Settle()
			x.Check(m.Count() == 0, "an outcome stays after its TTL")
		}
		cancel()
	})
	for _, p := range []string{"C20", "C21"} {
		long(p, "timeouts without end", func(x *X, d time.Duration, pass func(func())) {
			how := 1 + x.Choose(3)
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			b := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(sec).WithResponseTtl(sec)
			if how&1 != 0 {
				b.WithRequestTimeout(d)
			}
			if how&2 != 0 {
				b.WithResponseTtl(d)
			}
			m := b.Build()
			out := x.NewCell()
			x.Go(func() { out.Add(int64(m.Wait(1))) })
			x.Settle()
			if how&1 != 0 {
				pass(func() { x.Check(x.Running() == 1 && m.Count() == 1, "a Wait ends before its timeout") })
			}
			m.Set(1, 7)
			x.Join()
			x.Check(out.N() == 7, "a waiter does not get the value")
			if how&2 != 0 {
				pass(func() { x.Check(m.Count() == 1 && m.Wait(1) == 7, "a value is dropped before its TTL") })
			} else {
				x.Sleep(sec + 1)
				x.Settle()
				x.Check(m.Count() == 0, "a value stays after its TTL")
			}
			cancel()
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
	}
	for _, p := range []string{"C14", "C15"} {
		long(p, "timeouts without end", func(x *X, d time.Duration, pass func(func())) {
			how := x.Choose(3) // with the shorter clear timeout waits may end early
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			b := collections.NewResponseMap[int, int](ctx).WithClearTimeout(d)
			resp := sec
			if how > 0 {
				b.WithResponseTimeout(d)
				resp = d
			} else {
				b.WithResponseTimeout(sec)
			}
			m := b.Build()
			out := x.NewCell()
			t0 := x.Now()
			x.Go(func() { out.Add(int64(m.Wait(1))) })
			x.Settle()
			if resp == d {
				pass(func() { x.Check(x.Running() == 1, "a Wait ends before its timeout") })
			} else {
				x.Join()
				x.Check(out.N() == 0 && x.Now() == t0+sec, "a Wait does not end at its timeout")
				x.Go(func() { out.Add(int64(m.Wait(1))) })
				x.Settle()
			}
			if how < 2 {
				m.Set(1, 7)
				x.Join()
				x.Check(out.N() == 7, "a waiter does not get the value")
				pass(func() { x.Check(m.Wait(1) == 7, "a value is dropped before its time") })
				cancel()
			} else {
				cancel()
				x.Join()
				x.Check(out.N() == 0, "a waiter gets a value that nobody set")
			}
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
	}
}

func setContexts() {
	for _, k := range ctxKinds {
		k := k
		// f gets the context, the time at which it ends and a function that ends the scenario
		with := func(prop string, bound int, f func(x *X, ctx context.Context, at time.Duration)) {
			add(prop, S{Name: "context that ends " + k.name, Bound: bound, BoundT: bound + 1, Shards: 2}, func(x *X) {
				ctx, end, at := k.mk(x)
				f(x, ctx, at)
				end()
			})
		}
		with("C08", 1, func(x *X, ctx context.Context, at time.Duration) {
			m := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(50 * sec).WithTTL(5 * sec).Build()
			for i := 0; i < 2; i++ {
				x.Go(func() {
					err := m.Wait(1, 7)
					x.Check(errors.Is(err, k.err), "a waiter does not get the context's error")
					x.Check(x.Now() == at, "a waiter is not released when the context ends")
				})
			}
			x.Join()
			x.Branching(false)
			x.Check(errors.Is(m.Wait(1, 8), k.err), "a later waiter gets another outcome")
			x.Go(func() { // after the end
				x.Check(errors.Is(m.Wait(2, 8), k.err), "a waiter does not get the context's error")
				x.Check(x.Now() == at, "a waiter is not released when the context ends")
			})
			x.Join()
			x.Check(m.Release(3) != nil && m.Release(1) == nil, "Release is wrong after the context ended")
			x.Sleep(5*sec + 1)
			x.Settle()
			x.Check(m.Count() == 0, "records are left")
			x.Check(x.Threads() == 0, "goroutines are left")
		})
		for _, p := range []string{"C20", "C21"} {
			with(p, 1, func(x *X, ctx context.Context, at time.Duration) {
				m := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(50 * sec).WithResponseTtl(70 * sec).Build()
				for i := 0; i < 2; i++ {
					x.Go(func() {
						x.Check(m.Wait(1) == 0, "a waiter gets a value that nobody set")
						x.Check(x.Now() == at, "a waiter is not released when the context ends")
					})
				}
				if at > 0 {
					m.Set(2, 7)
					x.Check(m.Wait(2) == 7, "the value does not stay")
				}
				x.Join()
				x.Branching(false)
				x.Settle()
				x.Go(func() { // after the end
					x.Check(m.Wait(5) == 0, "a waiter gets a value that nobody set")
					x.Check(x.Now() == at, "a waiter is not released when the context ends")
				})
				x.Join()
				m.Set(3, 7)
				x.Sleep(80 * sec)
				x.Settle()
				x.Check(m.Count() == 0, "values or waiters are left after the context ended")
				x.Check(x.Threads() == 0, "goroutines are left")
			})
		}
		for _, p := range []string{"C14", "C15"} {
			with(p, 1, func(x *X, ctx context.Context, at time.Duration) {
				m := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(50 * sec).WithClearTimeout(70 * sec).Build()
				for i := 0; i < 2; i++ {
					x.Go(func() {
						x.Check(m.Wait(1) == 0, "a waiter gets a value that nobody set")
						x.Check(x.Now() == at, "a waiter is not released when the context ends")
					})
				}
				if at > 0 {
					m.Set(2, 7)
					x.Check(m.Wait(2) == 7, "the value does not stay")
				}
				x.Join()
				x.Branching(false)
				x.Go(func() { // after the end
					x.Check(m.Wait(4) == 0, "a waiter gets a value that nobody set")
					m.Set(3, 7)
					m.Set(3, 8)
					m.Set(3, 9)
					x.Check(x.Now() == at, "a caller is not released when the context ends")
				})
				x.Join()
				x.Settle()
				x.Check(x.Threads() == 0, "goroutines are left")
			})
		}
		with("C18", 1, func(x *X, ctx context.Context, at time.Duration) {
			s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(9 * sec).WithCheckInterval(sec).Build()
			x.Branching(false)
			for i := 0; i < 3; i++ {
				ok, err := s.Add(1 + i)
				x.Check(ok && err == nil, "a new element is not added")
				ok, err = s.Add(1 + i)
				x.Check(!ok && err == nil, "an element is added twice")
				x.Sleep(sec)
			}
			x.Settle()
			x.Check(s.Count() == 3, "an element leaves before its TTL")
			x.Check(x.Threads() == 0, "the cleaner does not end with the context")
			ok, err := s.Remove(2)
			x.Check(ok && err == nil && s.Count() == 2, "Remove does not remove after the context ended")
		})
		with("C11", 1, func(x *X, ctx context.Context, at time.Duration) {
			m := collections.NewRequestMap[int, int](ctx, 50*sec)
			calls := x.NewCell()
			for i := 0; i < 2; i++ {
				x.Go(func() {
					v := m.GetOrCreate(1, func(int) int { calls.Add(1); x.Sleep(3 * sec); return 7 })
					x.Check(v == 7, "a caller gets another result than the producer's")
				})
			}
			x.Join()
			x.Branching(false)
			v, err := m.GetOrCreateWithErr(2, func(int) (int, error) { return 8, nil })
			x.Check(v == 8 && err == nil && m.GetOrCreate(1, func(int) int { calls.Add(1); return 9 }) == 7, "a caller gets another result than the producer's")
			x.Check(calls.N() == 1, "the producer of a key is called twice")
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left after the context ended")
		})
		with("C13", 1, func(x *X, ctx context.Context, at time.Duration) {
			m := collections.NewRequestMap[int, int](ctx, 50*sec)
			f := m.Timeout(4*sec, func(k int) (int, error) { x.Sleep(time.Duration(k) * sec); return k, nil })
			for i := 3; i < 6; i += 2 {
				i := i
				x.Go(func() {
					v, err := f(i)
					x.Check(i == 3 && v == 3 && err == nil || i == 5 && v == 0 && err == error(collections.ErrTimeout), "a call ends with another outcome because the map's context ended")
				})
			}
			x.Join()
			x.Branching(false)
			x.Sleep(2 * sec)
			x.Check(x.Threads() == 0, "goroutines are left after the context ended")
		})
		with("C02", 1, func(x *X, ctx context.Context, at time.Duration) {
			m := collections.NewGuavaMap[int, int]().WithContext(ctx).WithMaxCount(2).WithLoadFunc(func(k int) (int, error) { return k * 10, nil }).Build()
			x.Branching(false)
			for i := 0; i < 3; i++ {
				m.Set(1, i)
				v, err := m.Get(1)
				w, _ := m.Get(2)
				x.Check(v == i && err == nil && w == 20 && m.Size() == 2, "the map forgets or changes what was stored")
				x.Check(m.LockForUpdate(1, func() int { return 5 }) == 5, "LockForUpdate returns something else")
				m.Delete(2)
				x.Check(!m.Has(2) && m.Has(1) && fmt.Sprint(m.GetStored()) == "map[1:5]", "the map forgets or changes what was stored")
				x.Sleep(sec)
			}
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
	}
}
