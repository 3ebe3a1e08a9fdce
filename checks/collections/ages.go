package main

import (
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt/vcontext"
)

// Ages: records made at any moment between two runs of the cleaner live as long as they should, to the nanosecond.

func init() {
	add("C15", S{Name: "ages of records", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		clear := choose(x, 250*time.Millisecond, sec, 1500*time.Millisecond, 3*sec, 61*sec)
		m := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(1).WithClearTimeout(clear).Build()
		offs := []time.Duration{0, 1, time.Microsecond, time.Millisecond, 100 * time.Millisecond, clear / 4, clear / 2, clear * 3 / 4, clear - time.Millisecond, clear - 1}
		at := time.Duration(x.Choose(3))*clear + choose(x, offs...)
		first := x.Choose(2) == 1
		x.SleepUntil(at)
		m.Set(1, 1)
		if !first {
			m.Set(2, 2)
		}
		x.SleepUntil(at + clear/2)
		x.Check(m.Wait(1) == 1, "a record does not stay for the clear timeout")
		x.SleepUntil(at + clear - 1)
		x.Check(m.Wait(1) == 1 && (first || m.Wait(2) == 2), "a record does not stay for the clear timeout")
		x.SleepUntil(at + 2*clear + 1)
		x.Settle()
		x.Check(m.Wait(1) == 0, "a record is left after two clear timeouts")
		m.Set(2, 3)
		x.Check(m.Wait(2) == 3, "a key does not start afresh after its record was cleaned up")
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
	add("C18", S{Name: "ages of elements", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		ttl, check := choose(x, 250*time.Millisecond, sec, 1500*time.Millisecond, 3*sec), choose(x, time.Millisecond, 7*time.Millisecond, 200*time.Millisecond)
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(ttl).WithCheckInterval(check).Build()
		at := choose(x, 0, 1, time.Microsecond, 900*time.Microsecond, 1200*time.Microsecond, check/2, check-1, ttl/4, ttl-1)
		older := at > 0 && x.Choose(2) == 1
		if older { // its turn comes in a run of the cleaner just before, or in the same one
			s.Add(0)
		}
		x.SleepUntil(at)
		ok, err := s.Add(1)
		x.Check(ok && err == nil, "a new element is not added")
		for _, age := range []time.Duration{ttl / 2, ttl - time.Millisecond, ttl - 1} {
			x.SleepUntil(at + age)
			ok, err = s.Has(1)
			x.Check(ok && err == nil && (older || s.Count() == 1), "an element leaves before its TTL is over")
		}
		x.SleepUntil(at + ttl + 2*check)
		x.Settle()
		ok, err = s.Has(1)
		x.Check(!ok && err == nil && s.Count() == 0, "an element stays after its TTL is over")
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
	add("C12", S{Name: "ages of results", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		ttl := choose(x, 250*time.Millisecond, sec, 1500*time.Millisecond, 3*sec)
		m := collections.NewRequestMap[int, int](ctx, ttl)
		at := choose(x, 0, 1, time.Microsecond, 900*time.Microsecond, time.Millisecond, 50*time.Millisecond, 99*time.Millisecond, ttl/4, ttl-1)
		calls := 0
		get := func() int {
			return m.GetOrCreate(1, func(int) int { calls++; x.Publish(); return calls })
		}
		older := at > 0 && x.Choose(2) == 1
		if older {
			m.GetOrCreate(0, func(int) int { return 0 })
		}
		x.SleepUntil(at)
		x.Check(get() == 1, "a caller does not get the result of its producer")
		for _, age := range []time.Duration{ttl / 2, ttl - time.Millisecond, ttl - 1} {
			x.SleepUntil(at + age)
			x.Check(get() == 1 && (older || m.Count() == 1), "a result leaves before its TTL is over")
		}
		x.SleepUntil(at + 3*ttl + 2*sec)
		x.Settle()
		x.Collect()
		x.Check(m.Count() == 0 && calls == 1, "a result stays after its TTL is over")
		x.Check(get() == 2, "an old result is returned after its TTL")
		cancel()
	})
}

func choose[T any](x *X, of ...T) T { return of[x.Choose(len(of))] }
