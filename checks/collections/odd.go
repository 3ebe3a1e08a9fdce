package main

import (
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt/vcontext"
)

// Durations that are no multiple of anything are kept to the nanosecond.

var odd = []time.Duration{999, 999_999, 1_000_001, 1_499_999, 99_500_001, 999_999_999, 1_000_000_001, 1_500_000_007, 59_999_999_999}

func init() {
	for _, prop := range []string{"C20", "C21"} {
		add(prop, S{Name: "odd durations", Steps: 1e6}, func(x *X) {
			x.Branching(false)
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			tmo, ttl := choose(x, odd...), choose(x, odd...)
			m := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(tmo).WithResponseTtl(ttl).Build()
			x.Settle()
			idle := x.Threads()
			at, v := choose(x, 0, 1, 300*time.Microsecond), 0
			x.SleepUntil(at)
			if x.Choose(2) == 0 {
				m.Set(1, 7)
				v = 7
			} else {
				x.Check(m.Wait(1) == 0 && x.Now() == at+tmo, "a Wait does not end at the request timeout")
				at += tmo
			}
			x.SleepUntil(at + ttl - 1)
			x.Check(m.Wait(1) == v && x.Now() == at+ttl-1, "a value does not stay for its TTL")
			x.SleepUntil(at + ttl + 1)
			x.Settle()
			x.Check(m.Count() == 0 && x.Threads() == idle, "a value or a goroutine is left after the TTL")
			cancel()
		})
	}
	add("C08", S{Name: "odd durations", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		tmo, ttl := choose(x, odd...), choose(x, odd...)
		m := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(tmo).WithTTL(ttl).Build()
		x.Settle()
		idle := x.Threads()
		at := choose(x, 0, 1, 300*time.Microsecond)
		x.SleepUntil(at)
		if x.Choose(2) == 0 {
			x.Check(m.Wait(1, 1) != nil && x.Now() == at+tmo, "a Wait does not end at the timeout")
			at += tmo
		} else {
			at += tmo - 1
			x.Go(func() { x.Check(m.Wait(1, 1) == nil && x.Now() == at, "a waiter is not released at once") })
			x.SleepUntil(at)
			x.Check(m.Release(1) == nil, "Release fails")
			x.Join()
		}
		x.SleepUntil(at + ttl - 1)
		x.Check(m.Count() == 1, "an outcome does not stay for its TTL")
		x.SleepUntil(at + ttl + 1)
		x.Settle()
		x.Check(m.Count() == 0 && x.Threads() == idle, "a record or a goroutine is left after the TTL")
		cancel()
	})
	add("C13", S{Name: "odd durations", Steps: 1e6}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, sec)
		tmo := choose(x, odd...)
		early := x.Choose(2) == 1
		d := tmo + 1
		if early {
			d = tmo - 1
		}
		v, err := m.Timeout(tmo, func(k int) (int, error) { x.Sleep(d); return k + 1, nil })(4)
		if early {
			x.Check(v == 5 && err == nil && x.Now() == d, "a result that comes in time is not returned")
		} else {
			x.Check(v == 0 && err == collections.ErrTimeout && x.Now() == tmo, "a result that comes too late does not end in ErrTimeout at the timeout")
		}
		x.Sleep(2)
		cancel()
	})
	for _, kind := range []string{"write", "read"} {
		read := kind == "read"
		add("C05", S{Name: "odd durations, " + kind + " timeout", Steps: 1e6}, func(x *X) {
			x.Branching(false)
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			d := choose(x, odd...)
			b := collections.NewGuavaMap[int, int]().WithContext(ctx)
			if read {
				b = b.WithReadTimeout(d)
			} else {
				b = b.WithWriteTimeout(d)
			}
			m := b.Build()
			at := choose(x, 0, 1, 300*time.Microsecond)
			x.SleepUntil(at)
			m.Set(1, 1)
			if read && x.Choose(2) == 1 {
				x.SleepUntil(at + d/2)
				v, err := m.Get(1)
				x.Check(v == 1 && err == nil, "Get does not find the entry")
				at += d / 2
			}
			x.SleepUntil(at + d - 1)
			x.Check(m.Size() == 1, "an entry leaves before its timeout")
			x.SleepUntil(at + d + 1)
			x.Settle()
			x.Check(m.Size() == 0 && !m.Has(1), "an entry stays after its timeout")
			cancel()
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
	}
}
