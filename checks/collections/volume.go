package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Volume: hundreds of callers of one key and of keys, in one deterministic schedule. What holds for three of them
// holds for any number; limits, pools and stripes inside the implementation show here.

const (
	many     = 300
	manyKeys = 1200
	moreKeys = 400 // where a key has a goroutine
)

func volume(prop, name string, variants int, body func(x *X, o int)) {
	for o := 0; o < variants; o++ {
		o := o
		add(prop, S{Name: fmt.Sprintf("volume/%s/%d", name, o), Steps: 2e7}, func(x *X) {
			x.Branching(false)
			body(x, o)
		})
	}
}

// crowd starts n threads, lets them settle and returns their results, to be read after Join.
func crowd[T any](x *X, n int, f func(i int) T) (res []T, at []time.Duration) {
	res, at = make([]T, n), make([]time.Duration, n)
	for i := 0; i < n; i++ {
		i := i
		x.Go(func() {
			res[i] = f(i)
			at[i] = x.Now()
		})
	}
	x.Settle()
	return
}

func init() {
	volLocks()
	volGuava()
	volRequest()
	volWaits()
	volUniq()
}

func volLocks() {
	volume("C09", "all keys held", 4, func(x *X, o int) {
		type pair struct{ a, b string }
		run := func(lock, unlock func(i int)) {
			for i := 0; i < manyKeys; i++ {
				lock(i)
			}
			got := x.NewCell()
			for i := 0; i < many; i++ {
				i := i
				x.Go(func() { lock(i); got.Add(1) })
			}
			x.Settle()
			x.Check(got.N() == 0, "a held lock is given away")
			for i := 0; i < manyKeys; i++ {
				unlock(i)
				x.Settle()
				want := i + 1
				if want > many {
					want = many
				}
				x.Check(got.N() == int64(want), "an Unlock does not let the next holder of its key in, or another one")
			}
			x.Join()
			for i := 0; i < many; i++ {
				unlock(i)
			}
			for i := 0; i < manyKeys; i++ {
				lock(i)
			}
		}
		key := func(i int) pair { return pair{fmt.Sprint(i % 7), fmt.Sprint(i)} }
		switch o {
		case 0:
			m := collections.NewMapMutex[int]()
			run(m.Lock, m.Unlock)
		case 1:
			m := collections.NewMapRWMutex[int]()
			run(m.Lock, m.Unlock)
		case 2:
			m := collections.NewMapMutex[pair]()
			run(func(i int) { m.Lock(key(i)) }, func(i int) { m.Unlock(key(i)) })
		case 3:
			m := collections.NewMapRWMutex[any]()
			run(func(i int) { m.Lock(key(i)) }, func(i int) { m.Unlock(key(i)) })
		}
	})
	volume("C09", "many readers", 1, func(x *X, o int) {
		m := collections.NewMapRWMutex[int]()
		in, wrote := x.NewCell(), x.NewCell()
		leave := make(chan struct{})
		for i := 0; i < many; i++ {
			x.Go(func() {
				m.RLock(0)
				in.Add(1)
				vrt.Recv(leave)
				in.Add(-1)
				m.RUnlock(0)
			})
		}
		x.Settle()
		x.Check(in.N() == many, "readers keep each other out")
		x.Go(func() {
			m.Lock(0)
			x.Check(in.N() == 0, "a writer holds the key together with readers")
			wrote.Add(1)
			m.Unlock(0)
		})
		x.Settle()
		x.Check(wrote.N() == 0, "a writer holds the key together with readers")
		for i := 0; i < manyKeys; i++ {
			m.Lock(1 + i)
		}
		vrt.Close(leave)
		x.Join()
		x.Check(wrote.N() == 1, "the writer did not get the key")
	})
}

func volGuava() {
	// o: nested over keys without and with a maximum, then callers of one key
	volume("C06", "updates within updates", 2, func(x *X, o int) {
		m := collections.NewGuavaMap[int, int]().WithMaxCount(o * 2 * many).Build()
		var up func(i int) int
		up = func(i int) int {
			if i == many {
				return 0
			}
			return m.LockForUpdate(i, func() int { return 1 + up(i+1) })
		}
		x.Check(up(0) == many, "LockForUpdate returns something else than the update function")
		for i := 0; i < many; i++ {
			v, err := m.Get(i)
			x.Check(err == nil && v == many-i, "the value of an update is lost")
		}
		crowd(x, many, func(i int) int {
			return m.LockForUpdate(0, func() int {
				v, _ := m.Get(0)
				x.Sleep(time.Millisecond)
				return v + 1
			})
		})
		x.Join()
		v, _ := m.Get(0)
		x.Check(v == 2*many, "an update is lost")
		x.Check(x.Now() >= many*time.Millisecond, "updates of a key run at the same time")
	})
	volume("C06", "updates of many keys at once", 1, func(x *X, o int) {
		m := collections.NewGuavaMap[int, int]().Build()
		in := x.NewCell()
		leave := make(chan struct{})
		res, _ := crowd(x, many, func(i int) int {
			return m.LockForUpdate(i, func() int { in.Add(1); vrt.Recv(leave); return i })
		})
		x.Check(in.N() == many, "updates of different keys wait for each other")
		vrt.Close(leave)
		x.Join()
		for i, v := range res {
			w, _ := m.Get(i)
			x.Check(v == i && w == i, "an update stores something else")
		}
	})
	volume("C01", "loaders within loaders", 1, func(x *X, o int) {
		calls := make([]*vrt.Cell, many)
		for i := range calls {
			calls[i] = x.NewCell()
		}
		var m *collections.GuavaMap[int, int]
		m = collections.NewGuavaMap[int, int]().WithLockLoad(true).WithLoadFunc(func(k int) (int, error) {
			x.Check(calls[k].Add(1) == 1, "a key is loaded twice")
			if k+1 < many {
				v, err := m.Get(k + 1)
				return v + 1, err
			}
			return 1, nil
		}).Build()
		v, err := m.Get(0)
		x.Check(err == nil && v == many, "Get does not return the loaded value")
		for i := 0; i < many; i++ {
			v, err := m.Get(i)
			x.Check(err == nil && v == many-i, "Get does not return the loaded value")
		}
	})
	volume("C01", "callers of one key and of many keys", 3, func(x *X, o int) {
		fail := errors.New("cannot load")
		calls := make([]*vrt.Cell, many)
		for i := range calls {
			calls[i] = x.NewCell()
		}
		leave := make(chan struct{})
		cur := x.NewCell()
		m := collections.NewGuavaMap[int, int]().WithLockLoad(true).WithLoadFunc(func(k int) (int, error) {
			n := calls[k].Add(1)
			cur.Add(1)
			x.Check(o == 1 || cur.N() == 1, "loads of a key run at the same time")
			vrt.Recv(leave)
			cur.Add(-1)
			if o == 2 && n <= 5 {
				return 0, fail
			}
			return k + 1, nil
		}).Build()
		res, _ := crowd(x, many, func(i int) [2]any {
			k := 0
			if o == 1 {
				k = i
			}
			v, err := m.Get(k)
			return [2]any{v - k, err}
		})
		if o == 1 {
			x.Check(cur.N() == many, "loads of different keys wait for each other")
		}
		vrt.Close(leave)
		x.Join()
		errs := 0
		for _, r := range res {
			if r[1] == fail && o == 2 && r[0] == 0 {
				errs++
			} else {
				x.Check(r[0] == 1 && r[1] == nil, "Get does not return the loaded value")
			}
		}
		x.Check(o != 2 || errs == 5, "an error of the loader reaches another number of callers than it has calls")
		x.Check(o == 2 || calls[0].N() == 1, "a key is loaded twice")
	})
	leaving := func(prop string) {
		for _, w := range []string{"expired", "cleared", "deleted"} {
			w := w
			volume(prop, "entries "+w+" together", 2, func(x *X, o int) {
				b := collections.NewGuavaMap[int, int]().WithUnloadFunc(func(k, v int) { x.Ev("unload", k, v) })
				if o == 1 {
					b.WithMaxCount(many)
				}
				if w == "expired" || o == 1 {
					b.WithWriteTimeout(5 * sec)
				}
				m := b.Build()
				x.Settle()
				idle := x.Threads()
				for i := 0; i < many; i++ {
					m.Set(i, i)
				}
				x.Sleep(3 * sec)
				for i := 0; i < many; i += 2 { // these start afresh
					m.Set(i, i+1)
				}
				x.Check(m.Size() == many && len(x.Events()) == 0, "entries left too early")
				end := many
				switch w {
				case "expired":
					x.Sleep(2*sec - 1)
					x.Check(m.Size() == many, "entries left too early")
					x.Sleep(2)
					x.Settle()
					x.Check(m.Size() == many/2, "entries do not leave or those with a new timeout do")
					for i := 0; i < many; i++ {
						x.Check(m.Has(i) == (i%2 == 0), "the wrong entries left")
					}
					x.Sleep(3 * sec)
				case "cleared":
					m.Clear()
				case "deleted":
					for i := 0; i < many; i++ {
						m.Delete(many - 1 - i)
					}
				}
				x.Settle()
				x.Check(m.Size() == 0, "entries are left")
				got := make([]int, many)
				for _, e := range x.Events() {
					k, v := e.A.(int), e.B.(int)
					x.Check(v == k+1-k%2, "the unload function got another value")
					got[k]++
				}
				for i := 0; i < end; i++ {
					x.Check(got[i] == 1, "the unload function was not called exactly once for an entry that left")
				}
				x.Sleep(20 * sec)
				x.Check(x.Threads() == idle, "goroutines are left")
			})
		}
	}
	leaving("C04")
	leaving("C05")
}

func volRequest() {
	volume("C11", "callers of one key", 2, func(x *X, o int) {
		fail := errors.New("no result")
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, 5*sec)
		calls := x.NewCell()
		res, _ := crowd(x, many, func(i int) [2]any {
			if o == 0 {
				return [2]any{m.GetOrCreate(7, func(int) int { calls.Add(1); x.Sleep(sec); return 42 + i }), nil}
			}
			v, err := m.GetOrCreateWithErr(7, func(int) (int, error) { calls.Add(1); x.Sleep(sec); return 42 + i, fail })
			return [2]any{v, err}
		})
		x.Join()
		x.Check(calls.N() == 1, "the producer of a key is called twice")
		for _, r := range res {
			x.Check(r == res[0] && (r[1] == fail) == (o == 1), "callers of a key get different results")
		}
		cancel()
	})
	volume("C11", "callers of many keys", 2, func(x *X, o int) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, 5*sec)
		in := x.NewCell()
		leave := make(chan struct{})
		res, _ := crowd(x, many, func(i int) int {
			f := func(k int) int { in.Add(1); vrt.Recv(leave); return k }
			if o == 0 {
				return m.GetOrCreate(i, f)
			}
			v, _ := m.GetOrCreateWithErr(i, func(k int) (int, error) { return f(k), nil })
			return v
		})
		x.Check(in.N() == many, "producers of different keys wait for each other")
		vrt.Close(leave)
		x.Join()
		for i, r := range res {
			x.Check(r == i, "a caller gets the result of another key")
		}
		cancel()
	})
	volume("C11", "producers within producers", 1, func(x *X, o int) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, 5*sec)
		var f func(k int) int
		f = func(k int) int {
			if k == many {
				return 0
			}
			return 1 + m.GetOrCreate(k+1, f)
		}
		x.Check(m.GetOrCreate(0, f) == many, "a caller gets another result than the producer's")
		cancel()
	})
	// results that are produced at the same time or one after the other
	volume("C12", "many results", 4, func(x *X, o int) {
		const ttl = 5 * sec
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		var init []*collections.RequestMapInitializer[int, int]
		if o >= 2 {
			for i := 0; i < manyKeys; i++ {
				init = append(init, &collections.RequestMapInitializer[int, int]{Key: -1 - i, Result: -1 - i})
			}
		}
		m := collections.NewRequestMap[int, int](ctx, ttl, init...)
		at := make([]time.Duration, manyKeys)
		get := func(k int) (fresh bool) {
			v := m.GetOrCreate(k, func(int) int { fresh = true; return k })
			x.Check(v == k, "a caller gets the result of another key")
			return
		}
		for i := range at {
			at[i] = x.Now()
			x.Check(get(i), "a result is served that was never produced")
			if o%2 == 1 {
				x.Sleep(3 * time.Millisecond)
			}
		}
		for t := x.Now(); t < 12*sec; t += sec / 3 {
			x.SleepUntil(t)
			alive := 0
			for i := range at {
				if x.Now() < at[i]+ttl {
					x.Check(!get(i), "a result is dropped too early")
				}
				if x.Now() <= at[i]+ttl+sec {
					alive++
				}
			}
			if len(init) > 0 && x.Now() < ttl {
				for i := range at {
					x.Check(!get(-1-i), "a preloaded result is dropped too early")
				}
			}
			if x.Now() <= ttl+sec {
				alive += len(init)
			}
			x.Check(m.Count() <= alive, "results are not dropped in time")
		}
		x.Check(m.Count() == 0, "results are left")
		for i := range at {
			x.Check(get(i), "an old result is served")
		}
		x.Check(m.Count() == manyKeys, "new results are not kept")
		cancel()
	})
	volume("C13", "many calls", 3, func(x *X, o int) {
		fail := errors.New("failed")
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewRequestMap[int, int](ctx, 5*sec)
		calls := x.NewCell()
		late := func(i int) bool { return o == 1 || o == 2 && i%2 == 1 }
		f := m.Timeout(2*sec, func(k int) (int, error) {
			calls.Add(1)
			if late(k) {
				x.Sleep(3 * sec)
			} else {
				x.Sleep(sec)
			}
			return k, fail
		})
		res, at := crowd(x, many, func(i int) [2]any {
			v, err := f(i)
			return [2]any{v, err}
		})
		x.Check(calls.N() == many, "calls wait for each other")
		x.Join()
		for i, r := range res {
			if late(i) {
				x.Check(r[0] == 0 && r[1] == error(collections.ErrTimeout) && at[i] == 2*sec, "a late call does not end with ErrTimeout in time")
			} else {
				x.Check(r[0] == i && r[1] == fail && at[i] == sec, "the result of a call in time is not returned at once")
			}
		}
		cancel()
		x.Sleep(10 * sec)
		x.Check(calls.N() == many, "the function is called again")
		x.Check(x.Threads() == 0, "goroutines are left")
	})
}

func volWaits() {
	failed := errors.New("failed")
	// o: release, error, timeout, cancellation
	volume("C08", "waiters of one key", 4, func(x *X, o int) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(5 * sec).WithTTL(3 * sec).Build()
		x.Settle()
		idle := x.Threads()
		res, at := crowd(x, many, func(i int) error { return m.Wait(0, 1) })
		x.Sleep(sec)
		end := sec
		switch o {
		case 0:
			x.Check(m.Release(0) == nil, "Release fails")
		case 1:
			x.Check(m.Error(0, failed) == nil, "Error fails")
		case 2:
			end = 5 * sec
		case 3:
			cancel()
		}
		x.Join()
		for i := range res {
			x.Check(at[i] == end, "a waiter is not released at once")
			x.Check(res[i] == res[0], "waiters of a key get different outcomes")
		}
		x.Check((res[0] == nil) == (o == 0) && (res[0] == failed) == (o == 1), "the outcome is wrong")
		x.Check(m.Count() == 1 && m.Wait(0, 2) == res[0], "a later waiter gets another outcome")
		x.Sleep(3*sec + 1)
		x.Settle()
		x.Check(m.Count() == 0 && x.Threads() == idle, "records or goroutines are left")
		cancel()
	})
	volume("C08", "waiters of many keys", 3, func(x *X, o int) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewHolderMap[int, int]().WithContext(ctx).WithTimeout(5 * sec).WithTTL(3 * sec).Build()
		x.Settle()
		idle := x.Threads()
		res, at := crowd(x, many, func(i int) error { return m.Wait(i, i) })
		x.Check(m.Count() == many, "Count is wrong")
		x.Sleep(sec)
		for i := 0; i < many; i++ {
			v, err := m.Get(i)
			x.Check(v == i && err == nil, "Get returns another object")
			switch (i + o) % 3 {
			case 0:
				x.Check(m.Release(i) == nil, "Release fails")
			case 1:
				x.Check(m.Error(i, failed) == nil, "Error fails")
			}
		}
		x.Join()
		for i := range res {
			switch (i + o) % 3 {
			case 0:
				x.Check(res[i] == nil && at[i] == sec, "a waiter does not get its outcome at once")
			case 1:
				x.Check(res[i] == failed && at[i] == sec, "a waiter does not get its outcome at once")
			case 2:
				x.Check(res[i] != nil && res[i] != failed && at[i] == 5*sec, "a waiter does not time out in time")
			}
		}
		x.Sleep(3*sec + 1)
		x.Settle()
		x.Check(m.Count() == 0 && x.Threads() == idle, "records or goroutines are left")
		cancel()
	})
	for _, p := range []string{"C20", "C21"} {
		// o: set, timeout, cancellation
		volume(p, "waiters of one key", 3, func(x *X, o int) {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			m := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(5 * sec).WithResponseTtl(3 * sec).Build()
			x.Settle()
			idle := x.Threads()
			res, at := crowd(x, many, func(i int) int { return m.Wait(0) })
			x.Check(m.Count() == 1, "Count is wrong")
			x.Sleep(sec)
			end, want := sec, 0
			switch o {
			case 0:
				m.Set(0, 42)
				m.Set(0, 43)
				want = 42
			case 1:
				end = 5 * sec
			case 2:
				cancel()
			}
			x.Join()
			for i := range res {
				x.Check(at[i] == end && res[i] == want, "a waiter does not get the value in time")
			}
			if o < 2 {
				x.Check(m.Count() == 1 && m.Wait(0) == want, "the value does not stay")
			}
			x.Sleep(3*sec + 1)
			x.Sleep(5 * sec)
			x.Settle()
			x.Check(m.Count() == 0 && x.Threads() == idle, "values or goroutines are left")
			cancel()
		})
		volume(p, "waiters of many keys", 3, func(x *X, o int) {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			m := collections.NewWaitMap[int, int]().WithContext(ctx).WithRequestTimeout(5 * sec).WithResponseTtl(3 * sec).Build()
			x.Settle()
			idle := x.Threads()
			res, at := crowd(x, many, func(i int) int { return m.Wait(i) })
			x.Check(m.Count() == many, "Count is wrong")
			x.Sleep(sec)
			for i := 0; i < many; i++ {
				if (i+o)%3 > 0 {
					m.Set(i, i+1)
				}
			}
			for i := many; i < moreKeys; i++ {
				m.Set(i, i+1)
			}
			x.Settle()
			x.Check(m.Count() == moreKeys, "Count is wrong")
			x.Sleep(3*sec - 1)
			for i := 0; i < moreKeys; i++ {
				if i >= many || (i+o)%3 > 0 {
					x.Check(m.Wait(i) == i+1, "the value does not stay")
				}
			}
			x.Join()
			for i := range res {
				if (i+o)%3 > 0 {
					x.Check(at[i] == sec && res[i] == i+1, "a waiter does not get the value in time")
				} else {
					x.Check(at[i] == 5*sec && res[i] == 0, "a waiter does not end with the request timeout")
				}
			}
			x.Sleep(3*sec + 1)
			x.Settle()
			x.Check(m.Count() == 0 && x.Threads() == idle, "values or goroutines are left")
			cancel()
		})
	}
	for _, p := range []string{"C14", "C15"} {
		// o: set, timeout, cancellation
		volume(p, "waiters of one key", 3, func(x *X, o int) {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			m := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(5 * sec).WithClearTimeout(20 * sec).Build()
			res, at := crowd(x, many, func(i int) int { return m.Wait(0) })
			x.Sleep(sec)
			end, want := sec, 0
			switch o {
			case 0:
				m.Set(0, 42)
				m.Set(0, 43)
				want = 42
			case 1:
				end = 5 * sec
			case 2:
				cancel()
			}
			x.Join()
			for i := range res {
				x.Check(at[i] == end && res[i] == want, "a waiter does not get the value in time")
			}
			if o == 1 {
				x.Sleep(sec)
				m.Set(0, 44)
				want = 44
			}
			if o < 2 {
				x.Sleep(sec)
				x.Check(m.Wait(0) == want, "the value does not stay")
			}
			cancel()
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
		volume(p, "waiters of many keys", 3, func(x *X, o int) {
			const clear = 20 * sec
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			m := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(5 * sec).WithClearTimeout(clear).Build()
			x.Settle()
			idle := x.Threads()
			x.Sleep(7 * sec)
			res, at := crowd(x, many, func(i int) int { return m.Wait(i) })
			x.Sleep(sec)
			for i := 0; i < many; i++ {
				if (i+o)%3 > 0 {
					m.Set(i, i+1)
				}
			}
			for i := many; i < moreKeys; i++ {
				m.Set(i, i+1)
			}
			x.Sleep(clear - sec - 1) // 7s + clear - 1
			for i := 0; i < moreKeys; i++ {
				if i >= many || (i+o)%3 > 0 {
					x.Check(m.Wait(i) == i+1, "the value does not stay")
				}
			}
			x.Join()
			for i := range res {
				if (i+o)%3 > 0 {
					x.Check(at[i] == 8*sec && res[i] == i+1, "a waiter does not get the value in time")
				} else {
					x.Check(at[i] == 12*sec && res[i] == 0, "a waiter does not end with the response timeout")
				}
			}
			x.SleepUntil(8*sec + 2*clear + 1)
			x.Settle()
			x.Check(x.Threads() == idle, "records are left")
			res, at = crowd(x, many, func(i int) int { return m.Wait(i) })
			for i := 0; i < many; i++ {
				m.Set(i, -i)
			}
			x.Join()
			for i := range res {
				x.Check(res[i] == -i, "a key does not start afresh")
			}
			cancel()
			x.Settle()
			x.Check(x.Threads() == 0, "goroutines are left")
		})
	}
}

func volUniq() {
	// o: added at once or one after the other, some removed, some added again
	volume("C18", "many elements", 4, func(x *X, o int) {
		const ttl, check = 10 * sec, sec
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		s := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(ttl).WithCheckInterval(check).Build()
		at := make([]time.Duration, manyKeys)
		put := func(i int) {
			ok, err := s.Add(i)
			x.Check(ok && err == nil, "a new element is not added")
			at[i] = x.Now()
		}
		for i := range at {
			put(i)
			if o%2 == 1 {
				x.Sleep(4 * time.Millisecond)
			}
		}
		if o >= 2 {
			x.SleepUntil(6 * sec)
			for i := range at {
				if i%4 != 0 {
					ok, err := s.Remove(i)
					x.Check(ok && err == nil, "Remove does not remove")
					at[i] = -1
				}
				if i%4 == 3 {
					put(i)
				}
			}
		}
		for t := 7 * sec; t < 20*sec; t += sec / 4 {
			x.SleepUntil(t)
			n := 0
			for i := range at {
				has, err := s.Has(i)
				now := x.Now()
				must := at[i] >= 0 && now < at[i]+ttl
				may := must || at[i] >= 0 && now <= at[i]+ttl+2*check
				x.Check(err == nil && (has || !must) && (!has || may), "an element leaves too early or too late")
				if has {
					n++
				}
			}
			x.Check(s.Count() == n, "Count is wrong")
		}
		x.Check(s.Count() == 0, "elements are left")
		cancel()
		x.Settle()
		x.Check(x.Threads() == 0, "goroutines are left")
	})
}
