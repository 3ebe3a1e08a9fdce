package main

import (
	"fmt"

	"github.com/axgrid/axutils/collections"
)

// Callbacks that panic: the panic reaches the caller, who recovers. Nothing is stored, no lock stays behind, and others
// that wait for the key get their turn.

type boom struct{}

func panics(f func()) (p bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case boom:
			p = true
		default:
			panic(r)
		}
	}()
	f()
	return
}

func init() {
	for _, lockLoad := range []bool{true, false} {
		lockLoad := lockLoad
		add("C01", S{Name: fmt.Sprintf("the loader panics, load lock %v", lockLoad), Bound: 2, BoundT: 4}, func(x *X) {
			bad, n := int64(x.Choose(3)+1), 2+x.Choose(2)
			calls, good, gone := x.NewCell(), x.NewCell(), x.NewCell()
			m := collections.NewGuavaMap[int, int]().WithLockLoad(lockLoad).WithMaxCount(x.Choose(2)).WithLoadFunc(func(k int) (int, error) {
				if calls.Add(1) == bad {
					panic(boom{})
				}
				good.Add(1)
				return k + 1, nil
			}).Build()
			get := func() {
				if panics(func() {
					v, err := m.Get(1)
					x.Check(v == 2 && err == nil, "a caller gets another value than the loaded one")
				}) {
					gone.Add(1)
				}
			}
			for i := 0; i < n; i++ {
				x.Go(get)
			}
			x.Join()
			reached := calls.N() >= bad
			x.Check((gone.N() == 1) == reached && gone.N() <= 1, "the panic of a loader does not reach its caller, or another one")
			x.Check(!lockLoad || good.N() == 1 && calls.N() == 1+gone.N(), "not one load after the one that panicked")
			x.Check(m.Has(1) && m.Size() == 1, "the loaded entry is missing")
			bad = -1
			get()
			m.Delete(1)
			get()
			x.Check(m.Has(1), "the cache does not load any more")
		})
	}
	add("C06", S{Name: "the update panics", Bound: 2, BoundT: 4}, func(x *X) {
		m := collections.NewGuavaMap[int, int]().WithMaxCount(x.Choose(2)).Build()
		had := x.Choose(2) == 1
		if had {
			m.Set(1, 10)
		}
		n := x.Choose(3)
		inside := x.NewCell()
		for i := 0; i <= n; i++ {
			i := i
			x.Go(func() {
				x.Check(panics(func() {
					m.LockForUpdate(1, func() int {
						x.Check(inside.Add(1) == 1, "two updates of a key at once")
						defer inside.Add(-1)
						if i == 0 {
							panic(boom{})
						}
						v, _ := m.Get(1)
						return v + 1
					})
				}) == (i == 0), "the panic of an update does not reach its caller")
			})
		}
		x.Join()
		want := n
		if had {
			want += 10
		}
		v, err := m.Get(1)
		x.Check(err == nil && v == want && m.Has(1) == (had || n > 0), "an update that panics changes the entry, or another one is lost")
		m.Set(1, 0)
		x.Check(m.LockForUpdate(1, func() int { return 7 }) == 7, "LockForUpdate returns another value")
	})
	type ifAbsent interface {
		SetIfNotExistsWithFunc(int, func() int) (int, bool)
		Has(int) bool
		Size() int
		Get(int) (int, bool)
		Set(int, int)
	}
	for _, kind := range []string{"simple", "shard"} {
		kind := kind
		add("C10", S{Name: kind + ", the function panics", Bound: 2, BoundT: 4}, func(x *X) {
			var m ifAbsent
			if kind == "simple" {
				m = collections.NewSimpleMap[int, int]()
			} else {
				m = collections.NewShardMap[int, int]().WithShardsCount(1 + x.Choose(2)).WithShardsFunc(func(k int) int { return 0 }).Build()
			}
			n := x.Choose(3)
			won := x.NewCell()
			for i := 0; i <= n; i++ {
				i := i
				x.Go(func() {
					ran := false
					p := panics(func() {
						_, ok := m.SetIfNotExistsWithFunc(1, func() int {
							ran = true
							if i == 0 {
								panic(boom{})
							}
							return i
						})
						x.Check(ok == ran, "the winner is not who was asked for the value")
						if ok {
							won.Add(1)
						}
					})
					x.Check(p == (i == 0 && ran), "the panic does not reach its caller")
				})
			}
			x.Join()
			x.Check((won.N() == 1) == (n > 0), "not one winner")
			_, ok := m.Get(1)
			x.Check(ok == (n > 0) && m.Has(1) == ok && (m.Size() == 1) == ok, "a function that panics stores something")
			m.Set(2, 2)
			x.Check(m.Has(2), "Set does not store")
		})
	}
}
