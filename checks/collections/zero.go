package main

import (
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt/vcontext"
)

// Zero values are values: what is stored as nil or zero is stored. Every sequence of operations with such values,
// against what a plain map does.

var zvals = []any{nil, 0, "", (*int)(nil), "x"}

// zmap is the model: one key
type zmap struct {
	has bool
	v   any
}

func zeq(x *X, got, want any, what string) {
	if got != want {
		x.Failf("%s gives %T %v instead of %T %v", what, got, got, want, want)
	}
}

func init() {
	seq := func(x *X, depth, n int, do func(op int, v any)) {
		x.Branching(false)
		for i := 0; i < depth; i++ {
			op := x.Choose(n)
			v := zvals[(op*7+i*3)%len(zvals)]
			if op < 3 { // stores
				v = zvals[x.Choose(len(zvals))]
			}
			do(op, v)
		}
	}
	for _, mode := range []string{"no loader", "loader", "load lock"} {
		mode := mode
		add("C02", S{Name: "zero values, " + mode, Shards: 4, ShardAt: 2}, func(x *X) {
			var loaded any
			loads := 0
			b := collections.NewGuavaMap[string, any]().WithMaxCount(x.Choose(3)).WithLockLoad(mode == "load lock")
			if mode != "no loader" {
				b = b.WithLoadFunc(func(string) (any, error) {
					loads++
					return loaded, nil
				})
			}
			m := b.Build()
			s := zmap{}
			seq(x, 4, 8, func(op int, v any) {
				switch op {
				case 0:
					m.Set("", v)
					s = zmap{true, v}
				case 1:
					x.Check(m.HasOrCreate("", v) == s.has, "HasOrCreate does not tell whether the key is present")
					if !s.has {
						s = zmap{true, v}
					}
				case 2:
					zeq(x, m.LockForUpdate("", func() any { return v }), v, "LockForUpdate")
					s = zmap{true, v}
				case 3:
					loaded, loads = v, 0
					r, err := m.Get("")
					x.Check(err == nil, "Get fails")
					if !s.has && mode != "no loader" {
						x.Check(loads == 1, "a Get that misses does not load")
						s = zmap{true, v}
					} else {
						x.Check(loads == 0, "a present entry is loaded again")
					}
					zeq(x, r, s.v, "Get")
				case 4:
					x.Check(m.Has("") == s.has, "Has is wrong")
				case 5:
					m.Delete("")
					s = zmap{}
				case 6:
					m.Clear()
					s = zmap{}
				case 7:
					st := m.GetStored()
					v, ok := st[""]
					x.Check(ok == s.has && v == s.v && m.Size() == len(st), "GetStored is wrong")
				}
			})
		})
	}
	for _, shards := range []int{0, 1, 3} {
		shards := shards
		add("C10", S{Name: fmt.Sprint("zero values, ", shards, " shards"), Shards: 4, ShardAt: 2}, func(x *X) {
			var m collections.Map[string, any] = collections.NewSimpleMap[string, any]()
			if shards > 0 {
				m = collections.NewShardMap[string, any]().WithShardsCount(shards).WithShardsFunc(func(k string) int { return shards - 1 }).Build()
			}
			s := zmap{}
			seq(x, 4, 7, func(op int, v any) {
				switch op {
				case 0:
					m.Set("", v)
					s = zmap{true, v}
				case 1:
					x.Check(m.SetIfNotExists("", v) != s.has, "SetIfNotExists does not tell whether it stored")
					if !s.has {
						s = zmap{true, v}
					}
				case 2:
					n := 0
					r, ok := m.SetIfNotExistsWithFunc("", func() any { n++; return v })
					x.Check(ok != s.has && (n == 1) == ok, "SetIfNotExistsWithFunc does not tell whether it stored")
					if ok {
						s = zmap{true, v}
					}
					zeq(x, r, s.v, "SetIfNotExistsWithFunc")
				case 3:
					r, ok := m.Get("")
					x.Check(ok == s.has, "Get does not tell whether the key is present")
					zeq(x, r, s.v, "Get")
				case 4:
					x.Check(m.Has("") == s.has, "Has is wrong")
				case 5:
					m.Delete("")
					s = zmap{}
				case 6:
					n := 0
					if s.has {
						n = 1
					}
					x.Check(m.Size() == n, "Size is wrong")
				}
			})
		})
	}
	add("C19", S{Name: "zero values", Shards: 4, ShardAt: 2}, func(x *X) {
		m := collections.NewTwoKeyMap[string, string, any]()
		s := zmap{}
		seq(x, 4, 7, func(op int, v any) {
			switch op {
			case 0, 1, 2:
				m.Put("", "", v)
				s = zmap{true, v}
			case 3:
				r, ok := m.Get("")
				x.Check(ok == s.has, "Get does not tell whether the key is present")
				zeq(x, r, s.v, "Get")
			case 4:
				r, ok := m.GetByK2("")
				x.Check(ok == s.has, "GetByK2 does not tell whether the key is present")
				zeq(x, r, s.v, "GetByK2")
			case 5:
				m.Remove("")
				s = zmap{}
			case 6:
				m.RemoveByK2("")
				s = zmap{}
			}
			n := 0
			if s.has {
				n = 1
			}
			x.Check(m.Len() == n && len(m.Keys()) == n && len(m.KeysK2()) == n, "Len is wrong")
		})
	})
	// a result that is nil or zero is a result: it is kept, not produced again
	add("C11", S{Name: "zero values"}, func(x *X) {
		x.Branching(false)
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		v, w := zvals[x.Choose(len(zvals))], zvals[x.Choose(len(zvals))]
		m := collections.NewRequestMap[string, any](ctx, 10*sec, &collections.RequestMapInitializer[string, any]{Key: "p", Result: w})
		n := 0
		for i := 0; i < 3; i++ {
			if x.Bool() {
				zeq(x, m.GetOrCreate("", func(string) any { n++; return v }), v, "GetOrCreate")
			} else {
				r, err := m.GetOrCreateWithErr("", func(string) (any, error) { n++; return v, nil })
				x.Check(err == nil, "GetOrCreateWithErr fails")
				zeq(x, r, v, "GetOrCreateWithErr")
			}
			x.Sleep(sec)
			x.Check(n == 1, "a result is produced again")
			zeq(x, m.GetOrCreate("p", func(string) any { n++; return "y" }), w, "GetOrCreate of a preloaded key")
		}
		x.Check(n == 1, "a preloaded result is produced")
		cancel()
		x.Settle()
	})
	// a value that is nil or zero is delivered: at once, not when the timeout passes
	wait := func(prop string, mk func() (wait func() any, set func(v any), end func())) {
		add(prop, S{Name: "zero values", Bound: 1, BoundT: 3}, func(x *X) {
			wait, set, end := mk()
			v := zvals[x.Choose(len(zvals))]
			n := 1 + x.Choose(2)
			before := x.Bool()
			if !before {
				set(v)
				x.Settle()
			}
			at := make([]time.Duration, n)
			got := make([]any, n)
			for i := 0; i < n; i++ {
				i := i
				x.Go(func() {
					got[i] = wait()
					at[i] = x.Now()
				})
			}
			if before {
				x.Sleep(sec)
				set(v)
			}
			t := x.Now()
			x.Join()
			for i := range at {
				x.Check(at[i] == t, "a value that is zero is not delivered when it is set")
				zeq(x, got[i], v, "Wait")
			}
			set("other")
			x.Settle()
			zeq(x, wait(), v, "a later Wait")
			x.Check(x.Now() == t, "a later Wait does not return at once")
			end()
		})
	}
	wait("C14", func() (func() any, func(any), func()) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewResponseMap[string, any](ctx).WithResponseTimeout(10 * sec).WithClearTimeout(20 * sec).Build()
		return func() any { return m.Wait("") }, func(v any) { m.Set("", v) }, cancel
	})
	wait("C20", func() (func() any, func(any), func()) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewWaitMap[string, any]().WithContext(ctx).WithRequestTimeout(10 * sec).WithResponseTtl(20 * sec).Build()
		return func() any { return m.Wait("") }, func(v any) { m.Set("", v) }, cancel
	})
	add("C08", S{Name: "zero values", Bound: 1, BoundT: 3}, func(x *X) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewHolderMap[string, any]().WithContext(ctx).WithTimeout(10 * sec).WithTTL(20 * sec).Build()
		v := zvals[x.Choose(len(zvals))]
		x.Go(func() { x.Check(m.Wait("", v) == nil, "Wait does not return nil after Release") })
		x.Sleep(sec)
		r, err := m.Get("")
		x.Check(err == nil, "Get fails although a caller waits")
		zeq(x, r, v, "Get")
		if x.Bool() {
			v = zvals[x.Choose(len(zvals))]
			x.Check(m.Update("", v) == nil, "Update fails although a caller waits")
			r, err := m.Get("")
			x.Check(err == nil, "Get fails although a caller waits")
			zeq(x, r, v, "Get")
		}
		x.Check(m.Release("") == nil, "Release fails although a caller waits")
		x.Join()
		x.Check(x.Now() == sec, "Wait does not return when it is released")
		cancel()
		x.Settle()
	})
}
