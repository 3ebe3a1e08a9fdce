package main

import (
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/vrt"
	"verif/vrt/vcontext"
)

// Keys of any type: values that print alike, or are zero, are different keys when Go says they are. Each collection is
// used with all of them at once, in one deterministic schedule.

type (
	keyA struct{ A, B string }
	keyB struct{ A, B string }
	keyI int
)

var likeKeys = func() []any {
	p, q := new(int), new(int)
	return []any{
		1, int64(1), int8(1), uint(1), keyI(1), 1.0, float32(1), complex(1, 0), "1", [1]int{1}, "[1]", struct{ X int }{1},
		"{1}", true, "true", nil, "<nil>", (*int)(nil), (*string)(nil), 0, "0", "", " ", false, "false",
		[2]string{"a b", "c"}, [2]string{"a", "b c"}, "[a b c]", keyA{"a b", "c"}, keyA{"a", "b c"}, keyB{"a", "b c"},
		keyA{}, keyB{}, [2]string{}, [0]int{}, struct{}{}, p, q, 'a', "a", "A", "a\x00", "é", "e\u0301", "\xff", "\ufffd",
		time.Second, int64(time.Second), [2]any{1, "1"}, [2]any{"1", 1}, -1, uint64(1<<64 - 1), 1 << 32, 1 << 33,
		keyA{"1", ""}, keyA{"", "1"},
	}
}()

// anyKeys runs body with the distinct keys.
func anyKeys(prop, name string, body func(x *X, keys []any)) {
	seen := map[any]bool{}
	var keys []any
	for _, k := range likeKeys {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	add(prop, S{Name: "keys of any type/" + name, Steps: 2e7}, func(x *X) {
		x.Branching(false)
		body(x, keys)
	})
}

// keyMap checks a map with distinct keys: stored, replaced, deleted one by one.
func keyMap(x *X, keys []any, set func(k any, v int), get func(k any) (int, bool), del func(k any), size func() int) {
	for i, k := range keys {
		_, ok := get(k)
		x.Check(!ok, "a key that was never stored is present")
		set(k, i)
		x.Check(size() == i+1, "Size is wrong")
	}
	for i, k := range keys {
		v, ok := get(k)
		x.Check(ok && v == i, "a key has the value of another one")
		set(k, i+1000)
	}
	for i := 0; i < len(keys); i += 2 {
		del(keys[i])
	}
	for i, k := range keys {
		v, ok := get(k)
		x.Check(ok == (i%2 == 1) && (!ok || v == i+1000), "deleting a key affects another one")
	}
	x.Check(size() == len(keys)/2, "Size is wrong")
}

func init() {
	for _, lockLoad := range []bool{false, true} {
		lockLoad := lockLoad
		name := "guava"
		if lockLoad {
			name += ", load lock"
		}
		anyKeys("C02", name, func(x *X, keys []any) {
			m := collections.NewGuavaMap[any, int]().WithLockLoad(lockLoad).Build()
			keyMap(x, keys, m.Set, func(k any) (int, bool) {
				if !m.Has(k) {
					return 0, false
				}
				v, err := m.Get(k)
				x.Check(err == nil, "Get fails")
				return v, true
			}, m.Delete, m.Size)
			for i, k := range keys {
				x.Check(m.HasOrCreate(k, -i) == (i%2 == 1), "HasOrCreate does not tell whether the key is present")
			}
			s := m.GetStored()
			for i, k := range keys {
				want := -i
				if i%2 == 1 {
					want = i + 1000
				}
				x.Check(s[k] == want && len(s) == len(keys), "GetStored is wrong")
			}
		})
	}
	anyKeys("C01", "guava", func(x *X, keys []any) {
		at := map[any]int{}
		for i, k := range keys {
			at[k] = i
		}
		open := make([]chan struct{}, len(keys))
		loads := make([]*vrt.Cell, len(keys))
		for i := range keys {
			open[i], loads[i] = make(chan struct{}), x.NewCell()
		}
		m := collections.NewGuavaMap[any, int]().WithLockLoad(true).WithLoadFunc(func(k any) (int, error) {
			i := at[k]
			loads[i].Add(1)
			vrt.Recv(open[i])
			return i, nil
		}).Build()
		done := x.NewCell()
		for n := 0; n < 2; n++ {
			for i := range keys {
				i := i
				x.Go(func() {
					v, err := m.Get(keys[i])
					x.Check(v == i && err == nil, "a caller gets the value of another key")
					done.Add(1)
				})
			}
		}
		x.Settle()
		for i := range keys {
			x.Check(loads[i].N() == 1, "the load of a key waits for that of another one, or there are two")
		}
		for i := len(keys) - 1; i >= 0; i-- {
			vrt.Close(open[i])
			x.Settle()
			x.Check(done.N() == int64(2*(len(keys)-i)), "callers are not served when their key is loaded")
		}
		x.Join()
	})
	anyKeys("C03", "guava", func(x *X, keys []any) {
		for _, max := range []int{1, 3, len(keys) - 1} {
			m := collections.NewGuavaMap[any, int]().WithMaxCount(max).Build()
			for i, k := range keys {
				m.Set(k, i)
				x.Sleep(1)
				for j := range keys {
					x.Check(m.Has(keys[j]) == (j <= i && j > i-max), "not the oldest entry is evicted, or none, or another one too")
				}
			}
			x.Check(m.Size() == max, "Size is wrong")
		}
	})
	anyKeys("C04", "guava", func(x *X, keys []any) {
		at := map[any]int{}
		got := make([]*vrt.Cell, len(keys))
		for i, k := range keys {
			at[k], got[i] = i, x.NewCell()
		}
		m := collections.NewGuavaMap[any, int]().WithUnloadFunc(func(k any, v int) {
			i, ok := at[k]
			x.Check(ok && v == i, "an entry is unloaded with the key or the value of another one")
			got[i].Add(1)
		}).Build()
		for i, k := range keys {
			m.Set(k, i)
		}
		x.Settle()
		for i, k := range keys {
			x.Check(got[i].N() == 0, "an entry is unloaded that did not leave")
			m.Delete(k)
			x.Settle()
			x.Check(got[i].N() == 1, "a deleted entry is not unloaded once")
		}
	})
	anyKeys("C06", "guava", func(x *X, keys []any) {
		m := collections.NewGuavaMap[any, int]().Build()
		inside := x.NewCell()
		gate := make(chan struct{})
		for i := range keys {
			i := i
			x.Go(func() {
				v := m.LockForUpdate(keys[i], func() int {
					inside.Add(1)
					vrt.Recv(gate)
					return i
				})
				x.Check(v == i, "LockForUpdate returns another value")
			})
		}
		x.Settle()
		x.Check(inside.N() == int64(len(keys)), "updates of different keys wait for each other")
		vrt.Close(gate)
		x.Join()
		for i, k := range keys {
			v, err := m.Get(k)
			x.Check(v == i && err == nil, "an update goes to another key")
		}
	})
	anyKeys("C07", "hash set", func(x *X, keys []any) {
		for _, max := range []int{0, 1, 3} {
			s := collections.NewHashSet[any]().WithMaxCount(max).Build()
			for i, k := range keys {
				if i%2 == 0 {
					s.Add(k)
				} else {
					x.Check(!s.HasOrCreate(k), "a key that was never added is present")
				}
				for j := range keys {
					x.Check(s.Has(keys[j]) == (j <= i && (max == 0 || j > i-max)), "membership is wrong")
				}
			}
			n := len(keys)
			if max > 0 {
				n = max
			}
			x.Check(s.Count() == n && len(s.Keys()) == n, "Count is wrong")
			for i := len(keys) - 1; i >= len(keys)-n; i-- {
				x.Check(s.Has(keys[i]), "a Delete removes another key")
				s.Delete(keys[i])
			}
			x.Check(s.Count() == 0, "Count is wrong")
		}
	})
	anyKeys("C08", "holder", func(x *X, keys []any) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewHolderMap[any, int]().WithContext(ctx).WithTimeout(5 * sec).WithTTL(3 * sec).Build()
		done := x.NewCell()
		for i := range keys {
			i := i
			x.Go(func() {
				x.Check(m.Wait(keys[i], i) == numErr(i), "a waiter gets the outcome of another key")
				done.Add(1)
			})
		}
		x.Settle()
		x.Check(m.Count() == len(keys), "Count is wrong")
		for i, k := range keys {
			v, err := m.Get(k)
			x.Check(v == i && err == nil, "Get returns the object of another key")
			x.Check(m.Update(k, i+1000) == nil, "Update fails")
		}
		for i, k := range keys {
			v, err := m.Get(k)
			x.Check(v == i+1000 && err == nil, "Get returns the object of another key")
			x.Check(m.Error(k, numErr(i)) == nil, "Error fails")
			x.Settle()
			x.Check(done.N() == int64(i+1), "an outcome releases another key, or not its own")
		}
		x.Join()
		cancel()
	})
	anyKeys("C09", "mutex", func(x *X, keys []any) {
		m := collections.NewMapMutex[any]()
		keyLocks(x, keys, m.Lock, m.Unlock)
	})
	anyKeys("C09", "rw mutex", func(x *X, keys []any) {
		m := collections.NewMapRWMutex[any]()
		keyLocks(x, keys, m.Lock, m.Unlock)
		for i := range keys {
			if i%2 == 0 {
				m.RLock(keys[i])
				m.RLock(keys[i])
			}
		}
		for i := range keys {
			if i%2 == 1 {
				m.Lock(keys[i])
			}
		}
	})
	anyKeys("C10", "simple map", func(x *X, keys []any) {
		m := collections.NewSimpleMap[any, int]()
		keyMap(x, keys, m.Set, m.Get, m.Delete, m.Size)
		for i, k := range keys {
			x.Check(m.Has(k) == (i%2 == 1) && m.SetIfNotExists(k, i) == (i%2 == 0), "a key stands for another one")
		}
	})
	for _, shards := range []int{1, 3} {
		shards := shards
		anyKeys("C10", fmt.Sprintf("shard map, %d", shards), func(x *X, keys []any) {
			m := collections.NewShardMap[any, int]().WithShardsCount(shards).WithShardsFunc(func(k any) int {
				if _, ok := k.(*int); ok {
					return 0
				}
				return len(fmt.Sprint(k)) % shards
			}).Build()
			keyMap(x, keys, m.Set, m.Get, m.Delete, m.Size)
			for i, k := range keys {
				v, created := m.SetIfNotExistsWithFunc(k, func() int { return i })
				x.Check(created == (i%2 == 0) && v%1000 == i, "a key stands for another one")
			}
		})
	}
	for _, p := range []string{"C11", "C12"} {
		anyKeys(p, "request map", func(x *X, keys []any) {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			m := collections.NewRequestMap[any, int](ctx, 3*sec)
			gate := make(chan struct{})
			calls := x.NewCell()
			get := func(i int) {
				v, err := m.GetOrCreateWithErr(keys[i], func(k any) (int, error) {
					x.Check(k == keys[i], "the producer is called with another key")
					calls.Add(1)
					vrt.Recv(gate)
					return i, numErr(i)
				})
				x.Check(v == i && err == numErr(i), "a caller gets the result of another key")
			}
			for n := 0; n < 2; n++ {
				for i := range keys {
					i := i
					x.Go(func() { get(i) })
				}
			}
			x.Settle()
			x.Check(calls.N() == int64(len(keys)), "not one producer call per key")
			vrt.Close(gate)
			x.Join()
			x.Check(m.Count() == len(keys), "Count is wrong")
			x.SleepUntil(3*sec - 1)
			for i := range keys {
				get(i)
			}
			x.Check(calls.N() == int64(len(keys)), "a result does not live for its TTL")
			x.SleepUntil(10 * sec)
			x.Check(m.Count() == 0, "results are left after their TTL")
			cancel()
		})
	}
	anyKeys("C14", "response map", func(x *X, keys []any) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewResponseMap[any, int](ctx).WithResponseTimeout(5 * sec).WithClearTimeout(60 * sec).Build()
		done := x.NewCell()
		for i := range keys {
			i := i
			x.Go(func() {
				x.Check(m.Wait(keys[i]) == i+1, "a waiter gets the value of another key")
				done.Add(1)
			})
		}
		x.Settle()
		for i := len(keys) - 1; i >= 0; i-- {
			m.Set(keys[i], i+1)
			x.Settle()
			x.Check(done.N() == int64(len(keys)-i), "a Set releases another key, or not its own")
		}
		x.Join()
		cancel()
	})
	anyKeys("C16", "set", func(x *X, keys []any) {
		s := collections.NewSet[any]()
		for i, k := range keys {
			x.Check(!s.Has(k) && !s.HasAny(keys[i:]...), "an element is present that was never added")
			s.Add(k)
			x.Check(s.Size() == i+1, "Size is wrong")
		}
		x.Check(s.HasAll(keys...) && len(s.Values()) == len(keys), "elements are missing")
		c := s.Clone()
		x.Check(c.Equals(s) && s.Equals(c), "a clone is not equal")
		for i, k := range keys {
			s.Remove(k)
			x.Check(!s.Has(k) && s.Size() == len(keys)-1-i && c.Has(k), "Remove removes another element")
			x.Check(!s.Equals(c) && !c.Equals(s), "different sets are equal")
		}
		for i := 1; i < len(keys); i++ {
			a, b := collections.NewSet[any](), collections.NewSet[any]()
			a.Add(keys[i-1])
			b.Add(keys[i])
			x.Check(!a.Equals(b), "different sets are equal")
		}
	})
	anyKeys("C19", "two key map", func(x *X, keys []any) {
		m := collections.NewTwoKeyMap[any, any, int]()
		n := len(keys)
		other := func(i int) any { return keys[(i+7)%n] }
		for i, k := range keys {
			m.Put(k, other(i), i)
			x.Check(m.Len() == i+1, "Len is wrong")
		}
		for i, k := range keys {
			v, ok := m.Get(k)
			w, ok2 := m.GetByK2(other(i))
			x.Check(ok && ok2 && v == i && w == i, "a key has the value of another one")
		}
		for i, k := range keys {
			if i%2 == 0 {
				m.Remove(k)
			} else {
				m.RemoveByK2(other(i))
			}
			for j, k := range keys {
				_, ok := m.Get(k)
				_, ok2 := m.GetByK2(other(j))
				x.Check(ok == (j > i) && ok2 == (j > i), "removing a key affects another one")
			}
			x.Check(m.Len() == n-1-i && len(m.Keys()) == n-1-i && len(m.KeysK2()) == n-1-i, "Len or Keys is wrong")
		}
	})
	anyKeys("C20", "wait map", func(x *X, keys []any) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := collections.NewWaitMap[any, int]().WithContext(ctx).WithRequestTimeout(5 * sec).WithResponseTtl(3 * sec).Build()
		done := x.NewCell()
		for i := range keys {
			i := i
			x.Go(func() {
				x.Check(m.Wait(keys[i]) == i+1, "a waiter gets the value of another key")
				done.Add(1)
			})
		}
		x.Settle()
		for i := len(keys) - 1; i >= 0; i-- {
			m.Set(keys[i], i+1)
			x.Settle()
			x.Check(done.N() == int64(len(keys)-i), "a Set releases another key, or not its own")
		}
		x.Join()
		for i, k := range keys {
			x.Check(m.Wait(k) == i+1, "a key has the value of another one")
		}
		cancel()
	})
}

// keyLocks holds all keys at once, and checks that each is held by itself.
func keyLocks(x *X, keys []any, lock, unlock func(k any)) {
	got := x.NewCell()
	for _, k := range keys {
		lock(k)
	}
	for i := range keys {
		i := i
		x.Go(func() { lock(keys[i]); got.Add(1) })
	}
	x.Settle()
	x.Check(got.N() == 0, "a held lock is given away")
	for i, k := range keys {
		unlock(k)
		x.Settle()
		x.Check(got.N() == int64(i+1), "an Unlock does not let the next holder of its key in, or another one")
	}
	x.Join()
	for _, k := range keys {
		unlock(k)
	}
}
