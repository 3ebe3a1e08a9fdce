package main

import (
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"
)

// Large collections: filled with hundreds of entries in one schedule; then one operation runs against observers in
// all schedules. Every observation shows the collection before or after the operation, nothing between.

const largeN = 300

type bigState map[int]int

type bigOp struct {
	name  string
	do    func()
	after func(s bigState)
}

type bigObs struct {
	name string
	see  func() any
	want func(s bigState) any
}

func digest[K comparable, V any](m map[K]V) any {
	h := uint64(len(m))
	for k, v := range m {
		h += strSum(fmt.Sprint(k, "=", v))
	}
	return h
}

func strSum(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func keyDigest(keys []int) any {
	m := map[int]int{}
	for _, k := range keys {
		m[k]++
	}
	return digest(m)
}

func ones(s bigState) any {
	m := map[int]int{}
	for k := range s {
		m[k] = 1
	}
	return digest(m)
}

func large(prop, name string, build func(x *X, s bigState) ([]bigOp, []bigObs)) {
	add(prop, S{Name: "large collection/" + name, Bound: 2, BoundT: 3, Shards: 8, Steps: 1e6}, func(x *X) {
		x.Branching(false)
		pre := bigState{}
		ops, obs := build(x, pre)
		op := ops[x.Choose(len(ops))]
		var see []bigObs
		first, diff := x.Choose(len(obs)), x.Choose(len(obs))
		see = append(see, obs[first], obs[(first+diff)%len(obs)], obs[first])
		post := bigState{}
		for k, v := range pre {
			post[k] = v
		}
		op.after(post)
		got := make([]any, len(see))
		x.Branching(true)
		x.Go(op.do)
		x.Go(func() {
			for i, o := range see {
				got[i] = o.see()
			}
		})
		x.Join()
		x.Branching(false)
		isPost := false
		for i, o := range see {
			a, b := o.want(pre), o.want(post)
			switch {
			case got[i] == a && got[i] == b:
			case got[i] == b:
				isPost = true
			case got[i] != a:
				x.Failf("%s during %s shows neither the state before nor the state after it: %v", o.name, op.name, got[i])
			case isPost:
				x.Failf("%s during %s shows an older state than an observation before", o.name, op.name)
			}
		}
		for _, o := range obs {
			x.Check(o.see() == o.want(post), o.name+" after "+op.name+" is wrong")
		}
	})
}

func init() {
	for _, max := range []int{0, largeN} {
		max := max
		large("C02", fmt.Sprint("max ", max), func(x *X, s bigState) ([]bigOp, []bigObs) {
			m := collections.NewGuavaMap[int, int]().WithMaxCount(max).Build()
			for i := 0; i < largeN; i++ {
				m.Set(i, i+1)
				s[i] = i + 1
			}
			evict := func(s bigState) {
				if max > 0 {
					delete(s, 0)
				}
			}
			ops := []bigOp{
				{"Clear", m.Clear, func(s bigState) { clear(s) }},
				{"Set", func() { m.Set(1000, 7) }, func(s bigState) { evict(s); s[1000] = 7 }},
				{"Set of an old key", func() { m.Set(100, 7) }, func(s bigState) { s[100] = 7 }},
				{"HasOrCreate", func() { m.HasOrCreate(1000, 7) }, func(s bigState) { evict(s); s[1000] = 7 }},
				{"Delete", func() { m.Delete(150) }, func(s bigState) { delete(s, 150) }},
				{"LockForUpdate", func() { m.LockForUpdate(1000, func() int { return 7 }) }, func(s bigState) { evict(s); s[1000] = 7 }},
			}
			obs := []bigObs{
				{"Size", func() any { return m.Size() }, func(s bigState) any { return len(s) }},
				{"GetStored", func() any { return digest(m.GetStored()) }, func(s bigState) any { return digest(s) }},
			}
			for _, k := range []int{0, 150, 299, 1000} {
				k := k
				obs = append(obs, bigObs{"Has", func() any { return m.Has(k) }, func(s bigState) any { _, ok := s[k]; return ok }},
					bigObs{"Get", func() any { v, _ := m.Get(k); return v }, func(s bigState) any { return s[k] }})
			}
			return ops, obs
		})
		large("C07", fmt.Sprint("max ", max), func(x *X, s bigState) ([]bigOp, []bigObs) {
			m := collections.NewHashSet[int]().WithMaxCount(max).Build()
			for i := 0; i < largeN; i++ {
				m.Add(i)
				s[i] = 1
			}
			evict := func(s bigState) {
				if max > 0 {
					delete(s, 0)
				}
			}
			ops := []bigOp{
				{"Clear", m.Clear, func(s bigState) { clear(s) }},
				{"Add", func() { m.Add(1000) }, func(s bigState) { evict(s); s[1000] = 1 }},
				{"HasOrCreate", func() { m.HasOrCreate(1000) }, func(s bigState) { evict(s); s[1000] = 1 }},
				{"Delete", func() { m.Delete(150) }, func(s bigState) { delete(s, 150) }},
			}
			obs := []bigObs{
				{"Count", func() any { return m.Count() }, func(s bigState) any { return len(s) }},
				{"Keys", func() any { return keyDigest(m.Keys()) }, ones},
			}
			for _, k := range []int{0, 150, 299, 1000} {
				k := k
				obs = append(obs, bigObs{"Has", func() any { return m.Has(k) }, func(s bigState) any { _, ok := s[k]; return ok }})
			}
			return ops, obs
		})
	}
	mapOf := func(m collections.Map[int, int], clr func()) func(x *X, s bigState) ([]bigOp, []bigObs) {
		return func(x *X, s bigState) ([]bigOp, []bigObs) {
			for i := 0; i < largeN; i++ {
				m.Set(i, i+1)
				s[i] = i + 1
			}
			put := func(s bigState) { s[1000] = 7 }
			ops := []bigOp{
				{"Set", func() { m.Set(1000, 7) }, put},
				{"Set of an old key", func() { m.Set(100, 7) }, func(s bigState) { s[100] = 7 }},
				{"SetIfNotExists", func() { m.SetIfNotExists(1000, 7) }, put},
				{"SetIfNotExistsWithFunc", func() { m.SetIfNotExistsWithFunc(1000, func() int { return 7 }) }, put},
				{"Delete", func() { m.Delete(150) }, func(s bigState) { delete(s, 150) }},
			}
			if clr != nil {
				ops = append(ops, bigOp{"Clear", clr, func(s bigState) { clear(s) }})
			}
			obs := []bigObs{{"Size", func() any { return m.Size() }, func(s bigState) any { return len(s) }}}
			for _, k := range []int{0, 100, 150, 1000} {
				k := k
				obs = append(obs, bigObs{"Has", func() any { return m.Has(k) }, func(s bigState) any { _, ok := s[k]; return ok }},
					bigObs{"Get", func() any { v, _ := m.Get(k); return v }, func(s bigState) any { return s[k] }})
			}
			return ops, obs
		}
	}
	large("C10", "SimpleMap", func(x *X, s bigState) ([]bigOp, []bigObs) {
		return mapOf(collections.NewSimpleMap[int, int](), nil)(x, s)
	})
	for _, n := range []int{1, 3} {
		n := n
		large("C10", fmt.Sprint("ShardMap ", n), func(x *X, s bigState) ([]bigOp, []bigObs) {
			m := collections.NewShardMap[int, int]().WithShardsCount(n).WithShardsFunc(func(k int) int { return k % n }).Build()
			clr := m.Clear
			if n > 1 { // shard by shard
				clr = nil
			}
			return mapOf(m, clr)(x, s)
		})
	}
	large("C17", "StructUniqSet", func(x *X, s bigState) ([]bigOp, []bigObs) {
		m := collections.NewStructUniqSet[int]().WithElementTtl(time.Hour).WithCheckInterval(time.Hour).WithContext(memCtx()).Build()
		for i := 0; i < largeN; i++ {
			m.Add(i)
			s[i] = 1
		}
		ops := []bigOp{
			{"Add", func() { m.Add(1000) }, func(s bigState) { s[1000] = 1 }},
			{"Remove", func() { m.Remove(150) }, func(s bigState) { delete(s, 150) }},
		}
		obs := []bigObs{{"Count", func() any { return m.Count() }, func(s bigState) any { return len(s) }}}
		for _, k := range []int{150, 299, 1000} {
			k := k
			obs = append(obs, bigObs{"Has", func() any { ok, _ := m.Has(k); return ok }, func(s bigState) any { _, ok := s[k]; return ok }})
		}
		return ops, obs
	})
	large("C19", "TwoKeyMap", func(x *X, s bigState) ([]bigOp, []bigObs) {
		m := collections.NewTwoKeyMap[int, int, int]() // the second key is the negative of the first
		for i := 1; i <= largeN; i++ {
			m.Put(i, -i, i+1)
			s[i] = i + 1
		}
		ops := []bigOp{
			{"Put", func() { m.Put(1000, -1000, 7) }, func(s bigState) { s[1000] = 7 }},
			{"Put of an old key", func() { m.Put(100, -100, 7) }, func(s bigState) { s[100] = 7 }},
			{"Remove", func() { m.Remove(150) }, func(s bigState) { delete(s, 150) }},
			{"RemoveByK2", func() { m.RemoveByK2(-150) }, func(s bigState) { delete(s, 150) }},
		}
		neg := func(l []int) []int {
			for i := range l {
				l[i] = -l[i]
			}
			return l
		}
		obs := []bigObs{
			{"Len", func() any { return m.Len() }, func(s bigState) any { return len(s) }},
			{"Keys", func() any { return keyDigest(m.Keys()) }, ones},
			{"KeysK2", func() any { return keyDigest(neg(m.KeysK2())) }, ones},
		}
		for _, k := range []int{100, 150, 1000} {
			k := k
			obs = append(obs, bigObs{"Get", func() any { v, ok := m.Get(k); return fmt.Sprint(v, ok) }, func(s bigState) any { v, ok := s[k]; return fmt.Sprint(v, ok) }},
				bigObs{"GetByK2", func() any { v, ok := m.GetByK2(-k); return fmt.Sprint(v, ok) }, func(s bigState) any { v, ok := s[k]; return fmt.Sprint(v, ok) }})
		}
		return ops, obs
	})
}
