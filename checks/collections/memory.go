package main

import (
	"context"
	"fmt"
	"runtime"

	"github.com/axgrid/axutils/collections"

	"verif/vrt/vcontext"
)

// What has left a collection takes no memory: many keys come and go in one long execution. Each cycle is run with
// small and with big keys; the growth that they do not have in common is due to keys that are kept.

type smallKey [2]int

type hugeKey [512]int

type anyKey interface{ smallKey | hugeKey }

type cycle func(i int)

func growth(x *X, f cycle) int64 {
	heap := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	for i := 0; i < memCycles; i++ {
		f(i)
	}
	x.Sleep(20 * sec)
	x.Settle()
	a := heap()
	for i := memCycles; i < 3*memCycles; i++ {
		f(i)
	}
	x.Sleep(20 * sec)
	x.Settle()
	b := heap()
	f(0)
	return b - a
}

const memCycles = 500

func mem(prop, name string, small, huge func(x *X, o int) cycle, variants int) {
	for o := 0; o < variants; o++ {
		o := o
		add(prop, S{Name: fmt.Sprintf("memory/%s/%d", name, o), Steps: 2e7}, func(x *X) {
			x.Forget()
			a := growth(x, small(x, o))
			b := growth(x, huge(x, o))
			const kept = 2 * memCycles * 510 * 8
			if b-a > kept/2 {
				x.Failf("%d keys come and go: the memory in use grows by %d bytes more with keys of 4096 bytes than with keys of 16", 2*memCycles, b-a)
			}
		})
	}
}

func memCtx() context.Context { c, _ := vcontext.WithCancel(vcontext.Background()); return c }

func every(i int, f func()) {
	if i%100 == 99 {
		f()
	}
}

func memSimple[K anyKey](x *X, o int) cycle {
	m := collections.NewSimpleMap[K, K]()
	return func(i int) {
		var k K
		k[0] = i
		m.SetIfNotExists(k, k)
		m.SetIfNotExistsWithFunc(k, func() K { return k })
		m.Set(k, k)
		m.Delete(k)
		x.Check(m.Size() == 0, "Size is not zero")
	}
}

func memShard[K anyKey](x *X, o int) cycle {
	m := collections.NewShardMap[K, K]().WithShardsCount(3).WithShardsFunc(func(k K) int { return k[0] % 3 }).Build()
	return func(i int) {
		var k K
		k[0] = i
		m.SetIfNotExistsWithFunc(k, func() K { return k })
		if o == 0 {
			m.Delete(k)
			x.Check(m.Size() == 0, "Size is not zero")
		} else {
			every(i, m.Clear)
		}
	}
}

func memTwoKey[K anyKey](x *X, o int) cycle {
	m := collections.NewTwoKeyMap[K, K, K]()
	return func(i int) {
		var k K
		k[0] = i
		a, b := k, k
		a[1], b[1] = 1, 2
		m.Put(k, k, k)
		m.Put(k, a, k) // another second key
		m.Put(b, a, k) // moves it
		if o == 0 {
			m.Remove(k)
			m.RemoveByK2(a)
		} else {
			m.Remove(b)
			m.Remove(k)
		}
		x.Check(m.Len() == 0 && len(m.KeysK2()) == 0, "the map is not empty")
	}
}

// answered, timed out, refused
func memHolder[K anyKey](x *X, o int) cycle {
	m := collections.NewHolderMap[K, K]().WithContext(memCtx()).WithTimeout(3 * sec).WithTTL(2 * sec).Build()
	return func(i int) {
		var k K
		k[0] = i
		x.Go(func() { m.Wait(k, k) })
		x.Settle()
		switch o {
		case 0:
			m.Release(k)
		case 2:
			m.Error(k, numErr(1))
		}
		every(i, func() {
			x.Sleep(10 * sec)
			x.Settle()
			x.Check(m.Count() == 0, "Count is not zero")
		})
	}
}

func memWait[K anyKey](x *X, o int) cycle {
	m := collections.NewWaitMap[K, K]().WithContext(memCtx()).WithRequestTimeout(3 * sec).WithResponseTtl(2 * sec).Build()
	return func(i int) {
		var k K
		k[0] = i
		if o == 1 || i%2 == 0 {
			x.Go(func() { m.Wait(k) })
		}
		if o == 0 {
			x.Settle()
			m.Set(k, k)
		}
		every(i, func() {
			x.Sleep(10 * sec)
			x.Settle()
			x.Check(m.Count() == 0, "Count is not zero")
		})
	}
}

func memResponse[K anyKey](x *X, o int) cycle {
	m := collections.NewResponseMap[K, K](memCtx()).WithResponseTimeout(3 * sec).WithClearTimeout(2 * sec).Build()
	return func(i int) {
		var k K
		k[0] = i
		if o == 1 || i%2 == 0 {
			x.Go(func() { m.Wait(k) })
		}
		if o == 0 {
			m.Set(k, k)
		}
		every(i, func() {
			x.Sleep(10 * sec)
			x.Settle()
		})
	}
}

func memRequest[K anyKey](x *X, o int) cycle {
	m := collections.NewRequestMap[K, K](memCtx(), 2*sec)
	return func(i int) {
		var k K
		k[0] = i
		if o == 0 {
			m.GetOrCreate(k, func(k K) K { return k })
		} else {
			m.GetOrCreateWithErr(k, func(k K) (K, error) { return k, numErr(1) })
		}
		if i%5 == 4 {
			x.Sleep(150 * ms) // never idle
		}
	}
}

func memGuava[K anyKey](x *X, o int) cycle {
	b := collections.NewGuavaMap[K, K]().WithMaxCount(o % 2 * 3).WithLoadFunc(func(k K) (K, error) { return k, nil }).WithUnloadFunc(func(K, K) {})
	if o < 2 {
		b.WithWriteTimeout(sec)
	}
	if o > 0 {
		b.WithReadTimeout(sec)
	}
	m := b.Build()
	return func(i int) {
		var k K
		k[0] = i
		switch i % 4 {
		case 0:
			m.Set(k, k)
		case 1:
			m.HasOrCreate(k, k)
		case 2:
			m.Get(k)
		case 3:
			m.LockForUpdate(k, func() K { return k })
		}
		m.Has(k)
		if i%10 == 9 {
			x.Sleep(2 * sec)
			x.Settle()
			x.Check(m.Size() == 0, "Size is not zero")
		}
	}
}

func init() {
	mem("C03", "GuavaMap", memGuava[smallKey], memGuava[hugeKey], 4)
	mem("C10", "SimpleMap", memSimple[smallKey], memSimple[hugeKey], 1)
	mem("C10", "ShardMap", memShard[smallKey], memShard[hugeKey], 2)
	mem("C19", "TwoKeyMap", memTwoKey[smallKey], memTwoKey[hugeKey], 2)
	mem("C08", "HolderMap", memHolder[smallKey], memHolder[hugeKey], 3)
	mem("C21", "WaitMap", memWait[smallKey], memWait[hugeKey], 2)
	mem("C15", "ResponseMap", memResponse[smallKey], memResponse[hugeKey], 2)
	mem("C12", "RequestMap", memRequest[smallKey], memRequest[hugeKey], 2)
}
