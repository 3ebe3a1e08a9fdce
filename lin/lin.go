// Package lin decides whether a history is linearizable with respect to a
// (nondeterministic) sequential specification, by exhaustive search.
package lin

import (
	"hash/maphash"

	"verif/vrt"
)

type node[S comparable] struct {
	mask uint32
	s    S
}

type search[S comparable] struct {
	ops   []vrt.HistOp
	step  func(s S, o *vrt.HistOp, emit func(S))
	final func(S) bool
	seen  map[node[S]]struct{}
	must  uint32
}

// Check reports whether some order of the operations, consistent with real time, is allowed by the
// specification step and ends in a state that final accepts (nil accepts all). Operations that have not
// returned may take effect or not. step emits every state that can follow if the operation with its
// recorded result takes effect in s.
func Check[S comparable](ops []vrt.HistOp, init S, step func(s S, o *vrt.HistOp, emit func(S)), final func(S) bool) bool {
	if len(ops) > 32 {
		panic("lin: history too long")
	}
	h := &search[S]{ops: ops, step: step, final: final, seen: map[node[S]]struct{}{}}
	for i := range ops {
		if ops[i].Ret != 0 {
			h.must |= 1 << i
		}
	}
	return h.dfs(0, init)
}

func (h *search[S]) dfs(mask uint32, s S) bool {
	if mask&h.must == h.must && (h.final == nil || h.final(s)) {
		return true
	}
	k := node[S]{mask, s}
	if _, ok := h.seen[k]; ok {
		return false
	}
	h.seen[k] = struct{}{}
	// the earliest return among those not yet linearized bounds what may come next
	min := int64(1) << 62
	for i := range h.ops {
		o := &h.ops[i]
		if mask&(1<<i) == 0 && o.Ret != 0 && o.Ret < min {
			min = o.Ret
		}
	}
	for i := range h.ops {
		o := &h.ops[i]
		if mask&(1<<i) != 0 || o.Call > min {
			continue
		}
		found := false
		h.step(s, o, func(n S) {
			if !found && h.dfs(mask|1<<i, n) {
				found = true
			}
		})
		if found {
			return true
		}
	}
	return false
}

var seed = maphash.MakeSeed()
var known = map[uint64]struct{}{}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	return h ^ h>>29
}

func hv(v any) uint64 {
	switch x := v.(type) {
	case nil:
		return 1
	case int:
		return mix(2, uint64(x))
	case bool:
		if x {
			return 4
		}
		return 5
	case string:
		return maphash.String(seed, x)
	case int64:
		return mix(3, uint64(x))
	}
	return maphash.String(seed, vrt.Str(v))
}

// Hash identifies history and event log together with salt.
func Hash(x *vrt.X, salt uint64) uint64 {
	h := mix(salt, 7)
	ops := x.Hist()
	for i := range ops {
		o := &ops[i]
		h = mix(h, uint64(o.Th))
		h = mix(h, hv(o.Name))
		h = mix(h, hv(o.A))
		h = mix(h, hv(o.B))
		h = mix(h, hv(o.R0))
		h = mix(h, hv(o.R1))
		h = mix(h, uint64(o.Call))
		h = mix(h, uint64(o.Ret))
		h = mix(h, uint64(o.TCall))
		h = mix(h, uint64(o.TRet))
	}
	evs := x.Events()
	for i := range evs {
		v := &evs[i]
		h = mix(h, hv(v.Name))
		h = mix(h, hv(v.A))
		h = mix(h, hv(v.B))
		h = mix(h, uint64(v.T))
	}
	return h
}

// Once runs judge unless the same history and events (under the same salt) were judged before.
func Once(x *vrt.X, salt uint64, judge func()) {
	h := Hash(x, salt)
	if _, ok := known[h]; ok {
		return
	}
	judge()
	if len(known) > 1<<21 {
		known = map[uint64]struct{}{}
	}
	known[h] = struct{}{}
}
