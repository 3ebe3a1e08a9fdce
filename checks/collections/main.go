// Package main: model checking harnesses for package collections. The code of the repository under check
// is the one instrumented by cmd/instr; everything below runs it under the controlled scheduler of vrt.
package main

import (
	"runtime"
	"time"

	"verif/drive"
	"verif/vrt"
)

type S = vrt.Scen
type X = vrt.X

const sec = time.Second

func main() { drive.Main() }

// digits packs small values, for results that are collections
func packMap(m map[int]int) int {
	r := 0
	for k, v := range m {
		if k < 0 || k > 4 || v < 0 || v > 999 {
			return -1
		}
		p := 1
		for i := 0; i < k; i++ {
			p *= 1000
		}
		r += v * p
	}
	return r
}

// packKeys packs a list of distinct small keys as a bit set, with bit 20 set if one repeats
func packKeys(ks []int) int {
	r := 0
	for _, k := range ks {
		if k < 0 || k > 15 || r&(1<<k) != 0 {
			return 1 << 20
		}
		r |= 1 << k
	}
	return r
}

// gop is one operation of a program: a kind and a key (or second key, or duration)
type gop struct {
	k    byte
	key  int
	key2 int
	d    time.Duration
}

// gval is the value that operation i of thread t stores
func gval(t, i int) int { return 1 + t*10 + i }

// seqRun runs every sequence of depth operations, with after behind each of them.
func seqRun(x *X, alpha []gop, depth int, do func(gop, int), after func()) {
	for i := 0; i < depth; i++ {
		do(alpha[x.Choose(len(alpha))], gval(0, i))
		after()
	}
}

// parRun runs every program of the given shape (operations per thread), each under every schedule.
func parRun(x *X, alpha, pre []gop, shape []int, obs []gop, do func(gop, int)) {
	for i, o := range pre {
		do(o, gval(9, i))
	}
	prog := make([][]int, len(shape))
	for t, n := range shape {
		prog[t] = make([]int, n)
		for i := range prog[t] {
			if i == 0 && t > 0 && shape[t] == shape[t-1] { // equal threads: only one of both orders
				lo := prog[t-1][0]
				prog[t][i] = lo + x.Choose(len(alpha)-lo)
			} else {
				prog[t][i] = x.Choose(len(alpha))
			}
		}
	}
	for t := range prog {
		t := t
		x.Go(func() {
			for i, o := range prog[t] {
				do(alpha[o], gval(t, i))
			}
		})
	}
	x.Join()
	x.Settle()
	for _, o := range obs {
		do(o, 90)
	}
	x.Settle()
}

// fixRun runs given threads under every schedule.
func fixRun(x *X, pre []gop, threads [][]gop, obs []gop, do func(gop, int)) {
	for i, o := range pre {
		do(o, gval(9, i))
	}
	for t := range threads {
		t := t
		x.Go(func() {
			for i, o := range threads[t] {
				do(o, gval(t, i))
			}
		})
	}
	x.Join()
	x.Settle()
	for _, o := range obs {
		do(o, 90)
	}
	x.Settle()
}

func ops(s string) []gop {
	var r []gop
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ':
		case 'C', 'z', 'S', 'T':
			r = append(r, gop{k: s[i]})
		case 'w':
			i++
			r = append(r, gop{k: 'w', d: time.Duration(s[i]-'0') * sec})
		default:
			r = append(r, gop{k: s[i], key: int(s[i+1] - '0')})
			i++
		}
	}
	return r
}

func add(prop string, s S, f func(x *X)) {
	s.Prop, s.F = prop, f
	s.Name = prop + "/" + s.Name
	vrt.Add(s)
}

// bigKey is a key whose traces can be found in the heap
type bigKey [64]int

// memory runs a cycle of operations that leaves an object as it was again and again: what it stores of the keys
// that are gone may not grow with the number of cycles.
func memory(mk func() func(i int)) func(x *X) {
	return func(x *X) {
		x.Branching(false)
		f := mk()
		heap := func() uint64 {
			var m runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&m)
			return m.HeapAlloc
		}
		const n = 4000
		for i := 0; i < n; i++ {
			f(i)
		}
		x.Settle()
		a := heap()
		for i := n; i < 3*n; i++ {
			f(i)
		}
		x.Settle()
		b := heap()
		if b > a && b-a > 2*n*uint64(len(bigKey{}))*8/2 {
			x.Failf("%d keys come and go: the memory in use grows by %d bytes", 2*n, b-a)
		}
		f(0)
	}
}
