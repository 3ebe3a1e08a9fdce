// Package main: model checking harnesses for the packages chans and workers. The code of the repository under
// check is the one instrumented by cmd/instr; everything below runs it under the controlled scheduler of vrt.
package main

import (
	"time"

	"verif/drive"
	"verif/vrt"
)

type S = vrt.Scen
type X = vrt.X

const ms = time.Millisecond

func main() { drive.Main() }

func add(prop string, s S, f func(x *X)) {
	s.Prop, s.F = prop, f
	s.Name = prop + "/" + s.Name
	if s.Shards > 0 && s.ShardAt == 0 {
		s.Shards, s.ShardAt = 3*s.Shards, 6
	}
	vrt.Add(s)
}

// step of a producer: an item is sent ('a' with Add, 'i' on the incoming channel), or time passes
type step struct {
	k byte
	d time.Duration
	v int // what is sent
}

// steps: "a" and "i" send the next item of thread t, a digit waits so many quarters of the chunk timeout.
func steps(t int, s string) []step {
	var r []step
	n := 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == 'a' || s[i] == 'i':
			n++
			r = append(r, step{k: s[i], v: t*100 + n})
		case s[i] >= '0' && s[i] <= '9':
			r = append(r, step{k: 'w', d: time.Duration(s[i]-'0') * tmo / 4})
		}
	}
	return r
}

// tmo is the chunk timeout of every scenario
const tmo = 40 * ms

func choose[T any](x *X, of ...T) T { return of[x.Choose(len(of))] }
