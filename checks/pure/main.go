// Package main: exhaustive enumeration harnesses for the packages that compute (comparer, crypto, crypto_fs,
// flow, math, net, zip), and controlled concurrent calls of them. The code of the repository under check is the
// one instrumented by cmd/instr.
package main

import (
	"bytes"
	"fmt"
	"os"
	"time"

	"verif/drive"
	"verif/vrt"
)

type S = vrt.Scen
type X = vrt.X

const ms = time.Millisecond

func main() { drive.Main() }

// add registers a scenario that explores schedules.
func add(prop string, s S, f func(x *X)) {
	s.Prop, s.F = prop, f
	s.Name = prop + "/" + s.Name
	if s.Shards > 0 && s.ShardAt == 0 {
		s.ShardAt = 1
	}
	vrt.Add(s)
}

// all registers a scenario that enumerates inputs; there is one thread.
func all(prop, name string, shards int, f func(x *X)) {
	add(prop, S{Name: name, Shards: shards, Steps: 1 << 30, Max: 1 << 30}, func(x *X) {
		x.Branching(false)
		f(x)
	})
}

// thorough is all for the thorough tier only.
func thorough(prop, name string, shards int, f func(x *X)) {
	add(prop, S{Name: name, Shards: shards, Steps: 1 << 30, Max: 1 << 30, Thor: true}, func(x *X) {
		x.Branching(false)
		f(x)
	})
}

func choose[T any](x *X, of ...T) T { return of[x.Choose(len(of))] }

// pattern gives n bytes of one of several kinds.
func pattern(kind, n int) []byte {
	b := make([]byte, n)
	s := uint32(kind*7919 + n)
	for i := range b {
		switch kind {
		case 0:
		case 1:
			b[i] = byte(i)
		case 2:
			b[i] = 0xff
		case 3:
			b[i] = "the quick brown fox "[i%20]
		default:
			s = s*1664525 + 1013904223
			b[i] = byte(s >> 24)
		}
	}
	return b
}

const patterns = 5

func same(a, b []byte) bool { return bytes.Equal(a, b) }

func clone(b []byte) []byte { return append([]byte{}, b...) }

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%d bytes %x...", len(b), b[:40])
	}
	return fmt.Sprintf("%x", b)
}

// protect turns a panic into a message.
func protect(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

var scratchN int

// scratch makes a directory that goes away with the execution; the length of its name is always the same.
func scratch(x *X) string {
	scratchN++
	d := fmt.Sprintf("%s/verif%08d-%06d", os.TempDir(), os.Getpid(), scratchN)
	if err := os.Mkdir(d, 0700); err != nil {
		panic(err)
	}
	x.OnEnd(func() { os.RemoveAll(d) })
	return d
}

// parallel runs the functions as threads under every schedule of their visible points.
func parallel(x *X, fs ...func()) {
	for _, f := range fs {
		f := f
		x.Go(f)
	}
	x.Join()
}
