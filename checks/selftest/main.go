// Package main: self-tests of the controlled runtime. Each scenario's expected verdict is in its name.
package main

import (
	"time"

	"verif/drive"
	"verif/vrt"
	"verif/vrt/vatomic"
	"verif/vrt/vcontext"
	"verif/vrt/vsync"
	"verif/vrt/vtime"
)

type S = vrt.Scen

func main() { drive.Main() }

type counter struct {
	mu vsync.Mutex
	n  int
}

func init() {
	vrt.Add(S{Name: "ok/mutex", Prop: "OK", Bound: 3, F: func(x *vrt.X) {
		c := &counter{}
		for i := 0; i < 3; i++ {
			x.Go(func() {
				for k := 0; k < 2; k++ {
					c.mu.Lock()
					c.n++
					c.mu.Unlock()
				}
			})
		}
		x.Join()
		x.Check(c.n == 6, "lost")
	}})
	vrt.Add(S{Name: "bad/race", Prop: "BAD1", Bound: 1, F: func(x *vrt.X) {
		c := &counter{}
		x.Go(func() { c.n++ })
		x.Go(func() { c.mu.Lock(); c.n++; c.mu.Unlock() })
		x.Join()
	}})
	vrt.Add(S{Name: "bad/lostupdate", Prop: "BAD2", Bound: 1, F: func(x *vrt.X) {
		var a vatomic.Int32
		for i := 0; i < 2; i++ {
			x.Go(func() { v := a.Load(); a.Store(v + 1) })
		}
		x.Join()
		x.Check(a.Load() == 2, "lost update")
	}})
	vrt.Add(S{Name: "bad/deadlock", Prop: "BAD3", Bound: 1, F: func(x *vrt.X) {
		var a, b vsync.Mutex
		x.Go(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
		x.Go(func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		x.Join()
	}})
	vrt.Add(S{Name: "ok/chan", Prop: "OK", Bound: 3, F: func(x *vrt.X) {
		ch := make(chan int)
		done := make(chan struct{})
		var got []int
		x.Go(func() {
			for i := 0; i < 3; i++ {
				vrt.S(ch)(i)
			}
			vrt.Close(ch)
		})
		x.Go(func() {
			for v, r := vrt.RangeChanV(ch); r.Next(&v); {
				got = append(got, v)
			}
			vrt.Close(done)
		})
		vrt.Recv(done)
		x.Check(len(got) == 3 && got[2] == 2, "order")
	}})
	vrt.Add(S{Name: "ok/ctx-timer", Prop: "OK", Bound: 2, F: func(x *vrt.X) {
		ctx, cancel := vcontext.WithTimeout(vcontext.Background(), 5*time.Second)
		defer cancel()
		tm := vtime.NewTimer(3 * time.Second)
		c1, c2 := vrt.RecvCase(ctx.Done()), vrt.RecvCase(tm.C)
		x.Check(vrt.Select(false, c1.C(), c2.C()) == 1, "timer first")
		x.Check(x.Now() == 3*time.Second, "3s")
		vrt.Recv(ctx.Done())
		x.Check(x.Now() == 5*time.Second, "5s")
		x.Check(ctx.Err() == vcontext.DeadlineExceeded, "err")
	}})
	vrt.Add(S{Name: "bad/panic", Prop: "BAD4", Bound: 2, F: func(x *vrt.X) {
		ch := make(chan int)
		x.Go(func() { vrt.Select(true, vrt.SendCase(ch)(1).C()) })
		x.Go(func() { vrt.Close(ch) })
		x.Join()
	}})
	vrt.Add(S{Name: "bad/hidden-race", Prop: "BAD5", Bound: 1, F: func(x *vrt.X) {
		// written before the unlock of one mutex, read after another
		var a, b vsync.Mutex
		n := 0
		x.Go(func() { a.Lock(); n = 1; a.Unlock() })
		x.Go(func() { b.Lock(); _ = n; b.Unlock() })
		x.Join()
	}})
	vrt.Add(S{Name: "ok/rendezvous-hb", Prop: "OK", Bound: 3, F: func(x *vrt.X) {
		ch := make(chan int)
		n, m := 0, 0
		x.Go(func() { n = 1; vrt.S(ch)(1); _ = m })
		x.Go(func() { m = 2; vrt.Recv(ch); _ = n })
		x.Join()
	}})
	vrt.Add(S{Name: "ok/buffered-hb", Prop: "OK", Bound: 3, F: func(x *vrt.X) {
		ch := make(chan int, 1)
		n := 0
		x.Go(func() { vrt.S(ch)(1); n++; vrt.Recv(ch) })
		x.Go(func() { vrt.S(ch)(1); n++; vrt.Recv(ch) })
		x.Join()
	}})
	vrt.Add(S{Name: "bad/lost-wakeup", Prop: "BAD6", Bound: 2, F: func(x *vrt.X) {
		ch := make(chan int)
		var mu vsync.Mutex
		x.Go(func() { mu.Lock(); mu.Unlock(); vrt.Recv(ch) })
		x.Go(func() { mu.Lock(); mu.Unlock(); vrt.Select(true, vrt.SendCase(ch)(1).C()) })
		x.Join()
	}})
	vrt.Add(S{Name: "bad/rw-recursive", Prop: "BAD7", Bound: 2, F: func(x *vrt.X) {
		var mu vsync.RWMutex
		x.Go(func() { mu.RLock(); mu.RLock(); mu.RUnlock(); mu.RUnlock() })
		x.Go(func() { mu.Lock(); mu.Unlock() })
		x.Join()
	}})
}
