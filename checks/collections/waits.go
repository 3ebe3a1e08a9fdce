package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/lin"
	"verif/vrt"
	"verif/vrt/vcontext"
)

// The maps whose callers wait: every Wait is split into entering and returning.

const maxWaits = 10

// split replaces every Wait by two operations, "enter" at the time of its call and "ret" at the time of its
// return; B is the number of the Wait.
func split(x *X) []vrt.HistOp {
	var r []vrt.HistOp
	n := 0
	for _, o := range x.Hist() {
		if o.Name == "" {
			continue
		}
		if o.Name != "Wait" {
			r = append(r, o)
			continue
		}
		if n == maxWaits {
			panic("too many waits")
		}
		e := o
		e.Name, e.TRet, e.R0, e.R1 = "enter", o.TCall, o.B, n // R0: the object of HolderMap
		e.B = n
		r = append(r, e)
		if o.Ret != 0 {
			q := o
			q.Name, q.TCall, q.B = "ret", o.TRet, n
			r = append(r, q)
		}
		n++
	}
	return r
}

// waitMap is what the harness needs of a map under test
type waitOps struct {
	idle int // goroutines of the map when nothing is going on
	wait func(k, v int) any
	call map[byte]func(k, v int) (string, any, any)
}

type wprog[T comparable] struct {
	name  string
	alpha []gop
	init  T
	mk    func(x *X) waitOps
	step  func(s T, o *vrt.HistOp, emit func(T))
	tail  time.Duration // until everything is over
	end   func(x *X, w waitOps)
}

func (p *wprog[T]) do(x *X, w waitOps) func(gop, int) {
	return func(o gop, v int) {
		switch o.k {
		case 'w':
			x.Sleep(o.d)
		case 'W':
			i := x.Call("Wait", o.key, v)
			x.Ret(i, w.wait(o.key, v), nil)
		default:
			f := w.call[o.k]
			name := map[byte]string{'s': "Set", 'r': "Release", 'e': "Error", 'u': "Update", 'g': "Get", 'X': "Cancel", 'n': "Count"}[o.k]
			i := x.Call(name, o.key, v)
			_, r0, r1 := f(o.key, v)
			x.Ret(i, r0, r1)
		}
	}
}

func (p *wprog[T]) judge(x *X) {
	lin.Once(x, salt(p.name), func() {
		if !lin.Check(split(x), p.init, p.step, nil) {
			x.Fail("results do not agree with any order of the operations (" + p.name + ")")
		}
	})
}

func (p *wprog[T]) finish(x *X, w waitOps) {
	x.Join()
	x.Branching(false)
	x.Sleep(p.tail)
	x.Settle()
	if p.end != nil {
		p.end(x, w)
	}
	p.judge(x)
}

// seq: every sequence; each Wait is made by a thread of its own
func (p wprog[T]) seq(depth int) func(x *X) {
	return func(x *X) {
		w := p.mk(x)
		do := p.do(x, w)
		seqRun(x, p.alpha, depth, func(o gop, v int) {
			if o.k == 'W' {
				x.Go(func() { do(o, v) })
			} else {
				do(o, v)
			}
		}, x.Settle)
		p.finish(x, w)
	}
}

// par: threads that start after a prefix; Waits of the prefix go on meanwhile
func (p wprog[T]) par(pre []gop, shape ...int) func(x *X) {
	return func(x *X) {
		w := p.mk(x)
		do := p.do(x, w)
		for i, o := range pre {
			o, v := o, gval(8, i)
			if o.k == 'W' {
				x.Go(func() { do(o, v) })
				x.Settle()
			} else {
				do(o, v)
			}
		}
		parRun2(x, p.alpha, shape, do)
		p.finish(x, w)
	}
}

func (p wprog[T]) fixed(pre []gop, threads ...[]gop) func(x *X) {
	return func(x *X) {
		w := p.mk(x)
		do := p.do(x, w)
		for i, o := range pre {
			o, v := o, gval(8, i)
			if o.k == 'W' {
				x.Go(func() { do(o, v) })
				x.Settle()
			} else {
				do(o, v)
			}
		}
		for t := range threads {
			t := t
			x.Go(func() {
				for i, o := range threads[t] {
					do(o, gval(t, i))
				}
			})
		}
		p.finish(x, w)
	}
}

func parRun2(x *X, alpha []gop, shape []int, do func(gop, int)) {
	prog := make([][]int, len(shape))
	for t, n := range shape {
		prog[t] = make([]int, n)
		for i := range prog[t] {
			if i == 0 && t > 0 && shape[t] == shape[t-1] {
				lo := prog[t-1][0]
				prog[t][i] = lo + x.Choose(len(alpha)-lo)
			} else {
				prog[t][i] = x.Choose(len(alpha))
			}
		}
	}
	for t := range prog {
		t := t
		x.Go(func() {
			for i, o := range prog[t] {
				do(alpha[o], gval(t, i))
			}
		})
	}
}

// outcomes of the Waits so far
type outs struct {
	out  [maxWaits]int16 // value plus one; 0: pending or not entered
	outT [maxWaits]int64
}

func (o *outs) decide(mask uint16, v int, t int64) {
	for i := range o.out {
		if mask>>i&1 == 1 {
			o.out[i], o.outT[i] = int16(v+1), t
		}
	}
}

// ---- C20, C21: WaitMap ----

type wkey struct {
	t0   int64 // first pending Wait
	dl   int64 // end of the value
	pend uint16
	val  int16 // plus one
}

type wmState struct {
	now int64
	k   [2]wkey
	outs
}

type wmCfg struct {
	name     string
	req, ttl time.Duration
	alpha    []gop
}

// at emits the states that timeouts can lead to at time t
func (s wmState) at(c *wmCfg, t int64, f func(wmState)) {
	if t < s.now {
		return
	}
	for {
		// the earliest event before t must have happened
		best, at := -1, t
		for i := range s.k {
			if w := s.k[i].next(c); w >= 0 && w < at {
				best, at = i, w
			}
		}
		if best < 0 {
			break
		}
		s.event(c, best, at)
	}
	s.now = t
	s.opt(c, t, 0, f)
}

// next is the time of the key's next event
func (k *wkey) next(c *wmCfg) int64 {
	if k.val != 0 {
		return k.dl
	}
	if k.pend != 0 {
		return k.t0 + int64(c.req)
	}
	return -1
}

func (s *wmState) event(c *wmCfg, i int, t int64) {
	k := &s.k[i]
	if k.val != 0 {
		*k = wkey{}
		return
	}
	s.set(c, i, 0, t)
}

func (s *wmState) set(c *wmCfg, i, v int, t int64) {
	k := &s.k[i]
	s.decide(k.pend, v, t)
	*k = wkey{val: int16(v + 1), dl: t + int64(c.ttl)}
}

func (s wmState) opt(c *wmCfg, t int64, i int, f func(wmState)) {
	if i == len(s.k) {
		f(s)
		return
	}
	s.opt(c, t, i+1, f)
	if s.k[i].next(c) == t {
		s.event(c, i, t)
		s.opt(c, t, i+1, f)
	}
}

func (c wmCfg) prog() wprog[wmState] {
	return wprog[wmState]{name: c.name, alpha: c.alpha, tail: c.req + 2*c.ttl + sec,
		mk: func(x *X) waitOps {
			m := collections.NewWaitMap[int, int]().WithRequestTimeout(c.req).WithResponseTtl(c.ttl).Build()
			return waitOps{wait: func(k, _ int) any { return m.Wait(k) }, call: map[byte]func(k, v int) (string, any, any){
				's': func(k, v int) (string, any, any) { m.Set(k, v); return "Set", nil, nil },
				'n': func(k, v int) (string, any, any) { return "", m.Count(), nil },
			}}
		},
		end: func(x *X, w waitOps) {
			_, n, _ := w.call['n'](0, 0)
			x.Check(n == 0, fmt.Sprint("Count is ", n, " after all timeouts"))
			if x.Threads() != 0 {
				x.Fail("a goroutine is left after all timeouts\n" + x.LiveDump())
			}
		},
		step: func(s wmState, o *vrt.HistOp, emit func(wmState)) {
			s.at(&c, o.TCall, func(s wmState) {
				k := &s.k[o.A.(int)]
				switch o.Name {
				case "enter":
					i := o.B.(int)
					if k.val != 0 {
						s.out[i], s.outT[i] = k.val, s.now
					} else {
						if k.pend == 0 {
							k.t0 = s.now
						}
						k.pend |= 1 << i
					}
				case "ret":
					i := o.B.(int)
					if int(s.out[i]) != o.R0.(int)+1 || s.outT[i] != o.TRet {
						return
					}
				case "Set":
					if k.val == 0 {
						s.set(&c, o.A.(int), o.B.(int), s.now)
					}
				case "Count":
					n := 0
					for _, k := range s.k {
						if k.pend != 0 || k.val != 0 {
							n++
						}
					}
					if o.Ret != 0 && o.R0.(int) != n {
						return
					}
				}
				emit(s)
			})
		}}
}

// cancellation at any point releases everything at once
func wmCancel(c wmCfg, pre []gop, alpha []gop, shape ...int) func(x *X) {
	return waitCancel(c.name, c.req, func(ctx context.Context) waitSetter {
		return collections.NewWaitMap[int, int]().WithRequestTimeout(c.req).WithResponseTtl(c.ttl).WithContext(ctx).Build()
	}, pre, alpha, shape...)
}

func rmCancel(c rmCfg, pre []gop, alpha []gop, shape ...int) func(x *X) {
	early := c.resp
	if c.clear < early {
		early = c.clear
	}
	return waitCancel(c.name, early, func(ctx context.Context) waitSetter {
		return collections.NewResponseMap[int, int](ctx).WithResponseTimeout(c.resp).WithClearTimeout(c.clear).Build()
	}, pre, alpha, shape...)
}

type waitSetter interface {
	Wait(int) int
	Set(int, int)
}

// A value that is set before the context is cancelled reaches all who wait for it at that time.
func init() {
	for n := 1; n <= 3; n++ {
		for _, other := range []bool{false, true} {
			n, other := n, other
			add("C20", S{Name: fmt.Sprintf("set, then cancelled/%d waiting/%v", n, other), Bound: 4 - n, BoundT: 6 - n, Shards: 2}, func(x *X) {
				ctx, cancel := vcontext.WithCancel(vcontext.Background())
				m := collections.NewWaitMap[int, int]().WithRequestTimeout(3 * sec).WithResponseTtl(2 * sec).WithContext(ctx).Build()
				for i := 0; i < n; i++ {
					x.Go(func() { x.Check(m.Wait(1) == 5, "a caller that waits when the value is set gets another one") })
					x.Settle()
				}
				if other {
					x.Go(func() {
						v := m.Wait(1)
						x.Check(v == 5 || v == 0, "a value that was never set")
					})
				}
				x.Go(func() {
					m.Set(1, 5)
					cancel()
				})
				x.Join()
			})
		}
	}
}

// waitCancel: no Wait ends with a zero value before early unless the context is cancelled
func waitCancel(name string, early time.Duration, mk func(context.Context) waitSetter, pre []gop, alpha []gop, shape ...int) func(x *X) {
	return func(x *X) {
		ctx, cancel := vcontext.WithCancel(vcontext.Background())
		m := mk(ctx)
		do := func(o gop, v int) {
			switch o.k {
			case 'W':
				i := x.Call("Wait", o.key, nil)
				x.Ret(i, m.Wait(o.key), nil)
			case 's':
				i := x.Call("Set", o.key, v)
				m.Set(o.key, v)
				x.Ret(i, nil, nil)
			case 'X':
				i := x.Call("Cancel", nil, nil)
				cancel()
				x.Ret(i, nil, nil)
			case 'w':
				x.Sleep(o.d)
			}
		}
		for i, o := range pre {
			o, v := o, gval(8, i)
			if o.k == 'W' {
				x.Go(func() { do(o, v) })
				x.Settle()
			} else {
				do(o, v)
			}
		}
		parRun2(x, alpha, shape, do)
		x.Go(func() { do(gop{k: 'X'}, 0) })
		x.Join()
		x.Settle()
		if x.Threads() != 0 {
			x.Fail("a goroutine is left after cancellation\n" + x.LiveDump())
		}
		if m, ok := m.(interface{ Count() int }); ok {
			x.Check(m.Count() == 0, "Count is not zero after cancellation")
		}
		lin.Once(x, salt(name+"cancel"), func() {
			h := x.Hist()
			tc := int64(-1)
			for i := range h {
				if h[i].Name == "Cancel" {
					tc = h[i].TRet
				}
			}
			for i := range h {
				o := &h[i]
				if o.Name != "Wait" {
					continue
				}
				max := tc
				if o.TCall > max {
					max = o.TCall
				}
				x.Check(o.TRet <= max, "a Wait is not released at once by cancellation")
				if o.R0 == 0 {
					x.Check(o.TRet >= tc || o.TRet >= int64(early), "a Wait returns a zero value before cancellation and timeout")
					continue
				}
				ok := false
				for j := range h {
					if h[j].Name == "Set" && h[j].A == o.A && h[j].B == o.R0 && h[j].Call < o.Ret {
						ok = true
					}
				}
				x.Check(ok, "a Wait returns a value that was not set for its key")
			}
		})
	}
}

// ---- C08: HolderMap ----

const (
	oNil   = 1 // Release
	oOther = 2 // timeout or cancellation
	oErr   = 10
)

type hkey struct {
	on   bool
	obj  int16
	out  int16 // outcome, 0 if none yet
	t    int64 // time of the outcome
	dl   int64 // timeout
	born int64
	pend uint16
}

type hmState struct {
	now    int64
	k      [2]hkey
	cancel int64 // time of the cancellation plus one
	need   int64 // time, plus one, at which the context must be cancelled
	outs
}

type hmCfg struct {
	name   string
	to     time.Duration
	ttl    time.Duration
	alpha  []gop
	cancel bool
}

func (s *hmState) deadline(i int) int64 {
	k := &s.k[i]
	d := s.cancel - 1
	if d < k.born {
		d = k.born
	}
	if s.cancel == 0 || d > k.dl {
		d = k.dl
	}
	return d
}

func (s *hmState) end(i, out int, t int64) {
	k := &s.k[i]
	s.decide(k.pend, out-1, t)
	k.pend, k.out, k.t = 0, int16(out), t
}

func (s *hmState) next(c *hmCfg, i int) int64 {
	k := &s.k[i]
	if !k.on {
		return -1
	}
	if k.out != 0 {
		return k.t + int64(c.ttl)
	}
	return s.deadline(i)
}

func (s *hmState) event(c *hmCfg, i int, t int64) {
	if s.k[i].out != 0 {
		s.k[i] = hkey{}
		return
	}
	s.end(i, oOther, t)
}

func (s hmState) at(c *hmCfg, t int64, f func(hmState)) {
	if t < s.now || s.need != 0 && s.cancel == 0 && t >= s.need {
		return
	}
	for {
		best, at := -1, t
		for i := range s.k {
			if w := s.next(c, i); w >= 0 && w < at {
				best, at = i, w
			}
		}
		if best < 0 {
			break
		}
		s.event(c, best, at)
	}
	s.now = t
	s.opt(c, t, 0, f)
}

func (s hmState) opt(c *hmCfg, t int64, i int, f func(hmState)) {
	if i == len(s.k) {
		f(s)
		return
	}
	s.opt(c, t, i+1, f)
	if s.next(c, i) == t {
		s.event(c, i, t)
		s.opt(c, t, i+1, f)
	}
}

type numErr int

func (e numErr) Error() string { return fmt.Sprint("error ", int(e)) }

func errCode(err error) int {
	if err == nil {
		return oNil
	}
	var n numErr
	if errors.As(err, &n) {
		return oErr + int(n)
	}
	return oOther
}

func (c hmCfg) prog() wprog[hmState] {
	return wprog[hmState]{name: c.name, alpha: c.alpha, tail: c.to + 2*c.ttl + sec,
		mk: func(x *X) waitOps {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			m := collections.NewHolderMap[int, int]().WithTimeout(c.to).WithTTL(c.ttl).WithContext(ctx).Build()
			return waitOps{wait: func(k, v int) any { return errCode(m.Wait(k, v)) - 1 }, call: map[byte]func(k, v int) (string, any, any){
				'r': func(k, v int) (string, any, any) { return "", m.Release(k) != nil, nil },
				'e': func(k, v int) (string, any, any) { return "", m.Error(k, numErr(v)) != nil, nil },
				'u': func(k, v int) (string, any, any) { return "", m.Update(k, v) != nil, nil },
				'g': func(k, v int) (string, any, any) {
					o, err := m.Get(k)
					return "", o, errCode(err)
				},
				'X': func(k, v int) (string, any, any) { cancel(); return "", nil, nil },
				'n': func(k, v int) (string, any, any) { return "", m.Count(), nil },
			}, idle: x.Threads()}
		},
		end: func(x *X, w waitOps) {
			_, n, _ := w.call['n'](0, 0)
			x.Check(n == 0, fmt.Sprint("Count is ", n, " after everything is over"))
			if x.Threads() > w.idle {
				x.Fail("a goroutine is left after everything is over\n" + x.LiveDump())
			}
		},
		step: func(s hmState, o *vrt.HistOp, emit func(hmState)) {
			s.at(&c, o.TCall, func(s hmState) {
				i := o.A.(int)
				k := &s.k[i]
				done := o.Ret != 0
				switch o.Name {
				case "enter":
					w := o.B.(int)
					if !k.on {
						*k = hkey{on: true, born: s.now, obj: int16(o.R0.(int)), dl: s.now + int64(c.to)}
					}
					if k.out != 0 {
						s.out[w], s.outT[w] = k.out, s.now
					} else {
						k.pend |= 1 << w
					}
					emit(s)
				case "ret":
					w := o.B.(int)
					if int(s.out[w]) == o.R0.(int)+1 && s.outT[w] == o.TRet {
						emit(s)
					}
				case "Release", "Error":
					if !k.on {
						if !done || o.R0.(bool) {
							emit(s)
						}
						return
					}
					if k.out != 0 { // too late, and harmless
						emit(s)
						return
					}
					if done && o.R0.(bool) {
						return
					}
					out := oNil
					if o.Name == "Error" {
						out = oErr + o.B.(int)
					}
					n := s
					n.end(i, out, s.now)
					emit(n)
					if s.deadline(i) == s.now { // at the same instant either may win
						s.end(i, oOther, s.now)
						emit(s)
					} else if c.cancel && s.cancel == 0 { // a cancellation that follows at the same instant may win
						k.dl, s.need = s.now, s.now+1
						emit(s)
					}
				case "Update":
					if !done || o.R0.(bool) != k.on {
						if k.on {
							k.obj = int16(o.B.(int))
						}
						emit(s)
					}
				case "Get":
					if !done {
						emit(s)
						return
					}
					e := o.R1.(int)
					if !k.on {
						if e != oNil && o.R0.(int) == 0 {
							emit(s)
						}
						return
					}
					// the error of the outcome may not be there yet in the instant of the outcome
					if o.R0.(int) == int(k.obj) && (e == oNil || k.out != 0 && e == int(k.out)) {
						emit(s)
					}
				case "Count":
					n := 0
					for _, k := range s.k {
						if k.on {
							n++
						}
					}
					if !done || o.R0.(int) == n {
						emit(s)
					}
				case "Cancel":
					if s.cancel == 0 {
						s.cancel = s.now + 1
					}
					emit(s)
				}
			})
		}}
}

// ---- C14, C15: ResponseMap ----

type rkey struct {
	on   bool
	c    int64 // creation
	val  int16 // plus one
	valT int64
	pend uint16
	all  uint16 // all Waits of this record
}

type rmState struct {
	now int64
	k   [2]rkey
	tin [maxWaits]int64
	rec [maxWaits]rkeyDue // when the record of a Wait may release it
	outs
}

type rkeyDue struct {
	c   int64
	all uint16
}

type rmCfg struct {
	name        string
	resp, clear time.Duration
	alpha       []gop
}

func (s rmState) at(c *rmCfg, t int64, f func(rmState)) {
	if t < s.now {
		return
	}
	s.now = t
	s.opt(c, t, 0, f)
}

func (s rmState) opt(c *rmCfg, t int64, i int, f func(rmState)) {
	if i == len(s.k) {
		f(s)
		return
	}
	k := &s.k[i]
	if !k.on || t <= k.c+2*int64(c.clear) {
		s.opt(c, t, i+1, f)
	}
	if k.on && t >= k.c+int64(c.clear) { // cleaned up
		s.drop(i, t)
		s.opt(c, t, i+1, f)
	}
}

func (s *rmState) drop(i int, t int64) {
	s.decide(s.k[i].pend, 0, t)
	s.k[i] = rkey{}
}

// due: a timeout of the record may release its waiters at t
func (s *rmState) due(c *rmCfg, k *rkey, t int64) bool {
	if t == k.c+int64(c.resp) {
		return true
	}
	for i := 0; i < maxWaits; i++ {
		if k.all>>i&1 == 1 && s.tin[i]+int64(c.resp) == t {
			return true
		}
	}
	return false
}

func (c rmCfg) prog() wprog[rmState] {
	return wprog[rmState]{name: c.name, alpha: c.alpha, tail: c.resp + 2*c.clear + sec,
		mk: func(x *X) waitOps {
			ctx, _ := vcontext.WithCancel(vcontext.Background())
			m := collections.NewResponseMap[int, int](ctx).WithResponseTimeout(c.resp).WithClearTimeout(c.clear).Build()
			return waitOps{wait: func(k, _ int) any { return m.Wait(k) }, call: map[byte]func(k, v int) (string, any, any){
				's': func(k, v int) (string, any, any) { m.Set(k, v); return "", nil, nil },
			}, idle: x.Threads()}
		},
		end: func(x *X, w waitOps) {
			if x.Threads() > w.idle {
				x.Fail("a goroutine is left after all records were removed\n" + x.LiveDump())
			}
		},
		step: func(s rmState, o *vrt.HistOp, emit func(rmState)) {
			if o.Name == "Set" && o.Ret == 0 {
				emit(s)
				return
			}
			times := []int64{o.TCall}
			if o.Name == "Set" && o.TRet != o.TCall {
				times = append(times, o.TRet)
			}
			for _, t := range times {
				s.at(&c, t, func(s rmState) {
					i := o.A.(int)
					k := &s.k[i]
					if o.Name != "ret" && !k.on {
						*k = rkey{on: true, c: s.now}
					}
					switch o.Name {
					case "enter":
						w := o.B.(int)
						s.tin[w] = s.now
						k.all |= 1 << w
						if k.val == 0 {
							k.pend |= 1 << w
							emit(s)
							return
						}
						s.out[w], s.outT[w] = k.val, s.now
						emit(s)
					case "ret":
						w := o.B.(int)
						if o.TRet > s.tin[w]+int64(c.resp) {
							return // too late
						}
						if k.pend>>w&1 == 1 {
							// not released yet: only a timeout releases it now
							if o.R0 == 0 && s.due(&c, k, s.now) {
								k.pend &^= 1 << w
								emit(s)
							}
							return
						}
						if s.outT[w] != s.now {
							return
						}
						if int(s.out[w]) == o.R0.(int)+1 {
							emit(s)
						} else if o.R0 == 0 && k.on && k.all>>w&1 == 1 && k.valT == s.now && s.due(&c, k, s.now) {
							emit(s) // set and timed out at the same instant
						}
					case "Set":
						if k.val == 0 {
							k.val, k.valT = int16(o.B.(int))+1, s.now
							n := s
							n.decide(k.pend, o.B.(int), s.now)
							n.k[i].pend = 0
							emit(n)
							if s.now >= k.c+int64(c.clear) { // set and cleaned up at the same instant
								s.drop(i, s.now)
								emit(s)
							}
							return
						}
						emit(s)
					}
				})
			}
		}}
}

func init() {
	at := func(s string, d time.Duration) []gop { return append(ops(s), gop{k: 'w', d: d}) }

	// C20, C21: WaitMap
	for _, t := range [][2]time.Duration{{3, 5}, {5, 2}, {3, 3}} {
		c := wmCfg{name: fmt.Sprintf("request timeout %d, ttl %d", t[0], t[1]), req: t[0] * sec, ttl: t[1] * sec, alpha: ops("W0 s0 W1 s1")}
		nm := fmt.Sprintf("req%d,ttl%d", t[0], t[1])
		p := c.prog()
		if t[0] != t[1] {
			add("C20", S{Name: nm + "/3x1", Bound: 3, BoundT: 5, Shards: 4}, p.par(nil, 1, 1, 1))
			add("C20", S{Name: nm + "/2x2", Bound: 2, BoundT: 3, Shards: 4}, p.par(nil, 2, 2))
			d := c
			d.alpha = ops("W0 s0")
			q := d.prog()
			add("C20", S{Name: nm + "/one key/4x1", Bound: 2, BoundT: 3, Shards: 4}, q.par(nil, 1, 1, 1, 1))
			add("C20", S{Name: nm + "/one key/2,2,1", Bound: 2, BoundT: 2, Shards: 4}, q.par(nil, 2, 2, 1))
			add("C20", S{Name: nm + "/one key/waiting/2x2", Bound: 3, BoundT: 3, Shards: 2}, q.par(ops("W0"), 2, 2))
			add("C20", S{Name: nm + "/waiting/3x1", Bound: 3, BoundT: 4, Shards: 2}, p.par(ops("W0 W1"), 1, 1, 1))
			add("C20", S{Name: nm + "/WWW+ss", Bound: 3, BoundT: 3, Shards: 4}, q.fixed(nil, ops("W0"), ops("W0"), ops("W0"), ops("s0 s0")))
			d.alpha = ops("W0 s0 W1 s1 n0")
			q = d.prog()
			add("C20", S{Name: nm + "/count/3x1", Bound: 2, BoundT: 4, Shards: 4}, q.par(nil, 1, 1, 1))
			add("C20", S{Name: nm + "/count/waiting/3x1", Bound: 2, BoundT: 4, Shards: 4}, q.par(ops("W0 s1"), 1, 1, 1))
			add("C20", S{Name: nm + "/3,2,2", Thor: true, BoundT: 1, Shards: 32, MaxT: 5e6}, p.par(nil, 3, 2, 2))
		}
		e := c
		e.alpha = ops("W0 s0 w1 w2")
		if t[0] == 3 && t[1] == 5 {
			e.alpha = ops("W0 s0 w1 w3")
		}
		pe := e.prog()
		add("C21", S{Name: nm + "/seq6", Shards: 4}, pe.seq(6))
		add("C21", S{Name: nm + "/seq8", Shards: 16, Thor: true, MaxT: 5e6}, pe.seq(8))
		f := c
		f.alpha = ops("W0 s0 n0 w1 w2")
		pf := f.prog()
		add("C21", S{Name: nm + "/count/seq5", Shards: 4}, pf.seq(5))
		f.alpha = ops("W0 s0 W1 s1 w1 w2 w4")
		pf = f.prog()
		add("C21", S{Name: nm + "/two keys/seq4", Shards: 4}, pf.seq(4))
		add("C21", S{Name: nm + "/two keys/seq6", Shards: 16, Thor: true}, pf.seq(6))
		for _, as := range []bool{false, true} {
			n := nm
			if as {
				n += ",old timers"
			}
			q := c
			q.alpha = ops("W0 s0")
			pq := q.prog()
			for i, pre := range [][]gop{at("W0", c.req), at("s0", c.ttl), append(at("W0", sec), at("s0", c.req-sec)...), append(at("W0", sec), at("s0", c.ttl)...), at("W0", c.req+c.ttl)} {
				add("C21", S{Name: fmt.Sprintf("%s/due%d/2x1", n, i), Bound: 3, BoundT: 6, Shards: 2, Async: as}, pq.par(pre, 1, 1))
				add("C21", S{Name: fmt.Sprintf("%s/due%d/2x2", n, i), Bound: 1, BoundT: 3, Shards: 4, Async: as}, pq.par(pre, 2, 2))
				add("C21", S{Name: fmt.Sprintf("%s/due%d/3x1", n, i), Thor: true, BoundT: 3, Shards: 4, Async: as}, pq.par(pre, 1, 1, 1))
			}
			add("C21", S{Name: n + "/cancel/2x1", Bound: 1, BoundT: 4, Shards: 2, Async: as}, wmCancel(c, nil, ops("W0 s0 W1"), 1, 1))
			add("C21", S{Name: n + "/cancel/waiting/2x1", Bound: 1, BoundT: 3, Shards: 2, Async: as}, wmCancel(c, ops("W0 s1"), ops("W0 s0 W1"), 1, 1))
			add("C21", S{Name: n + "/cancel/due/2x1", Bound: 1, BoundT: 3, Shards: 2, Async: as}, wmCancel(c, at("W0 s1", c.req), ops("W0 s0 W1"), 1, 1))
			add("C21", S{Name: n + "/cancel/2x2", Bound: 0, BoundT: 2, Shards: 2, Async: as}, wmCancel(c, nil, ops("W0 s0 W1 w1"), 2, 2))
		}
	}

	// C08: HolderMap
	for _, t := range [][2]time.Duration{{3, 2}, {2, 4}, {3, 0}} {
		nm := fmt.Sprintf("timeout%d,ttl%d", t[0], t[1])
		c := hmCfg{name: "holder " + nm, to: t[0] * sec, ttl: t[1] * sec, alpha: ops("W0 r0 e0 u0 g0")}
		p := c.prog()
		add("C08", S{Name: nm + "/3x1", Bound: 3, BoundT: 4, Shards: 4}, p.par(nil, 1, 1, 1))
		add("C08", S{Name: nm + "/waiting/2x1", Bound: 4, BoundT: 6, Shards: 2}, p.par(ops("W0"), 1, 1))
		add("C08", S{Name: nm + "/waiting/3x1", Bound: 2, BoundT: 3, Shards: 4}, p.par(ops("W0"), 1, 1, 1))
		d := c
		d.alpha = ops("W0 r0 e0")
		pd := d.prog()
		add("C08", S{Name: nm + "/outcomes/2x2", Bound: 2, BoundT: 3, Shards: 4}, pd.par(nil, 2, 2))
		add("C08", S{Name: nm + "/outcomes/4x1", Bound: 1, BoundT: 2, Shards: 4}, pd.par(ops("W0"), 1, 1, 1, 1))
		add("C08", S{Name: nm + "/outcomes/waiting2/3x1", Bound: 1, BoundT: 3, Shards: 4}, pd.par(ops("W0 W0"), 1, 1, 1))
		e := c
		e.alpha = ops("W0 r0 e0 u0 g0 w1 w2")
		pe := e.prog()
		add("C08", S{Name: nm + "/seq5", Shards: 8}, pe.seq(5))
		add("C08", S{Name: nm + "/seq6", Shards: 16, Thor: true}, pe.seq(6))
		f := c
		f.alpha = ops("W0 W1 r0 n0 w1 w3")
		pf := f.prog()
		add("C08", S{Name: nm + "/count/seq5", Shards: 4}, pf.seq(5))
		f.alpha = ops("W0 W1 r0 e1 g1 w2")
		pf = f.prog()
		f.alpha = ops("W0 W1 r0 n0")
		add("C08", S{Name: nm + "/count/3x1", Bound: 2, BoundT: 3, Shards: 4}, f.prog().par(nil, 1, 1, 1))
		add("C08", S{Name: nm + "/two keys/seq5", Shards: 4}, pf.seq(5))
		add("C08", S{Name: nm + "/two keys/2x2", Bound: 1, BoundT: 2, Shards: 4}, pf.par(nil, 2, 2))
		for _, as := range []bool{false, true} {
			n := nm
			if as {
				n += ",old timers"
			}
			for i, pre := range [][]gop{at("W0", c.to), append(at("W0", sec), at("r0", c.ttl)...), append(at("W0", sec), at("r0", c.to-sec)...)} {
				if i == 1 && c.ttl == 0 {
					continue
				}
				add("C08", S{Name: fmt.Sprintf("%s/due%d/2x1", n, i), Bound: 3, BoundT: 5, Shards: 2, Async: as}, p.par(pre, 1, 1))
				add("C08", S{Name: fmt.Sprintf("%s/due%d/2x2", n, i), Thor: true, BoundT: 2, Shards: 8, Async: as}, pd.par(pre, 2, 2))
				add("C08", S{Name: fmt.Sprintf("%s/due%d/3x1", n, i), Bound: 1, BoundT: 2, Shards: 4, Async: as}, pd.par(pre, 1, 1, 1))
			}
			g := c
			g.cancel = true
			g.name += ", cancel"
			g.alpha = ops("W0 r0 e0 X0 g0")
			pg := g.prog()
			add("C08", S{Name: n + "/cancel/waiting/2x1", Bound: 3, BoundT: 5, Shards: 2, Async: as}, pg.par(ops("W0"), 1, 1))
			add("C08", S{Name: n + "/cancel/due/2x1", Bound: 3, BoundT: 4, Shards: 2, Async: as}, pg.par(at("W0", c.to), 1, 1))
			add("C08", S{Name: n + "/cancel/3x1", Bound: 2, BoundT: 3, Shards: 4, Async: as}, pg.par(nil, 1, 1, 1))
			add("C08", S{Name: n + "/cancel/seq4", Shards: 2, Async: as}, pg.seq(4))
		}
	}

	// C14, C15: ResponseMap
	for _, t := range [][2]time.Duration{{3, 10}, {4, 2}, {4, 4}} {
		nm := fmt.Sprintf("resp%d,clear%d", t[0], t[1])
		c := rmCfg{name: "response " + nm, resp: t[0] * sec, clear: t[1] * sec, alpha: ops("W0 s0 W1 s1")}
		p := c.prog()
		d := c
		d.alpha = ops("W0 s0")
		q := d.prog()
		if t[0] == 3 {
			add("C14", S{Name: nm + "/3x1", Bound: 3, BoundT: 5, Shards: 4}, p.par(nil, 1, 1, 1))
			add("C14", S{Name: nm + "/2x2", Bound: 1, BoundT: 3, Shards: 4}, p.par(nil, 2, 2))
			add("C14", S{Name: nm + "/one key/4x1", Bound: 2, BoundT: 3, Shards: 4}, q.par(nil, 1, 1, 1, 1))
			add("C14", S{Name: nm + "/one key/2x2", Bound: 2, BoundT: 4, Shards: 4}, q.par(nil, 2, 2))
			add("C14", S{Name: nm + "/one key/waiting/3x1", Bound: 2, BoundT: 4, Shards: 4}, q.par(ops("W0"), 1, 1, 1))
			add("C14", S{Name: nm + "/one key/set/3x1", Bound: 2, BoundT: 4, Shards: 4}, q.par(ops("s0"), 1, 1, 1))
			add("C14", S{Name: nm + "/sets/3x1", Bound: 3, BoundT: 5, Shards: 2}, q.fixed(ops("W0"), ops("s0"), ops("s0"), ops("s0")))
			add("C14", S{Name: nm + "/one key/2,2,2", Thor: true, BoundT: 2, Shards: 8}, q.par(nil, 2, 2, 2))
		}
		for _, as := range []bool{false, true} {
			n := nm
			if as {
				n += ",old timers"
			}
			for i, pre := range [][]gop{at("W0", c.resp), at("s0", c.resp), append(at("", sec), at("W0", 2*c.clear-sec)...), append(at("", sec), at("s0", 2*c.clear-sec)...), append(at("W0", sec), at("W0", c.resp-sec)...)} {
				add("C14", S{Name: fmt.Sprintf("%s/due%d/2x1", n, i), Bound: 2 - b2i(i == 4), BoundT: 5, Shards: 2, Async: as}, q.par(pre, 1, 1))
				add("C14", S{Name: fmt.Sprintf("%s/due%d/2x2", n, i), Bound: 0, BoundT: 2, Shards: 4, Async: as}, q.par(pre, 2, 2))
				add("C14", S{Name: fmt.Sprintf("%s/due%d/3x1", n, i), Bound: 1 - b2i(as || i == 4), BoundT: 2, Shards: 4, Async: as}, q.par(pre, 1, 1, 1))
				add("C15", S{Name: fmt.Sprintf("%s/due%d/W W", n, i), Bound: 2 - b2i(i == 4), BoundT: 5, Async: as}, q.fixed(pre, ops("W0"), ops("W0 W0")))
				add("C15", S{Name: fmt.Sprintf("%s/due%d/W W s", n, i), Bound: 1 - b2i(as), BoundT: 4, Async: as}, q.fixed(pre, ops("W0"), ops("W0"), ops("s0")))
			}
			add("C15", S{Name: n + "/cancel/2x1", Bound: 1, BoundT: 4, Shards: 2, Async: as}, rmCancel(c, nil, ops("W0 s0 W1"), 1, 1))
			add("C15", S{Name: n + "/cancel/waiting/2x1", Bound: b2i(t[0] == 3 && !as), BoundT: 2, Shards: 4, Async: as}, rmCancel(c, ops("W0 s1"), ops("W0 s0 W1"), 1, 1))
			add("C15", S{Name: n + "/cancel/due/2x1", Bound: 0, BoundT: 1, Shards: 2, Async: as}, rmCancel(c, at("W0", c.resp), ops("W0 s0 W1"), 1, 1))
			add("C15", S{Name: n + "/cancel/cleaner/2x1", Bound: 0, BoundT: 1, Shards: 2, Async: as}, rmCancel(c, append(at("", sec), at("W0 s1", 2*c.clear-sec)...), ops("W0 s0"), 1, 1))
		}
		e := c
		e.alpha = ops("W0 s0 w1 w2")
		if t[0] == 3 {
			e.alpha = ops("W0 s0 w2 w9")
		}
		pe := e.prog()
		add("C15", S{Name: nm + "/seq6", Shards: 4}, pe.seq(6))
		add("C15", S{Name: nm + "/seq8", Shards: 16, Thor: true, MaxT: 5e6}, pe.seq(8))
		f := c
		f.alpha = ops("W0 s0 W1 s1 w1 w3")
		pf := f.prog()
		add("C15", S{Name: nm + "/two keys/seq4", Shards: 4}, pf.seq(4))
		add("C15", S{Name: nm + "/two keys/seq6", Shards: 16, Thor: true}, pf.seq(6))
		g := c
		g.alpha = ops("W0 w1 w2")
		pg := g.prog()
		add("C15", S{Name: nm + "/waits/seq7", Shards: 4}, pg.seq(7))
		add("C15", S{Name: nm + "/2x2", Bound: 1, BoundT: 3, Shards: 4}, pg.par(nil, 2, 2))
		add("C15", S{Name: nm + "/2,2,1", Thor: true, BoundT: 2, Shards: 4}, pe.par(nil, 2, 2, 1))
	}
}
