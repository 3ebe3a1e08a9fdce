// Package vcontext stands in for package context.
package vcontext

import (
	"context"
	"errors"
	"time"
	"unsafe"

	"verif/vrt"
	"verif/vrt/vtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(parent Context, key, val any) Context {
	return context.WithValue(parent, key, val)
}

type ctx struct {
	parent   Context
	done     chan struct{}
	mu       vrt.Mutex
	err      error
	cause    error
	children []*ctx
	up       *ctx
	deadline time.Time
	hasDL    bool
	timer    *vtime.Timer
	afters   []func()
}

type keyT int

var self keyT

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	vrt.StateFlag(unsafe.Pointer(&c.err), false)
	return c.err
}

func (c *ctx) Value(key any) any {
	if key == &self {
		return c
	}
	return c.parent.Value(key)
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	vrt.StateFlag(unsafe.Pointer(&c.err), true)
	c.err, c.cause = err, cause
	ch := c.children
	c.children = nil
	af := c.afters
	c.afters = nil
	// closing is part of the cancellation step
	vrt.CloseQuiet(*(*unsafe.Pointer)(unsafe.Pointer(&c.done)), c.done)
	for _, k := range ch {
		k.cancel(err, cause)
	}
	c.mu.Unlock()
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, f := range af {
		vrt.Go(f)
	}
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&self).(*ctx); ok {
		c.up = p
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
		} else {
			p.children = append(p.children, c)
			p.mu.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		vrt.Go(func() {
			vrt.Select(false, vrt.RecvCase(d).C(), vrt.RecvCase(c.done).C())
			c.cancel(parent.Err(), context.Cause(parent))
		})
	}
	return c
}

func (c *ctx) detach() {
	if p := c.up; p != nil {
		p.mu.Lock()
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
		p.mu.Unlock()
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(Canceled, nil); c.detach() }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(Canceled, cause); c.detach() }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCtx(parent)
	c.deadline, c.hasDL = d, true
	dur := vtime.Until(d)
	if dur <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() { c.cancel(Canceled, nil) }
	}
	if c.Err() == nil {
		c.timer = vtime.AfterFunc(dur, func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(Canceled, nil); c.detach() }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(&self).(*ctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(key any) any {
	if key == &self {
		return nil
	}
	return w.Context.Value(key)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func AfterFunc(c Context, f func()) (stop func() bool) {
	p, ok := c.Value(&self).(*ctx)
	if !ok {
		if c.Done() == nil {
			return func() bool { return true }
		}
		panic(errors.New("vcontext: AfterFunc on a foreign context"))
	}
	state := 0
	run := func() {
		if state == 0 {
			state = 1
			f()
		}
	}
	p.mu.Lock()
	if p.err != nil {
		p.mu.Unlock()
		vrt.Go(run)
	} else {
		p.afters = append(p.afters, run)
		p.mu.Unlock()
	}
	return func() bool {
		if state == 0 {
			state = 2
			return true
		}
		return false
	}
}
