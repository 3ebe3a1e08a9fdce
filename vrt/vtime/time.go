// Package vtime stands in for package time: virtual clock, virtual timers.
package vtime

import (
	"time"

	"verif/vrt"
)

// Timer is time.Timer on the virtual clock.
type Timer struct {
	C <-chan time.Time
	t *vrt.Timer
}

// Ticker is time.Ticker on the virtual clock.
type Ticker struct {
	C <-chan time.Time
	t *vrt.Timer
}

// The compiler allocates small objects of a package without race instrumentation in a way that leaves the race
// detector's memory of former uses of the address. The program reads C: Timer and Ticker are therefore allocated as
// slices whose length is not known.
var one = 1

func newTimer(c <-chan time.Time, t *vrt.Timer) *Timer {
	p := &make([]Timer, one)[0]
	p.C, p.t = c, t
	return p
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	return newTimer(ch, vrt.NewTimer(ch, int64(d), 0))
}

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	return t.t.Reset(int64(d))
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	p := &make([]Ticker, one)[0]
	p.C, p.t = ch, vrt.NewTimer(ch, int64(d), int64(d))
	return p
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Reset(int64(d))
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func AfterFunc(d time.Duration, f func()) *Timer {
	return newTimer(nil, vrt.AfterFunc(int64(d), f))
}

func Sleep(d time.Duration)           { vrt.Sleep(int64(d)) }
func Now() time.Time                  { return vrt.NowTime() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
