package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	axnet "github.com/axgrid/axutils/net"

	"verif/vrt/vtime"
)

// ---- C36: ReadNBytes ----

var errNoDeadline = errors.New("deadline cannot be set")
var errBroken = errors.New("connection broken")

// fconn is a connection whose behaviour is chosen step by step: how many bytes each Read gives, how long it takes,
// and where the stream ends or fails.
type fconn struct {
	x        *X
	data     []byte
	pos      int
	empty    int // how many empty reads in a row there may be
	end      int // how the stream ends: 0 EOF, 1 EOF with the last bytes, 2 error, 3 error with the last bytes, 4 blocks for ever
	next     func(max int) int
	delay    func() time.Duration
	deadline time.Time
	set      int
	setErr   error
	reads    int
	zeros    int
	firstSet time.Time
	other    string
	log      []byte // the fragments and delays, as chosen
	onRead   func()
}

func (c *fconn) timeout() error {
	return &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
}

func (c *fconn) Read(p []byte) (int, error) {
	c.reads++
	if c.onRead != nil {
		c.onRead()
	}
	if len(p) == 0 {
		return 0, nil
	}
	now := vtime.Now()
	left := time.Duration(1 << 62)
	if !c.deadline.IsZero() {
		left = c.deadline.Sub(now)
		if left <= 0 {
			return 0, c.timeout()
		}
	}
	if c.delay != nil {
		d := c.delay()
		c.log = append(c.log, byte(d/ms))
		if d > 0 {
			if d >= left {
				vtime.Sleep(left)
				return 0, c.timeout()
			}
			vtime.Sleep(d)
		}
	}
	rest := len(c.data) - c.pos
	if rest == 0 {
		switch c.end {
		case 2, 3:
			return 0, errBroken
		case 4:
			if left < 1<<61 {
				vtime.Sleep(left)
				return 0, c.timeout()
			}
		}
		return 0, io.EOF
	}
	max := len(p)
	if max > rest {
		max = rest
	}
	n := c.next(max)
	c.log = append(c.log, byte(n), byte(n>>8), byte(n>>16))
	if n == 0 {
		c.zeros++
	} else {
		c.zeros = 0
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if n > 0 && c.pos == len(c.data) {
		switch c.end {
		case 1:
			return n, io.EOF
		case 3:
			return n, errBroken
		}
	}
	return n, nil
}

func (c *fconn) Write(p []byte) (int, error) { c.other = "Write"; return len(p), nil }
func (c *fconn) Close() error                { c.other = "Close"; return nil }
func (c *fconn) LocalAddr() net.Addr         { return nil }
func (c *fconn) RemoteAddr() net.Addr        { return nil }
func (c *fconn) SetDeadline(t time.Time) error {
	c.other = "SetDeadline"
	return c.SetReadDeadline(t)
}
func (c *fconn) SetReadDeadline(t time.Time) error {
	if c.setErr != nil {
		return c.setErr
	}
	c.set++
	c.deadline = t
	return nil
}
func (c *fconn) SetWriteDeadline(t time.Time) error { c.other = "SetWriteDeadline"; return nil }

// frag chooses fragment sizes, with up to c.empty empty reads in a row.
func frag(x *X, c *fconn) func(max int) int {
	return func(max int) int {
		if c.zeros < c.empty {
			return x.Choose(max + 1)
		}
		return 1 + x.Choose(max)
	}
}

// expectRead checks one read of n bytes that began at position from.
func expectRead(x *X, c *fconn, from, n int, b []byte, err error, how string) {
	x.Case(how, from, n, c.end, len(c.data), c.log)
	avail := len(c.data) - from
	if avail >= n {
		if err != nil {
			x.Failf("%s of %d bytes, %d there, gives the error %v", how, n, avail, err)
		}
		if !same(b, c.data[from:from+n]) {
			x.Failf("%s of %d bytes gives %x, not %x", how, n, b, c.data[from:from+n])
		}
		if c.pos != from+n {
			x.Failf("%s of %d bytes consumes %d", how, n, c.pos-from)
		}
		return
	}
	if err == nil {
		x.Failf("%s of %d bytes, only %d there, gives no error and %d bytes", how, n, avail, len(b))
	}
	if len(b) != 0 {
		x.Failf("%s of %d bytes, only %d there, gives an error and %d bytes", how, n, avail, len(b))
	}
}

func init() {
	read := func(x *X, c *fconn, n int, how int) (b []byte, err error, name string) {
		name = []string{"ReadNBytes", "ReadNBytesWithTimeout"}[how]
		if m := protect(func() {
			if how == 0 {
				b, err = axnet.ReadNBytes(c, n)
			} else {
				b, err = axnet.ReadNBytesWithTimeout(c, n, time.Second)
			}
		}); m != "" {
			x.Failf("%s of %d bytes panics: %s", name, n, m)
		}
		if c.other != "" && c.other != "SetDeadline" {
			x.Failf("%s calls %s", name, c.other)
		}
		return
	}
	one := func(max, empty int) func(x *X) {
		return func(x *X) {
			n := x.Choose(max + 1)
			length := x.Choose(max + 2)
			how := x.Choose(2)
			c := &fconn{x: x, data: pattern(1, length), empty: empty, end: x.Choose(5)}
			if how == 0 && c.end == 4 {
				return
			}
			c.next = frag(x, c)
			b, err, name := read(x, c, n, how)
			expectRead(x, c, 0, n, b, err, name)
		}
	}
	all("C36", "every fragmentation, up to 7 bytes, an empty read in between", 16, one(7, 1))
	all("C36", "every fragmentation, up to 12 bytes", 16, one(12, 0))
	all("C36", "up to 3 empty reads in a row", 16, one(4, 3))
	thorough("C36", "every fragmentation, up to 9 bytes, an empty read in between", 64, one(9, 1))
	thorough("C36", "every fragmentation, up to 16 bytes", 64, one(16, 0))

	consecutive := func(sum int) func(x *X) {
		return func(x *X) {
			c := &fconn{x: x, data: pattern(1, sum), empty: 0, end: x.Choose(4)}
			c.next = frag(x, c)
			at := 0
			var kept [][]byte
			var from []int
			for i := 0; i < 3; i++ {
				n := x.Choose(4)
				b, err, name := read(x, c, n, x.Choose(2))
				expectRead(x, c, at, n, b, err, name+" (after others)")
				if err != nil {
					break
				}
				kept = append(kept, b)
				from = append(from, at)
				at += n
			}
			for i, b := range kept {
				if !same(b, c.data[from[i]:from[i]+len(b)]) {
					x.Failf("what read %d gave was changed by later reads", i)
				}
				for j := range b {
					b[j] = 0xee
				}
				_ = append(b, 0xee, 0xee, 0xee)
			}
		}
	}
	all("C36", "consecutive reads", 16, consecutive(6))
	all("C36", "sizes", 16, func(x *X) {
		c := x.Choose(patterns * 4)
		k, end := c%patterns, c/patterns
		for _, n := range []int{0, 1, 2, 3, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20} {
			for how := 0; how < 2; how++ {
				for _, step := range []int{1, 2, 7, 100, 511, 512, 4096, 1 << 30} {
					if n/step > 9000 {
						continue
					}
					for _, more := range []int{0, 1, 5000, -1} {
						if n+more < 0 {
							continue
						}
						{
							c := &fconn{x: x, data: pattern(k, n+more), end: end}
							i := 0
							c.next = func(max int) int {
								i++
								if step < 100 && n > 100 && i%50 == 0 {
									return 0
								}
								if max > step {
									return step
								}
								return max
							}
							b, err, name := read(x, c, n, how)
							expectRead(x, c, 0, n, b, err, name)
						}
					}
				}
			}
		}
	})
	// the time each read takes is chosen; what arrives before the deadline counts
	all("C36", "deadlines", 16, func(x *X) {
		timeout := choose(x, 10*ms, time.Nanosecond, 0, -5*ms, 25*ms, 24*time.Hour)
		n := 1 + x.Choose(4)
		length := n + x.Choose(2)
		x.Sleep(choose(x, 0, 3*ms))
		c := &fconn{x: x, data: pattern(1, length), end: 4}
		mode := x.Choose(3)
		if mode > 0 {
			// a deadline from before must not stay in force, nor one that is too early
			c.deadline = vtime.Now().Add(choose(x, 5*ms, -5*ms))
		}
		c.next = frag(x, c)
		c.delay = func() time.Duration { return choose(x, 0, 4*ms, 9*ms) }
		start := vtime.Now()
		want := start.Add(timeout)
		early := ""
		c.onRead = func() {
			if c.set == 0 {
				early = "a read before the deadline is set"
			} else if !c.deadline.Equal(want) {
				early = fmt.Sprintf("a read with the deadline %v after the call, not %v", c.deadline.Sub(start), timeout)
			}
		}
		b, err := axnet.ReadNBytesWithTimeout(c, n, timeout)
		x.Case(int64(timeout), n, length, mode, c.log)
		if early != "" {
			x.Fail("ReadNBytesWithTimeout: " + early)
		}
		took := vtime.Now().Sub(start)
		if c.pos >= n {
			if err != nil || !same(b, c.data[:n]) || c.pos != n {
				x.Failf("ReadNBytesWithTimeout: everything arrived in time, but it gives %x and the error %v", b, err)
			}
		} else if err == nil || len(b) != 0 {
			x.Failf("ReadNBytesWithTimeout: timed out after %d of %d bytes, but it gives %x and the error %v", c.pos, n, b, err)
		}
		if timeout > 0 && took > timeout {
			x.Failf("ReadNBytesWithTimeout took %v with a timeout of %v", took, timeout)
		}
	})
	// large messages that arrive slowly: one timeout for all of it
	all("C36", "deadlines of large messages", 8, func(x *X) {
		n := choose(x, 4096, 4097, 9000, 65536, 70000, 1<<20)
		step := choose(x, 1000, 4096, 32768, 1<<20)
		delay := choose(x, 0, ms, 300*ms, 600*ms)
		if n/step > 300 {
			return
		}
		c := &fconn{x: x, data: pattern(1, n+x.Choose(2)), end: 4}
		c.next = func(max int) int {
			if max > step {
				return step
			}
			return max
		}
		c.delay = func() time.Duration { return delay }
		start := vtime.Now()
		b, err := axnet.ReadNBytesWithTimeout(c, n, time.Second)
		x.Case(n, step, int64(delay), len(c.data))
		if c.pos >= n {
			if err != nil || !same(b, c.data[:n]) || c.pos != n {
				x.Failf("ReadNBytesWithTimeout of %d bytes: everything arrived in time, but it gives %d bytes and the error %v", n, len(b), err)
			}
		} else if err == nil || len(b) != 0 {
			x.Failf("ReadNBytesWithTimeout: timed out after %d of %d bytes, but it gives %d bytes and the error %v", c.pos, n, len(b), err)
		}
		if took := vtime.Now().Sub(start); took > time.Second {
			x.Failf("ReadNBytesWithTimeout took %v with a timeout of a second", took)
		}
	})
	all("C36", "the caller's deadline and ReadNBytes", 8, func(x *X) {
		n := 1 + x.Choose(4)
		c := &fconn{x: x, data: pattern(1, n+x.Choose(2)), end: 4}
		c.next = frag(x, c)
		c.delay = func() time.Duration { return choose(x, 0, 4*ms, 9*ms) }
		c.deadline = vtime.Now().Add(choose(x, 10*ms, 0, 20*ms))
		keep := c.deadline
		b, err := axnet.ReadNBytes(c, n)
		x.Case(n, len(c.data), int64(c.deadline.Sub(vtime.Now())), c.log)
		if c.pos >= n {
			if err != nil || !same(b, c.data[:n]) || c.pos != n {
				x.Failf("ReadNBytes: everything arrived in time, but it gives %x and the error %v", b, err)
			}
		} else if err == nil || len(b) != 0 {
			x.Failf("ReadNBytes: timed out after %d of %d bytes, but it gives %x and the error %v", c.pos, n, b, err)
		}
		if c.set > 0 || !c.deadline.Equal(keep) {
			x.Fail("ReadNBytes changes the read deadline of the connection")
		}
	})
	all("C36", "the deadline cannot be set", 0, func(x *X) {
		for n := 0; n < 5; n++ {
			x.Case(n)
			c := &fconn{x: x, data: pattern(1, 10), setErr: errNoDeadline}
			c.next = func(max int) int { return max }
			b, err := axnet.ReadNBytesWithTimeout(c, n, time.Second)
			if err == nil || len(b) != 0 {
				x.Failf("ReadNBytesWithTimeout of %d bytes: a deadline that cannot be set is not reported; it gives %x", n, b)
			}
			if !errors.Is(err, errNoDeadline) {
				x.Failf("ReadNBytesWithTimeout reports %v, not the failure to set the deadline", err)
			}
		}
	})
	add("C36", S{Name: "two connections at a time", Bound: 2, BoundT: 3, Shards: 8, ShardAt: 2}, func(x *X) {
		n := 2 + x.Choose(2)
		how := x.Choose(2)
		work := func(kind int) func() {
			c := &fconn{x: x, data: pattern(kind, 2*n)}
			c.onRead = x.Point
			i := 0
			c.next = func(max int) int { i++; return 1 }
			return func() {
				a, e1, _ := read(x, c, n, how)
				x.Point()
				b, e2, _ := read(x, c, n, 1-how)
				x.Point()
				if e1 != nil || e2 != nil || !bytes.Equal(append(clone(a), b...), c.data) {
					x.Failf("two connections at a time: %x and %x of %x, errors %v and %v", a, b, c.data, e1, e2)
				}
				for i := range a {
					a[i] = 0
				}
			}
		}
		parallel(x, work(1), work(4))
	})
}
