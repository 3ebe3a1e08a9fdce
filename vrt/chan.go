package vrt

import (
	"errors"
	"runtime"
	"strconv"
	"unsafe"
	"weak"
)

// chanState is the modelled state of a channel; the real channel only serves as its identity.
type chanState struct {
	key    unsafe.Pointer
	serial int
	cap    int
	buf    []any
	head   int
	n      int
	closed bool
	isTmr  *Timer
	obj    object
	split  bool     // a buffered channel: both ends have objects of their own, sends and receives commute
	so, ro object   // sending end, receiving end
	ih, rh []uint64 // hashes of all sends and all receives
	slots  []byte   // race addresses of the buffer slots (Go: one per slot)
	sendx  int
	recvx  int
	race   byte
}

func (c *chanState) label() string {
	s := "chan#" + strconv.Itoa(c.serial)
	if c.isTmr != nil {
		s += "(timer)"
	}
	return s
}

// touchSend and touchRecv record a transfer that t makes; a send depends on the previous send and on the
// receive that freed its slot, a receive on the previous one and on the send of its item.
func (e *exec) touchSend(t *thread, c *chanState, kind uint64) {
	if !c.split {
		e.touch(t, &c.obj, kind)
		return
	}
	free := uint64(0)
	if i := len(c.ih) - c.cap; i >= 0 {
		free = c.rh[i]
	}
	h := mix(t.hash, mix(c.so.w+c.so.r*3, mix(kind, free)))
	c.so.w, c.so.r, t.hash = h, 0, h
	c.ih = append(c.ih, h)
}

func (e *exec) touchRecv(t *thread, c *chanState, kind uint64) {
	if !c.split {
		e.touch(t, &c.obj, kind)
		return
	}
	h := mix(t.hash, mix(c.ro.w+c.ro.r*3, mix(kind, c.ih[len(c.rh)])))
	c.ro.w, c.ro.r, t.hash = h, 0, h
	c.rh = append(c.rh, h)
}

// touchSee records that t saw the state of c without changing it.
func (e *exec) touchSee(t *thread, c *chanState, kind uint64) {
	if !c.split {
		e.touchR(t, &c.obj, kind)
		return
	}
	e.touchR(t, &c.so, kind)
	e.touchR(t, &c.ro, kind)
}

type chanTable struct {
	tab  []*chanState
	used []int
	n    int
	refs []any
	weak []weakChan // open addressing, in place of the rest: does not keep channels alive
}

type weakChan struct {
	k uintptr
	p weak.Pointer[byte]
	c *chanState
}

func (h *chanTable) find(p unsafe.Pointer) *chanState {
	if len(h.tab) == 0 {
		return nil
	}
	m := uint64(len(h.tab) - 1)
	for i := ptrHash(p) & m; h.tab[i] != nil; i = (i + 1) & m {
		if h.tab[i].key == p {
			return h.tab[i]
		}
	}
	return nil
}

func (h *chanTable) getWeak(p unsafe.Pointer, capn int) *chanState {
	slot := func() int {
		m := uint64(len(h.weak) - 1)
		i := ptrHash(p) & m
		for h.weak[i].c != nil && h.weak[i].k != uintptr(p) {
			i = (i + 1) & m
		}
		return int(i)
	}
	i := slot()
	if w := &h.weak[i]; w.c != nil && w.p.Value() != nil {
		return w.c
	}
	c := &chanState{cap: capn, serial: h.n}
	if capn > 0 && capn <= 1<<16 {
		c.slots = make([]byte, capn)
		c.split = true
	}
	h.n++
	if h.weak[i].c == nil {
		h.used = append(h.used, i)
	}
	if len(h.used)*2 > len(h.weak) {
		var keep []weakChan
		for _, w := range h.weak {
			if w.c != nil && w.p.Value() != nil {
				keep = append(keep, w)
			}
		}
		for n := 1024; ; n *= 2 {
			if n > 4*len(keep) {
				h.weak = make([]weakChan, n)
				break
			}
		}
		h.used = h.used[:0]
		m := uint64(len(h.weak) - 1)
		for _, w := range keep {
			j := mix(uint64(w.k), 1) & m
			for h.weak[j].c != nil {
				j = (j + 1) & m
			}
			h.weak[j] = w
			h.used = append(h.used, int(j))
		}
		i = slot()
		h.used = append(h.used, i)
	}
	h.weak[i] = weakChan{uintptr(p), weak.Make((*byte)(p)), c}
	return c
}

func (h *chanTable) reset() {
	if h.weak != nil {
		*h = chanTable{}
	}
	for _, i := range h.used {
		h.tab[i] = nil
	}
	h.used = h.used[:0]
	for i := range h.refs {
		h.refs[i] = nil
	}
	h.refs = h.refs[:0]
	h.n = 0
}

func ptrHash(p unsafe.Pointer) uint64 { return mix(uint64(uintptr(p)), 1) }

func (h *chanTable) get(p unsafe.Pointer, capn int, keep any) *chanState {
	if h.weak != nil {
		if h.n > 0 { // made before Forget
			if c := h.find(p); c != nil {
				return c
			}
		}
		return h.getWeak(p, capn)
	}
	if len(h.tab) == 0 {
		h.tab = make([]*chanState, 256)
	}
	m := uint64(len(h.tab) - 1)
	i := ptrHash(p) & m
	for h.tab[i] != nil {
		if h.tab[i].key == p {
			return h.tab[i]
		}
		i = (i + 1) & m
	}
	c := &chanState{key: p, cap: capn, serial: h.n}
	if capn > 0 && capn <= 1<<16 {
		c.slots = make([]byte, capn)
		c.split = true
	}
	h.refs = append(h.refs, keep) // keeps the real channel alive so that its address stays unique
	h.n++
	if h.n*2 > len(h.tab) {
		old := h.tab
		h.tab = make([]*chanState, 2*len(old))
		h.used = h.used[:0]
		m = uint64(len(h.tab) - 1)
		for _, o := range old {
			if o != nil {
				j := ptrHash(o.key) & m
				for h.tab[j] != nil {
					j = (j + 1) & m
				}
				h.tab[j] = o
				h.used = append(h.used, int(j))
			}
		}
		i = ptrHash(p) & m
		for h.tab[i] != nil {
			i = (i + 1) & m
		}
	}
	h.tab[i] = c
	h.used = append(h.used, int(i))
	return c
}

func stateOf(p unsafe.Pointer, capn int, keep any) *chanState {
	if p == nil {
		return nil
	}
	return ex.chans.get(p, capn, keep)
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer  { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chanPtrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func lookup[T any](ch <-chan T) *chanState {
	if ch == nil || dead() {
		return nil
	}
	return stateOf(chanPtr(ch), cap(ch), ch)
}

func lookupS[T any](ch chan<- T) *chanState {
	if ch == nil || dead() {
		return nil
	}
	return stateOf(chanPtrS(ch), cap(ch), ch)
}

func killedOp() {
	if ex == nil {
		panic("vrt: channel operation outside of an execution")
	}
	runtime.Goexit()
}

func cast[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// S is a send: S(ch)(v).
func S[T any](ch chan<- T) func(T) {
	return func(v T) { sendAny(lookupS(ch), v) }
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := recvAny(lookup(ch))
	return cast[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recvAny(lookup(ch))
	return cast[T](v), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if dead() {
		return
	}
	if ch == nil {
		panic(errors.New("close of nil channel"))
	}
	closeState(lookupS(ch))
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	c := lookup(ch)
	if c == nil {
		return 0
	}
	e, t := me()
	t.kind = opPoint
	e.point(t)
	e.touchSee(t, c, 'n')
	if c.isTmr != nil && !e.asyncTimers {
		return 0
	}
	return c.n
}

// Case is one case of a select.
type Case struct {
	ch   *chanState
	send bool
	val  any
}

// RCase is a receive case.
type RCase[T any] struct{ c *Case }

func (r RCase[T]) C() *Case { return r.c }

// V is the received value after Select.
func (r RCase[T]) V() T { return cast[T](ex.cur.rval) }

// VOk is the received value and whether the channel was open.
func (r RCase[T]) VOk() (T, bool) { return cast[T](ex.cur.rval), ex.cur.rok }

// SCase is a send case.
type SCase struct{ c *Case }

func (r SCase) C() *Case { return r.c }

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) RCase[T] { return RCase[T]{&Case{ch: lookup(ch)}} }

// SendCase makes a send case: SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) SCase {
	return func(v T) SCase { return SCase{&Case{ch: lookupS(ch), send: true, val: v}} }
}

// ChanRange iterates over a channel.
type ChanRange[T any] struct{ ch <-chan T }

// RangeChan is the iterator of for range ch.
func RangeChan[T any](ch <-chan T) *ChanRange[T] { return &ChanRange[T]{ch} }

// RangeChanV also gives a loop variable of the element type.
func RangeChanV[T any](ch <-chan T) (T, *ChanRange[T]) {
	var z T
	return z, &ChanRange[T]{ch}
}

// Next receives the next element.
func (r *ChanRange[T]) Next(p *T) bool {
	v, ok := Recv2(r.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

var errSendClosed = errors.New("send on closed channel")

// caseReady reports whether case i of t's operation can proceed now.
func (e *exec) caseReady(t *thread, i int) bool {
	k := &t.cases[i]
	c := k.ch
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if k.send {
		if c.n < c.cap {
			return true
		}
		return c.cap == 0 && e.partner(t, c, false, false) != nil
	}
	if c.n > 0 {
		return true
	}
	return c.cap == 0 && e.partner(t, c, true, false) != nil
}

// partner finds a thread whose pending blocking operation is a send (or receive) on c, oldest first.
// With onlyOld, only operations announced at an earlier virtual time count (they are certainly queued).
func (e *exec) partner(t *thread, c *chanState, send, onlyOld bool) *thread {
	var best *thread
	for _, x := range e.live {
		if x == t || x.kind != opChan || x.complete {
			continue
		}
		if onlyOld && x.annTime >= e.now {
			continue
		}
		if best != nil && x.annTime >= best.annTime {
			continue
		}
		for i := range x.cases {
			if x.cases[i].ch == c && x.cases[i].send == send {
				best = x
				break
			}
		}
	}
	return best
}

// partners returns all candidates tied at the oldest announcement.
func (e *exec) pickPartner(t *thread, c *chanState, send bool) (*thread, int) {
	best := e.partner(t, c, send, false)
	if best == nil {
		return nil, 0
	}
	var cand []*thread
	var idx []int
	for _, x := range e.live {
		if x == t || x.kind != opChan || x.complete || x.annTime != best.annTime {
			continue
		}
		for i := range x.cases {
			if x.cases[i].ch == c && x.cases[i].send == send {
				cand = append(cand, x)
				idx = append(idx, i)
				break
			}
		}
	}
	k := 0
	if len(cand) > 1 {
		k = e.branch(t, len(cand), 1)
	}
	return cand[k], idx[k]
}

// branch is a data decision of thread t.
func (e *exec) branch(t *thread, n int, cost int8) int {
	if n <= 1 {
		return 0
	}
	if e.nobranch > 0 {
		return 0
	}
	if e.delay {
		cost = 1
	}
	if cost > 0 && e.used+int(cost) > e.bound {
		e.cut = true
		return 0
	}
	k := e.choose(n, cost, 1)
	t.hash = mix(t.hash, uint64(k)+0xC0)
	return k
}

// complete finishes the pending channel operation of x through its case i.
func (e *exec) completeOp(x *thread, i int, val any, ok bool) {
	x.complete = true
	x.sel = i
	x.rval = val
	x.rok = ok
	x.kind = opRun
}

func (e *exec) push(c *chanState, v any) {
	c.buf = append(c.buf, v)
	c.n++
}

func (e *exec) pop(c *chanState) any {
	v := c.buf[c.head]
	c.buf[c.head] = nil
	c.head++
	c.n--
	if c.n == 0 {
		c.buf, c.head = c.buf[:0], 0
	} else if c.head >= 64 && c.head*2 > len(c.buf) {
		for i := 0; i < c.n; i++ { // copy would tell the race detector
			c.buf[i], c.buf[c.head+i] = c.buf[c.head+i], nil
		}
		c.buf, c.head = c.buf[:c.n], 0
	}
	return v
}

// The happens-before edges of a buffered channel follow the Go runtime: sending into and receiving
// from a slot both acquire what the slot's previous user released.
func (c *chanState) raceSlot(i int) {
	var p unsafe.Pointer
	if len(c.slots) > 0 {
		p = unsafe.Pointer(&c.slots[i%len(c.slots)])
	} else {
		p = unsafe.Pointer(&c.race)
	}
	raceAcquire(p)
	raceRelease(p)
}

// exec1 performs case i of t's current operation; it must be ready. Runs on t.
func (e *exec) perform(t *thread, i int) {
	k := &t.cases[i]
	c := k.ch
	kind := uint64(i)*2 + b2u(k.send)
	t.sel = i
	if k.send {
		if c.closed {
			e.touchSee(t, c, kind)
			panic(errSendClosed)
		}
		e.touchSend(t, c, kind)
		if c.cap == 0 {
			x, xi := e.pickPartner(t, c, false)
			e.rendezvous(t, x)
			e.completeOp(x, xi, k.val, true)
			return
		}
		c.raceSlot(c.sendx)
		c.sendx++
		if c.n == 0 {
			// a receiver that is certainly queued gets the value directly
			if x := e.partner(t, c, false, true); x != nil && !e.otherReady(x) {
				for xi := range x.cases {
					if x.cases[xi].ch == c && !x.cases[xi].send {
						e.handRecv(t, x, xi, c, k.val)
						return
					}
				}
			}
		}
		e.push(c, k.val)
		return
	}
	// receive
	if c.n > 0 {
		e.touchRecv(t, c, kind)
		c.raceSlot(c.recvx)
		c.recvx++
		wasFull := c.n == c.cap
		t.rval, t.rok = e.pop(c), true
		if wasFull {
			if x := e.partner(t, c, true, true); x != nil && !e.otherReady(x) {
				for xi := range x.cases {
					if x.cases[xi].ch == c && x.cases[xi].send {
						e.handed(x, c, true, xi)
						x.raceNote(c, c.sendx)
						c.sendx++
						e.push(c, x.cases[xi].val)
						e.completeOp(x, xi, nil, false)
						return
					}
				}
			}
		}
		return
	}
	if c.closed {
		e.touchSee(t, c, kind)
		raceAcquire(unsafe.Pointer(&c.race))
		t.rval, t.rok = nil, false
		return
	}
	e.touch(t, &c.obj, kind)
	x, xi := e.pickPartner(t, c, true)
	e.rendezvous(t, x)
	t.rval, t.rok = x.cases[xi].val, true
	e.completeOp(x, xi, nil, false)
}

// otherReady reports whether a select waiting since an earlier instant has been woken by something
// that happened at this very instant (then a value sent now may miss it).
func (e *exec) otherReady(x *thread) bool {
	if len(x.cases) == 1 {
		return false
	}
	for i := range x.cases {
		if e.caseReady(x, i) {
			return true
		}
	}
	return false
}

// handed records the transfer that somebody else completes for x through its case xi.
func (e *exec) handed(x *thread, c *chanState, send bool, xi int) {
	switch {
	case !c.split:
		x.hash = mix(x.hash, mix(c.obj.w, uint64(xi)*2+b2u(send)))
	case send:
		e.touchSend(x, c, uint64(xi)*2+1)
	default:
		e.touchRecv(x, c, uint64(xi)*2)
	}
}

// handRecv passes v directly to the waiting receiver x.
func (e *exec) handRecv(t, x *thread, xi int, c *chanState, v any) {
	e.handed(x, c, false, xi)
	x.raceNote(c, c.recvx)
	c.recvx++
	e.completeOp(x, xi, v, true)
}

// raceNote makes x perform the slot synchronisation when it resumes.
func (t *thread) raceNote(c *chanState, slot int) {
	t.pendSlot = c
	t.pendIdx = slot
}

// rendezvous synchronises both sides of an unbuffered transfer.
func (e *exec) rendezvous(t, x *thread) {
	h := mix(mix(t.hash, x.hash), 'u')
	t.hash = mix(h, t.uid)
	x.hash = mix(h, x.uid)
	// t's edge to x and x's edge to t: x released at its announcement
	raceAcquire(unsafe.Pointer(&x.annRace))
	raceRelease(unsafe.Pointer(&x.rvRace))
	x.pendRv = true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// chanOp runs a blocking or non-blocking operation over t.cases and returns the case taken (-1: default).
func (e *exec) chanOp(t *thread, hasDef bool) int {
	t.complete = false
	if hasDef {
		t.kind = opTrySel
	} else {
		t.kind = opChan
	}
	raceRelease(unsafe.Pointer(&t.annRace))
	e.point(t)
	if t.complete {
		t.complete = false
		if t.pendSlot != nil {
			t.pendSlot.raceSlot(t.pendIdx)
			t.pendSlot = nil
		}
		if t.pendRv {
			t.pendRv = false
			raceAcquire(unsafe.Pointer(&t.rvRace))
		}
		return t.sel
	}
	// choose among the ready cases
	var rdbuf [8]int
	rd := rdbuf[:0]
	for i := range t.cases {
		if e.caseReady(t, i) {
			rd = append(rd, i)
		}
	}
	if len(rd) == 0 {
		if hasDef {
			for i := range t.cases {
				if c := t.cases[i].ch; c != nil {
					e.touchSee(t, c, 'd')
				}
			}
			t.rval, t.rok = nil, false
			return -1
		}
		fatal("operation resumed although nothing is ready: " + t.describe())
	}
	if hasDef {
		// a partner that announced at this very instant may not have queued itself yet
		young := true
		for _, i := range rd {
			c := t.cases[i].ch
			if c.closed || c.cap > 0 {
				young = false
				break
			}
			if p := e.partner(t, c, !t.cases[i].send, false); p != nil && p.annTime < e.now {
				young = false
				break
			}
		}
		if young && e.branch(t, 2, 1) == 1 {
			for i := range t.cases {
				if c := t.cases[i].ch; c != nil {
					e.touchSee(t, c, 'd')
				}
			}
			t.rval, t.rok = nil, false
			return -1
		}
	}
	k := 0
	if len(rd) > 1 {
		k = e.branch(t, len(rd), 0)
	}
	e.perform(t, rd[k])
	return t.sel
}

func sendAny(c *chanState, v any) {
	if dead() {
		killedOp()
	}
	e, t := me()
	t.cases = append(t.cases[:0], pend{ch: c, send: true, val: v})
	e.chanOp(t, false)
	if t.panicCls {
		t.panicCls = false
		panic(errSendClosed)
	}
}

func recvAny(c *chanState) (any, bool) {
	if dead() {
		killedOp()
	}
	e, t := me()
	t.cases = append(t.cases[:0], pend{ch: c})
	e.chanOp(t, false)
	return t.rval, t.rok
}

// Select runs a select statement and returns the index of the case taken, -1 for default.
func Select(hasDef bool, cs ...*Case) int {
	if dead() {
		killedOp()
	}
	e, t := me()
	t.cases = t.cases[:0]
	for _, c := range cs {
		t.cases = append(t.cases, pend{ch: c.ch, send: c.send, val: c.val})
	}
	if len(cs) == 0 {
		if hasDef {
			return -1
		}
		Block()
	}
	i := e.chanOp(t, hasDef)
	if t.panicCls {
		t.panicCls = false
		panic(errSendClosed)
	}
	return i
}

func closeState(c *chanState) {
	e, t := me()
	t.kind = opPoint
	if e.trace {
		t.lbl = "close " + c.label()
	}
	e.point(t)
	if c.closed {
		panic(errors.New("close of closed channel"))
	}
	e.closeNow(t, c)
}

// closeNow closes c; waiters become ready (receivers) or panic (senders) when they are scheduled.
func (e *exec) closeNow(t *thread, c *chanState) {
	if t != nil {
		if c.split {
			e.touch(t, &c.so, 'c')
			e.touch(t, &c.ro, 'c')
		} else {
			e.touch(t, &c.obj, 'c')
		}
		raceRelease(unsafe.Pointer(&c.race))
	}
	c.closed = true
}

// CloseQuiet closes the channel at p without a scheduling point (context cancellation).
func CloseQuiet(p unsafe.Pointer, keep any) {
	if dead() {
		return
	}
	e, t := me()
	c := stateOf(p, 0, keep)
	if !c.closed {
		e.closeNow(t, c)
	}
}
