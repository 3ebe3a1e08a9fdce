package vrt

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"syscall"
	"time"
	"unsafe"
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// HistOp is one operation of a harness thread in the history.
type HistOp struct {
	Th     int
	Name   string
	A, B   any
	R0, R1 any
	Call   int64 // position of the call in the history
	Ret    int64 // position of the return, 0 if it has not returned
	TCall  int64
	TRet   int64
}

func (o *HistOp) String() string {
	r := "pending"
	if o.Ret != 0 {
		r = Str(o.R0)
		if o.R1 != nil {
			r += "," + Str(o.R1)
		}
	}
	a := Str(o.A)
	if o.A == nil {
		a = ""
	}
	if o.B != nil {
		a += "," + Str(o.B)
	}
	return "T" + strconv.Itoa(o.Th) + ":" + o.Name + "(" + a + ")=" + r + " [" + durStr(o.TCall) + "," + durStr(o.TRet) + "]"
}

// Event is one entry of the event log.
type Event struct {
	Name string
	A, B any
	T    int64
	Th   int
}

// Str formats a small value without fmt for the common types.
func Str(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return x
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case error:
		return "error:" + x.Error()
	}
	return fmt.Sprint(v)
}

// Go starts a harness thread.
func (x *X) Go(fn func()) {
	Go(fn)
	e := x.e
	t := e.threads[len(e.threads)-1]
	t.harness = true
	t.nm = "T" + strconv.Itoa(t.id)
}

// GoAux starts a harness thread that Join does not wait for.
func (x *X) GoAux(fn func()) {
	x.Go(fn)
	x.e.threads[len(x.e.threads)-1].aux = true
}

// Join waits until all harness threads have ended.
func (x *X) Join() {
	e, t := x.e, x.e.cur
	if e.killing {
		return
	}
	t.kind = opJoin
	e.point(t)
	h := t.hash
	for _, o := range e.threads {
		if o.harness && o.done {
			h += mix(o.uid, o.hash)
		}
	}
	t.hash = mix(h, 'J')
	raceAcquire(unsafe.Pointer(&joinRace))
}

// JoinOr waits until all harness threads have ended or d has passed; it reports whether they ended.
func (x *X) JoinOr(d time.Duration) bool {
	dl := x.e.now + int64(d)
	for {
		x.Settle()
		if x.Running() == 0 {
			x.Join()
			return true
		}
		if x.e.now >= dl {
			return false
		}
		// go on to the next instant at which something happens
		min := dl
		for _, tm := range x.e.timers {
			if tm.when < min {
				min = tm.when
			}
		}
		if min <= x.e.now {
			min = x.e.now + 1
		}
		Sleep(min - x.e.now)
	}
}

// Running is the number of harness threads that have not ended (without Aux and main).
func (x *X) Running() int {
	n := 0
	for _, o := range x.e.live {
		if o.harness && !o.aux {
			n++
		}
	}
	return n
}

// Settle waits until no other thread can run at the current instant.
func (x *X) Settle() {
	e, t := x.e, x.e.cur
	if e.killing {
		return
	}
	t.kind = opQuiet
	e.point(t)
	h := t.hash
	for _, o := range e.threads {
		if o != t {
			h += mix(o.uid, o.hash)
		}
	}
	t.hash = mix(h, 'Q')
}

// Sleep lets virtual time pass.
func (x *X) Sleep(d time.Duration) { Sleep(int64(d)) }

// SleepUntil sleeps until the given virtual time and then lets everything settle.
func (x *X) SleepUntil(d time.Duration) {
	if int64(d) > x.e.now {
		Sleep(int64(d) - x.e.now)
	}
}

// Now is the virtual time since the start.
func (x *X) Now() time.Duration { return time.Duration(x.e.now) }

var pubRace uint64

// Publish makes what the calling thread has written so far visible to the next Collect, for the race detector
// only: for harness data that callbacks write and the main thread reads when everything is over.
func (x *X) Publish() { raceReleaseMerge(unsafe.Pointer(&pubRace)) }

// Collect sees what was published.
func (x *X) Collect() { raceAcquire(unsafe.Pointer(&pubRace)) }

// Point is a visible point.
func (x *X) Point() { Point() }

// Fail reports a violated property and ends the execution.
func (x *X) Fail(msg string) {
	e := x.e
	if e.killing {
		runtime.Goexit()
	}
	m := msg
	if len(e.hist) > 0 {
		m += "\nhistory:"
		for i := range e.hist {
			m += "\n  " + e.hist[i].String()
		}
	}
	if len(e.evts) > 0 {
		m += "\nevents:"
		for i := range e.evts {
			v := &e.evts[i]
			m += "\n  " + durStr(v.T) + " " + v.Name + "(" + Str(v.A) + "," + Str(v.B) + ")"
		}
	}
	e.setViolation("property", m)
	e.stop(e.cur)
}

// Failf is Fail with formatting.
func (x *X) Failf(f string, a ...any) { x.Fail(fmt.Sprintf(f, a...)) }

// Check fails unless ok.
func (x *X) Check(ok bool, msg string) {
	if !ok {
		x.Fail(msg)
	}
}

// Choose enumerates 0..n-1.
func (x *X) Choose(n int) int {
	e, t := x.e, x.e.cur
	if n <= 1 || e.killing {
		return 0
	}
	k := e.choose(n, 0, 1)
	if e.over { // another shard's
		e.stop(t)
	}
	t.hash = mix(t.hash, uint64(k)+0xC0)
	if e.trace {
		e.tracef("choose %d of %d", k, n)
	}
	return k
}

// Bool enumerates false and true.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Branching switches the enumeration of scheduling decisions on or off (data choices stay on).
func (x *X) Branching(on bool) {
	if on {
		x.e.nobranch = 0
	} else {
		x.e.nobranch = 1
	}
}

// Forget makes the execution keep no channel and no other object of the program alive, so that its use of memory
// can be observed. It is for executions without branching: states are told apart no more.
func (x *X) Forget() {
	x.Branching(false)
	x.e.objs.weak = new(object)
	x.e.chans.weak = make([]weakChan, 1024)
	x.e.chans.used = nil
}

// Call records the start of an operation; it is a visible point.
func (x *X) Call(name string, a, b any) int {
	e, t := x.e, x.e.cur
	t.kind = opPoint
	if e.trace {
		t.lbl = "CALL " + name + "(" + Str(a) + "," + Str(b) + ")"
	}
	e.point(t)
	e.idleMx++
	e.hist = append(e.hist, HistOp{Th: t.id, Name: name, A: a, B: b, Call: e.idleMx, TCall: e.now})
	t.hash = mix(t.hash, e.retsum)
	return len(e.hist) - 1
}

// CallQuiet is Call without a visible point.
func (x *X) CallQuiet(name string, a, b any) int {
	e, t := x.e, x.e.cur
	e.idleMx++
	e.hist = append(e.hist, HistOp{Th: t.id, Name: name, A: a, B: b, Call: e.idleMx, TCall: e.now})
	t.hash = mix(t.hash, e.retsum)
	return len(e.hist) - 1
}

// Ret records the end of operation i.
func (x *X) Ret(i int, r0, r1 any) {
	e, t := x.e, x.e.cur
	if e.killing {
		return
	}
	e.idleMx++
	o := &e.hist[i]
	o.R0, o.R1, o.Ret, o.TRet = r0, r1, e.idleMx, e.now
	e.retsum += mix(t.hash, 'r')
	if e.trace {
		e.tracef("RET %s = %s, %s", o.Name, Str(r0), Str(r1))
	}
}

// Hist is the history so far.
func (x *X) Hist() []HistOp { return x.e.hist }

// Ev logs an event; events are totally ordered.
func (x *X) Ev(name string, a, b any) {
	e, t := x.e, x.e.cur
	if e.killing {
		return
	}
	e.touch(t, &e.evobj, 'v')
	e.evts = append(e.evts, Event{Name: name, A: a, B: b, T: e.now, Th: t.id})
	if e.trace {
		e.tracef("EVENT %s(%s,%s)", name, Str(a), Str(b))
	}
}

// Log writes to the trace of a replayed execution, without ordering the threads that do it.
func (x *X) Log(name string, a, b any) {
	if e := x.e; e.trace && !e.killing {
		e.tracef("%s(%s,%s)", name, Str(a), Str(b))
	}
}

// Events is the log so far.
func (x *X) Events() []Event { return x.e.evts }

// Note mixes v into the outcome of the execution (for counting distinct outcomes).
func (x *X) Note(v any) { x.e.outcome = mix(x.e.outcome, anyHash(v)) }

// Cases counts harness cases of this execution.
func (x *X) Cases(n int) { x.e.cells += n }

// Case counts one case of this execution and notes its inputs, to count the distinct ones.
func (x *X) Case(key ...any) {
	x.e.cells++
	if c := x.e.cells; wantSample && (c == 1 || c == 10 || c == 100) {
		t := "case"
		for _, k := range key {
			if b, ok := k.([]byte); ok {
				if len(b) > 24 {
					k = fmt.Sprintf("%d bytes %x...", len(b), b[:24])
				} else {
					k = fmt.Sprintf("%x", b)
				}
			}
			t += fmt.Sprintf(" %v", k)
		}
		if len(t) > 200 {
			t = t[:200] + "..."
		}
		x.e.caseText += t + "; "
	}
	if distinct == nil || distinct.n >= 4<<20 {
		return
	}
	h := uint64(len(key))*0x9e3779b97f4a7c15 + 1
	for _, k := range key {
		switch v := k.(type) {
		case []byte:
			h = mix(h, bytesHash(v))
		case uint64:
			h = mix(h, v)
		case uint32:
			h = mix(h, uint64(v))
		case uint16:
			h = mix(h, uint64(v))
		case uint8:
			h = mix(h, uint64(v))
		default:
			h = mix(h, anyHash(k))
		}
	}
	distinct.visit(h, 0)
}

// distinct holds the cases of the current unit.
var distinct *stateTable

// wantSample asks the execution to write down some of its cases.
var wantSample bool

func bytesHash(b []byte) uint64 {
	h := uint64(14695981039346656037) ^ uint64(len(b))
	for len(b) >= 8 {
		w := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
		h = (h ^ w) * 1099511628211
		h ^= h >> 29
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// Threads is the number of live threads other than harness threads.
func (x *X) Threads() int {
	n := 0
	for _, o := range x.e.live {
		if !o.harness {
			n++
		}
	}
	return n
}

// LiveDump describes the live threads.
func (x *X) LiveDump() string { return x.e.dump() }

// Timers is the number of pending timers.
func (x *X) Timers() int { return len(x.e.timers) }

// OnEnd registers a clean-up outside of the execution.
func (x *X) OnEnd(f func()) { x.e.onEnd = append(x.e.onEnd, f) }

// Cell is a harness variable whose accesses are ordered for the state cache but invisible to the race detector.
type Cell struct {
	v   any
	n   int64
	obj object
}

// NewCell makes a cell.
func (x *X) NewCell() *Cell { return &Cell{} }

func (c *Cell) Set(v any) {
	if dead() {
		return
	}
	ex.touch(ex.cur, &c.obj, 'S')
	c.v = v
}

func (c *Cell) Get() any {
	if !dead() {
		ex.touchR(ex.cur, &c.obj, 'G')
	}
	return c.v
}

// Add adds d to the integer of the cell and returns the new value.
func (c *Cell) Add(d int64) int64 {
	if dead() {
		return c.n
	}
	ex.touch(ex.cur, &c.obj, 'A')
	c.n += d
	return c.n
}

// N is the integer of the cell.
func (c *Cell) N() int64 {
	if !dead() {
		ex.touchR(ex.cur, &c.obj, 'G')
	}
	return c.n
}

// Tracing reports whether this is a traced replay.
func (x *X) Tracing() bool { return x.e.trace }

// ---- maps

// MapIt iterates over a map in a canonical order; an entry removed before it is reached is not produced.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	used int
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	return it
}

// MapIterKV also gives loop variables.
func MapIterKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIt[K, V]) {
	return k, v, MapIter[M, K, V](m)
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch a := any(ks).(type) {
	case []int:
		sort.Ints(a)
		return
	case []string:
		sort.Strings(a)
		return
	}
	ss := make([]string, len(ks))
	for i := range ks {
		ss[i] = fmt.Sprint(ks[i])
	}
	sort.Sort(&byStr[K]{ks, ss})
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

func mapBranch(n int) int {
	if dead() || n <= 1 || !ex.mapDev {
		return 0
	}
	return ex.branch(ex.cur, n, 1)
}

// Next produces the next entry.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		i := mapBranch(len(it.keys))
		key := it.keys[i]
		it.keys = append(it.keys[:i:i], it.keys[i+1:]...)
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
