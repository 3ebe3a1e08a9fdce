// Package vrt is a controlled runtime: the packages under check are rewritten
// so that all their concurrency goes through it. Exactly one managed thread
// runs at a time; at every visible operation the scheduler decides which
// thread goes on, and the explorer (explore.go) enumerates those decisions
// exhaustively. Time is virtual and moves only when every thread is blocked.
//
// The package is compiled without race instrumentation. Hand-offs between
// threads are hidden from the race detector, and every primitive reports its
// own happens-before edges, so that in a -race build the detector sees the
// synchronisation the program asked for and nothing else.
package vrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"unsafe"
)

type opKind uint8

const (
	opRun        opKind = iota // ready to run up to its next operation (invisible)
	opPoint                    // always enabled visible point
	opLock                     // mutex
	opRW1                      // rwmutex writer, phase 1: become the pending writer
	opRW2                      // rwmutex writer, phase 2: wait for readers
	opRLock                    // rwmutex reader
	opChan                     // blocking channel operation (send, receive or select)
	opTrySel                   // select with default
	opSleep                    // wait for virtual time
	opFlag                     // wait for a flag owned by the object
	opWG                       // wait for a WaitGroup
	opYield                    // runtime.Gosched
	opJoin                     // harness: wait for other threads
	opQuiet                    // harness: wait until nothing else can run
	opNever                    // blocked for ever
	opTimerStart               // a fired AfterFunc that has not begun to run
)

var opNames = [...]string{"run", "point", "lock", "wlock", "wlock-wait-readers", "rlock", "chan", "try-select", "sleep", "wait", "waitgroup", "yield", "join", "settle", "blocked-forever", "timer function start"}

type object struct{ w, r uint64 }

type pend struct {
	ch   *chanState
	send bool
	val  any
}

type thread struct {
	id      int
	uid     uint64
	hash    uint64
	nspawn  uint64
	nm      string
	parent  *thread
	harness bool
	aux     bool // harness thread that does not count for Join

	g    *pg
	fn   func()
	done bool

	kind     opKind
	obj      unsafe.Pointer
	cases    []pend
	annTime  int64 // virtual time of the announcement
	complete bool  // channel op was completed by a partner
	sel      int
	rval     any
	rok      bool
	flag     bool
	panicCls bool // completed by close: a pending send must panic
	started  bool
	spawner  byte
	spins    int
	yields   int
	what     string
	lbl      string
	annRace  byte
	rvRace   byte
	pendRv   bool
	pendSlot *chanState
	pendIdx  int
	sub      int
	timer    *Timer
	rel      *byte
}

func (t *thread) name() string {
	if t.nm != "" {
		return t.nm
	}
	if t.parent != nil {
		return t.parent.name() + "." + strconv.Itoa(t.sub)
	}
	return "timer"
}

// pg is a pooled goroutine.
type pg struct {
	wake chan struct{}
	t    *thread
	quit bool
}

type choice struct {
	n    int32 // alternatives
	idx  int32 // taken
	cost int8  // cost of every alternative except 0
	kind uint8 // 0 schedule, 1 data
}

type exec struct {
	serial   uint32
	threads  []*thread
	live     []*thread
	cur      *thread
	last     *thread // executed the last visible operation
	now      int64
	timers   []*Timer
	tseq     uint64
	nthreads int

	// choices
	trail   []choice
	prefix  []int32
	used    int // budget used so far
	bound   int
	pruned  bool
	cut     bool // an alternative was beyond the bound
	diverge bool

	over      bool
	killing   bool
	viol      *Violation
	incon     string // inconclusive: step limit reached inside the harness bounds
	done      chan struct{}
	steps     int64
	maxSteps  int64
	horizon   int64
	nobranch  int
	freeSched bool

	objs   objTable
	chans  chanTable
	en     []*thread
	trace  bool
	log    []string
	hist   []HistOp
	retsum uint64
	evts   []Event
	evobj  object
	delay  bool // delay bounding
	idleMx int64

	asyncTimers bool
	mapDev      bool
	nowCalls    int
	cells       int
	caseText    string
	yielding    int
	outcome     uint64
	onEnd       []func()
}

// Violation is a failed property with what is needed to understand it.
type Violation struct {
	Kind string // property, deadlock, panic, race, stuck, livelock, hang, crash
	Msg  string
}

var (
	ex        *exec // current execution, nil outside
	execCount uint32
	pool      []*pg
	resets    []resetFn
	initGos   []func()
	progress  atomic.Uint64 // for the watchdog
)

type resetFn struct {
	prio int
	fn   func()
}

// OnReset registers the re-initialisation of a package variable.
func OnReset(prio int, fn func()) { resets = append(resets, resetFn{prio, fn}) }

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b + 0x632BE59BD9B4E019
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	x *= 0x94D049BB133111EB
	x ^= x >> 29
	return x
}

// ---- goroutine pool

func newPG() *pg {
	g := &pg{wake: make(chan struct{}, 1)}
	go g.loop()
	return g
}

func (g *pg) wait() {
	raceDisable()
	<-g.wake
	raceEnable()
}

func (g *pg) signal() {
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
}

func (g *pg) loop() {
	for {
		g.wait()
		if g.quit {
			return
		}
		g.t.main()
		if g.quit {
			return
		}
	}
}

func (t *thread) main() {
	normal := false
	e := ex
	defer func() {
		if !normal {
			// panic or Goexit
			if r := recover(); r != nil {
				if !e.killing {
					msg := fmtPanic(r)
					st := trimStack(string(debug.Stack()))
					e.setViolation("panic", "panic in goroutine "+t.name()+": "+msg+"\n"+st)
				}
				normal = true
			}
		}
		t.finish(e, normal)
	}()
	raceAcquire(unsafe.Pointer(&t.spawner))
	if t.rel != nil {
		raceAcquire(unsafe.Pointer(t.rel))
	}
	if t.timer != nil {
		e.touch(t, &t.timer.obj, 'F')
	}
	if !e.killing {
		t.fn()
	}
	normal = true
}

func fmtPanic(r any) string {
	switch v := r.(type) {
	case error:
		return v.Error()
	case string:
		return v
	}
	return fmt.Sprint(r)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "verif/vrt.") || strings.HasPrefix(lines[i], "runtime") || strings.HasPrefix(lines[i], "goroutine ") || strings.HasPrefix(lines[i], "panic(") {
			i++
			if strings.HasPrefix(lines[i-1], "goroutine ") {
				i--
			}
			continue
		}
		out = append(out, lines[i])
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// finish runs on t's goroutine when its function is over. alive tells whether the goroutine survives.
func (t *thread) finish(e *exec, alive bool) {
	t.done = true
	raceReleaseMerge(unsafe.Pointer(&endRace))
	if !alive {
		t.g = nil // the goroutine is going away (Goexit)
	}
	if e.killing {
		e.signalDone()
		return
	}
	e.removeLive(t)
	t.fn, t.obj, t.cases, t.rval, t.pendSlot, t.timer, t.rel = nil, nil, nil, nil, nil, nil, nil // what it kept in memory
	if t.harness {
		raceReleaseMerge(unsafe.Pointer(&joinRace))
	}
	t.hash = mix(t.hash, 0xE0D)
	if e.over || e.viol != nil {
		e.over = true
		e.signalDone()
		return
	}
	n := e.pick(t)
	if n == nil {
		e.over = true
		e.signalDone()
		return
	}
	e.cur = n
	n.resume()
}

var endRace byte
var joinRace byte

func (e *exec) signalDone() {
	raceDisable()
	e.done <- struct{}{}
	raceEnable()
}

func (e *exec) removeLive(t *thread) {
	for i, x := range e.live {
		if x == t {
			for k := i; k+1 < len(e.live); k++ {
				e.live[k] = e.live[k+1]
			}
			e.live[len(e.live)-1] = nil
			e.live = e.live[:len(e.live)-1]
			return
		}
	}
}

// resume hands the token to t.
func (t *thread) resume() { t.g.signal() }

// spawn creates a managed thread; parent may be nil (timers).
func (e *exec) spawn(parent *thread, uid uint64, fn func()) *thread {
	t := &thread{id: len(e.threads), fn: fn, kind: opRun, annTime: e.now}
	if parent != nil {
		parent.nspawn++
		t.uid = mix(parent.uid, parent.nspawn)
		parent.hash = mix(parent.hash, 0x5Fa)
		t.hash = mix(parent.hash, t.uid)
		t.parent = parent
		t.sub = int(parent.nspawn)
		raceRelease(unsafe.Pointer(&t.spawner))
	} else {
		t.uid = uid
		t.hash = uid
	}
	if n := len(pool); n > 0 {
		t.g = pool[n-1]
		pool = pool[:n-1]
	} else {
		t.g = newPG()
	}
	t.g.t = t
	e.threads = append(e.threads, t)
	e.live = append(e.live, t)
	return t
}

// Go starts fn as a managed thread.
func Go(fn func()) {
	e := ex
	if e == nil {
		initGos = append(initGos, fn)
		return
	}
	if e.killing {
		return
	}
	t := e.cur
	n := e.spawn(t, 0, fn)
	if e.trace {
		e.tracef("go %s", n.name())
	}
}

func (e *exec) setViolation(kind, msg string) {
	if e.viol == nil {
		e.viol = &Violation{Kind: kind, Msg: msg}
	}
	e.over = true
}

// stop parks the calling thread for ever: the execution is over.
func (e *exec) stop(t *thread) {
	e.over = true
	e.signalDone()
	t.g.wait()
	e.killed(t)
}

// killed ends the calling thread. Its deferred functions still run, with locks and channels that do
// nothing any more; all threads are therefore ordered first (two rounds), for the race detector.
func (e *exec) killed(t *thread) {
	raceReleaseMerge(unsafe.Pointer(&endRace))
	e.signalDone()
	t.g.wait()
	raceAcquire(unsafe.Pointer(&endRace))
	runtime.Goexit()
}

// point announces t's pending operation and returns when the scheduler picked t.
func (e *exec) point(t *thread) {
	t.annTime = e.now
	e.steps++
	if e.trace && t.kind != opRun {
		t.what = t.describe()
	}
	n := e.pick(t)
	t.lbl = ""
	if n == t {
		return
	}
	if n == nil {
		e.stop(t)
	}
	e.cur = n
	n.resume()
	t.g.wait()
	if e.killing {
		e.killed(t)
	}
}

const farFuture = int64(1) << 62

// pick decides which thread runs next; nil ends the execution.
func (e *exec) pick(t *thread) *thread {
	for {
		if e.over {
			return nil
		}
		// invisible transitions first: they commute with everything
		for _, x := range e.live {
			if x.kind == opRun {
				return x
			}
		}
		if e.steps > e.maxSteps {
			e.setViolation("livelock", "no progress: "+strconv.FormatInt(e.steps, 10)+" operations without reaching the end of the scenario\n"+e.dump())
			return nil
		}
		en := e.en[:0]
		last := e.last
		lastOK := false
		if last != nil && !last.done && e.enabled(last) && last.kind != opYield {
			if last.spins < 400 {
				en = append(en, last)
				lastOK = true
			}
		}
		// the others, round robin after the last one
		start := 0
		if last != nil {
			for i, x := range e.live {
				if x.id > last.id {
					start = i
					break
				}
			}
		}
		nl := len(e.live)
		var quiet *thread
		for k := 0; k < nl; k++ {
			x := e.live[(start+k)%nl]
			if x == last && lastOK {
				continue
			}
			if x.kind == opQuiet {
				quiet = x
				continue
			}
			if x.kind == opYield {
				continue
			}
			if e.enabled(x) {
				en = append(en, x)
			}
		}
		if len(en) == 0 {
			// yielding threads run only when nothing else can
			for k := 0; k < nl; k++ {
				x := e.live[(start+k)%nl]
				if x.kind == opYield {
					en = append(en, x)
				}
			}
			if len(en) > 0 {
				e.yielding++
				if e.yielding > 200 {
					e.yielding = 0
					if e.advance() {
						continue
					}
				}
				en = en[:1]
			}
		} else {
			e.yielding = 0
		}
		e.en = en
		if quiet != nil && e.yielding > 100 {
			e.yielding = 0
			return e.chosen(quiet)
		}
		if len(en) == 0 {
			if quiet != nil {
				return e.chosen(quiet)
			}
			if e.advance() {
				continue
			}
			if e.over {
				return nil
			}
			e.setViolation("deadlock", "all goroutines are blocked and no timer is pending\n"+e.dump())
			return nil
		}
		if len(en) == 1 {
			return e.chosen(en[0])
		}
		if last != nil && !lastOK && last.spins >= 400 && en[0] != last {
			return e.chosen(en[0]) // fairness: the last thread polls
		}
		cost := int8(0)
		if lastOK || e.delay {
			cost = 1
		}
		if e.nobranch > 0 {
			return e.chosen(en[0])
		}
		if len(e.trail) >= len(e.prefix) && theTable != nil {
			if e.seen(last, lastOK) {
				e.pruned = true
				e.over = true
				return nil
			}
		}
		if cost > 0 && e.used+int(cost) > e.bound {
			e.cut = true
			return e.chosen(en[0])
		}
		i := e.choose(len(en), cost, 0)
		return e.chosen(en[i])
	}
}

func (e *exec) chosen(t *thread) *thread {
	if e.last == t {
		t.spins++
	} else {
		t.spins = 0
		if e.last != nil {
			e.last.spins = 0
		}
	}
	e.last = t
	if e.trace {
		e.tracef2(t, t.what)
	}
	return t
}

// seen checks the happens-before state cache; see explore.go.
func (e *exec) seen(last *thread, lastOK bool) bool {
	var h uint64
	for _, t := range e.threads {
		h += mix(t.uid, t.hash)
	}
	h = mix(h, uint64(e.now))
	if lastOK || e.delay && last != nil {
		h = mix(h, last.uid)
	}
	if e.delay { // the order of the threads decides what is the default
		for _, x := range e.live {
			h = mix(h, x.uid)
		}
	}
	for _, x := range e.live {
		if x.spins >= 400 {
			h = mix(h, x.uid)
		}
	}
	return theTable.visit(h, e.bound-e.used)
}

// choose makes a branching decision with n alternatives.
func (e *exec) choose(n int, cost int8, kind uint8) int {
	i := 0
	p := len(e.trail)
	if p < len(e.prefix) {
		i = int(e.prefix[p])
		if i >= n {
			e.diverge = true
			i = 0
		}
	}
	e.trail = append(e.trail, choice{n: int32(n), idx: int32(i), cost: cost, kind: kind})
	if i > 0 {
		e.used += int(cost)
	}
	if shardN > 1 && p+1 == shardDepth {
		h := uint64(0)
		for _, c := range e.trail {
			h = mix(h, uint64(c.idx))
		}
		if int(h%uint64(shardN)) != shardI {
			e.pruned = true
			e.over = true
		}
	}
	return i
}

func (e *exec) enabled(t *thread) bool {
	switch t.kind {
	case opRun, opPoint, opTrySel, opYield, opTimerStart:
		return true
	case opLock:
		m := (*Mutex)(t.obj)
		return !m.locked
	case opRW1:
		m := (*RWMutex)(t.obj)
		return m.pending == nil
	case opRW2:
		m := (*RWMutex)(t.obj)
		return m.readers == 0
	case opRLock:
		m := (*RWMutex)(t.obj)
		return m.pending == nil
	case opChan:
		if t.complete {
			return true
		}
		for i := range t.cases {
			if e.caseReady(t, i) {
				return true
			}
		}
		return false
	case opSleep, opFlag:
		return t.flag
	case opWG:
		w := (*WaitGroup)(t.obj)
		return w.n == 0
	case opJoin:
		for _, x := range e.live {
			if x != t && x.harness && !x.aux {
				return false
			}
		}
		return true
	}
	return false
}

// touch records a write-like access of o by the current thread for the happens-before hash.
func (e *exec) touch(t *thread, o *object, kind uint64) {
	h := mix(t.hash, mix(o.w+o.r*3, kind))
	o.w = h
	o.r = 0
	t.hash = h
}

// touchR records an access that commutes with other such accesses.
func (e *exec) touchR(t *thread, o *object, kind uint64) {
	h := mix(t.hash, mix(o.w, kind))
	o.r += h
	t.hash = h
}

func (e *exec) dump() string {
	var b strings.Builder
	for _, t := range e.live {
		b.WriteString("  " + t.name() + ": " + t.describe() + "\n")
	}
	return b.String()
}

func (t *thread) describe() string {
	s := opNames[t.kind]
	if t.lbl != "" {
		s = t.lbl
	}
	if t.kind == opChan || t.kind == opTrySel {
		s = ""
		for i, c := range t.cases {
			if i > 0 {
				s += " | "
			}
			if c.send {
				s += "send "
			} else {
				s += "recv "
			}
			if c.ch == nil {
				s += "nil-chan"
			} else {
				s += c.ch.label()
			}
		}
		if t.kind == opTrySel {
			s += " | default"
		}
	}
	if ex != nil && ex.trace {
		if ex.cur == t {
			s += " at " + site()
		}
	}
	return s
}

// site finds the caller outside the runtime packages.
func site() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "verif/vrt") {
			return f.File[strings.LastIndexByte(f.File, '/')+1:] + ":" + strconv.Itoa(f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (e *exec) tracef(f string, a ...any) { e.tracef2(e.cur, fmt.Sprintf(f, a...)) }

func (e *exec) tracef2(t *thread, s string) {
	if len(e.log) < 4000 {
		e.log = append(e.log, fmt.Sprintf("t=%-8s %-14s %s", durStr(e.now), t.name(), s))
	}
}

func durStr(n int64) string {
	return strconv.FormatFloat(float64(n)/1e6, 'f', -1, 64) + "ms"
}

// dead reports whether runtime operations should do nothing (outside of an execution or while killing).
func dead() bool { return ex == nil || ex.killing }

// me returns the running thread.
func me() (*exec, *thread) { return ex, ex.cur }

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "vrt: "+s)
	os.Exit(4)
}

// Gosched is runtime.Gosched.
func Gosched() {
	if dead() {
		return
	}
	e, t := me()
	t.kind = opYield
	e.point(t)
	t.kind = opPoint
}

// Point is a visible point without effect.
func Point() {
	if dead() {
		return
	}
	e, t := me()
	t.kind = opPoint
	e.point(t)
	t.hash = mix(t.hash, 7)
}

// Block blocks for ever.
func Block() {
	if dead() {
		if ex != nil {
			runtime.Goexit()
		}
		select {}
	}
	e, t := me()
	t.kind = opNever
	e.point(t)
}
