package vrt

import (
	"time"
	"unsafe"
)

// Epoch and EpochNs (seconds and nanoseconds) are the instant at which every execution starts: not at a full second, so
// that rounded times differ from exact ones.
const (
	Epoch   = int64(1_700_000_000)
	EpochNs = int64(612_345_678)
)

// Timer is a pending virtual timer.
type Timer struct {
	when   int64
	seq    uint64
	period int64
	active bool
	ch     *chanState // channel timer
	real   chan time.Time
	fn     func()  // AfterFunc
	fired  *thread // the thread of the last AfterFunc firing
	th     *thread // sleeper
	uid    uint64
	nfire  uint64
	obj    object
	race   byte
	ep     uint32
}

// Now is the virtual time in nanoseconds since the start of the execution.
func Now() int64 {
	if ex == nil {
		return 0
	}
	e := ex
	if !e.killing {
		e.nowCalls++
		if e.nowCalls > 20000 { // a loop that polls the clock
			e.nowCalls = 0
			Sleep(1000)
		}
	}
	return e.now
}

// NowTime is Now as a time.Time.
func NowTime() time.Time { return time.Unix(Epoch, EpochNs+Now()) }

func satAdd(a, b int64) int64 {
	if b <= 0 {
		return a
	}
	if a > farFuture-b {
		return farFuture
	}
	return a + b
}

func (e *exec) addTimer(tm *Timer) {
	e.tseq++
	tm.seq = e.tseq
	tm.active = true
	e.timers = append(e.timers, tm)
}

func (e *exec) delTimer(tm *Timer) {
	for i, x := range e.timers {
		if x == tm {
			for k := i; k+1 < len(e.timers); k++ {
				e.timers[k] = e.timers[k+1]
			}
			e.timers[len(e.timers)-1] = nil
			e.timers = e.timers[:len(e.timers)-1]
			break
		}
	}
	tm.active = false
}

// advance moves the clock to the next timer and fires everything due then.
func (e *exec) advance() bool {
	min := int64(-1)
	for _, tm := range e.timers {
		if min < 0 || tm.when < min {
			min = tm.when
		}
	}
	if min < 0 || min >= farFuture {
		return false
	}
	if min > e.now {
		e.nowCalls = 0
	}
	if e.horizon > 0 && min > e.horizon {
		e.setViolation("stuck", "the scenario did not finish within its time horizon of "+durStr(e.horizon)+"\n"+e.dump())
		return false
	}
	if min > e.now {
		e.now = min
	}
	if e.trace {
		e.log = append(e.log, "t="+durStr(e.now)+" ---- clock advances")
	}
	// fire in order of (when, seq)
	for {
		var b *Timer
		for _, tm := range e.timers {
			if tm.when <= e.now && (b == nil || tm.when < b.when || tm.when == b.when && tm.seq < b.seq) {
				b = tm
			}
		}
		if b == nil {
			break
		}
		e.fire(b)
	}
	e.steps++
	return true
}

func (e *exec) fire(tm *Timer) {
	tm.nfire++
	if tm.period > 0 {
		tm.when += tm.period
		if tm.when <= e.now {
			tm.when = e.now + tm.period
		}
		e.tseq++
		tm.seq = e.tseq
	} else {
		e.delTimer(tm)
	}
	switch {
	case tm.th != nil:
		tm.th.flag = true
		tm.th.kind = opRun
		tm.th.hash = mix(tm.th.hash, uint64(e.now))
	case tm.fn != nil:
		t := e.spawn(nil, mix(tm.uid, tm.nfire), tm.fn)
		t.timer = tm
		t.hash = mix(t.uid, mix(tm.obj.w, uint64(e.now)))
		t.rel = &tm.race
		t.kind = opTimerStart
		tm.fired = t
	case tm.ch != nil:
		if tm.ch.n == 0 {
			e.push(tm.ch, time.Unix(Epoch, EpochNs+e.now))
		}
	}
}

// Sleep is time.Sleep.
func Sleep(d int64) {
	if dead() {
		return
	}
	e, t := me()
	if d <= 0 {
		t.kind = opPoint
		e.point(t)
		return
	}
	tm := &Timer{when: satAdd(e.now, d), th: t, ep: e.serial}
	t.flag = false
	e.addTimer(tm)
	t.kind = opSleep
	e.point(t)
	t.flag = false
}

// NewTimer makes a channel timer.
func NewTimer(ch chan time.Time, d, period int64) *Timer {
	tm := &Timer{period: period, real: ch}
	if dead() {
		return tm
	}
	e, t := me()
	tm.ep = e.serial
	tm.ch = stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), 1, ch)
	tm.ch.isTmr = tm
	tm.ch.split = false
	tm.when = satAdd(e.now, d)
	t.nspawn++
	tm.uid = mix(t.uid, t.nspawn+0x77)
	e.touch(t, &tm.ch.obj, 'N')
	e.addTimer(tm)
	return tm
}

// AfterFunc makes a function timer.
func AfterFunc(d int64, fn func()) *Timer {
	tm := &Timer{fn: fn}
	if dead() {
		return tm
	}
	e, t := me()
	tm.ep = e.serial
	tm.when = satAdd(e.now, d)
	t.nspawn++
	tm.uid = mix(t.uid, t.nspawn+0x77)
	e.touch(t, &tm.obj, 'N')
	raceReleaseMerge(unsafe.Pointer(&tm.race))
	e.addTimer(tm)
	return tm
}

// Stop stops the timer and reports whether it was pending.
func (tm *Timer) Stop() bool {
	if dead() || tm.ep != ex.serial {
		return false
	}
	e, t := me()
	t.kind = opPoint
	t.lbl = "timer.Stop"
	e.point(t)
	return tm.stop(e, t)
}

func (tm *Timer) stop(e *exec, t *thread) bool {
	was := tm.active
	if tm.active {
		e.delTimer(tm)
	}
	if tm.ch != nil {
		e.touch(t, &tm.ch.obj, 'S')
		if !e.asyncTimers && tm.ch.n > 0 {
			e.pop(tm.ch)
			was = true
		}
	} else {
		// a firing that has not begun to run is still pending
		if f := tm.fired; f != nil && !f.done && f.kind == opTimerStart {
			f.fn = func() {}
			was = true
			tm.fired = nil
		}
		e.touch(t, &tm.obj, 'S')
	}
	return was
}

// Reset re-arms the timer.
func (tm *Timer) Reset(d int64) bool {
	if dead() || tm.ep != ex.serial {
		return false
	}
	e, t := me()
	t.kind = opPoint
	t.lbl = "timer.Reset"
	e.point(t)
	was := tm.active
	if e.asyncTimers && tm.ch != nil {
		if was {
			e.delTimer(tm)
		}
		e.touch(t, &tm.ch.obj, 'S')
	} else {
		was = tm.stop(e, t)
	}
	if tm.fn != nil {
		raceReleaseMerge(unsafe.Pointer(&tm.race))
	}
	tm.when = satAdd(e.now, d)
	if tm.period > 0 {
		tm.period = d
	}
	e.addTimer(tm)
	return was
}
