package vrt

import (
	"os"
	"sort"
	"strconv"
	"time"
	"unsafe"
)

// stateTable is the happens-before state cache: a state reached again with no more budget than before
// leads to nothing new.
type stateTable struct {
	keys []uint64
	val  []int8
	n    int
	max  int
}

var theTable *stateTable

func newTable() *stateTable {
	return &stateTable{keys: make([]uint64, 1<<12), val: make([]int8, 1<<12), max: 1 << 25}
}

func (s *stateTable) visit(h uint64, budget int) bool {
	if h == 0 {
		h = 1
	}
	if s.n*2 > len(s.keys) && len(s.keys) < s.max {
		ok, ov := s.keys, s.val
		s.keys = make([]uint64, 2*len(ok))
		s.val = make([]int8, 2*len(ok))
		m := uint64(len(s.keys) - 1)
		for i, k := range ok {
			if k != 0 {
				j := k & m
				for s.keys[j] != 0 {
					j = (j + 1) & m
				}
				s.keys[j], s.val[j] = k, ov[i]
			}
		}
	}
	m := uint64(len(s.keys) - 1)
	j := h & m
	for s.keys[j] != 0 {
		if s.keys[j] == h {
			if int(s.val[j]) >= budget {
				return true
			}
			s.val[j] = int8(budget)
			return false
		}
		j = (j + 1) & m
	}
	if s.n*4 > len(s.keys)*3 {
		return false // full: no more caching
	}
	s.keys[j], s.val[j] = h, int8(budget)
	s.n++
	return false
}

// Scen is one scenario: a closed program over the code under check, with its oracle.
type Scen struct {
	Name    string
	Prop    string
	F       func(x *X)
	Bound   int           // preemption bound, quick tier
	BoundT  int           // preemption bound, thorough tier (default Bound+1)
	Max     int           // executions, quick tier (default 400k)
	MaxT    int           // executions, thorough tier (default 20M)
	Horizon time.Duration // virtual time limit (default 1h)
	Steps   int           // operations per execution (default 20000)
	Shards  int           // split over workers
	ShardAt int           // by the first so many choices (default 3)
	Async   bool          // timer channels with the semantics before Go 1.23
	NoCache bool          // no happens-before state cache
	NoRace  bool          // needs no race build
	MapDev  bool          // deviate map iteration order
	Thor    bool          // thorough tier only
	Delay   bool          // the bound is on all deviations from round robin scheduling (delay bounding), not on preemptions
}

// Scenarios is the registry.
var Scenarios []*Scen

// Add registers a scenario.
func Add(s Scen) {
	c := s
	Scenarios = append(Scenarios, &c)
}

// UnitResult is what exploring one scenario (or shard) gave.
type UnitResult struct {
	Name       string
	Shard      int
	Bound      int // highest bound that was completed
	Target     int // requested bound
	Complete   bool
	Execs      int64 // executions run to their end
	Pruned     int64 // executions cut short by the state cache
	Steps      int64 // operations executed
	States     int64 // distinct happens-before states at branching points, plus choice nodes
	Branches   int64
	Outcomes   int64
	MaxDepth   int
	Cases      int64 // harness-counted cases
	Distinct   int64 // distinct ones
	Diverged   int64
	Incon      int64
	Sample     string
	Viol       *Violation `json:",omitempty"`
	Trail      []int32    `json:",omitempty"`
	Log        []string   `json:",omitempty"`
	ViolBound  int
	ViolExec   int64
	RaceReport string  `json:",omitempty"`
	WallS      float64 `json:",omitempty"`
}

var doneCh = make(chan struct{}, 1)
var exPool exec

// X is the harness' view of an execution.
type X struct {
	e    *exec
	main *thread
}

func runResets() {
	for i := range resets {
		resets[i].fn()
	}
}

// OnExecEnd etc. could be added; currently executions own no outside resources.

// run performs one execution with the given choice prefix.
func run(sc *Scen, prefix []int32, bound int, trace bool) *exec {
	execCount++
	progress.Add(1)
	e := &exPool
	trail := e.trail[:0]
	en := e.en[:0]
	chans, objs := e.chans, e.objs
	chans.reset()
	objs.reset()
	hist, evts := e.hist[:0], e.evts[:0]
	for i := range e.threads {
		e.threads[i] = nil
	}
	threads := e.threads[:0]
	live := e.live[:0]
	timers := e.timers[:0]
	*e = exec{serial: execCount, trail: trail, en: en, chans: chans, objs: objs, hist: hist, evts: evts, threads: threads, live: live, timers: timers,
		prefix: prefix, bound: bound, done: doneCh, trace: trace, asyncTimers: sc.Async, mapDev: sc.MapDev, delay: sc.Delay}
	e.horizon = int64(sc.Horizon)
	if e.horizon == 0 {
		e.horizon = int64(time.Hour)
	}
	e.maxSteps = int64(sc.Steps)
	if e.maxSteps == 0 {
		e.maxSteps = 20000
	}
	for len(pool) < 12 {
		pool = append(pool, newPG())
	}
	ex = nil
	raceAcquire(unsafe.Pointer(&endRace))
	runResets()
	ex = e
	x := &X{e: e}
	root := &thread{}
	root.uid = 1
	t := e.spawn(root, 0, func() {
		sc.F(x)
		e.over = true
	})
	t.nm = "main"
	t.harness = true
	t.aux = true
	x.main = t
	for _, fn := range initGos {
		e.spawn(root, 0, fn)
	}
	raceRelease(unsafe.Pointer(&t.spawner))
	e.cur = t
	e.last = t
	t.resume()
	e.await()
	// kill what is left, one thread at a time, in two rounds (see killed)
	e.killing = true
	for _, t := range e.threads {
		if t.done && t.g != nil {
			pool = append(pool, t.g)
			t.g.t = nil
			t.g = nil
		}
	}
	for round := 0; round < 2; round++ {
		for _, t := range e.threads {
			if t.done {
				continue
			}
			e.cur = t
			t.resume()
			e.await()
			if t.done && t.g != nil {
				pool = append(pool, t.g)
				t.g.t = nil
				t.g = nil
			}
		}
	}
	for len(e.onEnd) > 0 {
		f := e.onEnd[len(e.onEnd)-1]
		e.onEnd = e.onEnd[:len(e.onEnd)-1]
		f()
	}
	ex = nil
	raceAcquire(unsafe.Pointer(&endRace))
	if r := raceErrors(); r > raceSeen {
		raceSeen = r
		if e.viol == nil {
			e.viol = &Violation{Kind: "race", Msg: "data race (see the race detector's report)"}
		}
	}
	return e
}

var raceSeen int

func (e *exec) await() {
	raceDisable()
	<-e.done
	raceEnable()
}

// Explore enumerates the executions of sc up to the given preemption bound.
func Explore(sc *Scen, bound int, maxExecs int64, shard, shards int, deadline time.Time) *UnitResult {
	res := &UnitResult{Name: sc.Name, Shard: shard, Target: bound, Bound: -1}
	start := time.Now()
	outcomes := map[uint64]struct{}{}
	distinct = newTable()
	sort.SliceStable(resets, func(i, j int) bool { return resets[i].prio < resets[j].prio })
	finish := func() *UnitResult {
		res.Outcomes = int64(len(outcomes))
		res.Distinct = int64(distinct.n)
		res.WallS = time.Since(start).Seconds()
		return res
	}
	for b := 0; b <= bound; b++ {
		if sc.NoCache {
			theTable = nil
		} else {
			theTable = newTable()
		}
		casesB := int64(0)
		var prefix []int32
		complete := true
		branched := false // some choice was cut off by the bound
		for {
			if res.Execs+res.Pruned >= maxExecs {
				complete = false
				break
			}
			if (res.Execs+res.Pruned)&63 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
				complete = false
				break
			}
			shardN, shardI, shardDepth = shards, shard, 3
			if sc.ShardAt > 0 {
				shardDepth = sc.ShardAt
			}
			wantSample = res.Sample == ""
			e := run(sc, prefix, b, false)
			res.Steps += e.steps
			if len(e.trail) > res.MaxDepth {
				res.MaxDepth = len(e.trail)
			}
			if e.diverge {
				res.Diverged++
			}
			if e.pruned {
				res.Pruned++
			} else {
				res.Execs++
				casesB += int64(e.cells)
				outcomes[e.outcomeHash()] = struct{}{}
				if res.Sample == "" {
					res.Sample = e.sample()
				}
			}
			if e.viol != nil {
				res.Viol = e.viol
				res.ViolBound = b
				res.ViolExec = res.Execs
				for _, c := range e.trail {
					res.Trail = append(res.Trail, c.idx)
				}
				return finish()
			}
			if e.cut {
				branched = true
			}
			// backtrack: every node in the trail has affordable alternatives
			tr := e.trail
			i := len(tr) - 1
			for i >= 0 && tr[i].idx+1 >= tr[i].n {
				i--
			}
			if i < 0 {
				break
			}
			res.Branches++
			prefix = prefix[:0]
			for k := 0; k < i; k++ {
				prefix = append(prefix, tr[k].idx)
			}
			prefix = append(prefix, tr[i].idx+1)
		}
		if theTable != nil {
			res.States = int64(theTable.n)
		}
		if b == 0 || complete {
			if casesB > res.Cases {
				res.Cases = casesB
			}
		}
		if !complete {
			return finish()
		}
		res.Bound = b
		if !branched {
			// nothing was cut off: the space is exhausted for every bound
			res.Bound = bound
			res.Complete = true
			return finish()
		}
	}
	res.Complete = true
	return finish()
}

var shardN, shardI, shardDepth int

func (e *exec) outcomeHash() uint64 {
	h := e.outcome
	for i := range e.hist {
		o := &e.hist[i]
		h = mix(h, uint64(o.Th))
		h = mix(h, anyHash(o.R0))
		h = mix(h, anyHash(o.R1))
	}
	for i := range e.evts {
		h = mix(h, strHash(e.evts[i].Name))
		h = mix(h, anyHash(e.evts[i].A))
		h = mix(h, anyHash(e.evts[i].B))
		h = mix(h, uint64(e.evts[i].T))
	}
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func anyHash(v any) uint64 {
	switch x := v.(type) {
	case nil:
		return 3
	case int:
		return mix(uint64(x), 5)
	case int64:
		return mix(uint64(x), 6)
	case bool:
		return mix(b2u(x), 7)
	case string:
		return strHash(x)
	case error:
		return strHash(x.Error())
	}
	return 11
}

func (e *exec) sample() string {
	s := ""
	for i := range e.hist {
		if i > 12 {
			s += " ..."
			break
		}
		o := &e.hist[i]
		s += o.String() + "; "
	}
	for i := range e.evts {
		if i > 12 {
			s += " ..."
			break
		}
		v := &e.evts[i]
		s += v.Name + "(" + Str(v.A) + "," + Str(v.B) + ")@" + durStr(v.T) + "; "
	}
	c := ""
	for i := range e.trail {
		if i > 40 {
			c += "..."
			break
		}
		c += strconv.Itoa(int(e.trail[i].idx))
	}
	return "choices=" + c + " " + s + e.caseText
}

// Replay runs one recorded execution with tracing.
func Replay(sc *Scen, trail []int32, bound int) *UnitResult {
	theTable = nil
	shardN = 0
	sort.SliceStable(resets, func(i, j int) bool { return resets[i].prio < resets[j].prio })
	e := run(sc, trail, bound, true)
	return &UnitResult{Name: sc.Name, Viol: e.viol, Log: e.log, Trail: trail, Execs: 1, Steps: e.steps}
}

// watchdog ends the process when one execution burns CPU without reaching a scheduling point.
// Watch ends the process when one execution burns CPU without end.
func Watch(limit time.Duration, report func()) {
	go func() {
		last := progress.Load()
		since := cpuTime()
		for {
			time.Sleep(500 * time.Millisecond)
			p := progress.Load()
			if p != last {
				last = p
				since = cpuTime()
				continue
			}
			if cpuTime()-since > limit {
				report()
				os.Exit(7)
			}
		}
	}()
}
