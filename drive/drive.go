// Package drive runs the scenarios of one property over a pool of worker
// processes, confirms violations by replay, and writes the evidence file.
package drive

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/vrt"
)

// Prop describes how the evidence of a property is labelled.
type Prop struct {
	Level       string // model_checking, exploration or fault_enumeration
	Rule        string
	Assumptions []string
}

// Props is filled in by the check packages.
var Props = map[string]Prop{}

type job struct {
	Scen     string
	Bound    int
	Max      int64
	Shard    int
	Shards   int
	Deadline int64
	Replay   []int32 `json:",omitempty"`
	IsReplay bool
}

type replayFile struct {
	Property string
	Scenario string
	Bound    int
	Trail    []int32
	Kind     string
	Message  string
	Race     string   `json:",omitempty"`
	Trace    []string `json:",omitempty"`
	Crash    string   `json:",omitempty"`
	How      string
}

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fWork   = flag.String("work", "", "scratch directory")
	fOut    = flag.String("out", "", "/verif")
	fWorker = flag.Bool("worker", false, "")
	fList   = flag.Bool("list", false, "list scenarios")
	fOnly   = flag.String("only", "", "only scenarios containing this text")
	fBound  = flag.Int("bound", -1, "override the bound")
	fVerb   = flag.Bool("v", false, "verbose")
	fReplay = flag.String("replay", "", "replay file")
	fMore   = flag.String("more", "", "second binary for scenarios that need no race build")
	fJ      = flag.Int("j", 0, "workers")
	fLimit  = flag.Int("limit", 0, "seconds")
	fProf   = flag.String("cpuprofile", "", "")
)

// Main is the entry point of every check binary.
func Main() {
	flag.Parse()
	if *fWorker {
		worker()
		return
	}
	if *fList {
		for _, s := range vrt.Scenarios {
			fmt.Println(s.Prop, s.Name, s.Bound, s.BoundT)
		}
		return
	}
	if *fReplay != "" {
		os.Exit(doReplay())
	}
	os.Exit(coordinate())
}

func find(name string) *vrt.Scen {
	for _, s := range vrt.Scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	if *fProf != "" {
		startProfile(*fProf)
		defer stopProfile()
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var cur job
	vrt.Watch(25*time.Second, func() {
		fmt.Fprintf(os.Stderr, "WATCHDOG: one execution of %s used 25 s of CPU without finishing\n", cur.Scen)
	})
	for in.Scan() {
		var j job
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			fmt.Fprintln(os.Stderr, "bad job:", err)
			os.Exit(5)
		}
		cur = j
		sc := find(j.Scen)
		if sc == nil {
			fmt.Fprintln(os.Stderr, "no scenario", j.Scen)
			os.Exit(5)
		}
		var r *vrt.UnitResult
		if j.IsReplay {
			r = vrt.Replay(sc, j.Replay, j.Bound)
		} else {
			dl := time.Time{}
			if j.Deadline > 0 {
				dl = time.Unix(0, j.Deadline)
			}
			r = vrt.Explore(sc, j.Bound, j.Max, j.Shard, j.Shards, dl)
		}
		if err := enc.Encode(r); err != nil {
			os.Exit(5)
		}
		out.Flush()
	}
}

// proc is a running worker process.
type proc struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	inc  interface{ Close() error }
	out  *bufio.Reader
	errf string
	race string
}

var procN int
var procMu sync.Mutex

func startProc() (*proc, error) {
	procMu.Lock()
	procN++
	n := procN
	procMu.Unlock()
	p := &proc{}
	self, _ := os.Executable()
	args := []string{"-worker"}
	if *fProf != "" {
		args = append(args, "-cpuprofile", *fProf)
	}
	p.cmd = exec.Command(self, args...)
	p.race = filepath.Join(*fWork, "race"+strconv.Itoa(n))
	p.errf = filepath.Join(*fWork, "err"+strconv.Itoa(n))
	p.cmd.Env = append(os.Environ(), "GORACE=log_path="+p.race+" exitcode=0 halt_on_error=0 atexit_sleep_ms=0", "GOTRACEBACK=single")
	ef, err := os.Create(p.errf)
	if err != nil {
		return nil, err
	}
	p.cmd.Stderr = ef
	w, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.inc = w
	p.in = json.NewEncoder(w)
	p.out = bufio.NewReaderSize(r, 1<<20)
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	ef.Close()
	return p, nil
}

func (p *proc) do(j job) (*vrt.UnitResult, error) {
	if err := p.in.Encode(j); err != nil {
		return nil, err
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r vrt.UnitResult
	if err := json.Unmarshal(line, &r); err != nil {
		return nil, fmt.Errorf("bad answer: %v: %.200s", err, line)
	}
	return &r, nil
}

func (p *proc) stop() {
	p.inc.Close()
	done := make(chan struct{})
	go func() { p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		p.cmd.Process.Kill()
		<-done
	}
}

func (p *proc) raceReport() string {
	b, _ := os.ReadFile(p.race + "." + strconv.Itoa(p.cmd.Process.Pid))
	s := string(b)
	if len(s) > 12000 {
		s = s[:12000]
	}
	return s
}

func (p *proc) stderr() string {
	b, _ := os.ReadFile(p.errf)
	s := string(b)
	if len(s) > 8000 {
		s = s[:8000]
	}
	return s
}

type violation struct {
	scen  *vrt.Scen
	kind  string
	msg   string
	bound int
	trail []int32
	race  string
	log   []string
	crash string
}

// confirm replays a violation in a fresh process; it returns the traced result.
func confirm(v *violation) bool {
	for try := 0; try < 2; try++ {
		p, err := startProc()
		if err != nil {
			continue
		}
		r, err := p.do(job{Scen: v.scen.Name, Bound: v.bound, Replay: v.trail, IsReplay: true})
		if err != nil {
			// the process died on the replay as well
			p.stop()
			v.crash = p.stderr()
			return true
		}
		p.stop()
		if r.Viol != nil {
			v.log = r.Log
			if r.Viol.Kind == "race" {
				v.race = p.raceReport()
			}
			v.msg = r.Viol.Msg
			v.kind = r.Viol.Kind
			return true
		}
	}
	return false
}

func coordinate() int {
	start := time.Now()
	id := *fProp
	thorough := *fTier == "thorough"
	var scens []*vrt.Scen
	for _, s := range vrt.Scenarios {
		if s.Prop == id && (*fOnly == "" || strings.Contains(s.Name, *fOnly)) && (thorough || !s.Thor) {
			scens = append(scens, s)
		}
	}
	if len(scens) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", id)
		return 2
	}
	limit := 300 * time.Second
	if thorough {
		limit = 3000 * time.Second
	}
	if *fLimit > 0 {
		limit = time.Duration(*fLimit) * time.Second
	}
	deadline := start.Add(limit)
	var jobs []job
	for _, s := range scens {
		b := s.Bound
		max := int64(400_000)
		if s.Max > 0 {
			max = int64(s.Max)
		}
		if thorough {
			b = s.Bound + 1
			if s.BoundT > 0 {
				b = s.BoundT
			}
			max = 20_000_000
			if s.MaxT > 0 {
				max = int64(s.MaxT)
			}
		}
		if *fBound >= 0 {
			b = *fBound
		}
		sh := s.Shards
		if sh < 1 {
			sh = 1
		}
		for i := 0; i < sh; i++ {
			jobs = append(jobs, job{Scen: s.Name, Bound: b, Max: max, Shard: i, Shards: sh, Deadline: deadline.UnixNano()})
		}
	}
	nw := *fJ
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	if nw > len(jobs) {
		nw = len(jobs)
	}
	var mu sync.Mutex
	next := 0
	var results []*vrt.UnitResult
	var viols []*violation
	var engineErr []string
	skipped := 0
	stopAll := false
	var wg sync.WaitGroup
	known := loadKnown(id)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				if stopAll || next >= len(jobs) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				if time.Now().After(deadline) {
					skipped++
					mu.Unlock()
					continue
				}
				mu.Unlock()
				var r *vrt.UnitResult
				var err error
				crash := ""
				for try := 0; try < 2; try++ {
					if p == nil {
						p, err = startProc()
						if err != nil {
							p = nil
							break
						}
					}
					r, err = p.do(j)
					if err == nil {
						break
					}
					p.stop()
					crash = p.stderr()
					p = nil
				}
				mu.Lock()
				if err != nil {
					if crash != "" && strings.Contains(crash, "vrt: ") {
						engineErr = append(engineErr, j.Scen+": "+crash)
					} else if crash != "" {
						viols = append(viols, &violation{scen: find(j.Scen), kind: "crash", msg: "the process running the code died (twice)", crash: crash, bound: j.Bound})
						stopAll = true
					} else {
						engineErr = append(engineErr, j.Scen+": "+err.Error())
					}
					mu.Unlock()
					continue
				}
				results = append(results, r)
				if *fVerb {
					fmt.Printf("%-40s sh=%d b=%d/%d compl=%v execs=%d pruned=%d states=%d steps=%d out=%d depth=%d cases=%d %.1fs (%.1fus/exec)\n", r.Name, r.Shard, r.Bound, r.Target, r.Complete, r.Execs, r.Pruned, r.States, r.Steps, r.Outcomes, r.MaxDepth, r.Cases, r.WallS, r.WallS*1e6/float64(r.Execs+r.Pruned+1))
				}
				if r.Viol != nil {
					v := &violation{scen: find(j.Scen), kind: r.Viol.Kind, msg: r.Viol.Msg, bound: r.ViolBound, trail: r.Trail}
					viols = append(viols, v)
					if known.match(v) == "" {
						stopAll = true
					}
					if r.Viol.Kind == "race" {
						p.stop()
						viols[len(viols)-1].race = p.raceReport()
						p = nil
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool {
		return results[i].Name < results[j].Name || results[i].Name == results[j].Name && results[i].Shard < results[j].Shard
	})
	code := 0
	reported := 0
	for _, v := range viols {
		if v.kind != "crash" {
			ok := confirm(v)
			if !ok {
				fmt.Printf("note: violation in %s was not reproduced by its replay (nondeterminism outside of the scheduler)\n", v.scen.Name)
			}
		}
		path := writeReplay(id, v)
		first, _, _ := strings.Cut(v.msg, "\n")
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		reported++
		fmt.Printf("scenario %s: %s: %s\n", v.scen.Name, v.kind, first)
		if *fVerb {
			fmt.Println(v.msg)
			fmt.Println(v.race)
			fmt.Println(v.crash)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	}
	if len(engineErr) > 0 && code == 0 {
		for _, s := range engineErr {
			fmt.Println("engine error:", s)
		}
		code = 2
	}
	if *fOnly == "" {
		writeEvidence(id, results, len(jobs), skipped, reported, time.Since(start))
	}
	return code
}

func writeReplay(id string, v *violation) string {
	dir := filepath.Join(*fOut, "replays")
	os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, id+"-"+strings.NewReplacer("/", "_", " ", "_").Replace(v.scen.Name)+".json")
	rf := replayFile{Property: id, Scenario: v.scen.Name, Bound: v.bound, Trail: v.trail, Kind: v.kind, Message: v.msg, Race: v.race, Trace: v.log, Crash: v.crash,
		How: "in /verif: ./run.sh replay " + name}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(name, b, 0o644)
	return name
}

func doReplay() int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := find(rf.Scenario)
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no such scenario")
		return 2
	}
	if rf.Kind == "crash" {
		fmt.Println(rf.Crash)
	}
	p, err := startProc()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r, err := p.do(job{Scen: rf.Scenario, Bound: rf.Bound, Replay: rf.Trail, IsReplay: true})
	if err != nil {
		p.stop()
		fmt.Println("process died:", p.stderr())
		return 1
	}
	p.stop()
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if r.Viol != nil {
		fmt.Println("VIOLATED:", r.Viol.Kind, r.Viol.Msg)
		fmt.Println(p.raceReport())
		return 1
	}
	fmt.Println("the recorded execution does not violate the property on this tree")
	return 0
}

func writeEvidence(id string, rs []*vrt.UnitResult, units, skipped, nviol int, wall time.Duration) {
	pr := Props[id]
	if pr.Level == "" {
		pr.Level = "model_checking"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var execs, pruned, steps, states, outcomes, cases, distinct, branches, div int64
	exhaustive := skipped == 0 && len(rs) == units && nviol == 0
	depth := 0
	var per []map[string]any
	var last *vrt.UnitResult
	var samples []string
	for _, r := range rs {
		execs += r.Execs
		pruned += r.Pruned
		steps += r.Steps
		states += r.States
		outcomes += r.Outcomes
		cases += r.Cases
		distinct += r.Distinct
		branches += r.Branches
		div += r.Diverged
		if r.MaxDepth > depth {
			depth = r.MaxDepth
		}
		if !r.Complete || r.Diverged > 0 {
			exhaustive = false
		}
		if last == nil || last.Name != r.Name {
			c := *r
			last = &c
			per = append(per, map[string]any{"scenario": r.Name})
		} else { // another part of the same scenario
			last.Execs += r.Execs
			last.Pruned += r.Pruned
			last.States += r.States
			last.Outcomes += r.Outcomes
			last.Cases += r.Cases
			last.Distinct += r.Distinct
			last.Complete = last.Complete && r.Complete
			if r.Bound < last.Bound {
				last.Bound = r.Bound
			}
		}
		m := per[len(per)-1]
		m["complete"], m["executions"], m["pruned_as_seen"], m["states"], m["distinct_outcomes"] = last.Complete, last.Execs, last.Pruned, last.States, last.Outcomes
		if sc := find(r.Name); sc != nil && sc.Delay {
			m["delay_bound_completed"], m["delay_bound_target"] = last.Bound, last.Target
		} else {
			m["preemption_bound_completed"], m["preemption_bound_target"] = last.Bound, last.Target
		}
		if last.Cases > 0 {
			m["cases"], m["distinct_cases"] = last.Cases, last.Distinct
		}
		if len(samples) < 6 && len(strings.TrimSpace(r.Sample)) > len("choices=") && !strings.HasPrefix(lastOf(samples), r.Name+": ") {
			samples = append(samples, r.Name+": "+r.Sample)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]any{"samples": samples, "exhaustive": exhaustive, "scenarios": per, "max_choice_depth": depth, "race_detector": vrt.RaceBuild, "backtracks": branches, "units_not_run": skipped}
	if div > 0 {
		cov["diverged_executions"] = div
	}
	if pr.Rule != "" {
		cov["rule"] = pr.Rule
	} else {
		cov["rule"] = "every execution is one complete schedule (thread choices, select choices, operation choices) of a scenario run on the real code; two executions are distinct if their observable histories differ"
	}
	switch pr.Level {
	case "model_checking":
		cov["states"] = states
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = execs
		cov["pruned_executions"] = pruned
		cov["distinct_outcomes"] = outcomes
		if cases > 0 {
			cov["evaluations"] = cases
		}
	default:
		if cases > 0 {
			cov["evaluations"] = cases
			cov["executions"] = execs
			cov["distinct_nontrivial"] = distinct
		} else {
			cov["evaluations"] = execs
			cov["distinct_nontrivial"] = outcomes
		}
		cov["steps"] = steps
	}
	as := append([]string{"sequentially consistent interleavings at synchronisation operations; unsynchronised accesses are reported as data races by the race detector, which sees only the program's own synchronisation",
		"timers fire only when every goroutine is blocked (virtual time)"}, pr.Assumptions...)
	ev := map[string]any{"property": id, "tier": *fTier, "seed": seed, "level": pr.Level, "coverage": cov, "assumptions": as, "wall_s": wall.Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fOut, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644)
}

func lastOf(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[len(s)-1]
}

type knownFile struct{ e []knownEntry }
type knownEntry struct{ prop, scen, text, what string }

// loadKnown reads known_findings.txt: lines "KNOWN property=<id> scenario=<name> match=<text> what=<...>".
func loadKnown(id string) knownFile {
	var k knownFile
	b, err := os.ReadFile(filepath.Join(*fOut, "known_findings.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN property="+id+" ") {
			continue
		}
		get := func(key, end string) string {
			i := strings.Index(l, key+"=")
			if i < 0 {
				return ""
			}
			s := l[i+len(key)+1:]
			if end != "" {
				if j := strings.Index(s, end); j >= 0 {
					s = s[:j]
				}
			}
			return s
		}
		k.e = append(k.e, knownEntry{id, get("scenario", " match="), get("match", " what="), get("what", "")})
	}
	return k
}

func (k knownFile) match(v *violation) string {
	for _, e := range k.e {
		if e.scen == v.scen.Name && strings.Contains(v.msg, e.text) {
			return e.what
		}
	}
	return ""
}
