package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/axgrid/axutils/flow"
)

// ---- C33: flow processor ----

// A program is a list of routes; a route is a list of steps, or a RouteOn with a number of actions.
type route struct {
	steps string // o: On, e: OnEvent, d: Do
	on    bool   // RouteOn; then steps has one d for each action
}

func routes(max int) []route {
	r := []route{{}}
	from := 0
	for l := 0; l < max; l++ {
		to := len(r)
		for ; from < to; from++ {
			for _, c := range "oed" {
				r = append(r, route{steps: r[from].steps + string(c)})
			}
		}
	}
	for n := 0; n <= max; n++ {
		r = append(r, route{steps: strings.Repeat("d", n), on: true})
	}
	return r
}

func (r route) String() string {
	if r.on {
		return fmt.Sprintf("RouteOn(%d)", len(r.steps))
	}
	return "Route(" + r.steps + ")"
}

type fev struct{ id int }
type fst struct{ id int }

type stepErr struct{ step int }

func (e *stepErr) Error() string { return fmt.Sprint("step ", e.step) }

// frun is what one processing does and did.
type frun struct {
	fail int // the index of the step that fails, or the number of steps
	err  error
	seen []int // the ids of the steps that ran
	n    int
	bad  string
}

// build makes the processor of a program. Steps are numbered in order; the steps of a program that run are told
// by cur, which gives the run an event belongs to.
func build(prog []route, cur func(ev *fev) *frun, point func()) (func(ev *fev, st *fst) error, string) {
	kinds := ""
	b := flow.NewProcessor[*fev, *fst]()
	id := 0
	reach := func(ev *fev, step int) (ok bool, r *frun) {
		r = cur(ev)
		r.seen = append(r.seen, step)
		r.n++
		return r.n-1 != r.fail, r
	}
	act := func() func(*fev, *fst) error {
		step := id
		id++
		return func(ev *fev, st *fst) error {
			point()
			ok, r := reach(ev, step)
			if st == nil || st.id != ev.id {
				r.bad = fmt.Sprintf("action %d gets another state", step)
			}
			if !ok {
				return r.err
			}
			return nil
		}
	}
	for _, rt := range prog {
		rt := rt
		if rt.on {
			// the condition is one function; its tests are numbered in the order in which they must happen
			first := id
			var do []func(*fev, *fst) error
			for range rt.steps {
				id++
				kinds += "c"
				do = append(do, act())
				kinds += "d"
			}
			b.RouteOn(func(ev *fev) bool {
				point()
				r := cur(ev)
				// the next test of this condition
				k := 0
				for _, s := range r.seen {
					if s >= first && s < first+2*len(rt.steps) && (s-first)%2 == 0 {
						k++
					}
				}
				ok, _ := reach(ev, first+2*k)
				return ok
			}, do...)
			continue
		}
		b.Route(func(rb *flow.ProcessorRouterBuilder[*fev, *fst]) {
			for _, c := range rt.steps {
				switch c {
				case 'o':
					step := id
					id++
					kinds += "c"
					rb.On(func(ev *fev, st *fst) bool {
						point()
						ok, r := reach(ev, step)
						if st == nil || st.id != ev.id {
							r.bad = fmt.Sprintf("condition %d gets another state", step)
						}
						return ok
					})
				case 'e':
					step := id
					id++
					kinds += "c"
					rb.OnEvent(func(ev *fev) bool {
						point()
						ok, _ := reach(ev, step)
						return ok
					})
				case 'd':
					kinds += "d"
					rb.Do(act())
				}
			}
		})
	}
	return b.Build(), kinds
}

// verdict says what is wrong with a finished run.
func verdict(kinds string, r *frun, err error) string {
	want := len(kinds)
	if r.fail < want {
		want = r.fail + 1
	}
	for i, s := range r.seen {
		if s != i {
			return fmt.Sprintf("the steps that ran are %v", r.seen)
		}
	}
	if len(r.seen) != want {
		return fmt.Sprintf("%d steps ran, not %d", len(r.seen), want)
	}
	if r.bad != "" {
		return r.bad
	}
	switch {
	case r.fail >= len(kinds):
		if err != nil {
			return fmt.Sprintf("everything passed, but there is the error %v", err)
		}
	case err == nil:
		return "there is no error"
	case kinds[r.fail] == 'd' && err != r.err:
		return fmt.Sprintf("the error is %v, not the action's own", err)
	}
	return ""
}

type valErr string

func (e valErr) Error() string { return string(e) }

func stepErrs() []error {
	inner := errors.New("inner")
	return []error{&stepErr{1}, errors.New("filter not passed"), valErr("x"), fmt.Errorf("wrapped: %w", inner), errors.Join(inner, errors.New("b"))}
}

func flowProgram(x *X, prog []route, seq int) {
	m := map[int]*frun{}
	process, kinds := build(prog, func(ev *fev) *frun { return m[ev.id] }, func() {})
	errs := stepErrs()
	one := func(fail, n int) {
		x.Case(fmt.Sprint(prog), fail, n)
		r := &frun{fail: fail, err: errs[(fail+n)%len(errs)]}
		m[n] = r
		var err error
		if p := protect(func() { err = process(&fev{n}, &fst{n}) }); p != "" {
			x.Failf("the processor %v panics: %s", prog, p)
		}
		if v := verdict(kinds, r, err); v != "" {
			where := "everything passes"
			if fail < len(kinds) {
				where = fmt.Sprintf("step %d (%c of %s) fails", fail, kinds[fail], kinds)
			}
			x.Failf("the processor %v, call %d, %s: %s", prog, n, where, v)
		}
	}
	// the outcomes one after the other, then in reverse order, then each twice: calls are independent
	n := 0
	for f := 0; f <= len(kinds); f++ {
		one(f, n)
		n++
	}
	for k := 0; k < seq; k++ {
		for f := len(kinds); f >= 0; f-- {
			one(f, n)
			one(len(kinds), n+1)
			one(f, n+2)
			n += 3
		}
	}
}

// nestedRoutes runs a program of routes within routes: each route runs its own steps, in order and together.
func nestedRoutes(x *X, prog string) {
	var log []int
	var fail int
	e := errors.New("e")
	b := flow.NewProcessor[int, int]()
	var own [][]int // the steps of each route
	n := 0
	pos := 0
	var body func(r *flow.ProcessorRouterBuilder[int, int], id int)
	body = func(r *flow.ProcessorRouterBuilder[int, int], id int) {
		for ; pos < len(prog); pos++ {
			switch prog[pos] {
			case ')':
				return
			case '(':
				pos++
				own = append(own, nil)
				in := len(own) - 1
				b.Route(func(q *flow.ProcessorRouterBuilder[int, int]) { body(q, in) })
			case 'd':
				step := n
				n++
				own[id] = append(own[id], step)
				r.Do(func(int, int) error {
					log = append(log, step)
					if step == fail {
						return e
					}
					return nil
				})
			}
		}
	}
	body(nil, -1)
	p := b.Build()
	fail = -1
	x.Case(prog, -1)
	if err := p(1, 1); err != nil {
		x.Failf("the processor %s fails: %v", prog, err)
	}
	order := append([]int(nil), log...)
	done := 0
	for at := 0; at < len(order); {
		var r []int
		for _, o := range own {
			if len(o) > 0 && o[0] == order[at] {
				r = o
			}
		}
		if r == nil || len(order)-at < len(r) || fmt.Sprint(order[at:at+len(r)]) != fmt.Sprint(r) {
			x.Failf("the processor %s runs its steps in the order %v; its routes have the steps %v", prog, order, own)
			return
		}
		at += len(r)
		done += len(r)
	}
	if done != n {
		x.Failf("the processor %s runs its steps in the order %v; its routes have the steps %v", prog, order, own)
		return
	}
	for i := range order {
		log, fail = nil, order[i]
		x.Case(prog, i)
		if err := p(1, 1); err != e || fmt.Sprint(log) != fmt.Sprint(order[:i+1]) {
			x.Failf("the processor %s with step %d failing runs %v of %v with error %v", prog, fail, log, order, err)
		}
	}
}

func init() {
	for _, t := range []bool{false, true} {
		t := t
		name, max, reg := "programs of up to 3 routes of up to 3 steps", 3, all
		if t {
			name, max, reg = "programs of up to 3 routes of up to 4 steps", 4, thorough
		}
		rs := routes(max)
		reg("C33", name, 16, func(x *X) {
			k := x.Choose(len(rs) + 1)
			if k == len(rs) {
				flowProgram(x, nil, 2)
				for _, a := range rs {
					flowProgram(x, []route{a}, 2)
				}
				return
			}
			for _, b := range rs {
				flowProgram(x, []route{rs[k], b}, 2)
				for _, c := range rs {
					flowProgram(x, []route{rs[k], b, c}, 1)
				}
			}
		})
	}
	all("C33", "routes of up to 5 steps", 8, func(x *X) {
		rs := routes(5)
		k := x.Choose(8)
		for i, r := range rs {
			if i%8 == k {
				flowProgram(x, []route{r}, 2)
				flowProgram(x, []route{r, {steps: "d"}}, 1)
			}
		}
	})
	all("C33", "long programs", 0, func(x *X) {
		var p []route
		for i := 0; i < 40; i++ {
			p = append(p, route{steps: []string{"oed", "d", "", "ddeod", "o"}[i%5]}, route{steps: "ddd", on: i%3 == 0})
		}
		flowProgram(x, p, 1)
		q := route{}
		for i := 0; i < 150; i++ {
			q.steps += "oedde"[i%5 : i%5+1]
		}
		flowProgram(x, []route{q, q}, 1)
	})
	all("C33", "conditions that change between the actions of a RouteOn", 0, func(x *X) {
		for n := 0; n <= 4; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				x.Case(n, mask)
				var log []string
				state := true
				var do []func(int, int) error
				for i := 0; i < n; i++ {
					i := i
					do = append(do, func(ev, st int) error {
						log = append(log, fmt.Sprint("do", i))
						state = mask>>i&1 == 1
						return nil
					})
				}
				after := false
				p := flow.NewProcessor[int, int]().
					RouteOn(func(ev int) bool { log = append(log, "cond"); return state }, do...).
					Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
						r.Do(func(ev, st int) error { after = true; return nil })
					}).Build()
				err := p(1, 2)
				var want []string
				pass := true
				for i := 0; i < n && pass; i++ {
					want = append(want, "cond", fmt.Sprint("do", i))
					if mask>>i&1 == 0 && i+1 < n {
						want = append(want, "cond")
						pass = false
					}
				}
				if fmt.Sprint(log) != fmt.Sprint(want) || (err == nil) != pass || after != pass {
					x.Failf("RouteOn with %d actions that set its condition to %b: %v, error %v, next route %v; expected %v", n, mask, log, err, after, want)
				}
			}
		}
	})
	all("C33", "routes defined within routes", 8, func(x *X) {
		// all bodies of up to n nodes: a step 'd' or a nested route '(' ... ')'
		var bodies func(n int) []string
		memo := map[int][]string{}
		bodies = func(n int) []string {
			if n == 0 {
				return []string{""}
			}
			if r, ok := memo[n]; ok {
				return r
			}
			var r []string
			for _, b := range bodies(n - 1) {
				r = append(r, "d"+b)
			}
			for i := 0; i < n; i++ {
				for _, in := range bodies(i) {
					for _, b := range bodies(n - 1 - i) {
						r = append(r, "("+in+")"+b)
					}
				}
			}
			memo[n] = r
			return r
		}
		var progs []string
		for n := 2; n <= 7; n++ {
			for _, b := range bodies(n) {
				if b[0] == '(' && strings.Contains(b, "(d") || strings.HasPrefix(b, "((") {
					top, ok := 0, true
					for _, c := range b {
						switch c {
						case '(':
							top++
						case ')':
							top--
						case 'd':
							ok = ok && top > 0
						}
					}
					if ok {
						progs = append(progs, b)
					}
				}
			}
		}
		k := x.Choose(8)
		for i, prog := range progs {
			if i%8 == k {
				nestedRoutes(x, prog)
				if len(prog) <= 9 {
					for m := 1; m <= 9; m++ {
						nestedRoutes(x, strings.Repeat("(d)", m)+prog)
					}
				}
			}
		}
	})
	all("C33", "separate processors", 0, func(x *X) {
		// two builders, filled in turns, and a processor that calls another one
		var log []string
		say := func(s string, err error) func(int, int) error {
			return func(int, int) error { log = append(log, s); return err }
		}
		e := errors.New("e")
		for mask := 0; mask < 16; mask++ {
			x.Case("a", mask)
			x.Case("b", mask)
			er := func(i int) error {
				if mask>>i&1 == 1 {
					return e
				}
				return nil
			}
			a, b := flow.NewProcessor[int, int](), flow.NewProcessor[int, int]()
			a.RouteOn(func(int) bool { return true }, say("a0", er(0)))
			b.RouteOn(func(int) bool { return true }, say("b0", er(1)))
			a.Route(func(r *flow.ProcessorRouterBuilder[int, int]) { r.Do(say("a1", er(2))) })
			b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) { r.Do(say("b1", er(3))) })
			pa := a.Build()
			b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) { r.Do(pa) })
			pb := b.Build()
			expect := func(what string, err error, steps ...int) {
				var want []string
				var we error
				for _, s := range steps {
					want = append(want, []string{"a0", "b0", "a1", "b1"}[s])
					if we = er(s); we != nil {
						break
					}
				}
				if fmt.Sprint(log) != fmt.Sprint(want) || err != we {
					x.Failf("%s with failures %b: ran %v with error %v, not %v with %v", what, mask, log, err, want, we)
				}
			}
			log = nil
			expect("a processor", pa(1, 2), 0, 2)
			log = nil
			expect("a processor that calls another one", pb(1, 2), 1, 3, 0, 2)
		}
	})
	add("C33", S{Name: "concurrent calls", Bound: 2, BoundT: 3, Shards: 8}, func(x *X) {
		progs := [][]route{
			{{steps: "od"}, {steps: "dd", on: true}},
			{{steps: "ddd", on: true}},
			{{steps: "e"}, {steps: "do"}},
			{{steps: "d"}, {}, {steps: "d", on: true}, {steps: "d"}},
		}
		prog := progs[x.Choose(len(progs))]
		runs := [3]*frun{}
		process, kinds := build(prog, func(ev *fev) *frun { return runs[ev.id] }, x.Point)
		errs := stepErrs()
		f0 := x.Choose(len(kinds) + 1)
		f1 := x.Choose(len(kinds) + 1)
		work := func(i, fail int) func() {
			return func() {
				for n := 0; n < 2; n++ {
					runs[i] = &frun{fail: fail, err: errs[i]}
					err := process(&fev{i}, &fst{i})
					if v := verdict(kinds, runs[i], err); v != "" {
						x.Failf("concurrent calls of the processor %v: %s", prog, v)
					}
					fail = len(kinds) - fail
				}
			}
		}
		parallel(x, work(0, f0), work(1, f1))
	})
}
