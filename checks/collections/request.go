package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"

	"verif/lin"
	"verif/vrt"
	"verif/vrt/vcontext"
)

const ms = time.Millisecond

// ---- C11, C12: RequestMap ----

// q, e: GetOrCreate and GetOrCreateWithErr of key; key2 says what the producer does
const (
	pFast = iota
	pFail
	pSlow
	pSlowFail
	pNest     // the producer of key 0 asks for key 1
	pNestFail // the same, and fails
)

type rcfg struct {
	name    string
	ttl     time.Duration
	slow    time.Duration
	preload int // bit set of keys that are preloaded
	alpha   []gop
	short   bool // do not wait for the end of the TTL
}

var errProd = errors.New("producer failed")
var errPre = errors.New("preloaded error")

type rrun struct {
	x *X
	c *rcfg
	m *collections.RequestMap[int, int]
	n *vrt.Cell
}

func newRequest(x *X, c *rcfg) *rrun {
	r := &rrun{x: x, c: c, n: x.NewCell()}
	ctx, _ := vcontext.WithCancel(vcontext.Background())
	var init []*collections.RequestMapInitializer[int, int]
	for k := 0; k < 3; k++ {
		if c.preload>>k&1 == 1 {
			in := &collections.RequestMapInitializer[int, int]{Key: k, Result: 10 + k}
			if k == 1 {
				in.Err = errPre
			}
			init = append(init, in)
		}
	}
	r.m = collections.NewRequestMap[int, int](ctx, c.ttl, init...)
	return r
}

func (r *rrun) do(o gop, _ int) {
	x := r.x
	id := 0
	prod := func(k int) (int, error) {
		v := 100*(k+1) + int(r.n.Add(1))
		i := x.CallQuiet("prod", k, id) // B: the call that it belongs to
		if o.key2 >= pNest {
			r.do(gop{k: o.k, key: 1}, 0)
		} else if o.key2 >= pSlow {
			x.Sleep(r.c.slow)
		} else {
			x.Point()
		}
		if o.key2&1 == 1 && o.k == 'e' { // the other form has no error
			x.Ret(i, v, errProd)
			return v, errProd
		}
		x.Ret(i, v, nil)
		return v, nil
	}
	switch o.k {
	case 'q':
		id = x.Call("get", o.key, nil)
		v := r.m.GetOrCreate(o.key, func(k int) int {
			v, _ := prod(k)
			return v
		})
		x.Ret(id, v, nil)
	case 'e':
		id = x.Call("getE", o.key, nil)
		v, err := r.m.GetOrCreateWithErr(o.key, prod)
		x.Ret(id, v, err)
	case 'w':
		x.Sleep(o.d)
	case 'z': // idle and all expired: nothing is left
		x.Check(r.m.Count() == 0, fmt.Sprint("Count is ", r.m.Count(), " although everything has expired"))
	}
}

func (r *rrun) judge() {
	x, c := r.x, r.c
	lin.Once(x, salt(c.name), func() {
		h := append([]vrt.HistOp{}, x.Hist()...)
		base := 0
		_ = base
		for k := 0; k < 3; k++ {
			if c.preload>>k&1 == 1 {
				o := vrt.HistOp{Name: "pre", A: k, B: -1, R0: 10 + k, Call: -2, Ret: -1}
				if k == 1 {
					o.R1 = errPre
				}
				h = append(h, o)
			}
		}
		var prods []*vrt.HistOp
		for i := range h {
			if h[i].Name == "prod" || h[i].Name == "pre" {
				prods = append(prods, &h[i])
			}
		}
		for i, p := range prods {
			for _, q := range prods[i+1:] {
				if p.A != q.A {
					continue
				}
				x.Check(!overlap(p, q), "two producers of one key run at the same time")
				a, b := p, q // a before b
				if a.Call > b.Call {
					a, b = b, a
				}
				if b.TCall < a.TRet+int64(c.ttl) {
					x.Fail("a producer is started although an unexpired result is present")
				}
			}
		}
		for i := range h {
			o := &h[i]
			if o.Name != "get" && o.Name != "getE" {
				continue
			}
			x.Check(o.Ret != 0, "a caller is left blocked")
			var p, own *vrt.HistOp
			for _, q := range prods {
				if q.B == i {
					x.Check(own == nil, "a call starts its producer twice")
					own = q
					x.Check(q.A == o.A, "a producer gets another key")
				}
				if q.Ret != 0 && q.R0 == o.R0 {
					p = q
				}
			}
			x.Check(p != nil && p.A == o.A && p.Ret < o.Ret, "a caller gets a result that no producer of its key gave")
			if o.Name == "getE" {
				x.Check(p.R1 == o.R1, "a caller does not get the producer's error")
			}
			x.Check(own == nil || own == p, "a caller does not get the result of its own producer")
			want := o.TCall
			if p.Ret > o.Call && p.TRet > want {
				want = p.TRet
			}
			x.Check(o.TRet == want, "a caller waits longer than for the result that it gets")
			if p.Ret < o.Call { // from the cache
				x.Check(o.TCall <= p.TRet+int64(c.ttl)+int64(sec), "a result is served more than a second after its TTL")
			}
			for _, q := range prods {
				if q == p || q.A != o.A {
					continue
				}
				x.Check(!(q.Call < o.Call && q.Call > p.Call), "a caller gets an older result although a newer one is being or has been produced")
				x.Check(!(q.Ret < o.Call && p.Call > o.Call && o.TCall < q.TRet+int64(c.ttl)), "a caller does not get the unexpired result")
			}
		}
	})
}

func (c rcfg) seq(depth int) func(x *X) {
	return func(x *X) {
		r := newRequest(x, &c)
		seqRun(x, c.alpha, depth, r.do, func() {})
		x.Sleep(c.ttl + sec + ms)
		x.Settle()
		r.do(gop{k: 'z'}, 0)
		r.judge()
	}
}

func (c rcfg) par(pre []gop, shape ...int) func(x *X) {
	return func(x *X) {
		r := newRequest(x, &c)
		parRun(x, c.alpha, pre, shape, nil, r.do)
		x.Branching(false)
		if c.short {
			r.do(gop{k: 'e'}, 0)
			r.do(gop{k: 'e', key: 1}, 0)
			r.judge()
			return
		}
		// the results stay for their TTL and go afterwards
		for k := 0; k < 2; k++ {
			r.do(gop{k: 'e', key: k}, 0)
		}
		x.Sleep(c.ttl - ms)
		for k := 0; k < 2; k++ {
			r.do(gop{k: 'e', key: k}, 0)
		}
		x.Sleep(sec + 2*ms)
		for k := 0; k < 2; k++ {
			r.do(gop{k: 'e', key: k}, 0)
		}
		x.Sleep(c.ttl + sec + ms)
		x.Settle()
		r.do(gop{k: 'z'}, 0)
		r.judge()
	}
}

func calls(s string) []gop { // "q00": GetOrCreate, key 0, fast; "w250": wait 250 ms
	var r []gop
	var f []string
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] != ' ' {
			j++
		}
		if j > i {
			f = append(f, s[i:j])
		}
		i = j + 1
	}
	for _, w := range f {
		if w[0] == 'w' {
			n := 0
			fmt.Sscan(w[1:], &n)
			r = append(r, gop{k: 'w', d: time.Duration(n) * ms})
		} else {
			r = append(r, gop{k: w[0], key: int(w[1] - '0'), key2: int(w[2] - '0')})
		}
	}
	return r
}

// ---- C13: RequestMap.Timeout ----

type tocfg struct {
	name    string
	timeout time.Duration
	shape   []int
	kinds   []time.Duration // how long the functions take
}

func (c tocfg) run(x *X) {
	ctx, cancel := vcontext.WithCancel(vcontext.Background())
	m := collections.NewRequestMap[int, int](ctx, time.Second)
	cancel() // the cleaner is not needed
	x.Settle()
	base := x.Threads()
	type beh struct {
		d    time.Duration
		fail bool
	}
	var prog [][]beh
	for _, n := range c.shape {
		var l []beh
		for i := 0; i < n; i++ {
			l = append(l, beh{c.kinds[x.Choose(len(c.kinds))], x.Bool()})
		}
		prog = append(prog, l)
	}
	// one wrapped function for all callers; its behaviour is looked up by the key
	beh1 := map[int]beh{}
	for t, l := range prog {
		for i, b := range l {
			beh1[10*t+i] = b
		}
	}
	f := m.Timeout(c.timeout, func(k int) (int, error) {
		i := x.CallQuiet("fn", k, nil)
		b := beh1[k]
		if b.d > 0 {
			x.Sleep(b.d)
		} else {
			x.Point()
		}
		if b.fail {
			x.Ret(i, 1000+k, errProd)
			return 1000 + k, errProd
		}
		x.Ret(i, 1000+k, nil)
		return 1000 + k, nil
	})
	for t, l := range prog {
		t, l := t, l
		x.Go(func() {
			for i := range l {
				j := x.Call("call", 10*t+i, nil)
				v, err := f(10*t + i)
				x.Ret(j, v, err)
			}
		})
	}
	x.Join()
	x.Sleep(20 * sec)
	x.Settle()
	if x.Threads() != base {
		x.Fail("a late result leaves a goroutine blocked\n" + x.LiveDump())
	}
	h := x.Hist()
	for i := range h {
		o := &h[i]
		if o.Name != "call" {
			continue
		}
		n := 0
		var fn *vrt.HistOp
		for j := range h {
			if h[j].Name == "fn" && h[j].A == o.A {
				n++
				fn = &h[j]
			}
		}
		x.Check(n == 1, fmt.Sprint("the wrapped function is called ", n, " times for one call"))
		b := beh1[o.A.(int)]
		el := time.Duration(o.TRet - o.TCall)
		late := o.R0 == 0 && o.R1 == collections.ErrTimeout
		own := o.R0 == fn.R0 && o.R1 == fn.R1
		switch {
		case b.d < c.timeout:
			x.Check(own && el == b.d, "a result that comes in time is not returned at once")
		case b.d > c.timeout:
			x.Check(late && el == c.timeout, "a call that takes too long does not end with ErrTimeout and a zero value at the timeout")
		default:
			x.Check((own || late) && el == c.timeout, "a result at the timeout gives neither the result nor ErrTimeout")
		}
	}
}

func init() {
	// C11
	c := rcfg{name: "shared", ttl: 2 * sec, slow: 1050 * ms, alpha: calls("q00 e00 e01 q10")}
	add("C11", S{Name: "2x1", Bound: 4, BoundT: 8, Shards: 2}, c.par(nil, 1, 1))
	c.short = true
	add("C11", S{Name: "3x1", Bound: 1, BoundT: 3, Shards: 16}, c.par(nil, 1, 1, 1))
	add("C11", S{Name: "2x2", Bound: 1, BoundT: 2, Shards: 8}, c.par(nil, 2, 2))
	c4 := c
	c4.alpha = calls("q00 e01")
	add("C11", S{Name: "4x1", Bound: 0, BoundT: 1, Shards: 8}, c4.par(nil, 1, 1, 1, 1))
	d := c
	d.alpha = calls("q02 e03 e00 e12 w500 w2000")
	add("C11", S{Name: "slow/2x2", Bound: 1, BoundT: 2, Shards: 8}, d.par(nil, 2, 2))
	add("C11", S{Name: "slow/3x1", Bound: 1, BoundT: 2, Shards: 8}, d.par(nil, 1, 1, 1))
	add("C11", S{Name: "slow/3,2,2", Thor: true, BoundT: 0, Shards: 32, MaxT: 5e6}, d.par(nil, 3, 2, 2))
	d.preload = 3
	d.name += ", preloaded"
	add("C11", S{Name: "preloaded/2x2", Bound: 1, BoundT: 2, Shards: 4}, d.par(nil, 2, 2))
	d.short = false
	add("C11", S{Name: "slow/2x1", Bound: 1, BoundT: 2, Shards: 4}, d.par(nil, 1, 1))
	ne := rcfg{name: "nested", ttl: 2 * sec, slow: 1050 * ms, short: true, alpha: calls("q04 e04 e05 q10 e11 q12")}
	add("C11", S{Name: "nested/2x1", Bound: 1, BoundT: 4, Shards: 4}, ne.par(nil, 1, 1))
	add("C11", S{Name: "nested/1x3", Shards: 2}, ne.par(nil, 3))
	// nobody waits for the producer of another key
	for _, form := range []byte{'q', 'e'} {
		for _, form2 := range []byte{'q', 'e'} {
			for _, cached := range []bool{false, true} {
				form, form2, cached := form, form2, cached
				add("C11", S{Name: fmt.Sprintf("independent/%c%c%v", form, form2, cached), Bound: 3, BoundT: 5}, func(x *X) {
					ctx, _ := vcontext.WithCancel(vcontext.Background())
					m := collections.NewRequestMap[int, int](ctx, 5*sec)
					get := func(form byte, k int, f func() int) int {
						if form == 'q' {
							return m.GetOrCreate(k, func(int) int { return f() })
						}
						v, _ := m.GetOrCreateWithErr(k, func(int) (int, error) { return f(), nil })
						return v
					}
					if cached {
						get(form2, 1, func() int { return 7 })
						x.Settle()
					}
					ch := make(chan int)
					x.Go(func() { x.Check(get(form, 0, func() int { return vrt.Recv(ch) }) == 5, "wrong result") })
					x.Go(func() { x.Check(get(form, 0, func() int { return vrt.Recv(ch) }) == 5, "wrong result") })
					x.Go(func() {
						v := get(form2, 1, func() int { return 7 })
						x.Check(v == 7, "wrong result")
						vrt.S(ch)(5)
					})
					x.Join()
				})
			}
		}
	}

	// C12
	for _, ttl := range []time.Duration{250 * ms, 1300 * ms, 0, 100 * ms} {
		for _, pre := range []int{0, 3} {
			c := rcfg{name: fmt.Sprintf("ttl %v, preloaded %d", ttl, pre), ttl: ttl, slow: 130 * ms, preload: pre}
			t := int(ttl / ms)
			c.alpha = calls(fmt.Sprintf("e00 q01 e10 w30 w%d w%d", t-1+b2i(t == 0)*8, t+1001))
			nm := fmt.Sprintf("ttl%d,pre%d", t, pre)
			add("C12", S{Name: nm + "/seq5", Shards: 4}, c.seq(5))
			add("C12", S{Name: nm + "/seq7", Shards: 16, Thor: true}, c.seq(7))
			d := c
			d.alpha = calls(fmt.Sprintf("e02 q00 e10 w30 w%d w%d", t/2, t+1001))
			add("C12", S{Name: nm + "/slow/seq5", Shards: 4}, d.seq(5))
			// callers at the instants when the cleaner may look at expired results
			e := c
			e.alpha = calls("e00 q00 e10 e02")
			e.name += ", at expiry"
			for i := 0; i <= 1; i++ {
				w := (t/100+i)*100 + 0
				if w < t {
					continue
				}
				for _, as := range []bool{false, true} {
					n := nm
					if as {
						n += ",old timers"
					}
					add("C12", S{Name: fmt.Sprintf("%s/at%d/2x1", n, w), Bound: 2 - b2i(t > 1000), BoundT: 4, Shards: 2, Async: as}, e.par(calls(fmt.Sprintf("e00 w%d", w)), 1, 1))
					add("C12", S{Name: fmt.Sprintf("%s/at%d/1x2", n, w), Bound: 2, BoundT: 5, Async: as}, e.par(calls(fmt.Sprintf("e00 e10 w%d", w)), 2))
					add("C12", S{Name: fmt.Sprintf("%s/at%d/2x2", n, w), Thor: true, BoundT: 2, Shards: 8, Async: as}, e.par(calls(fmt.Sprintf("e00 w%d", w)), 2, 2))
				}
			}
		}
	}

	// C13
	for _, to := range []time.Duration{2 * sec, 0} {
		c := tocfg{timeout: to, kinds: []time.Duration{0, 1 * sec, 2 * sec, 3 * sec}}
		if to == 0 {
			c.kinds = []time.Duration{0, 1 * sec}
		}
		for _, as := range []bool{false, true} {
			nm := fmt.Sprintf("timeout%d", to/sec)
			if as {
				nm += ",old timers"
			}
			for _, sh := range [][]int{{1}, {2}, {1, 1}, {2, 1}} {
				d := c
				d.shape = sh
				add("C13", S{Name: fmt.Sprintf("%s/%v", nm, sh), Bound: 3, BoundT: 6, Shards: len(sh) * 2, Async: as}, d.run)
			}
			d := c
			d.shape = []int{1, 1, 1}
			add("C13", S{Name: fmt.Sprintf("%s/%v", nm, d.shape), Bound: 1, BoundT: 3, Shards: 8, Async: as}, d.run)
			e := c
			e.shape = []int{2, 2}
			add("C13", S{Name: fmt.Sprintf("%s/%v", nm, e.shape), Thor: true, BoundT: 3, Shards: 16, Async: as}, e.run)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
