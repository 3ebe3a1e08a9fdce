package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"

	"github.com/axgrid/axutils/comparer"
	axm "github.com/axgrid/axutils/math"
)

// ---- C27: CompareSlice ----

type el struct {
	id  uint64
	tag int
}

func (e el) GetId() uint64 { return e.id }

type elp struct {
	id  uint64
	tag int
}

func (e *elp) GetId() uint64 { return e.id }

func els(ids []uint64, at int) []el {
	r := make([]el, len(ids))
	for i, id := range ids {
		r[i] = el{id, at + i}
	}
	return r
}

func elps(ids []uint64, at int) []*elp {
	r := make([]*elp, len(ids))
	for i, id := range ids {
		r[i] = &elp{id, at + i}
	}
	return r
}

// lists gives every list over ids up to a length.
func lists(ids []uint64, max int) [][]uint64 {
	r := [][]uint64{{}}
	from := 0
	for l := 0; l < max; l++ {
		to := len(r)
		for ; from < to; from++ {
			for _, v := range ids {
				r = append(r, append(append([]uint64{}, r[from]...), v))
			}
		}
	}
	return r
}

func brief[T any](l []T) string {
	if len(l) > 400 {
		return fmt.Sprintf("%v... (%d)", l[:20], len(l))
	}
	return fmt.Sprint(l)
}

// compare checks one pair of lists.
func compare(x *X, a, b []uint64) {
	x.Case(idKey(a), idKey(b))
	cur, mod := els(a, 0), elps(b, 100)
	has := func(l []uint64, id uint64) bool {
		for _, v := range l {
			if v == id {
				return true
			}
		}
		return false
	}
	if len(a)+len(b) > 100 {
		in := map[*uint64]map[uint64]bool{}
		for _, l := range [][]uint64{a, b} {
			if len(l) > 0 {
				in[&l[0]] = map[uint64]bool{}
				for _, v := range l {
					in[&l[0]][v] = true
				}
			}
		}
		has = func(l []uint64, id uint64) bool { return len(l) > 0 && in[&l[0]][id] }
	}
	var del, modify []el
	var create []*elp
	for _, e := range cur {
		if has(b, e.id) {
			modify = append(modify, e)
		} else {
			del = append(del, e)
		}
	}
	for _, e := range mod {
		if !has(a, e.id) {
			create = append(create, e)
		}
	}
	c2, m2 := append([]el{}, cur...), append([]*elp{}, mod...)
	d, c, m := comparer.CompareSlice(cur, mod)
	for i := 0; i < 2; i++ { // the second time: the results are the caller's
		ok := len(d) == len(del) && len(c) == len(create) && len(m) == len(modify)
		for j := 0; ok && j < len(d); j++ {
			ok = d[j] == del[j]
		}
		for j := 0; ok && j < len(c); j++ {
			ok = c[j] == create[j] && *c[j] == elp{c[j].id, c[j].tag}
		}
		for j := 0; ok && j < len(m); j++ {
			ok = m[j] == modify[j]
		}
		if !ok {
			x.Failf("CompareSlice(%v, %v) gives delete %v, create %d elements, modify %v", brief(a), brief(b), brief(d), len(c), brief(m))
		}
		for j := range cur {
			if cur[j] != c2[j] {
				x.Failf("CompareSlice(%v, %v) changes its input", brief(a), brief(b))
			}
		}
		for j := range mod {
			if mod[j] != m2[j] || mod[j].id != b[j] || mod[j].tag != 100+j {
				x.Failf("CompareSlice(%v, %v) changes its input", brief(a), brief(b))
			}
		}
		if i == 1 {
			break
		}
		// other calls and writes to the result do not change anything
		e, f, g := comparer.CompareSlice(cur, mod)
		for j := range e {
			e[j] = el{77, 77}
		}
		for j := range f {
			f[j] = nil
		}
		for j := range g {
			g[j] = el{77, 77}
		}
		_, _, _ = append(e, el{78, 78}), append(f, nil), append(g, el{78, 78})
	}
}

func init() {
	all("C27", "all lists of three ids", 8, func(x *X) {
		ls := lists([]uint64{0, 1, 2}, 5)
		a := ls[x.Choose(len(ls))]
		for _, b := range ls {
			compare(x, a, b)
		}
	})
	all("C27", "all lists of extreme ids", 8, func(x *X) {
		ls := lists([]uint64{math.MaxUint64, 1 << 63, 1<<32 + 1, 1, 1<<31 + 1<<62}, 3)
		a := ls[x.Choose(len(ls))]
		for _, b := range ls {
			compare(x, a, b)
		}
	})
	thorough("C27", "all longer lists", 16, func(x *X) {
		ls := lists([]uint64{0, 1, 2}, 7)
		a := ls[x.Choose(len(ls))]
		for _, b := range ls {
			compare(x, a, b)
		}
	})
	// long lists of several kinds
	kinds := func(n, k int) []uint64 {
		r := make([]uint64, n)
		for i := range r {
			switch k {
			case 0:
				r[i] = uint64(i)
			case 1:
				r[i] = uint64(n - i)
			case 2:
				r[i] = uint64(i % 3)
			case 3:
				r[i] = uint64(i / 2)
			case 4:
				r[i] = uint64(i) << 56
			case 5:
				r[i] = uint64(1000 + i)
			case 6:
				r[i] = uint64(i * i % 17)
			default:
				r[i] = 5
			}
		}
		return r
	}
	all("C27", "long lists", 8, func(x *X) {
		ns := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 300}
		n, k := ns[x.Choose(len(ns))], x.Choose(8)
		for _, m := range ns {
			for l := 0; l < 8; l++ {
				compare(x, kinds(n, k), kinds(m, l))
			}
		}
	})
	all("C27", "very long lists", 8, func(x *X) {
		ns := []int{0, 10, 1023, 1025, 5000, 70000}
		n, k := ns[x.Choose(len(ns))], x.Choose(8)
		for _, m := range ns {
			for l := 0; l < 8; l++ {
				if n+m < 20000 || k < 2 && l < 6 && l != 4 {
					compare(x, kinds(n, k), kinds(m, l))
				}
			}
		}
	})
	add("C27", S{Name: "concurrent calls", Bound: 2}, func(x *X) {
		a, b := []uint64{1, 2, 2, 3}, []uint64{2, 4}
		cur, mod := els(a, 0), elps(b, 100)
		f := func() {
			for i := 0; i < 2; i++ {
				d, c, m := comparer.CompareSlice(cur, mod)
				x.Point()
				if len(d) != 2 || len(c) != 1 || len(m) != 2 || d[0] != cur[0] || d[1] != cur[3] || c[0] != mod[1] || m[0] != cur[1] {
					x.Fail("concurrent calls of CompareSlice influence each other")
				}
			}
		}
		parallel(x, f, f, func() { compare(x, []uint64{9, 8, 7}, []uint64{8, 7, 6}) })
	})

	// ---- C34: integer helpers ----
	var values []int
	for v := -130; v <= 130; v++ {
		values = append(values, v)
	}
	p := 1
	for i := 0; i < 19; i++ {
		for d := -1; d <= 1; d++ {
			values = append(values, p+d, -p+d, 5*p/10*9+d, 7*p/10+d, -7*p/10+d)
		}
		p *= 10
	}
	for i := 0; i < 63; i++ {
		for d := -1; d <= 1; d++ {
			values = append(values, 1<<i+d, -(1<<i)+d)
		}
	}
	for d := 0; d < 12; d++ {
		values = append(values, math.MaxInt-d, math.MinInt+d)
	}
	move := func(x *X, v, n int) {
		x.Case(v, n)
		want := new(big.Int)
		switch {
		case n >= 0:
			if v == 0 {
				break
			}
			if n > 40 {
				return // does not fit
			}
			want.Mul(big.NewInt(int64(v)), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
			if !want.IsInt64() {
				return
			}
		case n < -40:
		default:
			want.Quo(big.NewInt(int64(v)), new(big.Int).Exp(big.NewInt(10), big.NewInt(-int64(n)), nil))
		}
		if got := axm.IntPointMove(v, n); int64(got) != want.Int64() {
			x.Failf("IntPointMove(%d, %d) is %d, not %d", v, n, got, want)
		}
		if n > 0 {
			if up := axm.IntPointMove(v, n); axm.IntPointMove(up, -n) != v {
				x.Failf("IntPointMove(%d, %d) and back is not the identity", v, n)
			}
		}
	}
	all("C34", "shifts of many values", 8, func(x *X) {
		n := x.Choose(61) - 30
		for _, v := range values {
			move(x, v, n)
		}
	})
	all("C34", "shifts of all small values", 8, func(x *X) {
		hi := x.Choose(64) - 32
		for v := hi * 1024; v < (hi+1)*1024; v++ {
			for n := -7; n <= 14; n++ {
				move(x, v, n)
			}
		}
	})
	all("C34", "huge shifts", 0, func(x *X) {
		for _, n := range []int{-41, -64, -100, -1000, -1 << 31, -1<<31 - 1, -1 << 32, math.MinInt + 1, math.MinInt, 100, 1 << 31, 1 << 32, math.MaxInt} {
			for _, v := range values {
				if n > 0 && v != 0 {
					continue
				}
				move(x, v, n)
			}
		}
	})
	thorough("C34", "shifts of all values of 22 bits", 64, func(x *X) {
		hi := x.Choose(4096) - 2048
		for v := hi * 1024; v < (hi+1)*1024; v++ {
			for n := -8; n <= 13; n++ {
				move(x, v, n)
			}
		}
	})
	all("C34", "minima and maxima, all values of 8 bits", 0, func(x *X) {
		for a := -128; a < 128; a++ {
			for b := -128; b < 128; b++ {
				x.Case("8 bits", a, b)
				x.Case("8 bits, unsigned", a, b)
				mm(x, int8(a), int8(b), axm.Min8, axm.Max8)
				mm(x, uint8(a), uint8(b), axm.MinUInt8, axm.MaxUInt8)
			}
		}
	})
	all("C34", "minima and maxima, other types", 0, func(x *X) {
		vals := edge[int16](16)
		pairs(x, vals, axm.Min16, axm.Max16)
		pairs(x, edge[uint16](16), axm.MinUInt16, axm.MaxUInt16)
		pairs(x, edge[int32](32), axm.Min32, axm.Max32)
		pairs(x, edge[uint32](32), axm.MinUInt32, axm.MaxUInt32)
		pairs(x, edge[int64](64), axm.Min64, axm.Max64)
		pairs(x, edge[uint64](64), axm.MinUInt64, axm.MaxUInt64)
		pairs(x, edge[int](64), axm.Min, axm.Max)
		pairs(x, edge[uint](64), axm.MinUInt, axm.MaxUInt)
		fl := []float64{0, 1, -1, 0.5, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
			-math.SmallestNonzeroFloat64, math.MaxFloat32, 1e-45, 1 << 53, 1<<53 + 2, 16777216, 16777218, 3.25, -3.25, math.Nextafter(1, 2), math.Nextafter(1, 0), 1e300, 1e-300}
		pairs(x, fl, axm.MinFloat64, axm.MaxFloat64)
		var f32 []float32
		for _, f := range fl {
			f32 = append(f32, float32(f))
		}
		pairs(x, f32, axm.MinFloat32, axm.MaxFloat32)
	})
	thorough("C34", "minima and maxima, all values of 16 bits", 64, func(x *X) {
		hi := x.Choose(512)
		for a := hi * 128; a < (hi+1)*128; a++ {
			for b := 0; b < 65536; b++ {
				mm(x, int16(a), int16(b), axm.Min16, axm.Max16)
				mm(x, uint16(a), uint16(b), axm.MinUInt16, axm.MaxUInt16)
			}
			x.Cases(2 * 65536)
		}
	})
}

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

func mm[T number](x *X, a, b T, min, max func(a, b T) T) {
	lo, hi := a, b
	if b < a {
		lo, hi = b, a
	}
	if min(a, b) != lo {
		x.Fail(fmt.Sprintf("Min of %T %v and %v is %v", a, a, b, min(a, b)))
	}
	if max(a, b) != hi {
		x.Fail(fmt.Sprintf("Max of %T %v and %v is %v", a, a, b, max(a, b)))
	}
}

func pairs[T number](x *X, vals []T, min, max func(a, b T) T) {
	t := ""
	if len(vals) > 0 {
		t = fmt.Sprintf("%T", vals[0])
	}
	for i, a := range vals {
		for j, b := range vals {
			x.Case(t, i, j)
			mm(x, a, b, min, max)
		}
	}
}

// edge gives the values around every power of two and of ten, converted to T.
func edge[T ~int | ~int16 | ~int32 | ~int64 | ~uint | ~uint16 | ~uint32 | ~uint64](bits int) []T {
	seen := map[T]bool{}
	var r []T
	put := func(v uint64) {
		if t := T(v); !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	for i := 0; i < bits; i++ {
		for d := -2; d <= 2; d++ {
			put(uint64(1)<<i + uint64(d))
			put(-(uint64(1) << i) + uint64(d))
		}
	}
	p := uint64(1)
	for i := 0; i < 20; i++ {
		put(p)
		put(-p)
		p *= 10
	}
	return r
}

func idKey(ids []uint64) []byte {
	var b []byte
	for _, i := range ids {
		b = binary.LittleEndian.AppendUint64(b, i)
	}
	return b
}
