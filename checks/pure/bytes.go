package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	axnet "github.com/axgrid/axutils/net"
)

// ---- C35: byte codecs ----

func init() {
	ints := func() []uint64 {
		var r []uint64
		for i := 0; i < 64; i++ {
			for d := -2; d <= 2; d++ {
				r = append(r, uint64(1)<<i+uint64(d))
			}
		}
		return append(r, 0x0102030405060708, 0xf0e0d0c0b0a09080, 0xdeadbeefcafebabe, math.MaxInt64, math.MaxUint64, 0x00ff00ff00ff00ff)
	}
	le := func(v uint64, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			if i < 8 {
				b[i] = byte(v >> (8 * i))
			}
		}
		return b
	}
	all("C35", "GetBytesFromInt, GetIntFromBytes", 0, func(x *X) {
		check := func(v uint64, n int) {
			x.Case("int", v, n)
			b := axnet.GetBytesFromInt(int(v), n)
			if !same(b, le(v, n)) {
				x.Failf("GetBytesFromInt(%d, %d) is %x", int(v), n, b)
			}
			c := axnet.GetBytesFromInt(^int(v), n)
			if got := axnet.GetIntFromBytes(b); got != int(v) {
				x.Failf("GetIntFromBytes(%x) is %d, not %d", b, got, int(v))
			}
			if !same(b, le(v, n)) || n > 0 && n <= 8 && same(b, c) {
				x.Fail("GetBytesFromInt: the results of two calls are not independent")
			}
		}
		for n := 0; n <= 8; n++ {
			for _, v := range ints() {
				if n < 8 && v >= 1<<(8*n) {
					continue
				}
				check(v, n)
				if v < 1<<63 {
					check(v, n+1)
					if n == 8 {
						check(v, 10)
					}
				}
			}
		}
		for v := 0; v < 1<<16; v++ {
			check(uint64(v), 2)
			check(uint64(v)<<8|0x5a, 3)
		}
	})
	all("C35", "UInt16 and UInt32", 0, func(x *X) {
		for v := 0; v < 1<<16; v++ {
			x.Case("u16", v)
			x.Case("u32", v)
			b := axnet.GetBytesFromUInt16(uint16(v))
			o := axnet.GetBytesFromUInt16(^uint16(v))
			if !same(b, le(uint64(v), 2)) || axnet.GetUInt16FromBytes(b) != uint16(v) || same(b, o) {
				x.Failf("GetBytesFromUInt16(%d) is %x, and back %d", v, b, axnet.GetUInt16FromBytes(b))
			}
			for _, w := range []uint32{uint32(v), uint32(v) << 16, uint32(v)<<16 | uint32(v), uint32(v) << 8} {
				b := axnet.GetBytesFromUInt32(w)
				o := axnet.GetBytesFromUInt32(^w)
				if !same(b, le(uint64(w), 4)) || axnet.GetUInt32FromBytes(b) != w || same(b, o) {
					x.Failf("GetBytesFromUInt32(%d) is %x, and back %d", w, b, axnet.GetUInt32FromBytes(b))
				}
			}
		}
	})
	orders := []struct {
		o    binary.ByteOrder
		name string
	}{{binary.LittleEndian, "little endian"}, {binary.BigEndian, "big endian"}, {binary.NativeEndian, "native"}}
	all("C35", "PackUint, UnpackUint", 0, func(x *X) {
		for _, o := range orders {
			big := o.name == "big endian"
			want := func(v uint64, n int) []byte {
				b := le(v, n)
				if big {
					for i := 0; i < n/2; i++ {
						b[i], b[n-1-i] = b[n-1-i], b[i]
					}
				}
				return b
			}
			check := func(v uint64, n int) {
				x.Case(o.name, v, n)
				var in any
				var out any
				get := func() uint64 { return 0 }
				switch n {
				case 1:
					p := new(uint8)
					in, out, get = uint8(v), p, func() uint64 { return uint64(*p) }
				case 2:
					p := new(uint16)
					in, out, get = uint16(v), p, func() uint64 { return uint64(*p) }
				case 4:
					p := new(uint32)
					in, out, get = uint32(v), p, func() uint64 { return uint64(*p) }
				case 8:
					p := new(uint64)
					in, out, get = v, p, func() uint64 { return *p }
				}
				if n < 8 {
					v &= 1<<(8*n) - 1
				}
				b := axnet.PackUint(o.o, in)
				if !same(b, want(v, n)) {
					x.Failf("PackUint of %T %d, %s, is %x", in, v, o.name, b)
				}
				for extra := 0; extra < 3; extra++ {
					if err := axnet.UnpackUint(o.o, append(clone(b), make([]byte, extra)...), out); err != nil || get() != v {
						x.Failf("UnpackUint of %x, %s, is %d with error %v, not %d", b, o.name, get(), err, v)
					}
				}
				if err := axnet.UnpackUint(o.o, b, out); err != nil || get() != v {
					x.Failf("UnpackUint of %x, %s, is %d with error %v, not %d", b, o.name, get(), err, v)
				}
				if !same(b, want(v, n)) {
					x.Fail("UnpackUint changes its input")
				}
				for l := 0; l < n; l++ {
					var err error
					if m := protect(func() { err = axnet.UnpackUint(o.o, b[:l:l], out) }); m != "" {
						x.Failf("UnpackUint of %d bytes into %T panics: %s", l, out, m)
					}
					if err == nil {
						x.Failf("UnpackUint of %d bytes into %T gives no error", l, out)
					}
				}
				if err := axnet.UnpackUint(o.o, nil, out); err == nil {
					x.Failf("UnpackUint of nil into %T gives no error", out)
				}
			}
			for _, n := range []int{1, 2, 4, 8} {
				for _, v := range ints() {
					check(v, n)
				}
			}
			for v := 0; v < 1<<16; v++ {
				check(uint64(v), 2)
			}
			for v := 0; v < 256; v++ {
				check(uint64(v), 1)
			}
		}
	})
	all("C35", "unsupported types", 0, func(x *X) {
		type own uint32
		for _, o := range orders {
			for _, v := range []any{nil, 1, int8(1), int16(1), int32(1), int64(1), uint(1), uintptr(1), "1", 1.5, float32(1), []byte{1}, true, own(1), new(uint32), struct{}{}, [4]byte{}} {
				x.Case(o.name, fmt.Sprintf("pack %T", v))
				var b []byte
				if protect(func() { b = axnet.PackUint(o.o, v) }) == "" {
					x.Failf("PackUint of a %T is not refused but gives %x", v, b)
				}
			}
			n := 1
			for _, v := range []any{nil, 1, uint32(1), &n, new(int8), new(int16), new(int32), new(int64), new(uint), new(string), new(float64), new(bool), new(own), []byte{1}, new([]byte), new(*uint32)} {
				for l := 0; l < 10; l++ {
					x.Case(o.name, fmt.Sprintf("unpack %T", v), l)
					var err error
					if m := protect(func() { err = axnet.UnpackUint(o.o, make([]byte, l), v) }); m == "" && err == nil {
						x.Failf("UnpackUint into a %T is not refused", v)
					}
				}
			}
		}
	})
	all("C35", "sizes", 8, func(x *X) {
		k := x.Choose(patterns)
		ns := []int{65534, 65535, 65536, 65537, 100000, 1 << 20}
		for n := 0; n < 600; n++ {
			ns = append(ns, n)
		}
		for _, n := range ns {
			for _, spare := range []int{0, 16} {
				data := append(make([]byte, 0, n+spare), pattern(k, n)...)
				in := clone(data)
				for _, w := range []int{2, 4} {
					if w == 2 && n > 65535 {
						continue
					}
					x.Case("size", w, data)
					f := axnet.AddSize32
					if w == 2 {
						f = axnet.AddSize16
					}
					r := f(data)
					if len(r) != n+w || !same(r[:w], le(uint64(n), w)) || !same(r[w:], in) {
						x.Failf("AddSize%d of %d bytes gives %s", 8*w, n, short(r))
					}
					r2 := f(data)
					for i := range r2 {
						r2[i] ^= 0x55
					}
					if !same(data, in) || !same(data[:cap(data)][n:], make([]byte, cap(data)-n)) {
						x.Failf("AddSize%d changes the payload", 8*w)
					}
					if !same(r[w:], in) || !same(r[:w], le(uint64(n), w)) {
						x.Failf("AddSize%d: the results of two calls are not independent", 8*w)
					}
				}
			}
		}
	})
	all("C35", "Chunk", 8, func(x *X) {
		k := x.Choose(patterns)
		for n := 0; n <= 70; n++ {
			data := pattern(k, n)
			in := clone(data)
			for _, size := range append(seqInts(1, n+3), 1000, 1<<31, math.MaxInt) {
				x.Case("chunk", size, data)
				cs := axnet.Chunk(data, size)
				var cat []byte
				for i, c := range cs {
					if len(c) == 0 || len(c) > size || i < len(cs)-1 && len(c) != size {
						x.Failf("Chunk of %d bytes by %d: piece %d of %d has %d bytes", n, size, i, len(cs), len(c))
					}
					cat = append(cat, c...)
				}
				axnet.Chunk(pattern(4, n), size)
				if !same(cat, in) || !same(bytes.Join(cs, nil), in) {
					x.Failf("Chunk of %d bytes by %d: the pieces are not the data", n, size)
				}
				if !same(data, in) {
					x.Fail("Chunk changes its input")
				}
			}
		}
	})
	bools := func(x *X, bs []bool) {
		x.Case(fmt.Sprint(bs))
		in := append([]bool{}, bs...)
		p := axnet.BoolArrayToByte(bs)
		want := make([]byte, (len(bs)+7)/8)
		for i, b := range bs {
			if b {
				want[i/8] |= 1 << (i % 8)
			}
		}
		if !same(p, want) {
			x.Failf("BoolArrayToByte(%v) is %x, not %x", bs, p, want)
		}
		q := axnet.BoolArrayToByte(bs)
		for i := range q {
			q[i] ^= 0xff
		}
		eq := func(r []bool, n int) bool {
			if len(r) != n {
				return false
			}
			for i := range r {
				if r[i] != (i < len(bs) && in[i]) {
					return false
				}
			}
			return true
		}
		full := axnet.ByteToBoolArray(p)
		if !eq(full, 8*len(p)) {
			x.Failf("ByteToBoolArray(%x) is %v", p, full)
		}
		for c := 0; c <= len(bs); c++ {
			if c < len(bs)-9 && c > 9 {
				continue
			}
			r := axnet.ByteToBoolArray(p, c)
			if !eq(r, c) {
				x.Failf("ByteToBoolArray(%x, %d) is %v", p, c, r)
			}
			for i := range r {
				r[i] = !r[i]
			}
		}
		if !eq(full, 8*len(p)) || !same(p, want) {
			x.Fail("ByteToBoolArray: the results of two calls are not independent, or the input is changed")
		}
		for i := range bs {
			if bs[i] != in[i] {
				x.Fail("BoolArrayToByte changes its input")
			}
		}
	}
	all("C35", "bool arrays", 8, func(x *X) {
		n := x.Choose(17)
		for m := 0; m < 1<<n; m++ {
			bs := make([]bool, n)
			for i := range bs {
				bs[i] = m>>i&1 == 1
			}
			bools(x, bs)
		}
	})
	all("C35", "long bool arrays", 0, func(x *X) {
		for n := 17; n < 140; n++ {
			for k := 0; k < n+4; k++ { // one bit, none, all, every other
				bs := make([]bool, n)
				for i := range bs {
					bs[i] = i == k || k == n+1 || k == n+2 && i&1 == 1 || k == n+3 && i%3 == 0
				}
				bools(x, bs)
			}
		}
		for n := 0; n < 100; n++ {
			r := axnet.CreateAllTrueBoolArray(n)
			s := axnet.CreateAllTrueBoolArray(n)
			for i := range s {
				s[i] = false
			}
			x.Check(len(r) == n, "CreateAllTrueBoolArray gives another length")
			for _, b := range r {
				x.Check(b, "CreateAllTrueBoolArray gives false")
			}
		}
	})
	all("C35", "CopyBytes", 0, func(x *X) {
		for n := 0; n <= 70; n++ {
			data := pattern(4, n)
			in := clone(data)
			for l := 0; l <= n; l++ {
				x.Case("copy", n, l)
				r := axnet.CopyBytes(data, l)
				if !same(r, in[:l]) {
					x.Failf("CopyBytes of %d bytes, %d: %x", n, l, r)
				}
				for i := range r {
					r[i] ^= 0xff
				}
				r = append(r, 1, 2, 3)
				x.Check(same(data, in), "CopyBytes shares memory with its input")
				s := axnet.CopyBytes(data, l)
				for i := range data {
					data[i] ^= 0xff
				}
				x.Check(same(s, in[:l]), "CopyBytes shares memory with its input")
				copy(data, in)
			}
		}
	})
	add("C35", S{Name: "concurrent calls", Bound: 2}, func(x *X) {
		data := pattern(1, 20)
		work := func(v int) func() {
			return func() {
				a := axnet.AddSize32(data)
				b := axnet.GetBytesFromInt(v, 4)
				c := axnet.PackUint(binary.BigEndian, uint32(v))
				d := axnet.BoolArrayToByte([]bool{v&1 == 1, true, v&2 == 2})
				e := axnet.GetBytesFromUInt32(uint32(v))
				f := axnet.AddSize16(data[:v])
				x.Point()
				var u uint32
				err := axnet.UnpackUint(binary.BigEndian, c, &u)
				g := axnet.ByteToBoolArray(d, 3)
				h := axnet.CopyBytes(data, v)
				i := axnet.GetBytesFromUInt16(uint16(v))
				x.Point()
				ch := axnet.Chunk(data, 7)
				x.Check(len(a) == 24 && same(a[4:], data) && a[0] == 20 && axnet.GetIntFromBytes(b) == v && err == nil && u == uint32(v) &&
					g[0] == (v&1 == 1) && g[1] && g[2] == (v&2 == 2) && axnet.GetUInt32FromBytes(e) == uint32(v) && same(h, data[:v]) &&
					same(f[2:], data[:v]) && int(f[0]) == v && axnet.GetUInt16FromBytes(i) == uint16(v) && len(ch) == 3 && same(ch[2], data[14:]),
					"concurrent calls influence each other")
			}
		}
		parallel(x, work(1), work(2), work(3))
	})
}

func seqInts(from, to int) []int {
	var r []int
	for i := from; i <= to; i++ {
		r = append(r, i)
	}
	return r
}
