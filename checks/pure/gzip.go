package main

import (
	"bytes"
	"compress/flate"
	stdgzip "compress/gzip"
	"fmt"
	"io"

	axzip "github.com/axgrid/axutils/zip"
)

// ---- C37: gzip ----

func zipIt(x *X, data []byte) []byte {
	x.Case("zip", data)
	in := clone(data)
	c, err := axzip.GZipData(in)
	if err != nil {
		x.Failf("GZipData of %d bytes fails: %v", len(data), err)
	}
	if !same(in, data) {
		x.Failf("GZipData of %d bytes changes its input", len(data))
	}
	return c
}

func unzipIt(x *X, c []byte) ([]byte, error) {
	x.Case("unzip", c)
	in := clone(c)
	var d []byte
	var err error
	if m := protect(func() { d, err = axzip.GUnzipData(in) }); m != "" {
		x.Failf("GUnzipData of %s panics: %s", short(c), m)
	}
	if !same(in, c) {
		x.Failf("GUnzipData of %s changes its input", short(c))
	}
	return d, err
}

func stdUnzip(c []byte) ([]byte, error) {
	r, err := stdgzip.NewReader(bytes.NewReader(c))
	if err != nil {
		return nil, err
	}
	r.Multistream(false)
	return io.ReadAll(r)
}

func stdZip(data []byte, level int, h stdgzip.Header) []byte {
	var b bytes.Buffer
	w, err := stdgzip.NewWriterLevel(&b, level)
	if err != nil {
		panic(err)
	}
	w.Header = h
	w.Write(data)
	w.Close()
	return b.Bytes()
}

func gzRound(x *X, data []byte) []byte {
	c := zipIt(x, data)
	if d, err := stdUnzip(c); err != nil || !same(d, data) {
		x.Failf("the gzip stream of %s is not standard: %s, error %v", short(data), short(d), err)
	}
	d, err := unzipIt(x, c)
	if err != nil || !same(d, data) {
		x.Failf("GUnzipData of the gzip stream of %s gives %s, error %v", short(data), short(d), err)
	}
	return c
}

// damaged checks that a stream gives an error or the original.
func damaged(x *X, c, data []byte, what string, must bool) {
	d, err := unzipIt(x, c)
	if err != nil {
		return
	}
	if must {
		x.Failf("GUnzipData accepts %s of %s and gives %s", what, short(data), short(d))
	}
	if !same(d, data) {
		x.Failf("GUnzipData of %s of %s gives other data without an error: %s", what, short(data), short(d))
	}
}

func init() {
	all("C37", "every text of up to two bytes", 8, func(x *X) {
		p := x.Choose(8)
		if p == 0 {
			gzRound(x, nil)
			gzRound(x, []byte{})
			for i := 0; i < 256; i++ {
				gzRound(x, []byte{byte(i)})
			}
		}
		for i := p * 32; i < p*32+32; i++ {
			for j := 0; j < 256; j++ {
				if i < 4 || j < 4 || i > 252 || (i+j)%16 == 0 {
					gzRound(x, []byte{byte(i), byte(j)})
				}
			}
		}
	})
	thorough("C37", "every text of two bytes", 64, func(x *X) {
		i := x.Choose(256)
		for j := 0; j < 256; j++ {
			gzRound(x, []byte{byte(i), byte(j)})
		}
	})
	lengths := func(step int) func(x *X) {
		return func(x *X) {
			k := x.Choose(patterns * 8)
			kind, part := k/8, k%8
			for n := part; n < 1200; n += 8 * step {
				gzRound(x, pattern(kind, n))
			}
			for i, n := range []int{2047, 2048, 4095, 4096, 4097, 8191, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131072, 1<<20 + 1, 3 << 20} {
				if i%8 == part {
					gzRound(x, pattern(kind, n))
				}
			}
		}
	}
	all("C37", "every length", 40, lengths(4))
	thorough("C37", "every length up to 1200", 40, lengths(1))
	thorough("C37", "large data", 10, func(x *X) {
		k := x.Choose(10)
		gzRound(x, pattern(k%5, []int{17 << 20, 50<<20 + 7}[k/5]))
	})
	all("C37", "streams of other writers", 40, func(x *X) {
		k := x.Choose(patterns * 8)
		kind, level := k/8, []int{flate.HuffmanOnly, flate.DefaultCompression, 0, 1, 3, 5, 6, 9}[k%8]
		for _, n := range []int{0, 1, 2, 100, 1000, 32768, 70000} {
			data := pattern(kind, n)
			for _, h := range []stdgzip.Header{{}, {Name: "a name", Comment: "a comment", OS: 255}, {Extra: []byte("extra"), OS: 3}} {
				c := stdZip(data, level, h)
				d, err := unzipIt(x, c)
				if err != nil || !same(d, data) {
					x.Failf("GUnzipData of a standard stream (level %d) of %s gives %s, error %v", level, short(data), short(d), err)
				}
			}
		}
	})
	cutLengths := []int{0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 300, 700}
	all("C37", "cut streams", 14, func(x *X) {
		n := cutLengths[x.Choose(len(cutLengths))]
		for kind := 0; kind < patterns; kind++ {
			data := pattern(kind, n)
			for _, c := range [][]byte{zipIt(x, data), stdZip(data, 9, stdgzip.Header{Name: "n"}), stdZip(data, 0, stdgzip.Header{})} {
				for l := 0; l < len(c); l++ {
					damaged(x, c[:l:l], data, fmt.Sprintf("the first %d of %d bytes of the stream", l, len(c)), true)
					if l > 0 {
						damaged(x, c[l:], data, fmt.Sprintf("the stream without its first %d bytes", l), false)
					}
					if n <= 55 {
						damaged(x, append(clone(c[:l]), c[l+1:]...), data, fmt.Sprintf("the stream without byte %d", l), false)
						damaged(x, append(append(clone(c[:l]), c[l]^0x35), c[l:]...), data, fmt.Sprintf("the stream with a byte added at %d", l), false)
					}
				}
			}
		}
	})
	for _, n := range []int{9000, 70000} {
		n := n
		all("C37", fmt.Sprintf("cut streams of %d bytes", n), 20, func(x *X) {
			k := x.Choose(patterns * 4)
			kind, part := k/4, k%4
			data := pattern(kind, n)
			c := zipIt(x, data)
			for l := 0; l < len(c); l++ {
				if l%4 != part || l > 100 && l < len(c)-100 && l/4%(1+len(c)/2000) != 0 {
					continue
				}
				damaged(x, c[:l:l], data, fmt.Sprintf("the first %d of %d bytes of the stream", l, len(c)), true)
			}
		})
	}
	all("C37", "changed bytes", 14, func(x *X) {
		n := cutLengths[x.Choose(len(cutLengths))]
		for kind := 0; kind < patterns; kind++ {
			if n > 200 && kind > 3 {
				continue
			}
			data := pattern(kind, n)
			c := zipIt(x, data)
			for i := range c {
				for b := 0; b < 8; b++ {
					t := clone(c)
					t[i] ^= 1 << b
					damaged(x, t, data, fmt.Sprintf("bit %d of byte %d of %d changed in the stream", b, i, len(c)), false)
				}
				for _, v := range []byte{0, 0xff, c[i] + 1} {
					if v != c[i] {
						t := clone(c)
						t[i] = v
						damaged(x, t, data, fmt.Sprintf("byte %d of %d changed in the stream", i, len(c)), false)
					}
				}
				// the checksum and the length at the end must be verified
				if i >= len(c)-8 {
					t := clone(c)
					t[i] ^= 0x10
					damaged(x, t, data, fmt.Sprintf("byte %d of %d (checksum and length) changed in the stream", i, len(c)), true)
				}
			}
			for k := 1; k <= 20; k++ {
				for _, v := range []byte{0, 1, 0x1f, 0xff} {
					damaged(x, append(clone(c), bytes.Repeat([]byte{v}, k)...), data, fmt.Sprintf("%d bytes after the stream", k), false)
				}
			}
		}
	})
	thorough("C37", "every value of every byte", 64, func(x *X) {
		k := x.Choose(len(cutLengths) * patterns)
		n, kind := cutLengths[k/patterns], k%patterns
		data := pattern(kind, n)
		c := zipIt(x, data)
		for i := range c {
			for v := 0; v < 256; v++ {
				t := clone(c)
				t[i] = byte(v)
				damaged(x, t, data, fmt.Sprintf("byte %d of %d changed in the stream", i, len(c)), false)
			}
		}
	})
	thorough("C37", "two changed bits", 64, func(x *X) {
		k := x.Choose(6 * patterns)
		n, kind := cutLengths[k/patterns], k%patterns
		data := pattern(kind, n)
		c := zipIt(x, data)
		for i := 0; i < len(c)*8; i++ {
			for j := i + 1; j < len(c)*8; j++ {
				t := clone(c)
				t[i/8] ^= 1 << (i % 8)
				t[j/8] ^= 1 << (j % 8)
				damaged(x, t, data, fmt.Sprintf("bits %d and %d changed in the stream", i, j), false)
			}
		}
	})
	all("C37", "several members", 8, func(x *X) {
		// gzip streams one after the other are the stream of the texts one after the other; anything else behind a
		// stream is damage
		texts := [][]byte{{}, {0}, []byte("a"), []byte("hello "), bytes.Repeat([]byte("xyz"), 3000)}
		k := x.Choose(len(texts))
		for _, b := range texts {
			for _, own := range []bool{true, false} {
				two := func(d []byte) []byte {
					if own {
						return zipIt(x, d)
					}
					return stdZip(d, 9, stdgzip.Header{Name: "n", Comment: "c"})
				}
				c1, c2 := two(texts[k]), two(b)
				for n := 2; n <= 4; n++ {
					c, want := append(clone(c1), c2...), append(clone(texts[k]), b...)
					for i := 2; i < n; i++ {
						c, want = append(c, c1...), append(want, texts[k]...)
					}
					d, err := unzipIt(x, c)
					if err != nil || !same(d, want) {
						x.Failf("GUnzipData of %d members gives %s in place of %s, error %v", n, short(d), short(want), err)
					}
					// cut anywhere but between the members
					for i := len(c1) + 1; i < len(c1)+len(c2); i++ {
						if d, err := unzipIt(x, c[:i]); err == nil {
							x.Failf("GUnzipData of a stream whose second member is cut gives %s without an error", short(d))
						}
					}
				}
				for v := 1; v < 256; v++ { // zero bytes may be padding
					if d, err := unzipIt(x, append(clone(c1), byte(v))); err == nil {
						x.Failf("GUnzipData of a stream with the byte %d behind it gives %s without an error", v, short(d))
					}
				}
				for i := 1; i < len(c2); i++ {
					if d, err := unzipIt(x, append(append(clone(c1), 7), c2[:i]...)); err == nil {
						x.Failf("GUnzipData of a stream with %d bytes behind it gives %s without an error", i+1, short(d))
					}
				}
			}
		}
	})
	all("C37", "other input", 0, func(x *X) {
		for n := 0; n < 300; n++ {
			for kind := 0; kind < patterns; kind++ {
				d := pattern(kind, n)
				damaged(x, d, nil, fmt.Sprintf("%d bytes that are no gzip stream, instead", n), true)
				if n > 2 {
					d[0], d[1] = 0x1f, 0x8b
					damaged(x, d, nil, fmt.Sprintf("%d bytes that begin like a gzip stream, instead", n), true)
					d[2] = 8
					if n > 3 {
						d[3] = 0
					}
					damaged(x, d, nil, fmt.Sprintf("%d bytes that begin like a gzip stream, instead", n), true)
				}
			}
		}
		damaged(x, nil, nil, "nil, instead", true)
		// the deflate stream alone, and a zlib-like one
		c := zipIt(x, pattern(3, 100))
		damaged(x, c[10:], nil, "a deflate stream without header, instead", true)
		damaged(x, c[10:len(c)-8], nil, "a deflate stream alone, instead", true)
		damaged(x, c[:len(c)-8], nil, "a stream without checksum and length, instead", true)
	})
	all("C37", "retained results", 0, func(x *X) {
		var cs, ds, want, wantC [][]byte
		for i := 0; i < 400; i++ {
			data := pattern(i%patterns, i*3)
			c := zipIt(x, data)
			d, err := unzipIt(x, c)
			if err != nil {
				x.Failf("GUnzipData fails: %v", err)
			}
			cs, ds, want, wantC = append(cs, c), append(ds, d), append(want, data), append(wantC, clone(c))
			if i%7 == 0 {
				unzipIt(x, c[:len(c)/2])
			}
		}
		for i := range cs {
			if !same(cs[i], wantC[i]) {
				x.Failf("result %d of GZipData was changed by later calls", i)
			}
			if !same(ds[i], want[i]) {
				x.Failf("result %d of GUnzipData was changed by later calls", i)
			}
			for j := range ds[i] {
				ds[i][j] ^= 0xff
			}
			for j := range cs[i] {
				cs[i][j] ^= 0xff
			}
		}
		for i := range want {
			gzRound(x, want[i])
			if i > 60 {
				break
			}
		}
	})
	add("C37", S{Name: "concurrent calls", Bound: 1, BoundT: 3}, func(x *X) {
		work := func(kind int) func() {
			return func() {
				data := pattern(kind, 50)
				c, err := axzip.GZipData(data)
				x.Point()
				x.Check(err == nil, "GZipData fails")
				d, err := axzip.GUnzipData(c)
				x.Point()
				x.Check(err == nil && same(d, data), "concurrent calls: GUnzipData does not give what was compressed")
				_, err = axzip.GUnzipData(c[:len(c)-9])
				x.Point()
				x.Check(err != nil, "concurrent calls: a cut stream is accepted")
				for i := range d {
					d[i] = 0
				}
				s, err := stdUnzip(c)
				x.Check(err == nil && same(s, data), "concurrent calls: the stream changes")
			}
		}
		parallel(x, work(1), work(3))
	})
}
