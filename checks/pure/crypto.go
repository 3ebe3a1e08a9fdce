package main

import (
	stdmd5 "crypto/md5"
	"fmt"
	"strings"

	"github.com/axgrid/axutils/crypto"
)

// ---- C28: AES ----

func keyOf(n, salt int) []byte {
	k := make([]byte, n)
	for i := range k {
		k[i] = byte(i*37 + salt*101 + 11)
	}
	return k
}

var keySizes = []int{16, 24, 32}

// enc encrypts and checks what holds for every encryption.
func enc(x *X, a *crypto.AES, data []byte) []byte {
	x.Case("encrypt", data)
	buf := make([]byte, len(data)+64)
	copy(buf, data)
	for i := len(data); i < len(buf); i++ {
		buf[i] = 0xc3
	}
	c, err := a.Encrypt(buf[:len(data)])
	if err != nil {
		x.Failf("Encrypt of %d bytes fails: %v", len(data), err)
	}
	if !same(buf[:len(data)], data) {
		x.Failf("Encrypt of %d bytes changes its input", len(data))
	}
	for i := len(data); i < len(buf); i++ {
		if buf[i] != 0xc3 {
			x.Failf("Encrypt of %d bytes writes behind its input", len(data))
		}
	}
	return c
}

// dec decrypts and checks what holds for every decryption.
func dec(x *X, a *crypto.AES, c []byte) ([]byte, error) {
	x.Case("decrypt", c)
	buf := make([]byte, len(c)+64)
	copy(buf, c)
	for i := len(c); i < len(buf); i++ {
		buf[i] = 0xc3
	}
	var d []byte
	var err error
	if m := protect(func() { d, err = a.Decrypt(buf[:len(c)]) }); m != "" {
		x.Failf("Decrypt of %d bytes panics: %s", len(c), m)
	}
	if !same(buf[:len(c)], c) {
		x.Failf("Decrypt of %d bytes changes its input", len(c))
	}
	for i := len(c); i < len(buf); i++ {
		if buf[i] != 0xc3 {
			x.Failf("Decrypt of %d bytes writes behind its input", len(c))
		}
	}
	return d, err
}

func rejects(x *X, a *crypto.AES, c []byte, what string) {
	d, err := dec(x, a, c)
	if err == nil {
		x.Failf("Decrypt accepts %s and gives %s", what, short(d))
	}
	if len(d) != 0 {
		x.Failf("Decrypt of %s gives an error and data: %s", what, short(d))
	}
}

func init() {
	all("C28", "round trips and independence", 15, func(x *X) {
		k := x.Choose(15)
		size, kind := keySizes[k%3], k/3
		a := crypto.NewAES(keyOf(size, 0))
		b := crypto.NewAES(keyOf(size, 0))
		type kept struct{ plain, cipher, cipherCopy, back []byte }
		var keep []kept
		for _, n := range aesLengths(600, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1<<20+3) {
			data := pattern(kind, n)
			c := enc(x, a, data)
			e := enc(x, b, data)
			if same(c, e) {
				x.Failf("two encryptions of the same %d bytes are equal", n)
			}
			cc := clone(c)
			for i, p := range []struct {
				a *crypto.AES
				c []byte
			}{{a, c}, {b, c}, {a, e}, {crypto.NewAES(keyOf(size, 0)), e}} {
				d, err := dec(x, p.a, p.c)
				if err != nil || !same(d, data) {
					x.Failf("key of %d bytes, data of %d: decryption %d gives %s and error %v, not the data", size, n, i, short(d), err)
				}
				if i == 0 {
					// a caller may change what it got
					for j := range d {
						d[j] ^= 0x55
					}
				}
			}
			d, err := dec(x, a, c)
			if err != nil || !same(d, data) {
				x.Failf("changing a decrypted slice of %d bytes changes the next decryption", n)
			}
			if n < 2000 {
				keep = append(keep, kept{data, c, cc, d})
			}
		}
		for _, k := range keep {
			if !same(k.cipher, k.cipherCopy) {
				x.Failf("the ciphertext of %d bytes was changed by later calls", len(k.plain))
			}
			if !same(k.back, k.plain) {
				x.Failf("the plaintext of %d bytes was changed by later calls", len(k.plain))
			}
		}
	})
	all("C28", "changed bits", 30, func(x *X) {
		k := x.Choose(30)
		size, part := keySizes[k%3], k/3
		a := crypto.NewAES(keyOf(size, 0))
		for _, n := range aesLengths(80, 127, 128, 129, 255, 256, 257, 300) {
			if n%10 != part {
				continue
			}
			data := pattern(n%patterns, n)
			c := enc(x, a, data)
			for i := 0; i < len(c)*8; i++ {
				t := clone(c)
				t[i/8] ^= 1 << (i % 8)
				rejects(x, a, t, fmt.Sprintf("%d bytes encrypted with bit %d changed", n, i))
			}
			for i := range c {
				for _, v := range []byte{0, 0xff, c[i] + 1, ^c[i]} {
					if v != c[i] {
						t := clone(c)
						t[i] = v
						rejects(x, a, t, fmt.Sprintf("%d bytes encrypted with byte %d changed", n, i))
					}
				}
				if i > 0 && c[i] != c[i-1] {
					t := clone(c)
					t[i], t[i-1] = t[i-1], t[i]
					rejects(x, a, t, fmt.Sprintf("%d bytes encrypted with bytes %d and %d exchanged", n, i-1, i))
				}
			}
			if d, err := dec(x, a, c); err != nil || !same(d, data) {
				x.Failf("after rejected ciphertexts the right one gives error %v", err)
			}
		}
	})
	all("C28", "cut and extended", 15, func(x *X) {
		k := x.Choose(15)
		size, part := keySizes[k%3], k/3
		a := crypto.NewAES(keyOf(size, 0))
		for _, n := range aesLengths(100, 255, 256, 257, 1024) {
			if n%5 != part {
				continue
			}
			c := enc(x, a, pattern(n%patterns, n))
			for l := 0; l < len(c); l++ {
				rejects(x, a, c[:l:l], fmt.Sprintf("%d bytes encrypted and cut to %d of %d", n, l, len(c)))
				rejects(x, a, clone(c[len(c)-l:]), fmt.Sprintf("%d bytes encrypted, the first %d missing", n, len(c)-l))
				if n <= 40 {
					rejects(x, a, append(clone(c[:l]), c[l+1:]...), fmt.Sprintf("%d bytes encrypted, byte %d missing", n, l))
					rejects(x, a, append(append(clone(c[:l]), 0), c[l:]...), fmt.Sprintf("%d bytes encrypted, a zero byte added at %d", n, l))
					if l > 0 {
						rejects(x, a, make([]byte, l), fmt.Sprintf("%d zero bytes", l))
					}
				}
			}
			for k := 1; k <= 33; k++ {
				for _, v := range []byte{0, 0xff, 1} {
					e := clone(c)
					for i := 0; i < k; i++ {
						e = append(e, v)
					}
					rejects(x, a, e, fmt.Sprintf("%d bytes encrypted, %d bytes added", n, k))
					f := make([]byte, k, k+len(c))
					rejects(x, a, append(f, c...), fmt.Sprintf("%d bytes encrypted, %d bytes put before", n, k))
				}
			}
			rejects(x, a, append(clone(c), c...), fmt.Sprintf("%d bytes encrypted, twice", n))
			d := enc(x, a, pattern(n%patterns, n))
			rejects(x, a, append(clone(c[:12]), d[12:]...), "two ciphertexts mixed at the front")
			rejects(x, a, append(clone(c[:len(c)-16]), d[len(d)-16:]...), "two ciphertexts mixed at the end")
		}
		rejects(x, a, nil, "nil")
	})
	all("C28", "other keys", 3, func(x *X) {
		size := choose(x, keySizes...)
		key := keyOf(size, 0)
		a := crypto.NewAES(clone(key))
		for _, n := range []int{0, 1, 15, 16, 17, 31, 32, 33, 100} {
			c := enc(x, a, pattern(3, n))
			for i := 0; i < size*8; i++ {
				k := clone(key)
				k[i/8] ^= 1 << (i % 8)
				rejects(x, crypto.NewAES(k), c, fmt.Sprintf("%d bytes encrypted with a key that differs in bit %d", n, i))
			}
			for _, s := range keySizes {
				rejects(x, crypto.NewAES(keyOf(s, 1)), c, "a text encrypted with another key")
				if s != size {
					rejects(x, crypto.NewAES(keyOf(s, 0)), c, "a text encrypted with a key of another size")
				}
			}
		}
		if !same(key, keyOf(size, 0)) {
			x.Fail("the key is changed")
		}
	})
	all("C28", "invalid key sizes", 0, func(x *X) {
		good := enc(x, crypto.NewAES(keyOf(16, 0)), []byte("some data"))
		for s := -1; s <= 70; s++ {
			if s == 16 || s == 24 || s == 32 {
				continue
			}
			var key []byte
			if s >= 0 {
				key = make([]byte, s)
				copy(key, keyOf(s, 0))
			}
			a := crypto.NewAES(key)
			for _, data := range [][]byte{nil, {}, []byte("some data"), good, pattern(1, 1000)} {
				x.Case(s, data)
				x.Case("decrypt", s, data)
				var r []byte
				var err error
				if m := protect(func() { r, err = a.Encrypt(data) }); m != "" {
					x.Failf("Encrypt with a key of %d bytes panics: %s", s, m)
				}
				if err == nil || len(r) != 0 {
					x.Failf("Encrypt of %d bytes with a key of %d bytes gives %s and error %v", len(data), s, short(r), err)
				}
				if m := protect(func() { r, err = a.Decrypt(data) }); m != "" {
					x.Failf("Decrypt with a key of %d bytes panics: %s", s, m)
				}
				if err == nil || len(r) != 0 {
					x.Failf("Decrypt of %d bytes with a key of %d bytes gives %s and error %v", len(data), s, short(r), err)
				}
			}
		}
	})
	all("C28", "nonces", 0, func(x *X) {
		seen := map[string]bool{}
		a := crypto.NewAES(keyOf(32, 0))
		for i := 0; i < 1<<18; i++ {
			o := a
			if i%2 == 1 {
				o = crypto.NewAES(keyOf(32, 0))
			}
			// the nonce is in front; equal data and nonce give equal ciphertext, wherever the nonce is
			c, err := o.Encrypt([]byte("x"))
			x.Case(i)
			if err != nil {
				x.Failf("Encrypt fails: %v", err)
			}
			if seen[string(c)] {
				x.Failf("encryption %d of the same data gives the same ciphertext again", i)
			}
			seen[string(c)] = true
		}
	})
	add("C28", S{Name: "concurrent calls", Bound: 2, BoundT: 4}, func(x *X) {
		a := crypto.NewAES(keyOf(16+8*x.Choose(3), 0))
		shared := enc(x, a, []byte("for all of them"))
		work := func(v int) func() {
			return func() {
				data := []byte(strings.Repeat(fmt.Sprint("thread", v), v+1))
				c, err := a.Encrypt(data)
				x.Point()
				x.Check(err == nil, "Encrypt fails")
				d, err := a.Decrypt(c)
				x.Point()
				s, e2 := a.Decrypt(shared)
				x.Point()
				c2, _ := a.Encrypt(data)
				x.Point()
				x.Check(err == nil && same(d, data), "concurrent calls: Decrypt does not give what was encrypted")
				x.Check(e2 == nil && string(s) == "for all of them", "concurrent calls: Decrypt of a shared text gives something else")
				x.Check(!same(c, c2), "two encryptions of the same data are equal")
				for i := range d {
					d[i] = 0
				}
				for i := range s {
					s[i] = 0
				}
				t := clone(c)
				t[len(t)-1] ^= 1
				_, err = a.Decrypt(t)
				x.Point()
				x.Check(err != nil, "concurrent calls: a changed ciphertext is accepted")
				d, err = a.Decrypt(c)
				x.Check(err == nil && same(d, data), "concurrent calls: the ciphertext changes")
			}
		}
		parallel(x, work(1), work(2))
	})
}

func aesLengths(upTo int, more ...int) []int {
	var r []int
	for i := 0; i <= upTo; i++ {
		r = append(r, i)
	}
	return append(r, more...)
}

// ---- C29: MD5 ----

func init() {
	check := func(x *X, text string) {
		x.Case(text)
		want := stdmd5.Sum([]byte(text))
		b := crypto.GetMD5HashBytes(text)
		if len(b) != 16 || string(b) != string(want[:]) {
			x.Failf("GetMD5HashBytes of %s is %x, not %x", short([]byte(text)), b, want)
		}
		hex := fmt.Sprintf("%x", want)
		if h := crypto.GetMD5Hash(text); h != hex {
			x.Failf("GetMD5Hash of %s is %q, not %q", short([]byte(text)), h, hex)
		}
		for i := range b {
			b[i] ^= 0xff
		}
		_ = append(b, 1, 2, 3)
		if b2 := crypto.GetMD5HashBytes(text); string(b2) != string(want[:]) {
			x.Failf("GetMD5HashBytes of %s: changing the result of a call changes the next one", short([]byte(text)))
		}
	}
	all("C29", "known digests", 0, func(x *X) {
		for text, want := range map[string]string{
			"":                           "d41d8cd98f00b204e9800998ecf8427e",
			"a":                          "0cc175b9c0f1b6a831c399e269772661",
			"abc":                        "900150983cd24fb0d6963f7d28e17f72",
			"message digest":             "f96b697d7cb7938d525a2f31aaf161d0",
			"abcdefghijklmnopqrstuvwxyz": "c3fcd3d76192e4007dfb496cca67e13b",
			"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789":                   "d174ab98d277d9f5a5611c2c9f419d9f",
			"12345678901234567890123456789012345678901234567890123456789012345678901234567890": "57edf4a22be3c955ac49da2e2107b67a",
		} {
			if h := crypto.GetMD5Hash(text); h != want {
				x.Failf("GetMD5Hash(%q) is %q, not %q", text, h, want)
			}
			check(x, text)
		}
	})
	all("C29", "every text of up to two bytes", 0, func(x *X) {
		check(x, "")
		for i := 0; i < 256; i++ {
			check(x, string([]byte{byte(i)}))
			for j := 0; j < 256; j++ {
				check(x, string([]byte{byte(i), byte(j)}))
			}
		}
	})
	all("C29", "every rune", 8, func(x *X) {
		p := x.Choose(8)
		for r := rune(p); r < 0x110000; r += 8 {
			if r < 0x3000 || r%61 == rune(p) || r >= 0xd700 && r < 0xe100 || r > 0xff00 && r < 0x10100 {
				check(x, string(r))
				check(x, "a"+string(r)+"\x00")
			}
		}
	})
	all("C29", "every length", 5, func(x *X) {
		kind := x.Choose(patterns)
		for n := 0; n <= 1100; n++ {
			check(x, string(pattern(kind, n)))
		}
		for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 1<<22 + 5} {
			check(x, string(pattern(kind, n)))
		}
	})
	all("C29", "retained results", 0, func(x *X) {
		var rs [][]byte
		for i := 0; i < 3000; i++ {
			rs = append(rs, crypto.GetMD5HashBytes(fmt.Sprint("text", i)))
		}
		for i, r := range rs {
			x.Case(i)
			want := stdmd5.Sum([]byte(fmt.Sprint("text", i)))
			if string(r) != string(want[:]) {
				x.Failf("GetMD5HashBytes: result %d was changed by later calls", i)
			}
			_ = append(r, 0xaa, 0xbb)
		}
	})
	add("C29", S{Name: "concurrent calls", Bound: 2, BoundT: 4}, func(x *X) {
		work := func(v int) func() {
			return func() {
				var rs [][]byte
				for i := 0; i < 3; i++ {
					text := fmt.Sprint("thread", v, "text", i)
					want := stdmd5.Sum([]byte(text))
					h := crypto.GetMD5Hash(text)
					x.Point()
					x.Check(h == fmt.Sprintf("%x", want), "concurrent calls: GetMD5Hash gives another digest")
					rs = append(rs, crypto.GetMD5HashBytes(text))
					x.Point()
				}
				for i, r := range rs {
					want := stdmd5.Sum([]byte(fmt.Sprint("thread", v, "text", i)))
					x.Check(string(r) == string(want[:]), "concurrent calls: GetMD5HashBytes gives another digest")
					for j := range r {
						r[j] = 0
					}
				}
			}
		}
		parallel(x, work(1), work(2))
	})
}
