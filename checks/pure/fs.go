package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/signal"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/axgrid/axutils/crypto_fs"
)

// ---- C30, C31, C32: CryptoFS ----

// node is a file (kids nil) or a directory of a tree.
type node struct {
	name string
	data []byte
	dir  bool
	kids []*node
}

// shapes gives every ordered forest of up to n nodes, as text: f a file, ( ) a directory.
func shapes(n int) []string {
	var gen func(n int) []string
	memo := map[int][]string{}
	gen = func(n int) []string { // exactly n nodes
		if r, ok := memo[n]; ok {
			return r
		}
		var r []string
		if n == 0 {
			r = []string{""}
		}
		for k := 1; k <= n; k++ { // the first tree has k nodes
			var first []string
			if k == 1 {
				first = append(first, "f")
			}
			for _, in := range gen(k - 1) {
				first = append(first, "("+in+")")
			}
			for _, f := range first {
				for _, rest := range gen(n - k) {
					r = append(r, f+rest)
				}
			}
		}
		memo[n] = r
		return r
	}
	var r []string
	for i := 0; i <= n; i++ {
		r = append(r, gen(i)...)
	}
	return r
}

var names = [][]string{
	{"alpha.txt", "beta", "gamma.tar.gz", "delta", "epsilon", "zeta"},
	{"имя файла", ".hidden", "a\nb", "%s\\x", "~", "日本"},
	{"a", "b", "a b", "A", "aa", "-"},
}

var sizes = [][]int{{0, 1, 5, 100, 0, 3}, {7, 0, 513, 2, 64, 0}, {4096, 4097, 0, 70000, 1, 9}}

// tree makes the tree of a shape. Names are unique among siblings only, so base names occur again in other folders.
func tree(shape string, nameSet, sizeSet int) *node {
	root := &node{name: "root", dir: true}
	stack := []*node{root}
	k := 0
	for _, c := range shape {
		top := stack[len(stack)-1]
		switch c {
		case ')':
			stack = stack[:len(stack)-1]
			continue
		}
		n := &node{name: names[nameSet][len(top.kids)%6]}
		if len(top.kids) >= 6 {
			n.name += fmt.Sprint(len(top.kids))
		}
		top.kids = append(top.kids, n)
		if c == '(' {
			n.dir = true
			stack = append(stack, n)
		} else {
			n.data = content(k, sizes[sizeSet][k%6])
			k++
		}
	}
	return root
}

// content is text that can be recognised.
func content(k, n int) []byte {
	s := strings.Repeat(fmt.Sprintf("content-%d-Secret-Plain-Text;", k), n/20+1)
	return []byte(s[:n])
}

func (n *node) write(at string) {
	if !n.dir {
		if err := os.WriteFile(at, n.data, 0600); err != nil {
			panic(err)
		}
		return
	}
	if err := os.Mkdir(at, 0700); err != nil {
		panic(err)
	}
	for _, k := range n.kids {
		k.write(at + "/" + k.name)
	}
}

// flat gives every node under its path.
func (n *node) flat(at string, to map[string]*node) map[string]*node {
	to[at] = n
	for _, k := range n.kids {
		p := path.Join(at, k.name)
		k.flat(p, to)
	}
	return to
}

// baseOf is the base name a stored node should have.
func baseOf(p string) string { return path.Base(p) }

// readAll reads a handle to its end with a buffer size.
func readAll(x *X, f fs.File, size int, what string) []byte {
	var r []byte
	buf := make([]byte, size)
	for i := 0; ; i++ {
		n, err := f.Read(buf)
		if n < 0 || n > size {
			x.Failf("%s: a Read into %d bytes gives %d", what, size, n)
		}
		r = append(r, buf[:n]...)
		// a caller may change the bytes it read
		for j := range buf {
			buf[j] = 0x5a
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			x.Failf("%s: Read gives %v", what, err)
		}
		if i > 200000 {
			x.Failf("%s: reading into %d bytes finds no end", what, size)
		}
	}
	if n, err := f.Read(buf); n != 0 || err != io.EOF {
		x.Failf("%s: a Read behind the end gives %d bytes and %v", what, n, err)
	}
	return r
}

func checkInfo(x *X, i fs.FileInfo, n *node, p, what string) {
	if i.Name() != baseOf(p) {
		x.Failf("%s of %q: the name is %q", what, p, i.Name())
	}
	if i.IsDir() != n.dir || i.Mode().IsDir() != n.dir || i.Mode().IsRegular() == n.dir {
		x.Failf("%s of %q (directory: %v): IsDir %v, mode %v", what, p, n.dir, i.IsDir(), i.Mode())
	}
	if !n.dir && i.Size() != int64(len(n.data)) {
		x.Failf("%s of %q: the size is %d, not %d", what, p, i.Size(), len(n.data))
	}
}

func checkEntries(x *X, es []fs.DirEntry, err error, n *node, p string, all map[string]*node, what string) {
	if err != nil {
		x.Failf("%s of the directory %q: %v", what, p, err)
	}
	var got, want []string
	for _, e := range es {
		got = append(got, e.Name())
		k := all[path.Join(p, e.Name())]
		if k == nil {
			x.Failf("%s of %q lists %q, which is not there", what, p, e.Name())
		}
		if e.IsDir() != k.dir || e.Type().IsDir() != k.dir || e.Type().IsRegular() == k.dir {
			x.Failf("%s of %q: the entry %q (directory: %v) has IsDir %v and type %v", what, p, e.Name(), k.dir, e.IsDir(), e.Type())
		}
		i, err := e.Info()
		if err != nil {
			x.Failf("%s of %q: Info of the entry %q: %v", what, p, e.Name(), err)
		}
		checkInfo(x, i, k, path.Join(p, e.Name()), "Info of an entry")
	}
	for _, k := range n.kids {
		want = append(want, k.name)
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		x.Failf("%s of %q lists %q, not %q", what, p, got, want)
	}
}

// verify checks that a loaded file system is exactly what is expected. Without the roots, walks are not checked.
func verify(x *X, c crypto_fs.CryptoFS, want map[string]*node, roots []string, full bool) {
	for p, n := range want {
		x.Case(p, n.data, n.dir, len(want), full)
		f, err := c.Open(p)
		if err != nil {
			x.Failf("Open of %q: %v", p, err)
		}
		i, err := f.Stat()
		if err != nil {
			x.Failf("Stat of %q: %v", p, err)
		}
		checkInfo(x, i, n, p, "Stat")
		if n.dir {
			es, err := c.ReadDir(p)
			checkEntries(x, es, err, n, p, want, "ReadDir")
			if full {
				// changing a listing is nobody else's business
				for i := range es {
					es[i] = nil
				}
				es, err = fs.ReadDir(c, p)
				checkEntries(x, es, err, n, p, want, "fs.ReadDir")
				i, err := fs.Stat(c, p)
				if err != nil {
					x.Failf("fs.Stat of %q: %v", p, err)
				}
				checkInfo(x, i, n, p, "fs.Stat")
			}
		} else {
			if got := readAll(x, f, 512, fmt.Sprintf("%q", p)); !same(got, n.data) {
				x.Failf("%q has %d bytes (%s), not %d (%s)", p, len(got), short(got), len(n.data), short(n.data))
			}
			if _, err := c.ReadDir(p); err == nil {
				x.Failf("ReadDir of the file %q gives no error", p)
			}
			if full {
				b, err := fs.ReadFile(c, p)
				if err != nil || !same(b, n.data) {
					x.Failf("fs.ReadFile of %q gives %s, error %v", p, short(b), err)
				}
				for j := range b {
					b[j] ^= 0xff
				}
				b, err = fs.ReadFile(c, p)
				if err != nil || !same(b, n.data) {
					x.Failf("fs.ReadFile of %q: changing what was read changes the file", p)
				}
				i, err := fs.Stat(c, p)
				if err != nil {
					x.Failf("fs.Stat of %q: %v", p, err)
				}
				checkInfo(x, i, n, p, "fs.Stat")
			}
		}
		if err := f.Close(); err != nil {
			x.Failf("Close of %q: %v", p, err)
		}
	}
	for _, root := range roots {
		seen := map[string]int{}
		err := fs.WalkDir(c, root, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				x.Failf("fs.WalkDir from %q: at %q: %v", root, p, err)
			}
			n := want[p]
			if n == nil {
				x.Failf("fs.WalkDir from %q visits %q, which is not there", root, p)
			}
			seen[p]++
			if d.Name() != baseOf(p) || d.IsDir() != n.dir || d.Type().IsDir() != n.dir {
				x.Failf("fs.WalkDir from %q: at %q the entry is %q, IsDir %v, type %v", root, p, d.Name(), d.IsDir(), d.Type())
			}
			i, err := d.Info()
			if err != nil {
				x.Failf("fs.WalkDir from %q: at %q: Info: %v", root, p, err)
			}
			checkInfo(x, i, n, p, "fs.WalkDir, Info")
			return nil
		})
		if err != nil {
			x.Failf("fs.WalkDir from %q: %v", root, err)
		}
		for p := range want[root].flat(root, map[string]*node{}) {
			if seen[p] != 1 {
				x.Failf("fs.WalkDir from %q visits %q %d times", root, p, seen[p])
			}
		}
	}
	// what was not added is not there
	for p := range want {
		for _, q := range []string{p + "x", p[:len(p)-1], p + "/nothing", "nothing", baseOf(p), strings.ToUpper(p), "x" + p} {
			clean := path.Clean(q)
			if want[q] != nil || want[clean] != nil || want["/"+clean] != nil {
				continue
			}
			unknown(x, c, q)
		}
	}
}

func unknown(x *X, c crypto_fs.CryptoFS, q string) {
	x.Case("unknown", q)
	var f fs.File
	var err error
	if m := protect(func() { f, err = c.Open(q) }); m != "" {
		x.Failf("Open of the unknown path %q panics: %s", q, m)
	}
	if f != nil || !errors.Is(err, fs.ErrNotExist) {
		x.Failf("Open of the unknown path %q gives %v and error %v", q, f, err)
	}
	var es []fs.DirEntry
	if m := protect(func() { es, err = c.ReadDir(q) }); m != "" {
		x.Failf("ReadDir of the unknown path %q panics: %s", q, m)
	}
	if len(es) != 0 || !errors.Is(err, fs.ErrNotExist) {
		x.Failf("ReadDir of the unknown path %q gives %d entries and error %v", q, len(es), err)
	}
}

// absentRoots checks the paths above the roots.
func load(x *X, file string, key []byte) crypto_fs.CryptoFS {
	var c crypto_fs.CryptoFS
	var err error
	if m := protect(func() { c, err = crypto_fs.CryptoFSFromFile(file, key) }); m != "" {
		x.Failf("CryptoFSFromFile panics: %s", m)
	}
	if err != nil {
		x.Failf("CryptoFSFromFile: %v", err)
	}
	if c == nil {
		x.Fail("CryptoFSFromFile gives nil and no error")
	}
	return c
}

// refuses checks that an archive does not load.
func refuses(x *X, file string, key []byte, what string) {
	x.Case(what)
	var c crypto_fs.CryptoFS
	var err error
	if m := protect(func() { c, err = crypto_fs.CryptoFSFromFile(file, key) }); m != "" {
		x.Failf("CryptoFSFromFile of %s panics: %s", what, m)
	}
	if err == nil {
		x.Failf("CryptoFSFromFile of %s gives no error", what)
	}
	if c != nil {
		x.Failf("CryptoFSFromFile of %s gives an error and a file system", what)
	}
}

func save(x *X, b *crypto_fs.CryptoFSBuilder) {
	var err error
	if m := protect(func() { err = b.Save() }); m != "" {
		x.Failf("Save panics: %s", m)
	}
	if err != nil {
		x.Failf("Save: %v", err)
	}
}

// in runs f in a directory.
func in(x *X, dir string, f func()) {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	f()
}

var fsKeys = [][]byte{nil, keyOf(16, 5), keyOf(24, 5), keyOf(32, 5)}

// trip adds a tree in one of several ways, saves and loads it, and says what is expected.
const ways = 9

func trip(x *X, root *node, way int, key []byte) (c crypto_fs.CryptoFS, want map[string]*node, roots []string, archive string) {
	dir := scratch(x)
	src := dir + "/src"
	if err := os.Mkdir(src, 0700); err != nil {
		panic(err)
	}
	root.write(src + "/root")
	archive = dir + "/archive.bin"
	b := crypto_fs.NewCryptoFSBuilder()
	set := func() { b.WithSavePath(archive).WithAES(key) }
	want = map[string]*node{}
	files := func(at string) []string {
		var r []string
		for p, n := range root.flat(at, map[string]*node{}) {
			if !n.dir {
				r = append(r, p)
			}
		}
		sort.Strings(r)
		return r
	}
	add := func(p string) { // a single file, as stored
		want[p] = root.flat(strings.TrimSuffix(p, p[strings.Index(p, "root"):])+"root", map[string]*node{})[p]
	}
	in(x, src, func() {
		switch way {
		case 0: // an absolute folder
			set()
			b.AddFolder(src + "/root")
			roots = []string{src + "/root"}
		case 1: // a relative folder
			b.AddFolder("root")
			set()
			roots = []string{"root"}
		case 2: // a relative folder below an absolute root directory
			b.WithRootDir(src).AddFolder("root")
			set()
			roots = []string{src + "/root"}
		case 3: // below a relative root directory, with things to clean up
			b.WithRootDir("./").AddFolder("root/")
			set()
			roots = []string{"root"}
		case 4: // single files, absolute
			set()
			for _, p := range files(src + "/root") {
				b.AddFile(p)
				add(p)
			}
		case 5: // single files, relative, each twice, with missing ones in between
			for _, p := range files("root") {
				b.AddFile(p).AddFile(p + "missing").AddFile("").AddFolder(p + "missing").AddFile("root").AddFile(p)
				add(p)
			}
			set()
		case 6: // a folder and its files
			set()
			b.AddFolder("nothing").AddFolder(src + "/root").AddFolder("").AddFile("nothing").AddFolder(src + "/root/nothing")
			for _, p := range files(src + "/root") {
				b.AddFile(p)
			}
			roots = []string{src + "/root"}
		case 7: // the subfolders one by one, then the whole
			for _, k := range root.kids {
				if k.dir {
					b.AddFolder("root/" + k.name)
				} else {
					b.AddFile("root/" + k.name)
				}
			}
			b.AddFolder("root")
			set()
			roots = []string{"root"}
		case 8: // the same folder relative and absolute
			b.AddFolder("root").AddFolder(src + "/root").AddFolder("root")
			set()
			roots = []string{"root", src + "/root"}
		}
		for _, r := range roots {
			root.flat(r, want)
		}
		save(x, b)
	})
	// what is loaded does not depend on the sources
	os.RemoveAll(src)
	return load(x, archive, key), want, roots, archive
}

func init() {
	trees := func(n int) func(x *X) {
		sh := shapes(n)
		return func(x *X) {
			k := x.Choose(len(sh) * ways)
			shape, way := sh[k/ways], k%ways
			for s := 0; s < 3; s++ {
				for ki, key := range fsKeys {
					if n > 3 && ki != k%4 && ki != 0 {
						continue
					}
					root := tree(shape, (s+k)%3, s)
					c, want, roots, _ := trip(x, root, way, key)
					verify(x, c, want, roots, false)
				}
			}
		}
	}
	all("C30", "trees of up to 4 nodes", 64, trees(4))
	thorough("C30", "trees of up to 6 nodes", 64, trees(6))
	all("C31", "trees of up to 4 nodes", 64, func(x *X) {
		sh := shapes(4)
		k := x.Choose(len(sh))
		for way := 0; way < ways; way += 2 {
			for s := 0; s < 3; s++ {
				c, want, roots, _ := trip(x, tree(sh[k], s, (s+way)%3), way, fsKeys[(k+s)%4])
				verify(x, c, want, roots, true)
				verify(x, c, want, roots, true)
			}
		}
	})
	thorough("C31", "trees of up to 6 nodes", 64, func(x *X) {
		sh := shapes(6)
		k := x.Choose(len(sh))
		for s := 0; s < 3; s++ {
			c, want, roots, _ := trip(x, tree(sh[k], s, (s+1)%3), 2*(k%4)%ways, fsKeys[(k+s)%4])
			verify(x, c, want, roots, true)
			verify(x, c, want, roots, true)
		}
	})
	all("C30", "current directory and other ways to name a folder", 0, func(x *X) {
		for i, key := range fsKeys {
			dir := scratch(x)
			root := tree("f(f()f)()", 0, i%3)
			root.write(dir + "/root")
			in(x, dir+"/root", func() {
				b := crypto_fs.NewCryptoFSBuilder().AddFolder(".").WithSavePath(dir + "/a").WithAES(key)
				save(x, b)
				c := load(x, dir+"/a", key)
				want := root.flat(".", map[string]*node{})
				verify(x, c, want, []string{"."}, true)
				// and a builder without anything
				save(x, crypto_fs.NewCryptoFSBuilder().WithSavePath(dir+"/b").WithAES(key))
				c = load(x, dir+"/b", key)
				unknown(x, c, ".")
				unknown(x, c, "")
				unknown(x, c, "/")
				unknown(x, c, "alpha.txt")
				// two folders, one file
				b = crypto_fs.NewCryptoFSBuilder().AddFolder("beta").AddFolder("../root/gamma.tar.gz").AddFile("alpha.txt").WithSavePath(dir + "/c").WithAES(key)
				save(x, b)
				c = load(x, dir+"/c", key)
				want = root.kids[1].flat("beta", map[string]*node{})
				root.kids[2].flat("../root/gamma.tar.gz", want)
				want["alpha.txt"] = root.kids[0]
				verify(x, c, want, []string{"beta", "../root/gamma.tar.gz"}, true)
				// one file under several names for it
				names := []string{"./alpha.txt", "beta/../alpha.txt", ".//alpha.txt", dir + "/root/./alpha.txt", dir + "/root//alpha.txt", "beta/./../alpha.txt"}
				b = crypto_fs.NewCryptoFSBuilder().WithSavePath(dir + "/d").WithAES(key)
				want = map[string]*node{}
				for _, n := range names {
					b.AddFile(n)
					want[n] = root.kids[0]
				}
				save(x, b)
				verify(x, load(x, dir+"/d", key), want, nil, false)
			})
		}
	})
	all("C30", "what cannot be read", 4, func(x *X) {
		key := fsKeys[x.Choose(4)]
		dir := scratch(x)
		t := tree("ff", 0, 1)
		t.write(dir + "/root")
		os.Symlink(dir+"/nothing", dir+"/root/zz") // the last entry
		os.Symlink(dir+"/root/zz", dir+"/link")
		for i, b := range []*crypto_fs.CryptoFSBuilder{
			crypto_fs.NewCryptoFSBuilder().AddFolder(dir + "/root"),
			crypto_fs.NewCryptoFSBuilder().AddFile(dir + "/root/zz").AddFolder(dir + "/root").AddFile(dir + "/link").AddFile(dir + "/root/zz"),
		} {
			a := fmt.Sprint(dir, "/a", i)
			save(x, b.WithAES(key).WithSavePath(a))
			c := load(x, a, key)
			for n, k := range t.kids {
				f, err := c.Open(dir + "/root/" + k.name)
				if err != nil {
					x.Failf("file %d of a folder with a link to nothing: %v", n, err)
				}
				if d, err := io.ReadAll(f); err != nil || !bytes.Equal(d, k.data) {
					x.Failf("file %d of a folder with a link to nothing reads as %q, %v", n, d, err)
				}
			}
			es, err := c.ReadDir(dir + "/root")
			if err != nil {
				x.Failf("ReadDir of a folder with a link to nothing: %v", err)
			}
			for _, e := range es {
				if e == nil {
					x.Fail("ReadDir of a folder with a link to nothing gives an entry that is nil")
				}
			}
			unknown(x, c, dir+"/root/zz")
			unknown(x, c, dir+"/link")
		}
	})
	all("C30", "larger trees", 16, func(x *X) {
		k := x.Choose(16)
		shape := []string{
			strings.Repeat("(", 12) + "f" + strings.Repeat(")", 12),
			strings.Repeat("f", 60),
			strings.Repeat("()", 30) + "f",
			strings.Repeat("(f(ff)())", 9),
		}[k%4]
		root := tree(shape, k%3, (k+1)%3)
		if k >= 8 && len(root.kids) > 0 && !root.kids[0].dir {
			root.kids[0].data = pattern(4, 1<<20+k)
		}
		c, want, roots, _ := trip(x, root, k%ways, fsKeys[k/4])
		verify(x, c, want, roots, true)
	})
	for _, prop := range []string{"C30", "C31"} {
		all(prop, "very large trees", 12, func(x *X) {
			k := x.Choose(12)
			shape := []string{
				strings.Repeat("(f", 70) + strings.Repeat(")", 70),
				strings.Repeat("f", 1300),
				strings.Repeat("("+strings.Repeat("f", 40)+")", 40),
			}[k%3]
			c, want, roots, _ := trip(x, tree(shape, 2*(k/3%2), k/3%2), k%ways, fsKeys[k/3])
			verify(x, c, want, roots, true)
		})
	}
	all("C30", "contents of every byte and size", 20, func(x *X) {
		k := x.Choose(patterns * 4)
		kind, ki := k%patterns, k/patterns
		dir := scratch(x)
		b := crypto_fs.NewCryptoFSBuilder().WithAES(fsKeys[ki]).WithSavePath(dir + "/archive")
		want := map[string]*node{}
		for n := 0; n < 300; n++ {
			p := fmt.Sprint(dir, "/f", n)
			want[p] = &node{name: fmt.Sprint("f", n), data: pattern(kind, n)}
			want[p].write(p)
			b.AddFile(p)
		}
		for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 1<<18 + 1} {
			p := fmt.Sprint(dir, "/f", n)
			want[p] = &node{name: fmt.Sprint("f", n), data: pattern(kind, n)}
			want[p].write(p)
			b.AddFile(p)
		}
		save(x, b)
		verify(x, load(x, dir+"/archive", fsKeys[ki]), want, nil, false)
	})
	all("C30", "saving again replaces the archive", 16, func(x *X) {
		k := x.Choose(16)
		key, key2 := fsKeys[k%4], fsKeys[k/4]
		dir := scratch(x)
		os.Mkdir(dir+"/src", 0700)
		big := tree("f(ffff)fff", 0, 2)
		small := tree("f", 0, 0)
		big.kids[2].data = bytes.Repeat([]byte("OLD-OLD-OLD-"), 500)
		big.write(dir + "/src/big")
		small.write(dir + "/src/small")
		bb := crypto_fs.NewCryptoFSBuilder().AddFolder(dir + "/src/big").WithAES(key).WithSavePath(dir + "/a")
		bs := crypto_fs.NewCryptoFSBuilder().AddFolder(dir + "/src/small").WithAES(key2).WithSavePath(dir + "/a")
		wantB := big.flat(dir+"/src/big", map[string]*node{})
		wantS := small.flat(dir+"/src/small", map[string]*node{})
		rb, rs := []string{dir + "/src/big"}, []string{dir + "/src/small"}
		save(x, bb)
		verify(x, load(x, dir+"/a", key), wantB, rb, false)
		fiB, _ := os.Stat(dir + "/a")
		save(x, bs)
		verify(x, load(x, dir+"/a", key2), wantS, rs, false)
		raw, _ := os.ReadFile(dir + "/a")
		if bytes.Contains(raw, []byte("OLD-OLD")) || bytes.Contains(raw, []byte("content-3")) || int64(len(raw)) >= fiB.Size() {
			x.Failf("saving a small file system over a large one leaves parts of the old archive: %d bytes", len(raw))
		}
		save(x, bb)
		verify(x, load(x, dir+"/a", key), wantB, rb, false)
		save(x, bb)
		verify(x, load(x, dir+"/a", key), wantB, rb, false)
		// the builder goes on after a save
		bs.AddFolder(dir + "/src/big")
		save(x, bs)
		big.flat(dir+"/src/big", wantS)
		verify(x, load(x, dir+"/a", key2), wantS, append(rs, rb...), false)
		// another file at the path is replaced too, and no other file is touched
		os.WriteFile(dir+"/a", pattern(4, 1<<20), 0600)
		os.WriteFile(dir+"/b", []byte("other"), 0600)
		save(x, bb)
		verify(x, load(x, dir+"/a", key), wantB, rb, false)
		if o, err := os.ReadFile(dir + "/b"); err != nil || string(o) != "other" {
			x.Fail("Save touches another file")
		}
		// a file that changed and is added again has its new contents
		f := dir + "/src/big/" + big.kids[0].name
		big.kids[0].data = []byte("new contents")
		os.WriteFile(f, big.kids[0].data, 0600)
		bb.AddFile(f)
		save(x, bb)
		verify(x, load(x, dir+"/a", key), big.flat(dir+"/src/big", map[string]*node{}), rb, false)
	})
	all("C30", "two builders at a time", 4, func(x *X) {
		key := fsKeys[x.Choose(4)]
		dir := scratch(x)
		t1, t2 := tree("f(f)", 0, 0), tree("(ff)f", 0, 1)
		t1.write(dir + "/one")
		t2.write(dir + "/two")
		a := crypto_fs.NewCryptoFSBuilder().AddFolder(dir + "/one")
		b := crypto_fs.NewCryptoFSBuilder().WithAES(key).WithSavePath(dir + "/b")
		b.AddFolder(dir + "/two")
		a.WithSavePath(dir + "/a")
		save(x, b)
		save(x, a)
		verify(x, load(x, dir+"/a", nil), t1.flat(dir+"/one", map[string]*node{}), []string{dir + "/one"}, true)
		verify(x, load(x, dir+"/b", key), t2.flat(dir+"/two", map[string]*node{}), []string{dir + "/two"}, true)
	})
	all("C30", "nothing readable in an encrypted archive", 16, func(x *X) {
		sh := shapes(4)
		k := x.Choose(16)
		for i, s := range sh {
			if i%16 != k {
				continue
			}
			root := tree(s, 0, 2)
			for _, key := range fsKeys[1:] {
				_, want, _, archive := trip(x, root, (i%4)*2, key)
				raw, err := os.ReadFile(archive)
				if err != nil {
					panic(err)
				}
				for p, n := range want {
					x.Case(p, n.data)
					for _, b := range [][]byte{[]byte(p), []byte(baseOf(p)), n.data} {
						for len(b) >= 8 {
							m := 8
							if bytes.Contains(raw, b[:m]) {
								x.Failf("the encrypted archive contains %q", b[:m])
							}
							if len(b) < 100 || len(b) < 24 {
								break
							}
							b = b[len(b)/2:]
						}
					}
				}
				if bytes.Contains(raw, []byte("Secret-Plain")) || bytes.Contains(raw, []byte("FileName")) {
					x.Fail("the encrypted archive contains readable text")
				}
			}
		}
	})
	all("C30", "save errors", 0, func(x *X) {
		dir := scratch(x)
		root := tree("f(ff)", 0, 1)
		root.write(dir + "/root")
		os.WriteFile(dir+"/afile", nil, 0600)
		fail := func(b *crypto_fs.CryptoFSBuilder, what string) {
			x.Case(what)
			var err error
			if m := protect(func() { err = b.Save() }); m != "" {
				x.Failf("Save (%s) panics: %s", what, m)
			}
			if err == nil {
				x.Failf("Save (%s) gives no error", what)
			}
		}
		for _, key := range fsKeys {
			b := func() *crypto_fs.CryptoFSBuilder {
				return crypto_fs.NewCryptoFSBuilder().AddFolder(dir + "/root").WithAES(key)
			}
			fail(b(), "no path")
			fail(b().WithSavePath(""), "an empty path")
			fail(b().WithSavePath(dir), "the path of a directory")
			fail(b().WithSavePath(dir+"/none/a"), "a folder that does not exist")
			fail(b().WithSavePath(dir+"/afile/a"), "a file in place of the folder")
			fail(b().WithSavePath(dir+"/"+strings.Repeat("n", 300)), "a name too long")
			in(x, dir, func() {
				fail(b().WithSavePath("."), "the path of a directory")
				fail(b().WithSavePath("root"), "the path of a directory")
			})
			// afterwards it works
			bb := b().WithSavePath(dir + "/none/a")
			fail(bb, "a folder that does not exist")
			save(x, bb.WithSavePath(dir+"/ok"))
			verify(x, load(x, dir+"/ok", key), root.flat(dir+"/root", map[string]*node{}), []string{dir + "/root"}, false)
		}
		for s := 0; s <= 70; s++ {
			if s == 16 || s == 24 || s == 32 {
				continue
			}
			fail(crypto_fs.NewCryptoFSBuilder().AddFolder(dir+"/root").WithAES(keyOf(s, 0)).WithSavePath(dir+"/k"), fmt.Sprintf("a key of %d bytes", s))
			fail(crypto_fs.NewCryptoFSBuilder().WithAES(keyOf(s, 0)).WithSavePath(dir+"/k"), fmt.Sprintf("a key of %d bytes, nothing added", s))
			save(x, crypto_fs.NewCryptoFSBuilder().AddFolder(dir+"/root").WithAES(keyOf(16, 5)).WithSavePath(dir+"/good"))
			refuses(x, dir+"/good", keyOf(s, 0), fmt.Sprintf("an archive with a key of %d bytes", s))
			save(x, crypto_fs.NewCryptoFSBuilder().AddFolder(dir+"/root").WithSavePath(dir+"/good"))
			refuses(x, dir+"/good", keyOf(s, 0), fmt.Sprintf("an archive without encryption with a key of %d bytes", s))
		}
		for _, key := range fsKeys {
			refuses(x, dir+"/missing", key, "a missing file")
			refuses(x, dir, key, "a directory")
			refuses(x, "", key, "an empty path")
			refuses(x, dir+"/none/a", key, "a file in a missing folder")
			refuses(x, dir+"/afile", key, "an empty file")
		}
	})
	// the device is full after every number of bytes
	full := func(step int) func(x *X) {
		return func(x *X) {
			c := x.Choose(16)
			key, part := fsKeys[c%4], c/4
			dir := scratch(x)
			root := tree("f(ff)f", 0, 1)
			root.write(dir + "/root")
			signal.Ignore(syscall.SIGXFSZ)
			var old syscall.Rlimit
			if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
				panic(err)
			}
			b := crypto_fs.NewCryptoFSBuilder().AddFolder(dir + "/root").WithAES(key).WithSavePath(dir + "/a")
			save(x, b)
			fi, err := os.Stat(dir + "/a")
			if err != nil {
				panic(err)
			}
			want := root.flat(dir+"/root", map[string]*node{})
			for k := part; int64(k) < fi.Size(); k += 4 * step {
				x.Case(k, int64(fi.Size()))
				os.Remove(dir + "/a")
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k), Max: old.Max})
				var err error
				m := protect(func() { err = b.Save() })
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
				if m != "" {
					x.Failf("Save with room for %d of %d bytes panics: %s", k, fi.Size(), m)
				}
				if err == nil {
					x.Failf("Save with room for %d of %d bytes gives no error", k, fi.Size())
				}
				// what is left, if anything, does not load
				if _, err := os.Stat(dir + "/a"); err == nil {
					refuses(x, dir+"/a", key, fmt.Sprintf("what a save with room for %d of %d bytes left", k, fi.Size()))
				}
			}
			save(x, b)
			verify(x, load(x, dir+"/a", key), want, []string{dir + "/root"}, false)
		}
	}
	all("C30", "a device that is full after every number of bytes", 16, full(1))

	// ---- C31 ----
	all("C31", "buffer sizes", 16, func(x *X) {
		c := x.Choose(16)
		key, part := fsKeys[c%4], c/4
		dir := scratch(x)
		lens := []int{0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 100, 511, 512, 513, 1500, 5000, 70000}
		b := crypto_fs.NewCryptoFSBuilder().WithAES(key).WithSavePath(dir + "/archive")
		for _, n := range lens {
			p := fmt.Sprint(dir, "/f", n)
			os.WriteFile(p, pattern(4, n), 0600)
			b.AddFile(p)
		}
		save(x, b)
		cfs := load(x, dir+"/archive", key)
		for i, n := range lens {
			if i%4 != part {
				continue
			}
			want := pattern(4, n)
			p := fmt.Sprint(dir, "/f", n)
			var bufs []int
			for s := 1; s <= n+3 && s < 120; s++ {
				bufs = append(bufs, s)
			}
			bufs = append(bufs, n-1, n, n+1, n/2, 512, 4096, 100000)
			for _, s := range bufs {
				if s < 1 {
					continue
				}
				x.Case(n, s)
				f, err := cfs.Open(p)
				if err != nil {
					x.Failf("Open of %q: %v", p, err)
				}
				if got := readAll(x, f, s, fmt.Sprintf("a file of %d bytes read into %d", n, s)); !same(got, want) {
					x.Failf("a file of %d bytes read into %d: %s", n, s, short(got))
				}
				f.Close()
				f, _ = cfs.Open(p)
				got, err := io.ReadAll(f)
				if err != nil || !same(got, want) {
					x.Failf("io.ReadAll of a file of %d bytes: %s, error %v", n, short(got), err)
				}
				for j := range got {
					got[j] ^= 0xff
				}
			}
		}
	})
	all("C31", "every sequence of reads of two handles", 16, func(x *X) {
		dir := scratch(x)
		data := []byte("0123456789")[:x.Choose(6)]
		os.WriteFile(dir+"/f", data, 0600)
		os.WriteFile(dir+"/g", []byte("abc"), 0600)
		save(x, crypto_fs.NewCryptoFSBuilder().AddFile(dir+"/f").AddFile(dir+"/g").WithSavePath(dir+"/a"))
		c := load(x, dir+"/a", nil)
		type handle struct {
			f    fs.File
			pos  int
			data []byte
		}
		open := func(i int) *handle {
			p, d := "/f", data
			if i == 2 {
				p, d = "/g", []byte("abc")
			}
			f, err := c.Open(dir + p)
			if err != nil {
				x.Failf("Open: %v", err)
			}
			return &handle{f: f, data: d}
		}
		depth := 4
		var do func(seq []int)
		do = func(seq []int) {
			if len(seq) < depth {
				for i := 0; i < 12; i++ {
					do(append(append([]int{}, seq...), i))
				}
				return
			}
			x.Case(len(data), fmt.Sprint(seq))
			hs := []*handle{open(0), open(1), open(2)}
			for _, s := range seq {
				h := hs[s/4]
				if s%4 == 3 { // closing and opening again starts at the front
					if s/4 == 1 {
						h.f.Close()
					}
					hs[s/4] = open(s / 4)
					continue
				}
				n := []int{1, 2, 7}[s%4]
				buf := make([]byte, n)
				m, err := h.f.Read(buf)
				rest := len(h.data) - h.pos
				switch {
				case rest == 0:
					if m != 0 || err != io.EOF {
						x.Failf("reads %v: a read at the end gives %d bytes and %v", seq, m, err)
					}
				case m < 1 || m > n || m > rest || err != nil && !(err == io.EOF && m == rest) || !same(buf[:m], h.data[h.pos:h.pos+m]):
					x.Failf("reads %v: a read of %d bytes, %d left, gives %d bytes %q and %v", seq, n, rest, m, buf[:m], err)
				}
				h.pos += m
				for i := range buf {
					buf[i] = '!'
				}
			}
		}
		first := x.Choose(12)
		do([]int{first})
	})
	for _, t := range []struct {
		name string
		ops  []int
		b    int
	}{{"two threads: reads", []int{0, 1}, 2}, {"two threads: listings", []int{2, 3}, 2}, {"two threads: everything", []int{0, 1, 2, 3, 4}, 2}} {
		t := t
		add("C31", S{Name: t.name, Bound: t.b, BoundT: t.b + 2}, func(x *X) {
			dir := scratch(x)
			root := tree("f(f)", 0, 1)
			root.kids[0].data = []byte("seven b")
			root.write(dir + "/root")
			save(x, crypto_fs.NewCryptoFSBuilder().AddFolder(dir+"/root").WithSavePath(dir+"/a").WithAES(fsKeys[1]))
			c := load(x, dir+"/a", fsKeys[1])
			want := root.flat(dir+"/root", map[string]*node{})
			at := dir + "/root/" + root.kids[0].name
			op := func(o int) {
				x.Point()
				switch o {
				case 0:
					f, err := c.Open(at)
					x.Check(err == nil, "concurrent use: Open fails")
					var got []byte
					buf := make([]byte, 3)
					for {
						x.Point()
						n, err := f.Read(buf)
						got = append(got, buf[:n]...)
						for i := range buf {
							buf[i] = 0
						}
						if err != nil {
							break
						}
					}
					x.Check(string(got) == "seven b", "concurrent use: a file reads wrong")
				case 1:
					b, err := fs.ReadFile(c, at)
					x.Check(err == nil && string(b) == "seven b", "concurrent use: fs.ReadFile gives something else")
					for i := range b {
						b[i] = 0
					}
				case 2:
					es, err := c.ReadDir(dir + "/root")
					x.Point()
					checkEntries(x, es, err, root, dir+"/root", want, "concurrent use: ReadDir")
					for i := range es {
						es[i] = nil
					}
				case 3:
					n := 0
					fs.WalkDir(c, dir+"/root", func(p string, d fs.DirEntry, err error) error {
						x.Point()
						x.Check(err == nil, "concurrent use: fs.WalkDir fails")
						n++
						return nil
					})
					x.Check(n == len(want), "concurrent use: fs.WalkDir visits something else")
				case 4:
					unknown(x, c, "nothing")
				}
			}
			a, b := t.ops[x.Choose(len(t.ops))], t.ops[x.Choose(len(t.ops))]
			parallel(x, func() { op(a); op(b) }, func() { op(b); op(a) })
		})
	}

	// ---- C32 ----
	type arch struct {
		raw  []byte
		key  []byte
		want map[string]*node
	}
	make1 := func(x *X, shape string, ki, s int) (arch, string) {
		dir := scratch(x)
		root := tree(shape, 0, s)
		root.write(dir + "/root")
		save(x, crypto_fs.NewCryptoFSBuilder().AddFolder(dir+"/root").WithSavePath(dir+"/a").WithAES(fsKeys[ki]))
		raw, err := os.ReadFile(dir + "/a")
		if err != nil {
			panic(err)
		}
		return arch{raw, fsKeys[ki], root.flat(dir+"/root", map[string]*node{})}, dir
	}
	put := func(dir string, b []byte) string {
		p := filepath.Join(dir, "b")
		if err := os.WriteFile(p, b, 0600); err != nil {
			panic(err)
		}
		return p
	}
	shapes32 := []string{"", "f", "()", "f(ff)f", "((f)f)(f)"}
	all("C32", "archives cut off at every byte", 20, func(x *X) {
		k := x.Choose(len(shapes32) * 4)
		shape, ki := shapes32[k/4], k%4
		for s := 0; s < 2; s++ {
			a, dir := make1(x, shape, ki, s)
			for l := 0; l < len(a.raw); l++ {
				refuses(x, put(dir, a.raw[:l]), a.key, fmt.Sprintf("the first %d of %d bytes of an archive (key of %d bytes)", l, len(a.raw), len(a.key)))
			}
			c := load(x, put(dir, a.raw), a.key)
			verify(x, c, a.want, nil, false)
			verify(x, load(x, dir+"/a", a.key), a.want, nil, false)
		}
	})
	all("C32", "archives of a large file cut off", 16, func(x *X) {
		k := x.Choose(16)
		ki, part := k%4, k/4
		a, dir := make1(x, "ffff", ki, 2)
		for l := part; l < len(a.raw); l += 4 {
			if l > 600 && l < len(a.raw)-600 && l%512 > 3 && l/4%64 != 0 {
				continue
			}
			refuses(x, put(dir, a.raw[:l]), a.key, fmt.Sprintf("the first %d of %d bytes of an archive (key of %d bytes)", l, len(a.raw), len(a.key)))
		}
	})
	all("C32", "changed bits", 45, func(x *X) {
		k := x.Choose(len(shapes32) * 3 * 3)
		shape, ki, part := shapes32[k/9], 1+k/3%3, k%3
		a, dir := make1(x, shape, ki, 0)
		for i := 0; i < len(a.raw)*8; i++ {
			if i/8%3 == part {
				t := clone(a.raw)
				t[i/8] ^= 1 << (i % 8)
				refuses(x, put(dir, t), a.key, fmt.Sprintf("an encrypted archive with bit %d of byte %d of %d changed", i%8, i/8, len(a.raw)))
			}
		}
		verify(x, load(x, dir+"/a", a.key), a.want, nil, false)
	})
	all("C32", "torn, extended and exchanged", 15, func(x *X) {
		k := x.Choose(len(shapes32) * 3)
		shape, ki := shapes32[k/3], 1+k%3
		a, dir := make1(x, shape, ki, 2)
		o, _ := make1(x, shape, ki, 2)
		for _, block := range []int{1, 16, 64, 512, 4096} {
			if len(a.raw)/block > 3000 {
				continue
			}
			for i := 0; i < len(a.raw); i += block {
				end := i + block
				if end > len(a.raw) {
					end = len(a.raw)
				}
				t := clone(a.raw)
				for j := i; j < end; j++ {
					t[j] = 0
				}
				if !same(t, a.raw) {
					refuses(x, put(dir, t), a.key, fmt.Sprintf("an encrypted archive whose bytes %d to %d are zero", i, end))
				}
				if end <= len(o.raw) {
					t = clone(a.raw)
					copy(t[i:end], o.raw[i:end])
					if !same(t, a.raw) && !same(t, o.raw) {
						refuses(x, put(dir, t), a.key, fmt.Sprintf("an encrypted archive whose bytes %d to %d are from another one", i, end))
					}
				}
				t = append(clone(a.raw[:i]), a.raw[end:]...)
				refuses(x, put(dir, t), a.key, fmt.Sprintf("an encrypted archive without the bytes %d to %d", i, end))
			}
		}
		for n := 1; n < 70; n++ {
			refuses(x, put(dir, append(clone(a.raw), pattern(n%2, n)...)), a.key, fmt.Sprintf("an encrypted archive with %d more bytes", n))
			refuses(x, put(dir, append(pattern(n%2, n), a.raw...)), a.key, fmt.Sprintf("an encrypted archive with %d bytes before it", n))
		}
		refuses(x, put(dir, append(clone(a.raw), a.raw...)), a.key, "an encrypted archive twice")
	})
	all("C32", "wrong, missing and superfluous keys", 20, func(x *X) {
		k := x.Choose(len(shapes32) * 4)
		shape, ki := shapes32[k/4], k%4
		for round := 0; round < 3; round++ {
			a, dir := make1(x, shape, ki, round)
			for kj, key := range fsKeys {
				if kj != ki {
					refuses(x, dir+"/a", key, fmt.Sprintf("an archive saved with a key of %d bytes with one of %d", len(a.key), len(key)))
				}
			}
			refuses(x, dir+"/a", []byte{}, "an archive with an empty key")
			for _, s := range keySizes {
				refuses(x, dir+"/a", keyOf(s, 9), fmt.Sprintf("an archive saved with a key of %d bytes with another of %d", len(a.key), s))
				refuses(x, dir+"/a", make([]byte, s), "an archive with a key of zeros")
			}
			for i := 0; i < len(a.key)*8; i++ {
				key := clone(a.key)
				key[i/8] ^= 1 << (i % 8)
				refuses(x, dir+"/a", key, fmt.Sprintf("an archive with a key that differs in bit %d", i))
			}
			for l := 0; l < len(a.key); l++ {
				refuses(x, dir+"/a", a.key[:l:l], fmt.Sprintf("an archive with the first %d of %d bytes of the key", l, len(a.key)))
			}
			if len(a.key) > 0 {
				for n := 1; n < 20; n++ {
					refuses(x, dir+"/a", append(clone(a.key), make([]byte, n)...), fmt.Sprintf("an archive with the key and %d zero bytes", n))
				}
			}
			verify(x, load(x, dir+"/a", a.key), a.want, nil, false)
		}
	})
	all("C32", "other files", 0, func(x *X) {
		dir := scratch(x)
		for n := 0; n < 300; n++ {
			for kind := 0; kind < patterns; kind++ {
				for _, key := range fsKeys {
					if key == nil && kind == 0 {
						continue
					}
					refuses(x, put(dir, pattern(kind, n)), key, fmt.Sprintf("%d bytes that are no archive", n))
				}
			}
		}
	})
}
