package main

import (
	"os"

	"github.com/axgrid/axutils/crypto_fs"
)

// Several archives at the same time: nothing is shared between builders, between what they save, or between what is
// loaded.

func init() {
	add("C30", S{Name: "two archives at a time", Bound: 1, BoundT: 2, Shards: 4}, func(x *X) {
		shapes := []string{"f(f)f", "(f)", "ff", ""}
		sa := x.Choose(len(shapes))
		sb := (sa + 1 + x.Choose(2)) % len(shapes)
		ka, kb := x.Choose(2), choose(x, 0, 1, 3)
		work := func(shape string, set int, key []byte) func() {
			dir := scratch(x)
			root := tree(shape, set, 1+set)
			root.write(dir + "/root")
			want := root.flat(dir+"/root", map[string]*node{})
			return func() {
				b := crypto_fs.NewCryptoFSBuilder().WithSavePath(dir + "/a").WithAES(key)
				x.Point()
				b.AddFolder(dir + "/root")
				x.Point()
				save(x, b)
				x.Point()
				c := load(x, dir+"/a", key)
				x.Point()
				verify(x, c, want, nil, false)
				save(x, b.WithSavePath(dir+"/b"))
				x.Point()
				verify(x, load(x, dir+"/b", key), want, nil, false)
			}
		}
		parallel(x, work(shapes[sa], 0, fsKeys[ka*3]), work(shapes[sb], 1, fsKeys[kb]))
	})
	add("C32", S{Name: "two archives at a time", Bound: 2, BoundT: 4}, func(x *X) {
		dir := scratch(x)
		root := tree("f(f)f", 0, 1)
		root.write(dir + "/root")
		want := root.flat(dir+"/root", map[string]*node{})
		key := fsKeys[1+x.Choose(3)]
		save(x, crypto_fs.NewCryptoFSBuilder().AddFolder(dir+"/root").WithSavePath(dir+"/a").WithAES(key))
		raw, err := os.ReadFile(dir + "/a")
		if err != nil {
			panic(err)
		}
		other := fsKeys[1+x.Choose(3)]
		same := len(other) == len(key)
		if same {
			other = keyOf(len(key), 9)
		}
		switch how := x.Choose(3); how {
		case 0:
			raw = raw[:len(raw)/2]
		case 1:
			raw[len(raw)/2] ^= 1
		case 2:
			raw = raw[:12]
		}
		if err := os.WriteFile(dir+"/b", raw, 0600); err != nil {
			panic(err)
		}
		good := func() {
			verify(x, load(x, dir+"/a", key), want, nil, false)
			x.Point()
			verify(x, load(x, dir+"/a", key), want, nil, false)
		}
		bad := func() {
			refuses(x, dir+"/b", key, "a damaged archive, while another one is loaded,")
			x.Point()
			refuses(x, dir+"/a", other, "an archive with another key, while it is loaded with its own,")
			x.Point()
			refuses(x, dir+"/a", nil, "an archive without its key, while it is loaded with it,")
		}
		parallel(x, good, bad)
	})
}
