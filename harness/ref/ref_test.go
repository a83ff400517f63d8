package ref

import (
	"math/rand"
	"testing"
)

// The reference model against plain truth tables.
func TestRef(t *testing.T) {
	const N = 6
	rng := rand.New(rand.NewSource(1))
	lv := []int{0, 1, 2, 3, 4, 5}
	for it := 0; it < 400; it++ {
		m := New(N)
		x, y, z := rng.Uint64(), rng.Uint64(), rng.Uint64()
		if it%3 == 0 {
			x &= rng.Uint64() & rng.Uint64()
		}
		mk := func(w uint64) F { return m.FromTable(lv, func(i int) bool { return w>>i&1 == 1 }) }
		tab := func(f F) uint64 {
			w := uint64(0)
			for i := 0; i < 64; i++ {
				if m.Eval(f, func(j int) bool { return i>>j&1 == 1 }) {
					w |= 1 << i
				}
			}
			return w
		}
		f, g, h := mk(x), mk(y), mk(z)
		if tab(f) != x || mk(tab(g)) != g {
			t.Fatal("table")
		}
		if tab(m.Not(f)) != ^x || tab(m.Ite(f, g, h)) != x&y|^x&z {
			t.Fatal("not/ite")
		}
		for n, o := range Ops {
			w := uint64(0)
			for i := 0; i < 64; i++ {
				w |= uint64(o[2*(x>>i&1)+(y>>i&1)]) << i
			}
			if tab(m.Apply(o, f, g)) != w {
				t.Fatal(n)
			}
		}
		vs := []int{}
		ex := x
		for v := 0; v < N; v++ {
			if rng.Intn(2) == 0 {
				vs = append(vs, v)
				w := uint64(0)
				for i := 0; i < 64; i++ {
					w |= (ex>>(i|1<<v)&1 | ex>>(i&^(1<<v))&1) << i
				}
				ex = w
			}
		}
		if tab(m.Exist(f, vs)) != ex {
			t.Fatal("exist")
		}
		img := rng.Perm(N)
		if it%2 == 0 {
			img[0] = img[1]
		}
		w := uint64(0)
		for i := 0; i < 64; i++ {
			// value of renamed f at a: f at (j -> a[img j])
			k := 0
			for j := 0; j < N; j++ {
				k |= (i >> img[j] & 1) << j
			}
			w |= (x >> k & 1) << i
		}
		if tab(m.Rename(f, func(i int) int { return img[i] })) != w {
			t.Fatal("rename")
		}
		c := 0
		for i := 0; i < 64; i++ {
			c += int(x >> i & 1)
		}
		if m.Count(f).Int64() != int64(c) {
			t.Fatal("count")
		}
		v := rng.Intn(N)
		w = 0
		for i := 0; i < 64; i++ {
			k := i &^ (1 << v)
			if y>>i&1 == 1 {
				k |= 1 << v
			}
			w |= (x >> k & 1) << i
		}
		if tab(m.Compose(f, v, g)) != w {
			t.Fatal("compose")
		}
	}
}
