package main

import (
	"fmt"

	"github.com/dalzilio/rudd"

	"verifharness/ref"
)

// opManyRep applies a replacer to a few functions, then creates C more
// replacers. The one created 2^j later renames the same variables in another
// way: applied to the j-th function, it must not find the result of the first.
func opManyRep(e *Exec, op Op) {
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) < 7 {
		return
	}
	old := []int{L[0], L[1], L[2]}
	maps := [][]int{{L[3], L[4], L[5]}, {L[5], L[6], L[3]}, {L[4], L[3], L[6]}}
	const H = 24
	var hn [H]rudd.Node
	var hf [H]ref.F
	s := uint64(op.N)*7919 + 5
	seen := map[ref.F]bool{}
	for j := range hn {
		for {
			s = mix(s)
			q := s
			hf[j] = e.m.FromTable(old, func(i int) bool { return q>>i&1 == 1 })
			if hf[j] > 1 && !seen[hf[j]] {
				break
			}
		}
		seen[hf[j]] = true
		if hn[j] = e.kernel(hf[j]); hn[j] == nil {
			panic(abort{"kernel construction failed"})
		}
	}
	newrep := func(k int) rudd.Replacer {
		r, err := e.b.NewReplacer(old, maps[k])
		if err != nil {
			e.fail("NewReplacer(%v, %v) refused: %v", old, maps[k], err)
		}
		return r
	}
	check := func(j, k int, r rudd.Replacer, when string) {
		got := e.b.Replace(hn[j], r)
		if got == nil {
			e.fail("Replace returned nil %s: %q", when, e.b.Error())
		}
		want := e.m.Rename(hf[j], func(v int) int {
			for i, x := range old {
				if x == v {
					return maps[k][i]
				}
			}
			return v
		})
		if f, err, ok := e.agrees(got, want); !ok {
			if _, _, ok := e.agrees(hn[j], hf[j]); !ok {
				panic(abort{"held node changed"})
			}
			e.fail("Replace of %s with %v by %v denotes %s (%v) %s, expected %s", e.show(hf[j]), old, maps[k], e.show(f), err, when, e.show(want))
		}
	}
	first := newrep(0)
	for j := range hn {
		check(j, 0, first, "with the first replacer")
	}
	j := 0
	for c := 1; c <= op.C; c++ {
		k := 1 + c&1
		r := newrep(k)
		if c == 1<<uint(j) && j < H {
			check(j, 1+c&1, r, fmt.Sprintf("with a replacer created %d later", c))
			if c >= 1<<12 {
				e.tick("many_replacers")
			}
			j++
		}
	}
	check(H-1, 0, first, "with the first replacer, in the end")
	e.tick("manyrep")
	e.nt = e.nt || e.focus
}

func init() {
	also("C04", func(tier string, shard int) (cs []*Case) {
		n := 1<<20 + 3
		if tier == "thorough" {
			n = 1<<22 + 3
		}
		if shard%4 != 0 {
			n = 1<<17 + 3
		}
		c := Config{Varnum: 7 + shard%3, Active: []int{0, 1, 2, 3, 4, 5, 6}, Cachesize: []int{0, 2000, 777}[shard%3], Nodesize: 1000}
		return []*Case{{Prop: "C04", Cfg: c, Ops: []Op{{K: "manyrep", L: c.Active, N: shard, C: n}}}}
	})
}
