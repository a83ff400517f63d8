package main

import (
	"fmt"

	"github.com/dalzilio/rudd"
)

// opWrapSet makes so many quantifications that a number of 32 bits given to
// each of them wraps. Each of the first ones is about a variable of its own; at
// the points where their numbers could be used again, quantifications of
// functions of these variables must leave them alone.
func opWrapSet(e *Exec, op Op) {
	const K = 32
	if e.cfg.Varnum < K+3 {
		return
	}
	b := e.b
	T := b.True()
	cube := func(pol uint64, more ...int) (rudd.Node, []int, []bool) {
		var vs []int
		var ps []bool
		for k := 0; k < K; k++ {
			vs, ps = append(vs, k), append(ps, pol>>uint(k)&1 == 1)
		}
		for _, v := range more {
			vs, ps = append(vs, v), append(ps, true)
		}
		return b.Makecube(vs, ps), vs, ps
	}
	isCube := func(n rudd.Node, vs []int, ps []bool) error {
		for i, v := range vs {
			if n == nil {
				return fmt.Errorf("nil")
			}
			if *n < 2 || b.Label(n) != v {
				return fmt.Errorf("no variable %d", v)
			}
			x, y := b.Low(n), b.High(n)
			if !ps[i] {
				x, y = y, x
			}
			if x == nil || *x != 0 {
				return fmt.Errorf("variable %d: wrong branch", v)
			}
			n = y
		}
		if n == nil || *n != 1 {
			return fmt.Errorf("other variables")
		}
		return nil
	}
	sets := make([]rudd.Node, K+3)
	for k := range sets {
		sets[k] = b.Makeset([]int{k})
	}
	calls := uint64(0)
	check := func() {
		pol := calls*0x9e3779b9 ^ calls>>20
		g, vs, ps := cube(pol, K, K+1)
		if err := isCube(g, vs, ps); err != nil {
			panic(abort{"Makecube: " + err.Error()})
		}
		var got rudd.Node
		what := "Exist"
		if calls&1 == 0 {
			got = b.Exist(g, sets[K])
		} else {
			what = "AppEx and"
			got = b.AppEx(g, sets[K+2], rudd.OPand, sets[K])
			vs, ps = append(vs, K+2), append(ps, true)
		}
		vs = append(append([]int{}, vs[:K]...), vs[K+1:]...)
		ps = append(append([]bool{}, ps[:K]...), ps[K+1:]...)
		calls++
		if err := isCube(got, vs, ps); err != nil {
			e.fail("%s of variable %d in a cube of the variables 0 to %d is wrong at quantification number %d: %v", what, K, K+1, calls, err)
		}
	}
	for k := 0; k < K; k++ {
		r := b.Exist(sets[k], sets[k])
		calls++
		if r != T {
			e.fail("Exist of a variable is not True")
		}
	}
	for bits := uint(8); bits <= uint(op.C); bits++ {
		for calls < 1<<bits-3 {
			if b.Exist(T, sets[K]) != T {
				e.fail("Exist of True is not True")
			}
			calls++
		}
		for i := 0; i < 2*K+12; i++ {
			check()
		}
		e.tick(fmt.Sprintf("quantifications_2^%d", bits))
	}
	e.nt = e.nt || e.focus
}

func init() {
	also("C03", func(tier string, shard int) []*Case {
		c := Config{Varnum: 40, Active: []int{0, 1, 2}, Nodesize: 1000}
		bits := 21
		switch {
		case shard == 4 && buildName() == "buddy":
			bits = 32 // 15 ns each
		case shard == 0 && buildName() == "hudd" && tier == "thorough":
			bits = 31
		}
		return []*Case{{Prop: "C03", Cfg: c, Ops: []Op{{K: "wrapset", C: bits}}}}
	})
}
