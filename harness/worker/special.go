package main

import (
	"fmt"
	"strings"
)

// also adds fixed cases to a property.
func also(prop string, fs ...func(string, int) []*Case) {
	p := profiles[prop]
	old := p.Special
	p.Special = func(tier string, shard int) (cs []*Case) {
		if old != nil {
			cs = old(tier, shard)
		}
		for _, f := range fs {
			cs = append(cs, f(tier, shard)...)
		}
		return
	}
}

func repetitions(tier string) int {
	if tier == "thorough" {
		return 400000
	}
	return 70000
}

func init() {
	caches := []int{1, 7, 50, 0}
	also("C03", func(tier string, shard int) []*Case {
		k := shard % 4
		c := Config{Varnum: []int{4, 300, 12, 5}[k], Cachesize: caches[k], Nodesize: 3000}
		c.Active = []int{0, 1, c.Varnum - 2, c.Varnum - 1}
		return []*Case{{Prop: "C03", Cfg: c, Ops: []Op{
			{K: "endure", S: "quant", L: c.Active, N: shard, B: k, A: []int{0, 0, 65536, 1000}[k], C: repetitions(tier)},
			{K: "endure", S: "quant", L: c.Active, N: shard + 9, B: 3 - k, C: 3000},
		}}}
	}, deepCases("C03"))
	also("C01", func(tier string, shard int) []*Case {
		k := shard % 4
		c := Config{Varnum: []int{4, 300, 12, 5}[k], Cachesize: []int{3, 0, 200, 11}[k], Nodesize: 3000}
		c.Active = []int{0, 1, c.Varnum - 2, c.Varnum - 1}
		return []*Case{{Prop: "C01", Cfg: c, Ops: []Op{{K: "endure", S: "bool", L: c.Active, N: shard, C: repetitions(tier)}}}}
	}, deepCases("C01"))
	also("C04", func(tier string, shard int) []*Case {
		k := shard % 4
		c := Config{Varnum: []int{6, 300, 12, 8}[k], Cachesize: []int{1, 400000, 2000, 0}[k], Nodesize: 3000}
		c.Active = []int{0, 1, 2, 4, c.Varnum - 2, c.Varnum - 1}
		if k == 0 {
			c.Active = []int{0, 1, 2, 3, 4, 5}
		}
		return []*Case{{Prop: "C04", Cfg: c, Ops: []Op{{K: "endure", S: "replace", L: c.Active, N: shard, C: repetitions(tier)}}}}
	}, deepCases("C04"))
	also("C10", func(tier string, shard int) (cs []*Case) {
		k := shard % 4
		c := Config{Varnum: 6, Nodesize: 30, Minfree: ip(1), Maxinc: ip(3), Active: []int{0, 1, 2, 3, 4, 5}, Cachesize: 3, Obs: k & 1}
		cs = append(cs, &Case{Prop: "C10", Cfg: c, Ops: []Op{
			{K: "fn", D: 0, L: []int{0, 2, 4}, S: "t:e8"}, {K: "fn", D: 1, L: []int{1, 3, 5}, S: "par"},
			{K: "endure", S: "gc", L: c.Active, C: []int{600, 3000, 300, repetitions(tier)}[k]},
		}})
		n := []int{65534, 65536, 70000, 33000}[k]
		g := Config{Varnum: 6, Nodesize: 200, Minfree: ip(1), Active: c.Active, Obs: 0}
		ops := []Op{
			{K: "fn", D: 0, L: []int{0, 2, 4}, S: "t:e8"}, {K: "fn", D: 1, L: []int{1, 3, 5}, S: "par"}, {K: "fn", D: 2, L: []int{1, 2, 3, 5}, S: "t:9c1a"},
			{K: "grab", A: 0, N: n, C: k % 3}, {K: "gogc"}, {K: "fill", N: 0, C: 1}, {K: "verify"},
			{K: "grab", A: 0, N: 2, C: 2}, {K: "gogc"}, {K: "fill", N: 0, C: 1}, {K: "verify"},
			{K: "ungrab", A: 0, N: n, C: k & 1}, {K: "gogc"}, {K: "fill", N: 0, C: 1}, {K: "verify"},
			{K: "ungrab", A: 0, N: 1, C: 1}, {K: "gogc"}, {K: "fill", N: 0, C: 1}, {K: "verify"},
		}
		return append(cs, &Case{Prop: "C10", Cfg: g, Ops: ops})
	})
	also("C11", func(tier string, shard int) (cs []*Case) {
		k := shard % 4
		for i := 0; i < 3; i++ {
			g := newGen(uint64(shard*7+i)+3, tier)
			g.cfg = Config{Varnum: []int{13, 300, 18, 16}[k], Nodesize: 2000, Minfree: ip(1), Obs: k & 1}
			v := g.cfg.Varnum
			g.cfg.Active = []int{0, 1, 2, 3, 4, 5, v - 2, v - 1}
			// references are taken, and dropped in some order, some of them before a collection
			n := []int{3, 30, 60, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 700, 880}[(shard*3+i*5+i/2)%16]
			for t := 0; t < 2; t++ {
				for r := 0; r < 3; r++ {
					var sb strings.Builder
					for j := 0; j < 64; j++ {
						fmt.Fprintf(&sb, "%x", g.n(16))
					}
					g.emit(Op{K: "fn", D: r, L: g.cfg.Active, S: "t:" + sb.String()})
					g.emit(Op{K: "grab", A: r, N: n - g.n(2), C: (k + r) % 3})
				}
				g.emit(Op{K: "leak"})
				for r := 0; r < 3; r++ {
					g.emit(Op{K: "ungrab", A: r, N: n - g.n(4), C: g.n(3)})
					if t == 1 {
						g.emit(Op{K: "gogc"})
					}
					g.emit(Op{K: "drop", A: r})
				}
				g.emit(Op{K: "leak"})
			}
			cs = append(cs, g.done("C11"))
		}
		return
	})
	also("C18", func(tier string, shard int) []*Case {
		k := shard % 4
		c := Config{Varnum: 6, Nodesize: []int{30, 0, 60, 100}[k], Minfree: ip(k & 1), Maxinc: ip(3), Active: []int{0, 1, 2, 3, 4, 5}, Cachesize: 3, Obs: k & 1}
		return []*Case{{Prop: "C18", Cfg: c, Ops: []Op{
			{K: "fn", D: 0, L: []int{0, 2, 4}, S: "t:e8"}, {K: "fn", D: 1, L: []int{1, 3, 5}, S: "par"},
			{K: "endure", S: "gc", L: c.Active, A: 1, C: []int{1500, 5000, 300, repetitions(tier) / 4}[k]},
		}}}
	})
	also("C17", func(tier string, shard int) []*Case {
		k := shard % 4
		c := Config{Varnum: 14, Active: []int{0, 2, 5, 12}, Minfree: ip(2), Nodesize: []int{0, 400, 60, 1500}[k]}
		return []*Case{{Prop: "C17", Cfg: c, Ops: []Op{{K: "kdeep", L: c.Active, N: []int{70000, 300, 5000, 140000}[k], B: []int{60, 30, 300, 40}[k], C: shard}}}}
	})
	for _, p := range []string{"C06", "C07", "C08", "C09", "C02"} {
		also(p, deepCases(p))
	}
	also("C15", func(tier string, shard int) []*Case {
		k := shard % 4
		n := 40
		if raceBuild {
			n = 12
		}
		if tier == "thorough" {
			n *= 20
		}
		c := Config{Varnum: []int{14, 300, 20, 13}[k], Minfree: ip(2), Maxinc: ip(200), Nodesize: []int{0, 900, 400, 3000}[k]}
		c.Active = []int{0, 1, 2, 3, 4, c.Varnum - 1}
		return []*Case{{Prop: "C15", Cfg: c, Ops: []Op{{K: "refstress", L: c.Active, N: n, C: shard}}}}
	})
	also("C02", hugeCases("C02"))
	also("C10", hugeCases("C10"))
	also("C12", func(tier string, shard int) (cs []*Case) {
		for i, cf := range []Config{
			{Varnum: 3, Cachesize: 1 + shard%3, Maxinc: ip(1), Minfree: ip(0), Active: []int{0, 1}},
			{Varnum: 3, Nodesize: 8, Cachesize: 100, Cacheratio: 200, Active: []int{0, 2}},
			{Varnum: 300, Cachesize: 7, Maxinc: ip(16), Minfree: ip(1), Active: []int{1, 255, 299}},
			{Varnum: 4, Nodesize: 600, Active: []int{0, 1, 3}},
		} {
			k := "exhbool"
			cs = append(cs, &Case{Prop: "C12", Cfg: cf, Ops: []Op{{K: k, L: cf.Active, N: shard}}})
			if i < 2 || (i+shard)%2 == 0 {
				cs = append(cs, &Case{Prop: "C12", Cfg: cf, Ops: []Op{{K: "exhquant", L: cf.Active, N: shard}}})
			}
		}
		c := Config{Varnum: 8, Active: []int{0, 1, 4, 6}, Cachesize: []int{5, 0, 1000, 50}[shard%4], Nodesize: 2000}
		cs = append(cs, &Case{Prop: "C12", Cfg: c, Ops: []Op{
			{K: "endure", S: "bool", L: c.Active, N: shard, C: 3000}, {K: "endure", S: "quant", L: c.Active, N: shard, B: 2, C: 3000}}})
		return
	})
}

// hugeCases gives cases with more than 2^20 variables.
func hugeCases(prop string) func(string, int) []*Case {
	return func(tier string, shard int) []*Case {
		if shard%4 != 0 && tier == "quick" || shard%4 > 1 {
			return nil
		}
		v := 1<<20 + 4001
		if shard%4 == 1 {
			v = 1<<21 - 1
		}
		g := newGen(uint64(shard)+7, tier)
		g.cfg = Config{Varnum: v, Active: []int{0, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 3, v - 1}, Nodesize: 2*v + 2 + 400, Minfree: ip(0), Maxinc: ip(500), Cachesize: 100, Obs: 1}
		for i := 0; i < 6; i++ {
			g.fn(i)
		}
		for i := 0; i < 3; i++ {
			g.emit(Op{K: "fill", N: 0, C: 1})
			g.emit(g.boolOp())
			if prop == "C10" {
				g.emit(Op{K: "verify"})
			} else {
				g.emit(Op{K: "canon"})
			}
			g.emit(Op{K: "rebuild", A: g.reg(), N: g.n(6)})
		}
		g.emit(Op{K: "canon"})
		g.emit(Op{K: "struct"})
		return []*Case{g.done(prop)}
	}
}

// deepCases gives cases whose diagrams have thousands of levels.
func deepCases(prop string) func(string, int) []*Case {
	return func(tier string, shard int) []*Case {
		if shard%4 != 1 && (tier == "quick" || shard%4 != 2) {
			return nil
		}
		v := 2300 + 10*shard
		if prop == "C04" || prop == "C03" {
			v = 1300
		}
		g := newGen(uint64(shard)*31+uint64(len(prop)), tier)
		g.cfg = Config{Varnum: v, Nodesize: 2*v + 2 + 3*v, Minfree: ip(2), Maxinc: ip(5000), Obs: shard / 4 % 2}
		var odd, even []int
		for i := 0; i < v; i++ {
			g.cfg.Active = append(g.cfg.Active, i)
			if i&1 == 1 {
				odd = append(odd, i)
			} else {
				even = append(even, i)
			}
		}
		even = even[:len(odd)]
		bits := func(n int) string {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "%d", g.n(2))
			}
			return sb.String()
		}
		all := g.cfg.Active
		g.emit(Op{K: "fn", D: 0, L: all, S: "par"})
		g.emit(Op{K: "fn", D: 1, L: all, S: "cube:" + bits(v)})
		g.emit(Op{K: "fn", D: 2, L: even, S: "par"})
		g.emit(Op{K: "fn", D: 3, L: even, S: "cube:" + bits(len(even))})
		g.emit(Op{K: "fn", D: 4, L: odd, S: "thr:1"})
		g.emit(Op{K: "fn", D: 5, L: all, S: "thr:2"})
		f := func(o Op) { g.focusOp(o, 60) }
		switch prop {
		case "C01":
			for i := 0; i < 10; i++ {
				f(Op{K: "apply", D: 6 + i%4, A: g.n(6), B: g.n(6), N: i})
			}
			f(Op{K: "not", D: 7, A: 0})
			f(Op{K: "not", D: 7, A: 5})
			f(Op{K: "ite", D: 8, A: 3, B: 4, C: 2})
			f(Op{K: "ite", D: 8, A: 1, B: 2, C: 0})
		case "C02":
			f(Op{K: "rebuild", A: 0, N: 1})
			f(Op{K: "rebuild", A: 5, N: 5})
			g.emit(Op{K: "canon"})
			g.emit(Op{K: "struct"})
		case "C03":
			f(Op{K: "exist", D: 6, A: 0, L: odd})
			f(Op{K: "exist", D: 6, A: 1, L: odd})
			f(Op{K: "exist", D: 7, A: 5, L: all[:v/2]})
			f(Op{K: "exist", D: 7, A: 5, L: all[v-3:]})
			f(Op{K: "appex", D: 8, A: 3, B: 4, C: 0, L: even})
			f(Op{K: "appex", D: 8, A: 3, B: 2, C: 8, L: even[10:]})
			f(Op{K: "appex", D: 9, A: 1, B: 3, C: 1, L: odd[:len(odd)-2]})
			f(Op{K: "exist", D: 6, A: 1, L: all})
		case "C04":
			g.emit(Op{K: "newrep", N: 0, L: even, V: odd})
			g.emit(Op{K: "newrep", N: 1, L: odd, V: even})
			g.emit(Op{K: "newrep", N: 2, L: even[:2], V: []int{v - 1, v - 3}})
			f(Op{K: "replace", D: 6, A: 2, N: 0})
			f(Op{K: "replace", D: 7, A: 3, N: 0})
			f(Op{K: "replace", D: 8, A: 4, N: 1})
			f(Op{K: "replace", D: 9, A: 3, N: 2})
		case "C06":
			for i := 0; i < 6; i++ {
				g.emit(Op{K: "satcount", A: i, N: 1})
			}
		case "C07":
			g.emit(Op{K: "allsat", A: 1})
			g.emit(Op{K: "allsat", A: 3})
			g.emit(Op{K: "allsat", A: 3, N: 1})
			g.emit(Op{K: "makecube", D: 6, L: odd[5:40], V: []int{1, 0, 0, 1, 1}})
			g.emit(Op{K: "allsat", A: 6})
		case "C08":
			f(Op{K: "allnodes", L: []int{0, 5}})
			f(Op{K: "allnodes", L: []int{2, 1, 4}, N: 1, C: 700})
			f(Op{K: "allnodes", L: nil})
			g.emit(Op{K: "verify"})
		case "C09":
			f(Op{K: "dot", L: []int{0}})
			f(Op{K: "print", L: []int{5, 3}})
		}
		return []*Case{g.done(prop)}
	}
}
