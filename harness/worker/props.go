package main

import (
	"fmt"
	"math"
)

func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

var all = map[string]bool{"*": true}

var profiles = map[string]*Profile{}

func reg(p *Profile) { profiles[p.ID] = p }

func init() {
	reg(&Profile{
		ID:    "C01",
		Focus: set("const", "not", "and", "or", "imp", "equiv", "apply", "ite", "law", "exhbool", "endure", "soak"),
		Rule:  "at least one Boolean operation was compared with the reference model on a non-constant result",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{})
			g.program(g.len(), func() {
				if g.p(4) {
					g.burst()
				} else {
					g.focusOp(g.boolOp(), 35)
				}
			})
			return g.done("C01")
		},
		QuickN: 7000, ThoroughN: 98000,
		Special: func(tier string, shard int) (cs []*Case) {
			cfgs := []Config{
				{Varnum: 3, Cachesize: 3, Maxinc: ip(1), Minfree: ip(0)},
				{Varnum: 3, Nodesize: 8, Cachesize: 100},
				{Varnum: 300, Cachesize: 7, Maxinc: ip(16), Minfree: ip(1)},
				{Varnum: 4, Nodesize: 60},
			}
			act := [][]int{{0, 1}, {0, 2}, {0, 255}, {1, 3}, {0, 1, 2}, {0, 1, 2}, {0, 254, 256}, {1, 2, 3}}
			for i := range cfgs {
				for w := 0; w < 2; w++ {
					c := cfgs[i]
					c.Active = act[i+4*w]
					if i%8 == shard%4 {
						cs = append(cs, &Case{Prop: "C01", Cfg: c, Ops: []Op{{K: "exhbool", L: c.Active, N: shard}}})
					}
				}
			}
			return
		},
	})
	reg(&Profile{
		ID:    "C02",
		Focus: set("canon", "rebuild", "struct", "constptr"),
		Rule:  "at least one canonicity check (pairwise identity, rebuild by another route, or structural scan) was made on non-constant nodes",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{classes: []int{250, 380, 180, 180, 2, 0}})
			g.program(g.len(), func() {
				switch k := g.n(20); {
				case k < 8:
					g.focusOp(Op{K: "rebuild", A: g.reg(), N: g.n(6)}, 35)
				case k < 12:
					g.focusOp(Op{K: "canon"}, 0)
				case k < 14:
					g.focusOp(Op{K: "struct"}, 0)
				case k < 15:
					g.emit(Op{K: []string{"low", "high"}[g.n(2)], D: g.reg(), A: g.reg()})
				case k < 16:
					g.emit(Op{K: "constptr", A: g.reg(), B: g.reg(), C: g.reg(), N: g.n(1000), L: g.someVars()})
				case k < 18:
					g.focusOp(g.boolOp(), 30)
				default:
					g.focusOp(g.quantOp(), 30)
				}
			})
			g.emit(Op{K: "canon"})
			g.emit(Op{K: "struct"})
			return g.done("C02")
		},
		QuickN: 4000, ThoroughN: 56000,
		Special: bigIDs("C02"),
	})
	reg(&Profile{
		ID:    "C03",
		Focus: set("exist", "appex", "exhquant", "endure", "soak", "wrapset"),
		Rule:  "at least one Exist/AppEx/AndExist result that is not constant was compared with the reference model",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{})
			g.program(g.len(), func() {
				if g.p(4) {
					g.burst()
				} else if g.p(75) {
					g.focusOp(g.quantOp(), 35)
					if g.p(40) { // same operands, another set or operator
						o := g.hist[len(g.hist)-1]
						o.L = g.anyVars()
						if o.K == "appex" && g.p(50) {
							o.C = g.of(0, 1, 2, 3, 8)
							if g.p(50) {
								o.L = g.hist[len(g.hist)-1].L
							}
						}
						o.D = g.reg()
						g.focusOp(o, 10)
					}
				} else {
					g.focusOp(g.boolOp(), 10)
				}
			})
			return g.done("C03")
		},
		QuickN: 7000, ThoroughN: 98000,
		Special: func(tier string, shard int) (cs []*Case) {
			c := Config{Varnum: 3, Active: []int{0, 1, 2}, Cachesize: []int{3, 50, 0}[shard%3]}
			if shard&1 == 1 {
				c.Varnum, c.Active = 300, []int{1, 255, 299}
			}
			return []*Case{{Prop: "C03", Cfg: c, Ops: []Op{{K: "exhquant", L: c.Active, N: shard}}}}
		},
	})
	reg(&Profile{
		ID:     "C04",
		Focus:  set("newrep", "replace", "verify", "endure", "soak", "manyrep"),
		Ablate: set("newrep", "replace", "endure", "soak", "manyrep"),
		Rule:   "at least one Replace result that is not constant was compared with the reference model",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{act: 8})
			g.emit(g.newrep())
			g.program(g.len(), func() {
				switch k := g.n(20); {
				case k < 4:
					o := g.newrep()
					g.focusOp(o, 0)
					g.freshFor(g.reg(), o.V)
				case k < 17:
					if g.p(60) {
						for i := len(g.ops) - 1; i >= 0; i-- {
							if g.ops[i].K == "newrep" {
								r := g.reg()
								g.freshFor(r, g.ops[i].V)
								g.focusOp(Op{K: "replace", D: g.reg(), A: r, N: g.ops[i].N}, 40)
								return
							}
						}
					}
					g.focusOp(g.replaceOp(), 40)
				case k < 18:
					g.focusOp(Op{K: "verify"}, 0)
				default:
					g.focusOp(g.boolOp(), 10)
				}
			})
			return g.done("C04")
		},
		QuickN: 7000, ThoroughN: 98000,
	})
	reg(&Profile{
		ID:    "C05",
		Focus: set("var", "nvar", "makeset", "makecube", "low", "high", "label"),
		Rule:  "at least one variable, set, cube or cofactor that is not constant was compared with the reference model",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{classes: []int{300, 300, 180, 200, 4, 0}})
			g.program(g.len(), func() { g.focusOp(g.varOp(), 35) })
			return g.done("C05")
		},
		QuickN: 4000, ThoroughN: 56000,
		Special: func(tier string, shard int) []*Case {
			if shard%4 != 0 && tier == "quick" || shard%4 > 1 {
				return nil
			}
			n := 1<<21 - 1
			c := Config{Varnum: n, Active: []int{0, 1 << 16, 1 << 20, n - 2, n - 1}, Obs: 1, Cachesize: 50}
			return []*Case{{Prop: "C05", Cfg: c, Ops: []Op{
				{K: "makeset", D: 0, L: []int{0, 255, 256, 65535, 65536, 1 << 20, n - 2, n - 1}},
				{K: "makecube", D: 1, L: []int{1, 65536, 1<<20 - 1, 1 << 20, n - 1}, V: []int{1, 0, 1, 0, 0, 1, 1}},
				{K: "var", D: 2, N: n - 1}, {K: "nvar", D: 3, N: n - 2}, {K: "label", A: 2}, {K: "low", D: 4, A: 3}, {K: "high", D: 5, A: 0}, {K: "low", D: 6, A: 1},
				{K: "apply", D: 7, A: 0, B: 1, N: 1}, {K: "label", A: 7}, {K: "low", D: 8, A: 7}, {K: "high", D: 9, A: 7},
			}}}
		},
	})
	reg(&Profile{
		ID:     "C06",
		Focus:  set("satcount", "verify", "soak"),
		Ablate: set("satcount", "soak"),
		Rule:   "at least one count of a non-constant function was compared with the exact count",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{act: 9, classes: []int{250, 300, 220, 220, 2, 0}})
			g.program(g.len(), func() {
				switch k := g.n(10); {
				case k < 6:
					g.focusOp(Op{K: "satcount", A: g.reg(), N: g.n(3)}, 10)
				case k < 9:
					g.focusOp(g.boolOp(), 10)
				default:
					g.focusOp(Op{K: "verify"}, 0)
				}
			})
			return g.done("C06")
		},
		QuickN: 7000, ThoroughN: 98000,
	})
	reg(&Profile{
		ID:    "C07",
		Focus: set("allsat", "allsatcb"),
		Rule:  "at least one enumeration of a non-constant function was checked to be an exact disjoint cover, or to stop at the requested call",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{act: 7})
			g.program(g.len()/2+6, func() {
				switch k := g.n(20); {
				case k < 8:
					g.focusOp(Op{K: "allsat", A: g.reg(), B: g.n(2), N: g.of(0, 0, 0, 2), C: g.n(1000)}, 5)
				case k < 12:
					g.focusOp(Op{K: "allsat", A: g.reg(), N: 1, C: g.n(1000)}, 5)
				case k < 17:
					g.focusOp(Op{K: "allsatcb", A: g.reg(), B: g.reg(), N: g.n(4), C: g.of(0, 1, 2, 5, 9)}, 5)
				default:
					g.focusOp(g.boolOp(), 10)
				}
			})
			return g.done("C07")
		},
		QuickN: 4500, ThoroughN: 63000,
	})
	reg(&Profile{
		ID:     "C08",
		Focus:  set("allnodes", "verify", "apply", "canon", "struct"),
		Ablate: set("allnodes"),
		Rule:   "at least one visit from non-constant roots (or of all active nodes) was compared with an independent walk",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{})
			g.program(g.len(), func() {
				switch k := g.n(20); {
				case k < 12:
					var L []int
					for i := g.of(0, 1, 1, 1, 2, 2, 3, 3, 4, 6, 11); i > 0; i-- {
						L = append(L, g.reg())
					}
					if g.p(5) && len(L) > 0 {
						L = append(L, L[0])
					}
					n := g.of(0, 0, 0, 1, 1, 1, 2, 3)
					g.focusOp(Op{K: "allnodes", L: L, N: n, C: g.n(1000), B: g.n(4)}, 5)
				case k < 14:
					g.focusOp(Op{K: "verify"}, 0)
				case k < 15:
					g.focusOp(Op{K: "struct"}, 0)
				default:
					g.focusOp(Op{K: "apply", D: g.reg(), A: g.reg(), B: g.reg(), N: g.n(7)}, 40)
				}
			})
			g.emit(Op{K: "gogc"})
			g.emit(Op{K: "fill", C: 1})
			g.emit(Op{K: "verify"})
			return g.done("C08")
		},
		QuickN: 4500, ThoroughN: 63000,
	})
	reg(&Profile{
		ID:    "C09",
		Focus: set("dot", "print", "errprint"),
		Rule:  "the text written for at least one non-constant root was parsed back and compared with the diagram, or the error output was checked",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{classes: []int{300, 380, 180, 130, 0, 0}})
			g.program(g.len(), func() {
				var L []int
				for i := g.of(0, 1, 1, 1, 1, 2, 2, 3, 5, 9); i > 0; i-- {
					L = append(L, g.reg())
				}
				switch k := g.n(20); {
				case k < 8:
					g.focusOp(Op{K: "dot", L: L}, 0)
				case k < 16:
					g.focusOp(Op{K: "print", L: L}, 0)
				default:
					g.focusOp(g.boolOp(), 20)
				}
			})
			if g.p(40) {
				g.emit(Op{K: "errprint", L: []int{0}, N: g.n(3)})
				if g.p(50) {
					g.emit(Op{K: "errprint", L: []int{}, N: g.n(3)})
				}
			}
			return g.done("C09")
		},
		QuickN: 4000, ThoroughN: 56000,
	})
	reg(&Profile{
		ID:     "C10",
		Focus:  set("verify", "grab", "ungrab", "lastref", "allsatcb", "endure", "soak", "not", "and", "or", "imp", "equiv", "apply", "ite", "exist", "appex", "replace", "low", "high"),
		Ablate: set("lastref", "allsatcb", "soak", "not", "and", "or", "imp", "equiv", "apply", "ite", "exist", "appex", "replace", "low", "high"),
		Rule:   "at least one non-constant held node was re-read after collections",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{})
			sat := g.p(12)
			g.program(g.len(), func() {
				switch k := g.n(40); {
				case k < 8:
					g.focusOp(g.boolOp(), 40)
				case k < 11:
					g.focusOp(g.quantOp(), 40)
				case k < 13:
					g.focusOp(g.newrep(), 0)
					g.focusOp(g.replaceSafe(), 40)
				case k < 16:
					g.focusOp(Op{K: []string{"low", "high"}[g.n(2)], D: g.reg(), A: g.reg()}, 0)
				case k < 20:
					g.emit(Op{K: "grab", A: g.reg(), N: g.in(1, 6), C: g.n(3)})
				case k < 23:
					g.emit(Op{K: "ungrab", A: g.reg(), N: g.n(8), C: g.n(3)})
				case k < 29:
					g.focusOp(Op{K: "lastref", D: g.reg(), A: g.reg(), B: g.reg(), C: g.of(0, 0, 1, 1, 2, 3, 4, 6), N: g.n(6), L: g.someVars()}, 0)
				case k < 31:
					g.focusOp(Op{K: "allsatcb", A: g.reg(), B: g.reg(), N: 3, C: g.of(0, 1, 3)}, 0)
				case k < 36:
					for i := g.n(4); i > 0; i-- {
						g.emit(Op{K: "drop", A: g.reg()})
					}
					g.emit(Op{K: "gogc"})
					g.emit(Op{K: "fill", N: g.n(4), C: 1})
					g.emit(Op{K: "verify"})
				default:
					if sat { // saturate the reference counter
						r := g.reg()
						g.fn(r)
						tot := g.of(1000, 1021, 1022, 1023, 1024, 1025, 1500, 2100, 2400)
						g.emit(Op{K: "grab", A: r, N: tot, C: g.n(3)})
						if g.p(60) {
							g.emit(Op{K: "ungrab", A: r, N: g.of(tot, tot-1, tot/2, 1000, 1020, 1022, 1023, 1024), C: g.n(3)})
							g.emit(Op{K: "gogc"})
							g.emit(Op{K: "fill", N: 0, C: 1})
							g.emit(Op{K: "verify"})
							if g.p(50) {
								g.emit(Op{K: "grab", A: r, N: g.of(1, 5, 30, 1100), C: g.n(3)})
								g.emit(Op{K: "ungrab", A: r, N: g.in(1, 1200), C: g.n(3)})
								g.emit(Op{K: "gogc"})
								g.emit(Op{K: "fill", N: 0, C: 1})
								g.emit(Op{K: "verify"})
							}
						}
						sat = g.p(50)
					} else {
						g.emit(Op{K: "verify"})
					}
				}
			})
			g.emit(Op{K: "gogc"})
			g.emit(Op{K: "fill", C: 1})
			g.emit(Op{K: "verify"})
			return g.done("C10")
		},
		QuickN: 3500, ThoroughN: 49000,
		Special: bigIDs("C10"),
	})
	reg(&Profile{
		ID:    "C11",
		Focus: set("leak", "churn"),
		Rule:  "at least one collection after dropping references was compared with the set of reachable nodes, or a long computation with a bounded live set was run",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{classes: []int{0, 380, 250, 100, 0, 0}})
			long := g.p(12)
			n := g.len()
			if long {
				n = g.in(6, 15)
			}
			g.program(n, func() {
				switch k := g.n(20); {
				case k < 5:
					g.focusOp(g.boolOp(), 20)
				case k < 8:
					g.focusOp(g.quantOp(), 20)
				case k < 10:
					g.focusOp(g.newrep(), 0)
					g.focusOp(g.replaceSafe(), 20)
				case k < 12:
					g.emit(Op{K: "grab", A: g.reg(), N: g.of(1, 3, 10, 100, 600), C: g.n(3)})
				case k < 13:
					g.focusOp(Op{K: "allsatcb", A: g.reg(), B: g.reg(), N: g.n(2), C: 3}, 0)
				case k < 14:
					g.focusOp(Op{K: "allnodes", L: []int{g.reg(), g.reg()}, N: g.of(0, 1, 1), C: g.n(20)}, 0)
				case k < 15:
					g.emit(Op{K: "garbage", N: g.in(50, 300)})
				case k < 17:
					for i := g.n(5); i > 0; i-- {
						g.emit(Op{K: "drop", A: g.reg()})
					}
				default:
					g.emit(Op{K: "leak"})
				}
			})
			for i := g.n(8); i > 0; i-- {
				g.emit(Op{K: "drop", A: g.reg()})
			}
			g.emit(Op{K: "leak"})
			if long {
				g.emit(Op{K: "churn", N: g.of(24, 48, 96), L: g.vars(), C: g.n(2)})
			}
			return g.done("C11")
		},
		QuickN: 4500, ThoroughN: 63000,
	})
	reg(&Profile{
		ID:    "C12",
		Focus: all,
		Rule:  "at least one non-constant result was compared under non-default options",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{})
			c := &g.cfg
			min := 2*c.Varnum + 2
			// wider option ranges than the other properties
			if g.p(50) {
				c.Minfree = ip(g.of(0, 1, 2, 20, 50, 90, 99, 100, 150))
			}
			if g.p(50) {
				c.Maxinc = ip(g.of(0, 1, 1, 2, 2, 3, 4, 6, 10, 100, 1<<30))
			}
			if g.p(40) {
				c.Nodesize = g.of(1, 2, min-1, min, min+1, min+2, min+3, 1000, 10007)
			}
			if g.p(40) {
				c.Cachesize = g.of(1, 2, 3, 4, 5, 6, 9, 10, 11, 100, 20000)
			}
			if g.p(40) {
				c.Cacheratio = g.of(1, 2, 10, 99, 100, 101, 400, 1000)
			}
			if g.p(12) { // values outside of the useful ranges
				switch neg := g.of(-1, -1, -2, -20, -100, math.MinInt32); g.n(6) {
				case 0:
					c.Minfree = ip(neg)
				case 1:
					c.Maxinc = ip(neg)
				case 2:
					c.Maxinc = ip(g.of(math.MaxInt32, pow2(31), math.MaxInt-1, math.MaxInt))
				case 3:
					c.Nodesize = neg
				case 4:
					c.Cachesize = neg
				default:
					c.Cacheratio = neg
				}
			}
			g.program(g.len(), g.anyOp)
			g.emit(Op{K: "verify"})
			g.emit(Op{K: "noerr"})
			g.emit(Op{K: "canon"})
			return g.done("C12")
		},
		QuickN: 2200, ThoroughN: 30800,
	})
	reg(&Profile{
		ID:    "C13",
		Focus: all,
		Rule:  "at least one operation failed at the node limit, or the table was found more than half full",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{act: 9, classes: []int{100, 500, 300, 100, 0, 0}})
			c := &g.cfg
			if g.p(70) {
				c.Nodesize = 0
			}
			init := 2*c.Varnum + 2
			if c.Nodesize > init {
				init = c.Nodesize
			}
			init += 12 // the buddy implementation rounds its first table up to a prime
			c.Maxnode = init + g.of(0, 1, 2, 3, 5, 8, 12, 20, 30, 50, 90, 150, 300, 400, 500, 700)
			if g.p(30) {
				c.Maxnode += init
			}
			g.program(g.len(), func() {
				if g.p(15) {
					g.emit(Op{K: "limit"})
				} else if g.p(6) {
					g.emit(Op{K: "recover", N: g.n(4), L: g.someVars()})
				} else if g.p(15) {
					g.fnRoute(g.reg(), g.n(6))
				} else if g.p(10) { // hold many nodes
					g.emit(Op{K: "garbage", N: g.of(10, 30, 100)})
				} else if g.p(4) {
					g.emit(Op{K: "leak"})
				} else if g.p(10) {
					g.emit(Op{K: "squeeze", N: g.n(12), A: g.n(1000)})
					for i := g.in(1, 3); i > 0; i-- {
						if g.p(60) {
							g.emit(g.boolOp())
						} else {
							g.anyOp()
						}
					}
					g.emit(Op{K: "retry", N: g.of(0, 0, 0, 2, 4, 8)})
				} else {
					g.anyOp()
				}
				if g.p(25) {
					g.emit(Op{K: "retry", N: g.of(0, 0, 0, 2, 4, 8)})
				}
			})
			g.emit(Op{K: "limit"})
			g.emit(Op{K: "verify"})
			g.emit(Op{K: "recover", N: g.n(3), L: g.someVars()})
			g.emit(Op{K: "limit"})
			g.emit(Op{K: "verify"})
			return g.done("C13")
		},
		QuickN: 9000, ThoroughN: 126000,
	})
	reg(&Profile{
		ID:     "C14",
		Focus:  set("bad", "badrep", "badnew", "verify", "noerr", "apply", "ite", "exist", "appex", "struct"),
		Ablate: set("bad", "badrep", "badnew"),
		Rule:   "at least one invalid call was made and its failure value, the error status and the valid nodes were checked",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{})
			g.program(g.len(), func() {
				switch k := g.n(20); {
				case k < 10:
					g.focusOp(Op{K: "bad", N: g.n(nBadKinds), A: g.reg(), B: g.n(1000), C: g.n(7), L: g.someVars()}, 10)
				case k < 12:
					g.focusOp(Op{K: "badrep", N: g.n(7), B: g.n(100), C: g.n(100), L: g.vars(), V: g.vars()}, 0)
				case k < 13:
					g.focusOp(Op{K: "badnew", B: g.n(100), N: g.n(1 << 20), C: g.n(2)}, 0)
				case k < 15:
					g.focusOp(g.boolOp(), 20)
				case k < 16:
					g.focusOp(g.quantOp(), 20)
				case k < 17:
					g.focusOp(Op{K: "struct"}, 0)
				default:
					g.focusOp(Op{K: "verify"}, 0)
				}
			})
			if g.p(30) { // a program of valid calls only
				var o []Op
				for _, x := range g.ops {
					if x.K != "bad" && x.K != "badrep" {
						o = append(o, x)
					}
				}
				g.ops = append(o, Op{K: "noerr"})
			}
			g.emit(Op{K: "verify"})
			return g.done("C14")
		},
		QuickN: 8000, ThoroughN: 112000,
	})
	reg(&Profile{
		ID:    "C15",
		Focus: set("verify", "refstress"),
		Rule:  "finalizers of dropped references ran concurrently with operations of the program under the race detector",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{classes: []int{200, 400, 250, 100, 0, 0}})
			g.program(g.in(30, 90), func() {
				switch k := g.n(30); {
				case k < 3:
					g.emit(Op{K: "garbage", N: g.in(5, 80)})
				case k < 5:
					g.emit(Op{K: "grab", A: g.reg(), N: g.of(1, 3, 20, 200), C: g.n(3)})
				case k < 7:
					g.emit(Op{K: "ungrab", A: g.reg(), N: g.n(200), C: g.n(3)})
				case k < 9:
					g.emit(Op{K: "allnodes", L: g.someRegs(), N: g.n(4), C: g.n(20)})
				case k < 11:
					g.emit(Op{K: "allsatcb", A: g.reg(), B: g.reg(), N: g.n(4), C: g.n(4)})
				case k < 12:
					g.emit(Op{K: "dot", L: g.someRegs()})
				case k < 13:
					g.emit(Op{K: "stats", N: 3})
				case k < 14:
					g.emit(Op{K: "kop", D: g.reg(), A: g.reg(), B: g.reg(), N: g.n(4), C: g.of(-1, 0, 2), L: g.vars(), V: []int{g.n(2)}})
				case k < 17:
					for i := g.n(4); i > 0; i-- {
						g.emit(Op{K: "drop", A: g.reg()})
					}
				case k < 18:
					g.emit(Op{K: "bad", N: g.n(nBadKinds), A: g.reg(), B: g.n(1000), C: g.n(7), L: g.someVars()})
				default:
					g.anyOp()
				}
			})
			g.emit(Op{K: "verify"})
			return g.done("C15")
		},
		QuickN: 200, ThoroughN: 2800,
	})
	reg(&Profile{
		ID:    "C16",
		Focus: all,
		Rule:  "at least two BDDs were used alternately (or concurrently) and a non-constant result of each was compared with the reference model",
		Gen: func(g *Gen) *Case {
			c := &Case{Prop: "C16"}
			k := g.of(2, 2, 2, 3, 4)
			tot := 0
			for i := 0; i < k; i++ {
				h := &Gen{s: g.u(), tier: g.tier}
				h.config(cfgOpt{classes: []int{300, 400, 180, 80, 0, 0}})
				h.program(h.in(8, 35), func() {
					switch q := h.n(12); {
					case q < 1:
						h.emit(Op{K: "noerr"})
					case q < 2:
						h.emit(Op{K: "verify"})
					case q < 4:
						o := h.newrep()
						h.focusOp(o, 0)
						r := h.reg()
						h.freshFor(r, o.V)
						h.focusOp(Op{K: "replace", D: h.reg(), A: r, N: o.N, C: 1}, 10)
					case q < 7 && h.p(60):
						h.emit([]Op{
							{K: "allsat", A: h.reg(), B: h.n(2)},
							{K: "allsat", A: h.reg(), N: 1, C: h.n(1000)},
							{K: "allnodes", L: h.someRegs(), N: h.n(4), C: h.n(20)},
							{K: "allsatcb", A: h.reg(), B: h.reg(), N: h.n(4), C: h.of(0, 1, 5)},
						}[h.n(4)])
					case q < 8 && i == k-1:
						h.emit(Op{K: "bad", N: h.n(nBadKinds), A: h.reg(), B: h.n(1000), C: h.n(7), L: h.someVars()})
					default:
						h.anyOp()
					}
				})
				h.emit(Op{K: "verify"})
				h.emit(Op{K: "noerr"})
				s := h.done("C16")
				c.Sub = append(c.Sub, *s)
				tot += len(s.Ops)
			}
			if !raceBuild || g.p(30) {
				left := make([]int, k)
				for i := range left {
					left[i] = len(c.Sub[i].Ops)
				}
				cur := 0
				for tot > 0 {
					if g.p(60) {
						cur = g.n(k)
					}
					if left[cur] > 0 {
						left[cur]--
						tot--
						c.Sched = append(c.Sched, cur)
					} else {
						cur = g.n(k)
					}
				}
				if !raceBuild && g.p(20) {
					c.Sched = nil
				}
			}
			return c
		},
		QuickN: 3000, ThoroughN: 42000,
	})
	reg(&Profile{
		ID:    "C17",
		Focus: set("kmake", "kop", "kstack", "kdeep", "kseq"),
		Rule:  "at least one user-written operation, pushed node or Makenode triple that is not constant was compared with the reference model",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{})
			g.program(g.len(), func() {
				switch k := g.n(22); {
				case k >= 20:
					g.focusOp(Op{K: "kseq", D: g.reg(), N: g.of(5, 10, 20, 40, 40), C: g.n(1 << 20)}, 30)
				case k < 5:
					g.focusOp(Op{K: "kmake", D: g.reg(), A: g.reg(), B: g.reg(), N: g.n(1 << 20)}, 30)
				case k < 12:
					g.focusOp(Op{K: "kop", D: g.reg(), A: g.reg(), B: g.reg(), N: g.n(4), C: g.of(-1, 0, 0, 1, 2, 3, 4, 7), L: g.vars(), V: []int{g.n(2)}}, 0)
				case k < 15:
					var V []int
					for i := g.in(3, 10); i > 0; i-- {
						V = append(V, g.of(g.n(NREG), g.n(NREG), g.n(NREG), -1, -2, -3, -4))
					}
					V = append(V, -1)
					g.focusOp(Op{K: "kstack", N: g.n(1 << 20), L: g.someVars(), V: V}, 0)
				default:
					g.focusOp(g.boolOp(), 20)
				}
			})
			return g.done("C17")
		},
		QuickN: 2500, ThoroughN: 35000,
	})
	reg(&Profile{
		ID:    "C18",
		Focus: set("stats", "endure"),
		Rule:  "Stats was compared with the active nodes and with the nodes created at least once",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{classes: []int{300, 380, 180, 130, 0, 0}})
			if g.p(25) {
				g.cfg.Maxnode = 2*g.cfg.Varnum + 2 + 12 + g.n(120)
				if g.cfg.Nodesize > g.cfg.Maxnode {
					g.cfg.Maxnode = g.cfg.Nodesize + 12
				}
			}
			g.program(g.len(), func() {
				switch k := g.n(20); {
				case k < 3 && g.cfg.Maxnode > 0:
					g.emit(Op{K: "garbage", N: g.in(20, 200)})
					g.focusOp(Op{K: "stats", N: g.of(1, 3, 10)}, 0)
				case k < 9:
					g.focusOp(Op{K: "stats", N: g.of(0, 1, 3, 10, 40)}, 40)
				case k < 14:
					g.focusOp(g.boolOp(), 20)
				case k < 16:
					g.focusOp(g.quantOp(), 20)
				case k < 17:
					g.focusOp(g.replaceSafe(), 20)
				default:
					g.emit(Op{K: "garbage", N: g.in(1, 200)})
				}
			})
			g.emit(Op{K: "stats", N: 3})
			return g.done("C18")
		},
		QuickN: 6000, ThoroughN: 84000,
	})
	reg(&Profile{
		ID:    "C20",
		Focus: set("grow", "growbig"),
		Rule:  "at least one collection happened and the decision to grow the table (or not) was compared with the options",
		Gen: func(g *Gen) *Case {
			g.config(cfgOpt{classes: []int{300, 380, 180, 60, 0, 0}})
			if g.p(30) {
				min := 2*g.cfg.Varnum + 2
				if g.cfg.Nodesize > min {
					min = g.cfg.Nodesize
				}
				g.cfg.Maxnode = min + 20 + g.n(3*min)
			}
			g.emit(Op{K: "grow", N: g.n(30), C: g.of(0, 50)})
			for i := g.in(2, 6); i > 0; i-- {
				switch g.n(5) {
				case 0:
					g.emit(Op{K: "gogc"})
				case 1:
					g.fnRoute(g.reg(), g.n(6))
				case 2:
					g.emit(g.boolOp())
				}
				g.emit(Op{K: "grow", N: g.in(20, 200), C: g.of(0, 0, 5, 20, 50, 90, 100)})
			}
			return g.done("C20")
		},
		QuickN: 5000, ThoroughN: 70000,
	})
	reg(&Profile{
		ID:    "C19",
		Focus: set("not", "and", "or", "imp", "equiv", "apply", "ite", "exist", "appex", "newrep", "replace", "satcount", "allnodes", "dot", "print", "makeset", "canon", "rebuild", "label", "low", "high", "const", "var"),
		Rule:  "an operation on operands with more than 2^40 paths returned, with the right non-constant result",
		Gen: func(g *Gen) *Case {
			n := g.in(50, 110)
			if g.p(30) {
				n = g.in(95, 120)
			}
			c := Config{Varnum: 2*n + g.n(60)}
			if g.p(30) {
				c.Varnum = g.in(2*n, 700)
			}
			// functions depend on variables followed by a variable nothing depends on
			step := c.Varnum / n
			for i := 0; i < n; i++ {
				c.Active = append(c.Active, i*step+g.n(step-1))
			}
			switch g.n(4) {
			case 0:
				c.Nodesize = 2*c.Varnum + 2 + g.n(2000)
			case 1:
				c.Nodesize = 20000
			}
			switch g.n(4) {
			case 0:
				c.Cachesize = g.in(10000, 30000)
			case 1: // grows with the table
				c.Cachesize, c.Cacheratio = 10000, g.of(300, 400, 1000)
				c.Nodesize = 6000 + g.n(3000)
			}
			if g.p(30) {
				c.Minfree = ip(g.of(20, 33, 50))
			}
			if g.p(30) {
				c.Maxinc = ip(g.of(500, 3000, 100000))
			}
			c.Obs = g.n(2)
			g.cfg = c
			hard := func(d, mo int) {
				L := g.subset(c.Active, 45, n)
				if n >= 95 { // some operands share no variable, or only some
					switch g.n(6) {
					case 0:
						L = c.Active[:n/2]
					case 1:
						L = c.Active[n/2:]
					case 2, 3:
						L = nil
						for i := g.n(2); i < n; i += 2 {
							L = append(L, c.Active[i])
						}
					case 4:
						L = c.Active[n/4 : n-n/4]
					}
				}
				g.emit(Op{K: "fn", D: d, N: g.of(0, 0, 1, 4, 5), L: L, S: fmt.Sprintf("mod:%d:%d", mo, g.in(1, 1<<mo-2))})
			}
			for i := 0; i < 4; i++ {
				hard(i, 2)
			}
			hard(4, 3)
			hard(5, 3)
			hard(6, 4)
			// a literal and a small cube, anywhere
			pos := func() int {
				if g.p(30) {
					return c.Varnum - 1 - g.n(3)
				}
				return g.n(c.Varnum)
			}
			g.emit(Op{K: []string{"var", "nvar"}[g.n(2)], D: 11, N: pos()})
			lit := 11
			base := func() int { return g.n(4) }
			baseLit := func() int {
				if g.p(25) {
					return lit
				}
				return g.n(4)
			}
			some := func() []int {
				switch g.n(8) {
				case 0:
					return []int{c.Active[g.n(n)]}
				case 1:
					return c.Active[:g.in(1, n)]
				case 2:
					return c.Active[g.n(n):]
				case 3:
					return sortedSet([]int{pos(), pos()})
				}
				return g.subset(c.Active, 1, n)
			}
			for i := g.in(4, 9); i > 0; i-- {
				d := 7 + g.n(4)
				switch g.n(22) {
				case 0, 1:
					g.focusOp(Op{K: "not", D: d, A: g.n(7)}, 30)
				case 2, 3, 4, 5:
					o := Op{K: "apply", D: d, A: g.n(7), B: g.n(7), N: g.n(10)}
					if k := g.n(10); k == 0 {
						o.A = lit
					} else if k == 1 {
						o.B = lit
					}
					g.focusOp(o, 30)
				case 6:
					g.focusOp(Op{K: []string{"and", "or"}[g.n(2)], D: d, L: []int{base(), base(), 4 + g.n(2)}}, 30)
				case 7:
					g.focusOp(Op{K: []string{"imp", "equiv"}[g.n(2)], D: d, A: g.n(7), B: g.n(7)}, 30)
				case 8, 9, 10:
					o := Op{K: "ite", D: d, A: baseLit(), B: baseLit(), C: g.n(6)}
					if o.A != lit && o.B != lit && g.p(30) {
						o.C = lit
					}
					if g.p(20) {
						g.emit(Op{K: []string{"var", "nvar"}[g.n(2)], D: 11, N: pos()})
					} else if g.p(20) {
						g.emit(Op{K: "makecube", D: 11, L: sortedSet([]int{pos(), pos(), pos()}), V: []int{g.n(2), g.n(2), g.n(2)}})
					}
					g.focusOp(o, 30)
				case 11, 12:
					g.focusOp(Op{K: "exist", D: d, A: g.n(7), L: some()}, 30)
				case 13, 14:
					g.focusOp(Op{K: "appex", D: d, A: base(), B: g.n(6), C: g.of(0, 1, 2, 3, 8), L: some()}, 30)
				case 15, 16, 17:
					L := g.subset(c.Active, 1, n)
					V := make([]int, len(L))
					for j := range L {
						V[j] = L[j] + 1
					}
					r := g.n(3)
					g.focusOp(Op{K: "newrep", N: r, L: L, V: V}, 0)
					g.focusOp(Op{K: "replace", D: d, A: g.n(7), N: r}, 30)
				case 18:
					g.focusOp(Op{K: "satcount", A: g.n(12), N: g.n(2), C: 1}, 0)
				case 19:
					g.focusOp(Op{K: "allnodes", L: []int{g.n(12), g.n(7)}, N: g.of(0, 1)}, 0)
				case 20:
					g.focusOp(Op{K: []string{"dot", "print"}[g.n(2)], L: []int{g.n(7)}}, 0)
				default:
					g.focusOp(Op{K: "rebuild", A: g.n(7), N: g.of(0, 1, 4, 5)}, 0)
				}
			}
			return g.done("C19")
		},
		QuickN: 2500, ThoroughN: 35000,
	})
}

func (g *Gen) someRegs() []int {
	var L []int
	for i := g.of(0, 1, 2, 3, 3, 12); i > 0; i-- {
		L = append(L, g.reg())
	}
	return L
}

// bigIDs gives cases whose node identifiers exceed 65536 (and 2^24 in the
// thorough tier).
func bigIDs(prop string) func(string, int) []*Case {
	return func(tier string, shard int) (cs []*Case) {
		k := shard % 4
		if k >= 2 && tier == "quick" {
			return nil
		}
		n := 90000
		if tier == "thorough" && k == 3 {
			n = 17000000
		}
		v := []int{18, 300, 24, 40}[k]
		g := newGen(uint64(shard)+99, tier)
		g.cfg = Config{Varnum: v, Active: []int{0, 1, 3, 5, v - 2, v - 1}, Nodesize: n, Cachesize: 100, Minfree: ip(1), Maxinc: ip(200)}
		g.emit(Op{K: "bulk", N: n - n/50})
		for i := 0; i < 8; i++ {
			g.fnRoute(i, i%6)
		}
		for i := 0; i < 12; i++ {
			g.emit(g.boolOp())
			g.emit(Op{K: "rebuild", A: g.reg(), N: g.n(6)})
		}
		g.emit(Op{K: "canon"})
		g.emit(Op{K: "struct"})
		g.emit(Op{K: "verify"})
		g.emit(Op{K: "gogc"})
		g.emit(Op{K: "fill", N: 5, C: 1})
		g.emit(Op{K: "verify"})
		g.emit(Op{K: "rebuild", A: g.reg(), N: 1})
		g.emit(Op{K: "canon"})
		g.emit(Op{K: "struct"})
		return []*Case{g.done(prop)}
	}
}
