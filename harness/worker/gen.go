package main

import (
	"fmt"
	"sort"
	"strings"
)

// Gen draws every random choice of a case from one seed.
type Gen struct {
	s    uint64
	tier string
	cfg  Config
	ops  []Op
	hist []Op // focus operations already emitted, for repeats
}

func newGen(seed uint64, tier string) *Gen { return &Gen{s: mix(seed), tier: tier} }

func (g *Gen) u() uint64 {
	g.s += 0x9e3779b97f4a7c15
	return mix(g.s)
}

// n draws from [0, k).
func (g *Gen) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int((g.u() >> 11) % uint64(k))
}

// in draws from [lo, hi].
func (g *Gen) in(lo, hi int) int { return lo + g.n(hi-lo+1) }

// p is true with probability k percent.
func (g *Gen) p(k int) bool { return g.n(100) < k }

func (g *Gen) of(xs ...int) int { return xs[g.n(len(xs))] }

func (g *Gen) perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		j := g.n(i + 1)
		r[i] = r[j]
		r[j] = i
	}
	return r
}

// subset draws a subset of xs of size between lo and hi.
func (g *Gen) subset(xs []int, lo, hi int) []int {
	if hi > len(xs) {
		hi = len(xs)
	}
	if lo > hi {
		lo = hi
	}
	k := g.in(lo, hi)
	var r []int
	for _, i := range g.perm(len(xs))[:k] {
		r = append(r, xs[i])
	}
	sort.Ints(r)
	return r
}

// size classes of the number of variables
const (
	clTiny = iota
	clSmall
	clMid
	clWide
	clHuge
	clMax
)

type cfgOpt struct {
	classes []int // weights per class
	act     int   // maximal number of active levels
	small   bool  // always the smallest table
}

func (g *Gen) class(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := g.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

var stdClasses = []int{300, 380, 180, 130, 1, 0}

// config draws a configuration.
func (g *Gen) config(o cfgOpt) {
	c := Config{}
	w := o.classes
	if w == nil {
		w = stdClasses
	}
	switch g.class(w) {
	case clTiny:
		c.Varnum = g.in(1, 4)
	case clSmall:
		c.Varnum = g.in(5, 12)
	case clMid:
		c.Varnum = g.in(13, 70)
	case clWide:
		c.Varnum = g.of(255, 256, 257, 258, 300, 511, 512, 513, g.in(200, 600))
	case clHuge:
		c.Varnum = g.of(65536, 65537, 65540, g.in(65500, 70000))
	default:
		c.Varnum = 1<<21 - 1
	}
	c.Active = g.active(c.Varnum, o.act)
	minsize := 2*c.Varnum + 2
	switch k := g.n(10); {
	case o.small || k < 5: // smallest
	case k < 8:
		c.Nodesize = minsize + g.n(80)
	case k < 9:
		c.Nodesize = minsize + g.n(400)
	default:
		c.Nodesize = minsize + g.n(3000)
	}
	switch k := g.n(10); {
	case k < 4:
		c.Cachesize = g.in(1, 20)
	case k < 9:
		c.Cachesize = g.in(20, 1000)
	}
	if g.p(45) {
		c.Cacheratio = g.of(1, 5, 20, 25, 50, 100, 150, 300)
	}
	if g.p(60) {
		c.Minfree = ip(g.of(0, 0, 1, 5, 10, 20, 33, 50, 80, 99))
	}
	if g.p(60) {
		c.Maxinc = ip(g.of(0, 1, 2, 3, 5, 8, 16, 37, 100, 1000))
	}
	c.Obs = g.of(0, 0, 0, 1, 1, 2)
	g.cfg = c
}

func (g *Gen) active(n, max int) []int {
	if max == 0 {
		max = 7
	}
	k := g.in(2, max)
	if k > n {
		k = n
	}
	s := map[int]bool{}
	if n <= max {
		k = n
	}
	bounds := []int{0, 1, n - 1, n - 2, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 1 << 20, 1<<20 - 1}
	for len(s) < k {
		x := g.n(n)
		if n > 12 && g.p(40) {
			x = bounds[g.n(len(bounds))]
		}
		if n > 12 && g.p(25) && len(s) > 0 { // cluster
			for y := range s {
				if y < x || x == 0 {
					x = y
				}
			}
			x += g.in(1, 3)
		}
		if x >= 0 && x < n {
			s[x] = true
		}
	}
	var r []int
	for x := range s {
		r = append(r, x)
	}
	sort.Ints(r)
	return r
}

func (g *Gen) reg() int { return g.n(NREG - 2) }

// fnSpec draws the description of a function.
func (g *Gen) fnSpec() (L []int, S string) {
	a := g.cfg.Active
	switch k := g.n(20); {
	case k < 12:
		L = g.subset(a, 1, 6)
		nb := 1 << len(L)
		nn := (nb + 3) / 4
		var sb strings.Builder
		style := g.n(4)
		for i := 0; i < nn; i++ {
			d := g.n(16)
			if style == 0 {
				d &= g.n(16)
			} else if style == 1 {
				d |= g.n(16)
			}
			fmt.Fprintf(&sb, "%x", d)
		}
		return L, "t:" + sb.String()
	case k < 13:
		return g.subset(a, 1, len(a)), "par"
	case k < 14:
		L = g.subset(a, 1, len(a))
		return L, fmt.Sprintf("thr:%d", g.in(0, len(L)+1))
	case k < 16:
		L = g.subset(a, 1, len(a))
		var sb strings.Builder
		for range L {
			fmt.Fprintf(&sb, "%d", g.n(2))
		}
		return L, "cube:" + sb.String()
	default:
		kind := "cnf"
		if g.p(50) {
			kind = "dnf"
		}
		return g.subset(a, 2, len(a)), fmt.Sprintf("%s:%d:%d:%d", kind, g.n(1<<30), g.in(1, 6), g.in(1, 3))
	}
}

func (g *Gen) emit(o Op)       { g.ops = append(g.ops, o) }
func (g *Gen) fn(d int)        { g.fnRoute(d, 0) }
func (g *Gen) vars() []int     { return g.subset(g.cfg.Active, 0, len(g.cfg.Active)) }
func (g *Gen) someVars() []int { return g.subset(g.cfg.Active, 1, len(g.cfg.Active)) }

func (g *Gen) fnRoute(d, route int) {
	L, S := g.fnSpec()
	g.emit(Op{K: "fn", D: d, L: L, S: S, N: route})
}

// anyVars may contain levels outside the active ones.
func (g *Gen) anyVars() []int {
	r := g.vars()
	if g.p(25) {
		for i := g.of(0, 1, 2, 3, 3, 40); i >= 0; i-- {
			r = append(r, g.n(g.cfg.Varnum))
		}
		r = sortedSet(r)
	}
	return r
}

func (g *Gen) fillBefore(pct int) {
	if g.p(pct) {
		g.emit(Op{K: "fill", N: g.of(0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 11), C: g.of(0, 0, 1)})
	}
}

// focusOp emits a focus operation, remembers it, and sometimes precedes it with
// a fill so that a collection happens inside.
func (g *Gen) focusOp(o Op, fill int) {
	g.fillBefore(fill)
	g.emit(o)
	g.hist = append(g.hist, o)
}

func (g *Gen) repeat(fill int) {
	if len(g.hist) == 0 {
		return
	}
	i := g.n(len(g.hist))
	if g.p(60) && len(g.hist) > 6 {
		i = len(g.hist) - 1 - g.n(6)
	}
	o := g.hist[i]
	g.fillBefore(fill)
	g.emit(o)
}

// noise emits an operation about the environment: new functions, dropped
// references, collections, garbage.
func (g *Gen) noise() {
	switch k := g.n(20); {
	case k < 8:
		r := 0
		if g.p(20) {
			r = g.n(6)
		}
		g.fnRoute(g.reg(), r)
	case k < 9:
		g.emit(Op{K: "drop", A: g.reg()})
	case k < 11: // recycle identifiers: drop, collect, rebuild
		for i := g.in(1, 3); i > 0; i-- {
			g.emit(Op{K: "drop", A: g.reg()})
		}
		g.emit(Op{K: "gogc"})
		g.emit(Op{K: "fill", N: g.of(0, 1, 2, 30), C: 1})
		for i := g.in(1, 3); i > 0; i-- {
			g.fn(g.reg())
		}
	case k < 13:
		g.emit(Op{K: "gogc"})
	case k < 15:
		g.emit(Op{K: "garbage", N: g.of(1, 2, 5, 20, 60)})
	case k < 17:
		g.emit(Op{K: "fill", N: g.n(10), C: g.n(2)})
	case k < 18:
		g.emit(Op{K: "dup", A: g.reg(), D: g.reg()})
	default:
		a := g.cfg.Active
		g.emit(Op{K: []string{"var", "nvar"}[g.n(2)], D: g.reg(), N: a[g.n(len(a))]})
	}
}

// program is the common shape: initial functions, then focus operations mixed
// with repeats and noise.
func (g *Gen) program(n int, focus func()) {
	for i := g.in(2, 5); i > 0; i-- {
		g.fn(i - 1)
	}
	if g.p(20) {
		g.emit(Op{K: "const", D: g.reg(), N: g.n(2), C: g.n(2)})
	}
	for len(g.ops) < n {
		switch k := g.n(100); {
		case k < 55:
			focus()
		case k < 70:
			g.repeat(20)
		default:
			g.noise()
		}
	}
}

func (g *Gen) len() int {
	if g.p(3) {
		return g.in(80, 160)
	}
	return g.in(12, 50)
}

func (g *Gen) done(prop string) *Case {
	return &Case{Prop: prop, Cfg: g.cfg, Ops: g.ops}
}

// boolOp draws one of the Boolean operations.
func (g *Gen) boolOp() Op {
	d, a, b, c := g.reg(), g.reg(), g.reg(), g.reg()
	if g.p(6) {
		b = a
	}
	switch k := g.n(20); {
	case k < 9:
		return Op{K: "apply", D: d, A: a, B: b, N: g.n(10)}
	case k < 11:
		return Op{K: "not", D: d, A: a}
	case k < 15:
		if g.p(10) {
			c = a
		}
		return Op{K: "ite", D: d, A: a, B: b, C: c}
	case k < 17:
		L := []int{}
		for i := g.of(0, 1, 2, 2, 2, 3, 3, 3, 4, 5, 5, 7, 20); i > 0; i-- {
			L = append(L, g.reg())
		}
		return Op{K: []string{"and", "or"}[g.n(2)], D: d, L: L}
	case k < 18:
		return Op{K: "imp", D: d, A: a, B: b}
	case k < 19:
		return Op{K: "equiv", D: d, A: a, B: b}
	default:
		return Op{K: "law", A: a, B: b, C: c, N: g.n(14)}
	}
}

func (g *Gen) quantOp() Op {
	d, a, b := g.reg(), g.reg(), g.reg()
	if g.p(8) {
		b = a
	}
	st := g.of(0, 0, 0, 1, 2)
	if g.p(45) {
		return Op{K: "exist", D: d, A: a, L: g.anyVars(), N: st}
	}
	return Op{K: "appex", D: d, A: a, B: b, L: g.anyVars(), N: st, C: g.of(0, 1, 2, 3, 8)}
}

// burst applies many operations to the same few operands, in every order, so that
// entries of the caches differ by little.
func (g *Gen) burst() {
	a, b, c := g.reg(), g.reg(), g.reg()
	r := []int{a, b, c}
	d := func() int { return NREG - 1 - g.n(2) }
	L, M := g.someVars(), g.someVars()
	var os []Op
	for i := g.in(4, 14); i > 0; i-- {
		x, y, z := r[g.n(3)], r[g.n(3)], r[g.n(3)]
		switch g.n(8) {
		case 0, 1:
			os = append(os, Op{K: "apply", D: d(), A: x, B: y, N: g.n(10)})
		case 2:
			o := g.n(10)
			os = append(os, Op{K: "apply", D: d(), A: x, B: y, N: o}, Op{K: "apply", D: d(), A: y, B: x, N: o})
		case 3:
			os = append(os, Op{K: "ite", D: d(), A: x, B: y, C: z}, Op{K: "ite", D: d(), A: y, B: x, C: z})
		case 4:
			os = append(os, Op{K: "not", D: d(), A: x})
		case 5:
			os = append(os, Op{K: "exist", D: d(), A: x, L: L}, Op{K: "exist", D: d(), A: x, L: M})
		case 6:
			o := g.of(0, 1, 2, 3, 8)
			os = append(os, Op{K: "appex", D: d(), A: x, B: y, C: o, L: L}, Op{K: "appex", D: d(), A: y, B: x, C: o, L: M})
		default:
			os = append(os, Op{K: "appex", D: d(), A: x, B: y, C: g.n(4), L: L}, Op{K: "appex", D: d(), A: x, B: y, C: g.n(4), L: L})
		}
	}
	for _, o := range os {
		g.focusOp(o, 4)
	}
}

// renaming draws old and new variables.
func (g *Gen) renaming() (old, nw []int) {
	n := g.cfg.Varnum
	pool := append([]int(nil), g.cfg.Active...)
	if n <= 12 {
		pool = g.perm(n)
	} else {
		for i := g.of(4, 4, 4, 8, 30, 80); i > 0; i-- {
			pool = append(pool, g.n(n))
		}
	}
	pool = sortedSet(pool)
	var q []int
	for _, i := range g.perm(len(pool)) {
		q = append(q, pool[i])
	}
	k := g.n(len(q)/2 + 1)
	old, nw = append(old, q[:k]...), append(nw, q[k:2*k]...)
	if g.p(5) && k > 0 { // identity pairs or overlap: may be refused
		if g.p(50) {
			old, nw = append(old, q[2*k:]...), append(nw, q[2*k:]...)
		} else {
			nw = append(nw, old...)
			old = append(old, nw[:k]...)
		}
	}
	if g.p(12) { // order preserving
		sort.Ints(old)
		sort.Ints(nw)
	}
	return
}

func (g *Gen) replaceOp() Op {
	return Op{K: "replace", D: g.reg(), A: g.reg(), N: g.n(3)}
}
func (g *Gen) newrep() Op {
	o, n := g.renaming()
	return Op{K: "newrep", N: g.n(3), L: o, V: n}
}

// freshFor emits a function whose support avoids the new variables of a
// renaming, so that Replace must be exact.
func (g *Gen) freshFor(d int, nw []int) {
	in := map[int]bool{}
	for _, x := range nw {
		in[x] = true
	}
	var L []int
	for _, x := range g.cfg.Active {
		if !in[x] {
			L = append(L, x)
		}
	}
	if len(L) == 0 {
		return
	}
	save := g.cfg.Active
	g.cfg.Active = L
	g.fn(d)
	g.cfg.Active = save
}

// longList is a list of up to 70 variables, with repetitions, more or less in
// order.
func (g *Gen) longList(any func() int) (L []int) {
	for i := g.of(8, 13, 14, 20, 33, 70) - g.n(5); i > 0; i-- {
		L = append(L, any())
	}
	switch k := g.n(7); k {
	case 0:
	case 1: // sorted, with repetitions
		sort.Ints(L)
	case 2: // decreasing
		sort.Sort(sort.Reverse(sort.IntSlice(L)))
	case 3, 4: // sorted at the beginning or at the end
		m := g.in(1, len(L)-1)
		if g.p(50) {
			m = g.of(len(L)-1, len(L)-2, 1, 2)
		}
		if k == 3 {
			sort.Ints(L[:m])
		} else {
			sort.Ints(L[m:])
		}
	case 5: // two sorted halves
		m := g.in(1, len(L)-1)
		sort.Ints(L[:m])
		sort.Ints(L[m:])
	default: // one exchange
		sort.Ints(L)
		i, j := g.n(len(L)), g.n(len(L))
		L[i], L[j] = L[j], L[i]
	}
	return
}

func (g *Gen) varOp() Op {
	a := g.cfg.Active
	d, r := g.reg(), g.reg()
	any := func() int {
		if g.p(50) {
			return a[g.n(len(a))]
		}
		return g.n(g.cfg.Varnum)
	}
	switch k := g.n(14); {
	case k < 2:
		return Op{K: "var", D: d, N: any()}
	case k < 4:
		return Op{K: "nvar", D: d, N: any()}
	case k < 7:
		if g.p(30) {
			return Op{K: "makeset", D: d, L: g.longList(any)}
		}
		L := []int{}
		for i := g.n(7); i > 0; i-- {
			L = append(L, any())
		}
		if g.p(60) {
			L = sortedSet(L)
		}
		return Op{K: "makeset", D: d, L: L}
	case k < 10:
		var L, V []int
		if g.p(15) {
			L = g.longList(any)
		}
		for i := g.n(7); i > 0; i-- {
			L = append(L, any())
		}
		for i := 0; i < 8; i++ {
			V = append(V, g.n(2))
		}
		o := Op{K: "makecube", D: d, L: sortedSet(L), V: V}
		if g.cfg.Varnum < 20 && g.p(20) {
			o.N = 1
		}
		return o
	case k < 11:
		return Op{K: "low", D: d, A: r}
	case k < 12:
		return Op{K: "high", D: d, A: r}
	default:
		return Op{K: "label", A: r}
	}
}

// anyOp draws any valid operation.
func (g *Gen) anyOp() {
	switch k := g.n(100); {
	case k < 38:
		g.focusOp(g.boolOp(), 30)
	case k < 40:
		g.burst()
	case k < 60:
		g.focusOp(g.quantOp(), 30)
	case k < 64:
		g.focusOp(g.newrep(), 0)
	case k < 74:
		g.focusOp(g.replaceSafe(), 30)
	case k < 86:
		g.focusOp(g.varOp(), 20)
	case k < 90:
		g.focusOp(Op{K: "satcount", A: g.reg(), C: 1}, 0)
	case k < 93:
		g.focusOp(Op{K: "allsat", A: g.reg()}, 0)
	case k < 95:
		g.focusOp(Op{K: "allnodes", L: []int{g.reg()}}, 0)
	default:
		g.focusOp(Op{K: "verify"}, 0)
	}
}

// replaceSafe is a replace whose conflict, if any, is skipped (N>=0, C=1).
func (g *Gen) replaceSafe() Op {
	o := g.replaceOp()
	o.C = 1
	return o
}
