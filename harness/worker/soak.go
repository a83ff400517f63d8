package main

import (
	"fmt"
	"strings"

	"github.com/dalzilio/rudd"

	"verifharness/ref"
)

// opSoak makes C operations of the kinds listed in S on a few held nodes, again
// and again, in one BDD whose table is small: most results are dropped, so that
// the BDD collects often and reuses the identifiers found in its caches.
func opSoak(e *Exec, op Op) {
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) < 3 {
		return
	}
	if len(L) > 6 {
		L = L[:6]
	}
	kinds := strings.Split(op.S, ",")
	s := uint64(op.N)*2654435761 + 11
	rnd := func(n int) int {
		s = mix(s)
		return int(s >> 17 % uint64(n))
	}
	const H = 7
	var hn [H]rudd.Node
	var hf [H]ref.F
	fresh := func(i int) {
		S := L[:2+rnd(len(L)-1)]
		if rnd(2) == 0 {
			S = L[len(L)-len(S):]
		}
		q := mix(s)
		hf[i] = e.m.FromTable(S, func(i int) bool { return q>>(i%64)&1 == 1 })
		hn[i] = e.kernel(hf[i])
		if hn[i] == nil {
			panic(abort{"kernel construction failed"})
		}
	}
	for i := range hn {
		fresh(i)
	}
	var reps []rudd.Replacer
	var repm []map[int]int
	if strings.Contains(op.S, "replace") {
		for k := 0; k < 3; k++ { // variables outside L, in the same or in another order
			m := map[int]int{}
			var o, w []int
			v := 0
			for i := range L {
				x := L[(i*(k+1)+k)%len(L)]
				if _, ok := m[x]; ok || (i+k)%3 == 2 {
					continue
				}
				for containsInt(L, v) {
					v++
				}
				if v >= e.cfg.Varnum {
					break
				}
				m[x] = v
				o, w = append(o, x), append(w, v)
				v++
			}
			r, err := e.b.NewReplacer(o, w)
			if err != nil {
				e.fail("NewReplacer(%v, %v) refused: %v", o, w, err)
			}
			reps, repm = append(reps, r), append(repm, m)
		}
	}
	sets := [][]int{{L[0]}, {L[1]}, {L[len(L)-1]}, {L[0], L[1]}, {L[1], L[len(L)-1]}, L}
	set := func(L []int) rudd.Node {
		n := e.b.Makeset(L)
		if n == nil {
			e.fail("Makeset(%v) returned nil", L)
		}
		return n
	}
	apply := func(o string, a, b ref.F) ref.F { return e.m.Apply(ref.Ops[o], a, b) }
	g0 := -1
	if st, ok := e.stat(); ok {
		g0 = st.gc
	}
	for t := 0; t < op.C; t++ {
		i, j, k := rnd(H), rnd(H), rnd(H)
		var got rudd.Node
		var want ref.F
		var what string
		kind := kinds[rnd(len(kinds))]
		fail := e.fail
		if kind[0] == '~' { // not the property under check
			kind = kind[1:]
			fail = func(format string, a ...any) { panic(abort{fmt.Sprintf(format, a...)}) }
		}
		switch kind {
		case "not":
			got, want, what = e.b.Not(hn[i]), e.m.Not(hf[i]), kind
		case "ite":
			got, want, what = e.b.Ite(hn[i], hn[j], hn[k]), e.m.Ite(hf[i], hf[j], hf[k]), kind
		case "apply":
			o := opByIndex[rnd(10)]
			got, want, what = e.b.Apply(hn[i], hn[j], o.op), apply(o.name, hf[i], hf[j]), o.name
		case "and":
			got, want, what = e.b.And(hn[i], hn[j], hn[k]), e.m.And(e.m.And(hf[i], hf[j]), hf[k]), kind
		case "exist":
			v := sets[rnd(len(sets))]
			got, want, what = e.b.Exist(hn[i], set(v)), e.m.Exist(hf[i], v), fmt.Sprint("exist ", v)
		case "appex":
			v := sets[rnd(len(sets))]
			o := opByIndex[rnd(4)]
			got, want, what = e.b.AppEx(hn[i], hn[j], o.op, set(v)), e.m.Exist(apply(o.name, hf[i], hf[j]), v), fmt.Sprint("appex ", o.name, " ", v)
		case "replace":
			r := rnd(len(reps))
			m := repm[r]
			ok := true
			sup := e.m.Support(hf[i])
			for _, n := range m {
				ok = ok && !sup[n]
			}
			if !ok {
				continue
			}
			got, what = e.b.Replace(hn[i], reps[r]), fmt.Sprint("replace ", m)
			want = e.m.Rename(hf[i], func(v int) int {
				if w, ok := m[v]; ok {
					return w
				}
				return v
			})
		case "satcount":
			c := e.b.Satcount(hn[i])
			if w := e.m.Count(hf[i]); c == nil || c.Cmp(w) != 0 {
				if _, _, ok := e.agrees(hn[i], hf[i]); !ok {
					panic(abort{"held node changed"})
				}
				fail("Satcount of %s is %v at repetition %d, expected %v", e.show(hf[i]), c, t, w)
			}
			continue
		default:
			panic(abort{"unknown kind " + kind})
		}
		if got == nil {
			fail("%s returned nil at repetition %d: %q", what, t, e.b.Error())
		}
		if f, err, ok := e.agrees(got, want); !ok {
			fail("%s of %s, %s, %s denotes %s (%v) at repetition %d, expected %s", what, e.show(hf[i]), e.show(hf[j]), e.show(hf[k]), e.show(f), err, t, e.show(want))
		}
		x := rnd(40)
		if op.B > 0 && x > 30 { // new operands, more often
			x = 0
		}
		switch {
		case x == 0:
			fresh(rnd(H))
		case x == 1:
			sup := e.m.Support(want)
			ok := true
			for v := range sup {
				ok = ok && containsInt(L, v)
			}
			if ok && want > 1 {
				z := rnd(H)
				hn[z], hf[z] = got, want
			}
		case x < 4:
			got = nil
			e.goGC()
		}
	}
	for i := range hn {
		if f, err, ok := e.agrees(hn[i], hf[i]); !ok {
			e.fail("held node now denotes %s (%v), expected %s", e.show(f), err, e.show(hf[i]))
		}
	}
	if st, ok := e.stat(); ok {
		if st.gc-g0 > 10 {
			e.tick("soak_many_collections")
		}
	}
	e.tick("soak")
	e.nt = e.nt || e.focus
}

func containsInt(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

// soakCases gives one or more such cases, in tables that are collected often.
func soakCases(prop, kinds string) func(string, int) []*Case {
	return func(tier string, shard int) (cs []*Case) {
		n := 4
		if tier == "thorough" {
			n = 60
		}
		for i := 0; i < n; i++ {
			g := newGen(uint64(shard*1000+i)*77+uint64(len(kinds)), tier)
			v := g.of(8, 12, 13, 20, 300)
			c := Config{Varnum: v, Cachesize: g.of(0, 50, 200, 1000, 3000), Minfree: ip(g.of(0, 1, 2)), Maxinc: ip(g.of(20, 100)), Obs: g.n(2)}
			c.Nodesize = 2*v + 2 + g.of(100, 150, 250, 500)
			if g.p(25) {
				c.Cacheratio = g.of(20, 100, 300)
			}
			a := []int{1, 2, 4, 5, 6, 7}
			if v > 12 {
				a = []int{2, 3, 5, 8, 11, v - 1}
			}
			c.Active = a
			cs = append(cs, &Case{Prop: prop, Cfg: c, Ops: []Op{{K: "soak", S: kinds, L: a, N: g.n(1 << 30), C: 1500}}})
			// a table that grows a little each time it is collected
			c.Cachesize = g.of(50, 200, 500, 0)
			c.Cacheratio = g.of(0, 20, 100, 100, 300)
			c.Minfree, c.Maxinc = ip(g.of(20, 33, 50, 80)), ip(g.of(10, 20, 40))
			c.Nodesize = 2*v + 2 + g.of(30, 40, 80)
			cs = append(cs, &Case{Prop: prop, Cfg: c, Ops: []Op{{K: "soak", S: kinds, L: a, N: g.n(1 << 30), B: 1, C: 900}}})
		}
		return
	}
}

func init() {
	also("C01", soakCases("C01", "not,ite,apply,apply,and"))
	also("C03", soakCases("C03", "exist,appex,appex"))
	also("C04", soakCases("C04", "replace"))
	also("C06", soakCases("C06", "satcount,satcount,~apply"))
	also("C10", soakCases("C10", "not,ite,apply,and,exist,appex,replace"))
	also("C12", soakCases("C12", "not,ite,apply,and,exist,appex,replace,satcount"))
	also("C12", soakCases("C12", "ite"))
	also("C12", soakCases("C12", "appex"))
	also("C12", soakCases("C12", "exist,replace"))
	also("C20", func(tier string, shard int) (cs []*Case) {
		switch {
		case shard == 0:
			cs = append(cs, &Case{Prop: "C20", Cfg: Config{Varnum: 12, Active: []int{0, 1}, Nodesize: 1100000}, Ops: []Op{{K: "growbig"}}})
		case shard == 1 && tier == "thorough":
			cs = append(cs, &Case{Prop: "C20", Cfg: Config{Varnum: 12, Active: []int{0, 1}, Nodesize: 1200000, Maxinc: ip(0)}, Ops: []Op{{K: "growbig"}}})
		}
		return
	})
}

// opConstPtr computes constants in every way and looks at the pointers.
func opConstPtr(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	c, ok2 := e.reg(op.B)
	if !ok || !ok2 || e.cfg.Maxnode > 0 {
		return
	}
	b := e.b
	x, y := a.n, c.n
	T, F := b.True(), b.False()
	if T == nil || F == nil || T == F || *T != 1 || *F != 0 {
		e.fail("True and False are %v and %v", T, F)
	}
	v := op.N % e.cfg.Varnum
	vn, nn := b.Ithvar(v), b.NIthvar(v)
	nx, ny := b.Not(x), b.Not(y)
	all := b.Makeset(clip(e.cfg.Active, e.cfg.Varnum))
	rep, err := b.NewReplacer(nil, nil)
	if vn == nil || nn == nil || nx == nil || ny == nil || all == nil || err != nil {
		panic(abort{"nil operand"})
	}
	for _, t := range []struct {
		what string
		f    func() rudd.Node
	}{
		{"Low of a literal", func() rudd.Node { return b.Low(vn) }},
		{"High of a literal", func() rudd.Node { return b.High(vn) }},
		{"Low of a negated literal", func() rudd.Node { return b.Low(nn) }},
		{"High of a negated literal", func() rudd.Node { return b.High(nn) }},
		{"And(x, !x)", func() rudd.Node { return b.And(x, nx) }},
		{"And()", func() rudd.Node { return b.And() }},
		{"Or()", func() rudd.Node { return b.Or() }},
		{"And(True)", func() rudd.Node { return b.And(T) }},
		{"Or(x, False, !x)", func() rudd.Node { return b.Or(x, F, nx) }},
		{"Imp(x, x)", func() rudd.Node { return b.Imp(x, x) }},
		{"Equiv(x, x)", func() rudd.Node { return b.Equiv(x, x) }},
		{"Equiv(x, !x)", func() rudd.Node { return b.Equiv(x, nx) }},
		{"Apply(x, x, xor)", func() rudd.Node { return b.Apply(x, x, rudd.OPxor) }},
		{"Apply(y, x, nor)", func() rudd.Node { return b.Apply(b.Or(y, x), b.Or(nx, y), rudd.OPnor) }},
		{"Ite(x, False, !x)", func() rudd.Node { return b.And(b.Ite(x, F, nx), x) }},
		{"Ite(True, False, x)", func() rudd.Node { return b.Ite(T, F, x) }},
		{"Ite(x, True, !x)", func() rudd.Node { return b.Or(b.Ite(x, T, ny), x, y) }},
		{"Not(False)", func() rudd.Node { return b.Not(F) }},
		{"Not(And(x, !x))", func() rudd.Node { return b.Not(b.And(y, ny)) }},
		{"Exist(x, all)", func() rudd.Node { return b.Exist(x, all) }},
		{"Exist(False, all)", func() rudd.Node { return b.Exist(F, all) }},
		{"Exist(True, set)", func() rudd.Node { return b.Exist(T, vn) }},
		{"AppEx(x, y, and, all)", func() rudd.Node { return b.AppEx(x, y, rudd.OPand, all) }},
		{"AppEx(x, !x, and, True)", func() rudd.Node { return b.AppEx(x, nx, rudd.OPand, T) }},
		{"AndExist(x, !x, set)", func() rudd.Node { return b.AndExist(x, nx, vn) }},
		{"AppEx(x, x, nand, all)", func() rudd.Node { return b.AppEx(x, x, rudd.OPnand, all) }},
		{"Replace(True)", func() rudd.Node { return b.Replace(T, rep) }},
		{"Replace(False)", func() rudd.Node { return b.Replace(F, rep) }},
		{"Makeset()", func() rudd.Node { return b.Makeset(nil) }},
		{"Makecube()", func() rudd.Node { return b.Makecube([]int{}, []bool{}) }},
		{"From(true)", func() rudd.Node { return b.From(true) }},
		{"From(false)", func() rudd.Node { return b.From(false) }},
		{"Retnode(0)", func() rudd.Node { return b.Retnode(0) }},
		{"Retnode(1)", func() rudd.Node { return b.Retnode(1) }},
		{"Retnode(Makenode(v, 1, 1))", func() rudd.Node { b.Initref(); return b.Retnode(b.Makenode(int32(v), 1, 1)) }},
		{"Low of High", func() rudd.Node {
			n := x
			for n != nil && *n > 1 {
				if l := b.Low(n); l == F || l != nil && *l == 0 {
					n = b.High(n)
				} else {
					n = l
				}
			}
			return n
		}},
	} {
		r := t.f()
		if r == nil {
			continue // another property's business
		}
		if *r == 0 && r != F || *r == 1 && r != T {
			e.fail("%s is constant %d but not the constant node", t.what, *r)
		}
		if b.Equal(r, T) != (r == T) || b.Equal(r, F) != (r == F) {
			e.fail("%s: Equal disagrees with the constant nodes", t.what)
		}
	}
	if e.focus && a.f > 1 {
		e.nt = true
	}
	e.tick("constptr")
}
