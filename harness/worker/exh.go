package main

import (
	"github.com/dalzilio/rudd"
	"verifharness/ref"
)

// tables of all functions over the levels L (at most 3).
func (e *Exec) allFns(L []int) (fs []ref.F, ns []rudd.Node) {
	k := len(L)
	for t := 0; t < 1<<(1<<k); t++ {
		f := e.m.FromTable(L, func(i int) bool { return t>>i&1 == 1 })
		n := e.kernel(f)
		if n == nil {
			panic(abort{"kernel construction failed"})
		}
		fs = append(fs, f)
		ns = append(ns, n)
	}
	return
}

// same asserts that n denotes f; fns maps functions to the node already held.
func (e *Exec) same(n rudd.Node, f ref.F, held map[ref.F]rudd.Node, what func() string) {
	if n == nil {
		e.fail("%s returned nil (%q)", what(), e.b.Error())
	}
	if h, ok := held[f]; ok && *h == *n {
		return
	}
	if g, err, ok := e.agrees(n, f); !ok {
		e.fail("%s denotes %s (%v), expected %s", what(), e.show(g), err, e.show(f))
	}
}

// opExhBool computes every binary operator on every pair of functions over two
// or three variables, and Ite on all triples over two variables (a slice of the
// triples over three).
func opExhBool(e *Exec, op Op) {
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) > 3 {
		L = L[:3]
	}
	fs, ns := e.allFns(L)
	held := map[ref.F]rudd.Node{}
	for i := range fs {
		held[fs[i]] = ns[i]
	}
	for i := range fs {
		e.same(e.b.Not(ns[i]), e.m.Not(fs[i]), held, func() string { return "Not(" + e.show(fs[i]) + ")" })
		for j := range fs {
			if len(L) == 3 && (i*7+j*13+op.N)%4 != 0 {
				continue
			}
			for _, o := range opByIndex {
				e.same(e.b.Apply(ns[i], ns[j], o.op), e.m.Apply(ref.Ops[o.name], fs[i], fs[j]), held,
					func() string { return o.name + "(" + e.show(fs[i]) + ", " + e.show(fs[j]) + ")" })
			}
		}
	}
	step := 1
	if len(L) == 3 {
		step = 211
	}
	n := len(fs)
	for t := op.N % step; t < n*n*n; t += step {
		i, j, k := t/n/n, t/n%n, t%n
		e.same(e.b.Ite(ns[i], ns[j], ns[k]), e.m.Ite(fs[i], fs[j], fs[k]), held,
			func() string { return "Ite(" + e.show(fs[i]) + ", " + e.show(fs[j]) + ", " + e.show(fs[k]) + ")" })
	}
	e.nt = true
	e.tick("exhaustive_bool")
	if e.focus && e.b.Errored() {
		e.viol("valid operations set the error status: %q", e.b.Error())
	}
}

// opExhQuant quantifies every pair of functions over two variables (and every
// function over three) by every set, interleaving sets and operators.
func opExhQuant(e *Exec, op Op) {
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) > 3 {
		L = L[:3]
	}
	fs, ns := e.allFns(L)
	held := map[ref.F]rudd.Node{}
	for i := range fs {
		held[fs[i]] = ns[i]
	}
	var sets [][]int
	var sn []rudd.Node
	for s := 0; s < 1<<len(L); s++ {
		var v []int
		for i, l := range L {
			if s>>i&1 == 1 {
				v = append(v, l)
			}
		}
		sets = append(sets, v)
		sn = append(sn, e.b.Makeset(v))
	}
	for i := range fs {
		for s := range sets {
			e.same(e.b.Exist(ns[i], sn[s]), e.m.Exist(fs[i], sets[s]), held, func() string { return "Exist(" + e.show(fs[i]) + ")" })
		}
	}
	n := len(fs)
	step := 1
	if n > 16 {
		step = 97
	}
	for t := op.N % step; t < n*n; t += step {
		i, j := t/n, t%n
		for s := range sets {
			for o := 0; o < 4; o++ {
				want := e.m.Exist(e.m.Apply(ref.Ops[opByIndex[o].name], fs[i], fs[j]), sets[s])
				e.same(e.b.AppEx(ns[i], ns[j], opByIndex[o].op, sn[s]), want, held,
					func() string {
						return "AppEx(" + e.show(fs[i]) + ", " + e.show(fs[j]) + ", " + opByIndex[o].name + ", " + e.show(e.m.Cube(sets[s], nil)) + ")"
					})
			}
		}
	}
	e.nt = true
	e.tick("exhaustive_quant")
	if e.focus && e.b.Errored() {
		e.viol("valid operations set the error status: %q", e.b.Error())
	}
}
