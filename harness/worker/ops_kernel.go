package main

import (
	"github.com/dalzilio/rudd"
	"verifharness/ref"
)

func (e *Exec) activeMap() map[int]rec {
	m := map[int]rec{}
	err := e.b.Allnodes(func(id, level, low, high int) error {
		m[id] = rec{level, low, high}
		return nil
	})
	if err != nil {
		panic(abort{err.Error()})
	}
	return m
}

// opKMake makes one node from two held nodes.
func opKMake(e *Exec, op Op) {
	lo, ok1 := e.reg(op.A)
	hi, ok2 := e.reg(op.B)
	if !ok1 || !ok2 || e.cfg.Varnum > 5000 {
		return
	}
	top := e.cfg.Varnum
	for _, f := range []ref.F{lo.f, hi.f} {
		if f > 1 && e.m.Level(f) < top {
			top = e.m.Level(f)
		}
	}
	if top == 0 {
		return
	}
	lv := op.N % top
	if lv < 0 {
		lv += top
	}
	want := e.m.Mk(lv, lo.f, hi.f)
	before := e.activeMap()
	st0, ok0 := e.stat()
	e.b.Initref()
	id := e.b.Makenode(int32(lv), *lo.n, *hi.n)
	st1, okk := e.stat()
	if id < 0 {
		e.fail("Makenode(%d, %d, %d) = %d", lv, *lo.n, *hi.n, id)
	}
	if *lo.n == *hi.n {
		if id != *lo.n {
			e.fail("Makenode(%d, %d, %d) = %d", lv, *lo.n, *hi.n, id)
		}
		e.put(op.D, e.b.Retnode(id), want)
		return
	}
	t := rec{lv, *lo.n, *hi.n}
	after := e.activeMap()
	if r, ok := after[id]; !ok || r != t {
		e.fail("Makenode(%d, %d, %d) = %d, which is %v (active: %v)", lv, *lo.n, *hi.n, id, r, ok)
	}
	for o, r := range before {
		if r == t && o > 1 && o != id {
			e.fail("Makenode(%d, %d, %d) = %d but node %d is the same triple", lv, *lo.n, *hi.n, id, o)
		}
	}
	if ok0 && okk && st0.gc == st1.gc {
		if r, ok := before[id]; ok && r != t {
			e.fail("Makenode(%d, %d, %d) = %d, which was %v", lv, *lo.n, *hi.n, id, r)
		}
	}
	e.put(op.D, e.b.Retnode(id), want)
	e.tick("kernel_makenode")
}

// opKOp runs an operation written with the kernel functions in the documented
// style. N selects the operation, V[0] the stack discipline, C the number of
// free slots left before it starts (negative: untouched).
func opKOp(e *Exec, op Op) {
	a, ok1 := e.reg(op.A)
	b, ok2 := e.reg(op.B)
	if !ok1 || !ok2 || e.cfg.Varnum > 5000 {
		return
	}
	style := 0
	if len(op.V) > 0 {
		style = op.V[0] & 1
	}
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	x := e.b
	if op.C >= 0 {
		x.Initref()
		e.fill(op.C, false)
	}
	// read the operands
	nodes := map[int]rec{}
	if *a.n > 1 || *b.n > 1 {
		if err := x.Allnodes(func(id, level, low, high int) error {
			nodes[id] = rec{level, low, high}
			return nil
		}, a.n, b.n); err != nil {
			panic(abort{err.Error()})
		}
	}
	lev := func(i int) int {
		if i < 2 {
			return e.cfg.Varnum
		}
		return nodes[i].level
	}
	st0, _ := e.stat()
	x.Initref()
	pushed := 0
	push := func(i int) int { x.Pushref(i); pushed++; return i }
	mk := func(l, lo, hi int) int {
		if lo < 0 || hi < 0 {
			return -1
		}
		return x.Makenode(int32(l), lo, hi)
	}
	inSet := map[int]bool{}
	for _, v := range L {
		inSet[v] = true
	}
	var res int
	var want ref.F
	var builtin func() rudd.Node
	steps := 0
	switch op.N % 4 {
	case 0, 1: // xor / implication
		name := "xor"
		bop := rudd.OPxor
		tt := func(p, q int) int { return p ^ q }
		if op.N%4 == 1 {
			name, bop = "imp", rudd.OPimp
			tt = func(p, q int) int { return 1 - p | q }
		}
		memo := map[[2]int]int{}
		var rec func(p, q int) int
		rec = func(p, q int) int {
			steps++
			if steps > 20000 {
				return -1
			}
			if p < 2 && q < 2 {
				return tt(p, q)
			}
			if style == 0 {
				if r, ok := memo[[2]int{p, q}]; ok {
					return r
				}
			}
			l := lev(p)
			if lev(q) < l {
				l = lev(q)
			}
			pl, ph, ql, qh := p, p, q, q
			if lev(p) == l {
				pl, ph = nodes[p].low, nodes[p].high
			}
			if lev(q) == l {
				ql, qh = nodes[q].low, nodes[q].high
			}
			lo := push(rec(pl, ql))
			hi := push(rec(ph, qh))
			r := mk(l, lo, hi)
			if style == 0 {
				push(r)
				memo[[2]int{p, q}] = r
			} else {
				x.Popref(2)
				pushed -= 2
			}
			return r
		}
		push(*a.n)
		push(*b.n)
		res = rec(*a.n, *b.n)
		want = e.m.Apply(ref.Ops[name], a.f, b.f)
		builtin = func() rudd.Node { return x.Apply(a.n, b.n, bop) }
	case 2: // swap polarity of the variables of L
		memo := map[int]int{}
		var rec func(p int) int
		rec = func(p int) int {
			steps++
			if steps > 20000 {
				return -1
			}
			if p < 2 {
				return p
			}
			if style == 0 {
				if r, ok := memo[p]; ok {
					return r
				}
			}
			lo := push(rec(nodes[p].low))
			hi := push(rec(nodes[p].high))
			if inSet[nodes[p].level] {
				lo, hi = hi, lo
			}
			r := mk(nodes[p].level, lo, hi)
			if style == 0 {
				push(r)
				memo[p] = r
			} else {
				x.Popref(2)
				pushed -= 2
			}
			return r
		}
		push(*a.n)
		res = rec(*a.n)
		want = a.f
		for _, v := range L {
			want = e.m.Ite(e.m.Var(v), e.m.Cofactor(want, v, false), e.m.Cofactor(want, v, true))
		}
		w := want
		builtin = func() rudd.Node { return e.route(w, 1) }
	default: // restrict the variables of L to true
		memo := map[int]int{}
		var rec func(p int) int
		rec = func(p int) int {
			steps++
			if steps > 20000 {
				return -1
			}
			if p < 2 {
				return p
			}
			if style == 0 {
				if r, ok := memo[p]; ok {
					return r
				}
			}
			if inSet[nodes[p].level] {
				return rec(nodes[p].high)
			}
			lo := push(rec(nodes[p].low))
			hi := push(rec(nodes[p].high))
			r := mk(nodes[p].level, lo, hi)
			if style == 0 {
				push(r)
				memo[p] = r
			} else {
				x.Popref(2)
				pushed -= 2
			}
			return r
		}
		push(*a.n)
		res = rec(*a.n)
		want = a.f
		for _, v := range L {
			want = e.m.Cofactor(want, v, true)
		}
		w := want
		builtin = func() rudd.Node { return e.route(w, 5) }
	}
	if steps > 20000 {
		x.Initref()
		return
	}
	st1, _ := e.stat()
	n := x.Retnode(res)
	x.Popref(pushed)
	if st1.gc > st0.gc {
		e.tick("gc_inside_user_op")
	}
	if n == nil {
		e.fail("user operation %d gives nil (Makenode returned %d, error %q)", op.N%4, res, x.Error())
	}
	e.put(op.D, n, want)
	bn := builtin()
	if f, err, ok := e.agreesNil(bn, want); !ok { // the built-in operation is wrong: not a kernel matter
		panic(abort{e.show(f) + errText(err)})
	}
	if e.focus && e.regs[op.D].n != nil && !x.Equal(bn, n) {
		e.viol("user operation gives node %d, the built-in one node %d", *n, *bn)
	}
	e.tick("user_ops")
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func (e *Exec) agreesNil(n rudd.Node, want ref.F) (ref.F, error, bool) {
	if n == nil {
		return 0, errMalformed, false
	}
	return e.agrees(n, want)
}

// opKStack pushes nodes that nothing else references, forces collections, and
// checks the pushed nodes after each, popping in stack order.
func opKStack(e *Exec, op Op) {
	if e.cfg.Varnum > 3000 {
		return
	}
	x := e.b
	x.Initref()
	type ent struct {
		id int
		f  ref.F
	}
	var st []ent
	check := func() {
		act := e.activeMap()
		memo := map[int]ref.F{}
		for i, t := range st {
			f, err := importSnap(e.m, act, t.id, memo)
			if err != nil || f != t.f {
				e.fail("pushed node %d (position %d of %d) denotes %s (%v) after a collection, it was %s", t.id, i, len(st), e.show(f), err, e.show(t.f))
			}
		}
	}
	s := uint64(op.N)*2654435761 + 12345
	for _, v := range op.V {
		s = mix(s)
		switch {
		case v >= 0: // push the function of a register, its branches or a random one
			f := ref.F(0)
			if r, ok := e.reg(v % NREG); ok && s&1 == 0 {
				f = r.f
			} else {
				L := clip(sortedSet(op.L), e.cfg.Varnum)
				if len(L) > 5 {
					L = L[:5]
				}
				q := mix(s)
				f = e.m.FromTable(L, func(i int) bool { return q>>(i%64)&1 == 1 })
			}
			// build bottom-up: intermediate nodes are pushed, then popped
			memo := map[ref.F]int{}
			n := 0
			var rec func(f ref.F) int
			rec = func(f ref.F) int {
				if f < 2 {
					return f
				}
				if id, ok := memo[f]; ok {
					return id
				}
				lo := rec(e.m.Low(f))
				hi := rec(e.m.High(f))
				if lo < 0 || hi < 0 {
					return -1
				}
				id := x.Makenode(int32(e.m.Level(f)), lo, hi)
				x.Pushref(id)
				n++
				memo[f] = id
				return id
			}
			id := rec(f)
			x.Popref(n)
			if id < 0 {
				e.fail("Makenode failed: %q", x.Error())
			}
			x.Pushref(id)
			st = append(st, ent{id, f})
			if e.focus && f > 1 {
				e.nt = true
			}
		case v == -1: // collect
			e.goGC()
			if e.forceGC() {
				e.tick("kstack_gc")
			}
			check()
		case v == -2: // fill to a few free slots, and go on
			e.fill(int(s>>20%4), false)
			check()
		default: // pop
			k := -v - 2
			if k > len(st) {
				k = len(st)
			}
			x.Popref(k)
			st = st[:len(st)-k]
		}
	}
	check()
	x.Initref()
	e.tick("kstack")
}
