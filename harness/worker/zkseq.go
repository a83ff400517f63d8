package main

import "verifharness/ref"

// opKSeq makes N nodes by direct calls to Makenode, over the registers, the
// constants and the nodes it has pushed; most results are not kept, and triples
// come again, in particular just after a collection. Every answer is compared
// with the nodes that are active then.
func opKSeq(e *Exec, op Op) {
	if e.cfg.Varnum > 3000 {
		return
	}
	if st, ok := e.stat(); ok && st.allocated > 20000 {
		return
	}
	x := e.b
	x.Initref()
	type ent struct {
		id int
		f  ref.F
	}
	type opd struct {
		reg int // register, or
		pos int // position on the stack
		ser int // and what was pushed there
	}
	type triple struct {
		lv   int
		a, b opd
	}
	var stack []ent
	var sers []int
	var recent []triple
	serial := 0
	s := uint64(op.C)*2654435761 + 99
	rnd := func(n int) int { s = mix(s); return int(s >> 9 % uint64(n)) }
	get := func(o opd) (ent, bool) {
		if o.reg >= 0 {
			if r, ok := e.reg(o.reg); ok {
				return ent{*r.n, r.f}, true
			}
			return ent{}, false
		}
		if o.pos < len(stack) && sers[o.pos] == o.ser {
			return stack[o.pos], true
		}
		return ent{}, false
	}
	operand := func() opd {
		if len(stack) > 0 && rnd(3) == 0 {
			p := rnd(len(stack))
			return opd{reg: -1, pos: p, ser: sers[p]}
		}
		return opd{reg: rnd(NREG)}
	}
	checkStack := func(act map[int]rec, when string) {
		memo := map[int]ref.F{}
		for i, t := range stack {
			f, err := importSnap(e.m, act, t.id, memo)
			if err != nil || f != t.f {
				e.fail("pushed node %d (position %d of %d) denotes %s (%v) %s, it was %s", t.id, i, len(stack), e.show(f), err, when, e.show(t.f))
			}
		}
	}
	made := 0
	for i := 0; i < op.N; i++ {
		switch k := rnd(20); {
		case k < 3:
			e.fill(rnd(4), false)
			continue
		case k < 4:
			if k := rnd(4); k <= len(stack) {
				x.Popref(k)
				stack, sers = stack[:len(stack)-k], sers[:len(sers)-k]
			}
			continue
		}
		var t triple
		if len(recent) > 0 && rnd(5) < 3 {
			t = recent[len(recent)-1-rnd(min(len(recent), 1+rnd(6)))]
		} else {
			t = triple{rnd(1 << 20), operand(), operand()}
		}
		lo, ok1 := get(t.a)
		hi, ok2 := get(t.b)
		if !ok1 || !ok2 || lo.id == hi.id {
			continue
		}
		top := e.cfg.Varnum
		for _, f := range []ref.F{lo.f, hi.f} {
			if f > 1 && e.m.Level(f) < top {
				top = e.m.Level(f)
			}
		}
		if top == 0 {
			continue
		}
		lv := t.lv % top
		g0, ok0 := e.stat()
		id := x.Makenode(int32(lv), lo.id, hi.id)
		if id < 0 {
			e.fail("Makenode(%d, %d, %d) = %d", lv, lo.id, hi.id, id)
		}
		act := e.activeMap()
		want := rec{lv, lo.id, hi.id}
		if r, ok := act[id]; !ok || r != want {
			e.fail("Makenode(%d, %d, %d) = %d, which is %v (active: %v)", lv, lo.id, hi.id, id, r, ok)
		}
		for o, r := range act {
			if r == want && o != id {
				e.fail("Makenode(%d, %d, %d) = %d but node %d is the same triple", lv, lo.id, hi.id, id, o)
			}
		}
		if g1, ok := e.stat(); ok && ok0 && g1.gc > g0.gc {
			checkStack(act, "after a collection")
			e.tick("kseq_gc")
		}
		recent = append(recent, t)
		made++
		if rnd(3) == 0 {
			serial++
			x.Pushref(id)
			stack = append(stack, ent{id, e.m.Mk(lv, lo.f, hi.f)})
			sers = append(sers, serial)
		}
	}
	if len(stack) > 0 {
		t := stack[len(stack)-1]
		n := x.Retnode(t.id)
		checkStack(e.activeMap(), "at the end")
		e.put(op.D, n, t.f)
	}
	x.Initref()
	if made > 0 && e.focus {
		e.nt = true
	}
	e.tick("kseq")
}

func init() { ops["kseq"] = opKSeq }
