package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/dalzilio/rudd"
	"verifharness/ref"
)

var ops map[string]func(e *Exec, op Op)

func init() {
	ops = map[string]func(e *Exec, op Op){
		"const": func(e *Exec, op Op) {
			var n rudd.Node
			v := op.N&1 == 1
			switch {
			case op.C == 1:
				n = e.b.From(v)
			case v:
				n = e.b.True()
			default:
				n = e.b.False()
			}
			e.put(op.D, n, op.N&1)
		},
		"var": func(e *Exec, op Op) {
			if op.N >= 0 && op.N < e.cfg.Varnum {
				e.put(op.D, e.b.Ithvar(op.N), e.m.Var(op.N))
			}
		},
		"nvar": func(e *Exec, op Op) {
			if op.N >= 0 && op.N < e.cfg.Varnum {
				e.put(op.D, e.b.NIthvar(op.N), e.m.NVar(op.N))
			}
		},
		"fn": func(e *Exec, op Op) {
			f := e.spec(clip(sortedSet(op.L), e.cfg.Varnum), op.S)
			e.put(op.D, e.route(f, op.N), f)
		},
		"not": func(e *Exec, op Op) {
			if a, ok := e.reg(op.A); ok {
				e.put(op.D, e.b.Not(a.n), e.m.Not(a.f))
			}
		},
		"and": func(e *Exec, op Op) {
			ns, fs, ok := e.regList(op.L)
			if !ok {
				return
			}
			f := 1
			for _, g := range fs {
				f = e.m.And(f, g)
			}
			res := e.b.And(ns...)
			e.sameArgs(ns, op.L, "And")
			e.put(op.D, res, f)
		},
		"or": func(e *Exec, op Op) {
			ns, fs, ok := e.regList(op.L)
			if !ok {
				return
			}
			f := 0
			for _, g := range fs {
				f = e.m.Or(f, g)
			}
			res := e.b.Or(ns...)
			e.sameArgs(ns, op.L, "Or")
			e.put(op.D, res, f)
		},
		"imp": func(e *Exec, op Op) {
			e.bin(op, func(a, b rudd.Node) rudd.Node { return e.b.Imp(a, b) }, "imp")
		},
		"equiv": func(e *Exec, op Op) {
			e.bin(op, func(a, b rudd.Node) rudd.Node { return e.b.Equiv(a, b) }, "biimp")
		},
		"apply": func(e *Exec, op Op) {
			o := opByIndex[((op.N%10)+10)%10]
			e.bin(op, func(a, b rudd.Node) rudd.Node { return e.b.Apply(a, b, o.op) }, o.name)
		},
		"ite": func(e *Exec, op Op) {
			a, ok1 := e.reg(op.A)
			b, ok2 := e.reg(op.B)
			c, ok3 := e.reg(op.C)
			if ok1 && ok2 && ok3 {
				e.put(op.D, e.b.Ite(a.n, b.n, c.n), e.m.Ite(a.f, b.f, c.f))
			}
		},
		// compute the same thing by two routes and compare identities
		"law": opLaw,
		"exist": func(e *Exec, op Op) {
			a, ok := e.reg(op.A)
			if !ok {
				return
			}
			L := clip(sortedSet(op.L), e.cfg.Varnum)
			v := e.vset(L, op.N)
			if v == nil {
				e.tick("vset_nil")
				return
			}
			if len(L) == 0 {
				e.tick("empty_set")
			}
			e.put(op.D, e.b.Exist(a.n, v), e.m.Exist(a.f, L))
		},
		"appex": func(e *Exec, op Op) {
			a, ok1 := e.reg(op.A)
			b, ok2 := e.reg(op.B)
			if !ok1 || !ok2 {
				return
			}
			L := clip(sortedSet(op.L), e.cfg.Varnum)
			v := e.vset(L, op.N)
			if v == nil {
				e.tick("vset_nil")
				return
			}
			if len(L) == 0 {
				e.tick("empty_set")
			}
			o := opByIndex[((op.C%4)+4)%4]
			want := e.m.Exist(e.m.Apply(ref.Ops[o.name], a.f, b.f), L)
			if op.C == 8 {
				e.put(op.D, e.b.AndExist(a.n, b.n, v), want)
			} else {
				e.put(op.D, e.b.AppEx(a.n, b.n, o.op, v), want)
			}
		},
		"makeset": func(e *Exec, op Op) {
			L := clip(op.L, e.cfg.Varnum)
			arg := append([]int(nil), L...)
			n := e.b.Makeset(arg)
			e.sameInts(arg, L, "Makeset")
			e.put(op.D, n, e.m.Cube(L, nil))
			if e.focus && n != nil {
				for k := 0; k < 2; k++ {
					got := e.b.Scanset(n)
					want := sortedSet(L)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						e.viol("Scanset(Makeset(%v)) = %v", L, got)
					}
					for i := range got { // the slice is the caller's
						got[i] = -1
					}
				}
			}
		},
		"makecube": func(e *Exec, op Op) {
			L := clip(sortedSet(op.L), e.cfg.Varnum)
			pol := make([]bool, len(L))
			for i := range pol {
				pol[i] = i < len(op.V) && op.V[i] != 0
			}
			if len(L) == 0 || op.N == 1 { // polarity over all variables
				if e.cfg.Varnum > 3000 {
					return
				}
				L, pol = nil, nil
				var all []int
				for i := 0; i < e.cfg.Varnum; i++ {
					all = append(all, i)
					pol = append(pol, len(op.V) > 0 && op.V[i%len(op.V)] != 0)
				}
				e.put(op.D, e.b.Makecube(nil, pol), e.cubeBottomUp(all, pol))
				return
			}
			arg, parg := append([]int(nil), L...), append([]bool(nil), pol...)
			n := e.b.Makecube(arg, parg)
			e.sameInts(arg, L, "Makecube")
			for i := range pol {
				if e.focus && pol[i] != parg[i] {
					e.viol("Makecube changed its second argument")
				}
				parg[i] = !parg[i]
			}
			e.put(op.D, n, e.cubeBottomUp(L, pol))
		},
		"low":   func(e *Exec, op Op) { e.cofactor(op, false) },
		"high":  func(e *Exec, op Op) { e.cofactor(op, true) },
		"label": opLabel,
		"newrep": func(e *Exec, op Op) {
			n := len(op.L)
			if len(op.V) < n {
				n = len(op.V)
			}
			old := append([]int(nil), op.L[:n]...)
			nw := append([]int(nil), op.V[:n]...)
			seenO, seenN := map[int]bool{}, map[int]bool{}
			for i := range old {
				if old[i] < 0 || old[i] >= e.cfg.Varnum || nw[i] < 0 || nw[i] >= e.cfg.Varnum || seenO[old[i]] || seenN[nw[i]] {
					return // invalid: exercised by "bad"
				}
				seenO[old[i]], seenN[nw[i]] = true, true
			}
			overlap := false
			for _, v := range nw {
				overlap = overlap || seenO[v]
			}
			delete(e.reps, op.N)
			o2, n2 := append([]int(nil), old...), append([]int(nil), nw...)
			r, err := e.b.NewReplacer(o2, n2)
			e.sameInts(o2, old, "NewReplacer")
			e.sameInts(n2, nw, "NewReplacer")
			if err != nil {
				if !overlap && e.focus {
					e.viol("NewReplacer(%v, %v) refused: %v", old, nw, err)
				}
				return
			}
			if r == nil {
				e.fail("NewReplacer(%v, %v) returned a nil replacer without error", old, nw)
			}
			m := map[int]int{}
			for i := range old {
				m[old[i]] = nw[i]
			}
			e.reps[op.N], e.repm[op.N] = r, m
		},
		"replace": func(e *Exec, op Op) {
			a, ok := e.reg(op.A)
			r := e.reps[op.N]
			if !ok || r == nil {
				return
			}
			m := e.repm[op.N]
			img := func(i int) int {
				if j, ok := m[i]; ok {
					return j
				}
				return i
			}
			want := e.m.Rename(a.f, img)
			sup := e.m.Support(a.f)
			conflict := false
			for o, n := range m {
				conflict = conflict || o != n && sup[o] && sup[n]
			}
			// a new variable that occurs in n may make the substitution impossible
			for o, n := range m {
				conflict = conflict || o != n && sup[n]
			}
			if conflict && op.C == 1 {
				return
			}
			n := e.b.Replace(a.n, r)
			if n == nil && conflict {
				e.tick("replace_conflict")
				if e.focus && !e.b.Errored() {
					e.viol("Replace returned nil without setting the error status")
				}
				e.err = true
				return
			}
			if e.focus && conflict && n != nil && !e.err && e.b.Errored() {
				e.viol("Replace set the error status (%q) but returned a node", e.b.Error())
			}
			if conflict {
				e.tick("replace_conflict_exact")
			}
			e.put(op.D, n, want)
		},
		"drop": func(e *Exec, op Op) {
			if op.A >= 0 && op.A < NREG {
				e.regs[op.A] = Reg{}
				e.pins[op.A] = nil
			}
		},
		"dup": func(e *Exec, op Op) {
			if a, ok := e.reg(op.A); ok && op.D >= 0 && op.D < NREG {
				e.regs[op.D] = a
				e.pins[op.D] = nil
			}
		},
		"gogc":    func(e *Exec, op Op) { e.goGC() },
		"fill":    func(e *Exec, op Op) { e.b.Initref(); e.fill(op.N, op.C == 1) },
		"garbage": opGarbage,
		"squeeze": opSqueeze,
		"grab":    opGrab,
		"ungrab":  opUngrab,
		"verify":  func(e *Exec, op Op) { e.verifyAll() },

		"satcount":  opSatcount,
		"allsat":    opAllsat,
		"allsatcb":  opAllsatCallback,
		"allnodes":  opAllnodes,
		"dot":       opDot,
		"print":     opPrint,
		"errprint":  opErrPrint,
		"canon":     opCanon,
		"rebuild":   opRebuild,
		"struct":    func(e *Exec, op Op) { e.structure() },
		"stats":     opStats,
		"grow":      opGrow,
		"leak":      opLeak,
		"churn":     opChurn,
		"limit":     opLimit,
		"recover":   opRecover,
		"lastref":   opLastref,
		"bad":       opBad,
		"badrep":    opBadRep,
		"badnew":    opBadNew,
		"kmake":     opKMake,
		"kop":       opKOp,
		"kstack":    opKStack,
		"bulk":      opBulk,
		"noerr":     opNoerr,
		"pointwise": opPointwise,
		"exhbool":   opExhBool,
		"exhquant":  opExhQuant,
		"endure":    opEndure,
		"kdeep":     opKDeep,
		"refstress": opRefstress,
		"soak":      opSoak,
		"wrapset":   opWrapSet,
		"manyrep":   opManyRep,
		"constptr":  opConstPtr,
		"retry":     opRetry,
	}
}

func (e *Exec) regList(L []int) (ns []rudd.Node, fs []ref.F, ok bool) {
	for _, i := range L {
		r, ok := e.reg(i)
		if !ok {
			return nil, nil, false
		}
		ns = append(ns, r.n)
		fs = append(fs, r.f)
	}
	return ns, fs, true
}

// sameInts checks that a call left its argument as it was, then changes it: it
// belongs to the caller.
func (e *Exec) sameInts(arg, was []int, name string) {
	for i := range was {
		if e.focus && arg[i] != was[i] {
			e.viol("%s changed the slice %v, given as its argument, to %v", name, was, arg)
		}
	}
	for i := range arg {
		arg[i] = i * 3 % e.cfg.Varnum
	}
}

func (e *Exec) sameArgs(ns []rudd.Node, L []int, name string) {
	for i := range ns {
		if e.focus && ns[i] != e.regs[L[i]].n {
			e.viol("%s changed the slice of its arguments", name)
		}
		ns[i] = nil
	}
}

func (e *Exec) bin(op Op, call func(a, b rudd.Node) rudd.Node, name string) {
	a, ok1 := e.reg(op.A)
	b, ok2 := e.reg(op.B)
	if ok1 && ok2 {
		if e.focus {
			e.tick("operator_" + name)
		}
		e.put(op.D, call(a.n, b.n), e.m.Apply(ref.Ops[name], a.f, b.f))
	}
}

func (e *Exec) cubeBottomUp(L []int, pol []bool) ref.F {
	f := 1
	for k := len(L) - 1; k >= 0; k-- {
		if pol[k] {
			f = e.m.Mk(L[k], 0, f)
		} else {
			f = e.m.Mk(L[k], f, 0)
		}
	}
	return f
}

func (e *Exec) cofactor(op Op, high bool) {
	a, ok := e.reg(op.A)
	if !ok || a.f < 2 {
		return
	}
	if high {
		e.put(op.D, e.b.High(a.n), e.m.High(a.f))
	} else {
		e.put(op.D, e.b.Low(a.n), e.m.Low(a.f))
	}
}

func opLabel(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok || a.f < 2 {
		return
	}
	if l := e.b.Label(a.n); l != e.m.Level(a.f) {
		e.fail("Label = %d, the first variable of %s is %d", l, e.show(a.f), e.m.Level(a.f))
	}
	if e.focus {
		e.nt = true
		if !e.err && e.b.Errored() {
			e.viol("Label of a valid node set the error status: %q", e.b.Error())
		}
	}
}

// opLaw checks an algebraic law by identity of nodes: the two sides are
// computed by the code under test only.
func opLaw(e *Exec, op Op) {
	ra, ok1 := e.reg(op.A)
	rb, ok2 := e.reg(op.B)
	rc, ok3 := e.reg(op.C)
	if !ok1 || !ok2 || !ok3 {
		return
	}
	b := e.b
	x, y, z := ra.n, rb.n, rc.n
	var l, r rudd.Node
	n := op.N % 14
	switch n {
	case 0:
		l, r = b.Not(b.And(x, y)), b.Or(b.Not(x), b.Not(y))
	case 1:
		l, r = b.And(x, b.Or(y, z)), b.Or(b.And(x, y), b.And(x, z))
	case 2:
		l, r = b.Ite(x, y, z), b.Or(b.And(x, y), b.And(b.Not(x), z))
	case 3:
		l, r = b.Not(b.Not(x)), x
	case 4:
		l, r = b.Apply(x, b.Apply(x, y, rudd.OPxor), rudd.OPxor), y
	case 5:
		l, r = b.Imp(x, y), b.Apply(y, x, rudd.OPinvimp)
	case 6:
		l, r = b.Apply(x, y, rudd.OPdiff), b.Apply(y, x, rudd.OPless)
	case 7:
		l, r = b.Apply(x, y, rudd.OPnand), b.Not(b.And(x, y))
	case 8:
		l, r = b.Apply(x, y, rudd.OPnor), b.Not(b.Or(x, y))
	case 9:
		l, r = b.Equiv(x, y), b.Not(b.Apply(x, y, rudd.OPxor))
	case 10:
		l, r = b.And(x, b.Or(x, y)), x
	case 11:
		l, r = b.Ite(x, y, z), b.And(b.Imp(x, y), b.Or(x, z))
	case 12:
		l, r = b.And(b.And(x, y), z), b.And(x, y, z)
	default:
		l, r = b.Or(x, y, z), b.Or(z, y, x)
	}
	if l == nil || r == nil {
		if e.cfg.Maxnode > 0 && b.Errored() {
			e.err = true
			e.tick("limit_failures")
			e.limitReached()
			return
		}
		e.fail("law %d: nil result (%q)", n, b.Error())
	}
	if !b.Equal(l, r) {
		e.fail("law %d fails for x=%s y=%s z=%s", n, e.show(ra.f), e.show(rb.f), e.show(rc.f))
	}
	if e.focus && ra.f > 1 {
		e.nt = true
	}
	e.tick("laws")
}

// opPointwise evaluates the held diagrams at assignments, walking the nodes.
func opPointwise(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok {
		return
	}
	nodes, err := e.snapshot(a.n)
	if err != nil {
		e.fail("Allnodes failed: %v", err)
	}
	s := uint64(op.N)
	for t := 0; t < 16; t++ {
		s = mix(s)
		asg := func(v int) bool { return mix(s+uint64(v)*7919)&1 == 1 }
		id := *a.n
		for d := 0; id > 1; d++ {
			r, ok := nodes[id]
			if !ok || d > e.cfg.Varnum {
				e.fail("malformed diagram at node %d", id)
			}
			if asg(r.level) {
				id = r.high
			} else {
				id = r.low
			}
		}
		if (id == 1) != e.m.Eval(a.f, asg) {
			e.fail("wrong value at an assignment")
		}
	}
}

// ---------------------------------------------------------------- memory

func opGarbage(e *Exec, op Op) {
	e.b.Initref()
	for i := 0; i < op.N; i++ {
		id := e.garbage()
		if id < 0 {
			return
		}
		if n := e.b.Retnode(id); n != nil {
			e.junk = append(e.junk, n)
		}
	}
}

// opSqueeze holds references to junk until the table is full, but for N nodes.
func opSqueeze(e *Exec, op Op) {
	if e.cfg.Maxnode == 0 || e.cfg.Maxnode > 20000 {
		return
	}
	e.b.Initref()
	last := -1
	for i := 0; i < 3*e.cfg.Maxnode; i++ {
		if last = e.garbage(); last < 0 {
			break
		}
		if n := e.b.Retnode(last); n != nil {
			e.junk = append(e.junk, n)
		}
	}
	if last >= 0 {
		return
	}
	junk := e.junk
	e.junk = nil
	for i := 0; i < op.N && len(junk) > 0; i++ {
		k := int(mix(uint64(op.A*1000+i)) % uint64(len(junk)))
		junk[k], junk[len(junk)-1] = junk[len(junk)-1], nil
		junk = junk[:len(junk)-1]
	}
	if op.N > 0 {
		e.goGC()
	}
	e.junk = junk
	e.tick("squeezed")
}

// opBulk makes many externally held nodes at once, so that ids become large.
func opBulk(e *Exec, op Op) { opGarbage(e, op) }

func opGrab(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok {
		return
	}
	for i := 0; i < op.N; i++ {
		var n rudd.Node
		switch op.C {
		case 0:
			n = e.b.And(a.n, a.n)
		case 1:
			n = e.b.Or(a.n, e.b.False())
		default:
			n = e.b.Retnode(*a.n)
		}
		if n == nil {
			e.fail("reference %d to the same node is nil: %q", i, e.b.Error())
		}
		if *n != *a.n {
			e.fail("a trivial operation on node %d returned node %d", *a.n, *n)
		}
		e.pins[op.A] = append(e.pins[op.A], n)
	}
	if e.grabs == nil {
		e.grabs = map[ref.F]int{}
	}
	e.grabs[a.f] += op.N
	if len(e.pins[op.A]) > 1023 {
		e.tick("saturated")
	}
}

// opUngrab drops references of a register, possibly including the original one:
// C=0 oldest first, C=1 newest first, C=2 all but the N-th.
func opUngrab(e *Exec, op Op) {
	if op.A < 0 || op.A >= NREG || len(e.pins[op.A]) == 0 {
		return
	}
	a := &e.regs[op.A]
	if a.n == nil {
		e.pins[op.A] = nil
		return
	}
	all := append([]rudd.Node{a.n}, e.pins[op.A]...)
	n := op.N
	if n > len(all)-1 {
		n = len(all) - 1
	}
	var keep []rudd.Node
	switch op.C {
	case 0:
		keep = append(keep, all[n:]...)
	case 1:
		keep = append(keep, all[:len(all)-n]...)
	default:
		keep = append(keep, all[n])
	}
	for i := range all {
		all[i] = nil
	}
	for i := range e.pins[op.A] {
		e.pins[op.A][i] = nil
	}
	a.n = keep[0]
	e.pins[op.A] = append([]rudd.Node(nil), keep[1:]...)
}

// opLastref passes to an operation nodes whose last reference is the argument,
// with a collection at the k-th allocation inside.
func opLastref(e *Exec, op Op) {
	a, ok1 := e.reg(op.A)
	b, ok2 := e.reg(op.B)
	if !ok1 || !ok2 {
		return
	}
	fa, fb := a.f, b.f
	na, nb := a.n, b.n
	e.b.Initref()
	if e.safe {
		defer func() { e.junk = append(e.junk, a.n, b.n) }()
	} else {
		a, b = Reg{}, Reg{}
		e.regs[op.A], e.regs[op.B] = Reg{}, Reg{}
		e.pins[op.A], e.pins[op.B] = nil, nil
		e.fill(op.C, false)
	}
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	switch op.N % 6 {
	case 0:
		e.put(op.D, e.b.And(e.b.Not(na), e.b.Not(nb)), e.m.Not(e.m.Or(fa, fb)))
	case 1:
		e.put(op.D, e.b.Apply(e.b.Apply(na, nb, rudd.OPxor), e.b.Apply(na, nb, rudd.OPimp), rudd.OPbiimp),
			e.m.Apply(ref.Ops["biimp"], e.m.Apply(ref.Ops["xor"], fa, fb), e.m.Apply(ref.Ops["imp"], fa, fb)))
	case 2:
		e.put(op.D, e.b.Ite(e.b.Not(na), nb, na), e.m.Ite(e.m.Not(fa), fb, fa))
	case 3:
		e.put(op.D, e.b.AppEx(e.b.Not(na), nb, rudd.OPor, e.b.Makeset(L)), e.m.Exist(e.m.Or(e.m.Not(fa), fb), L))
	case 4:
		if len(L) == 0 {
			return
		}
		e.put(op.D, e.b.Exist(e.b.And(na, nb), e.b.Makeset(L)), e.m.Exist(e.m.And(fa, fb), L))
	default:
		e.put(op.D, e.b.Or(e.b.And(na, e.b.Not(nb)), e.b.And(nb, e.b.Not(na))), e.m.Apply(ref.Ops["xor"], fa, fb))
	}
}

// forceGC makes the BDD collect once; it returns false if it could not.
func (e *Exec) forceGC() bool {
	st, ok := e.stat()
	if !ok {
		return false
	}
	g0 := st.gc
	for t := 0; t < 6*st.allocated+2000; t++ {
		if st.free > 0 {
			n := st.free
			for i := 0; i < n; i++ {
				e.garbage()
			}
			if t > 60 {
				return false // this BDD has too few functions to fill its table
			}
		} else if e.garbage() < 0 {
			return false
		}
		st, _ = e.stat()
		if st.gc > g0 {
			return true
		}
	}
	return false
}

func (e *Exec) activeCount() (int, error) {
	n := 0
	err := e.b.Allnodes(func(id, level, low, high int) error { n++; return nil })
	return n, err
}

// liveNodes is the number of nodes that must be kept: constants, literals and
// everything reachable from registers.
func (e *Exec) liveNodes() int {
	var roots []ref.F
	for _, r := range e.regs {
		if r.n != nil {
			roots = append(roots, r.f)
		}
	}
	for f, n := range e.grabs {
		if n > 900 { // its reference count may be saturated, in which case it is never reclaimed
			roots = append(roots, f)
		}
	}
	s := e.m.Reach(roots...)
	for i := 0; i < e.cfg.Varnum; i++ {
		s[e.m.Var(i)] = true
		s[e.m.NVar(i)] = true
	}
	return len(s) + 2
}

// leakSlack bounds the number of dead references that the Go runtime may keep
// because they share an allocation block with something alive.
const leakSlack = 40

// staleRefs tells if a failure at the limit can be explained by references that
// were dropped but that the Go runtime still keeps, when live nodes should be in
// use and need more are made.
func (e *Exec) staleRefs(live, need int) bool {
	max := primeBelow(e.cfg.Maxnode)
	for t := 0; t < 6; t++ {
		if t > 0 {
			e.refresh()
			e.goGC()
		}
		if !e.forceGC() {
			if st, ok := e.stat(); !ok || st.free > 0 {
				return true // too few functions to fill the table
			}
			continue // full
		}
		act, err := e.activeCount()
		if err != nil {
			return false
		}
		if t == 0 && act+need+2 <= max {
			return false
		}
		if act <= live+leakSlack {
			e.tick("stale_references")
			return true
		}
	}
	e.tick("references_kept")
	return unsafe.Sizeof(int(0)) < 8 // see leaked
}

// opLeak drops everything but the registers, lets the Go runtime notice, makes
// the BDD collect and compares the number of active nodes with the number of
// nodes that must be alive.
func opLeak(e *Exec, op Op) {
	if e.cfg.Varnum > 5000 {
		return
	}
	e.goGC()
	e.b.Initref()
	if !e.forceGC() {
		e.tick("leak_skipped")
		return
	}
	e.tick("leak_checked")
	act, err := e.activeCount()
	if err != nil {
		e.fail("Allnodes failed: %v", err)
	}
	live := e.liveNodes()
	if d := act - live; d > e.feat["leak_max"] {
		e.feat["leak_max"] = d
	}
	if e.focus {
		e.nt = true
	}
	for t := 0; t < 4 && act > live+leakSlack; t++ {
		e.tick("leak_retry")
		e.refresh()
		e.goGC()
		if !e.forceGC() {
			return
		}
		if act, err = e.activeCount(); err != nil {
			e.fail("Allnodes failed: %v", err)
		}
		if d := act - live; d > e.feat["leakretry_max"] {
			e.feat["leakretry_max"] = d
		}
	}
	if act > live+leakSlack {
		e.leaked("after dropping references and collecting, %d nodes are active but only %d are reachable from held nodes and variables", act, live)
	}
}

// opChurn repeats N rounds of temporary computation on the registers and checks
// that the table stops growing.
func opChurn(e *Exec, op Op) {
	if e.cfg.Varnum > 5000 {
		return
	}
	var rs []Reg
	for _, r := range e.regs {
		if r.n != nil {
			rs = append(rs, r)
		}
	}
	if len(rs) < 2 {
		return
	}
	b := e.b
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	okRep := make([]bool, len(rs)) // the substitution can be represented
	for i, r := range rs {
		sup := e.m.Support(r.f)
		okRep[i] = true
		for _, n := range e.repm[0] {
			okRep[i] = okRep[i] && !sup[n]
		}
	}
	round := func(i int) {
		x, y := rs[i%len(rs)].n, rs[(i*7+1)%len(rs)].n
		t := b.Apply(x, y, opByIndex[i%10].op)
		u := b.Ite(t, x, b.Not(y))
		if v := b.Makeset(L); v != nil && len(L) > 0 {
			u = b.Or(b.Exist(u, v), b.AppEx(t, y, rudd.OPand, v))
		}
		w := b.And(u, b.Low(t), b.High(t))
		for k := range L {
			w = b.Apply(w, b.And(t, b.Ithvar(L[k])), rudd.OPxor)
		}
		if r := e.reps[0]; r != nil && op.C == 1 && okRep[i%len(rs)] {
			b.Replace(x, r)
		}
		b.Initref()
		for k := 0; k < 12; k++ {
			if id := e.garbage(); id > 1 {
				b.Retnode(id)
			}
		}
	}
	var sizes []int
	var acts []int
	for i := 0; i < op.N; i++ {
		round(i)
		e.goGC()
		b.Initref()
		if i%4 == 3 && !e.forceGC() {
			e.tick("leak_skipped")
			return
		}
		st, ok := e.stat()
		if !ok {
			return
		}
		sizes = append(sizes, st.allocated)
		if i%4 == 3 {
			a, _ := e.activeCount()
			acts = append(acts, a)
		}
	}
	if len(acts) < 4 {
		return
	}
	e.tick("churn_checked")
	if e.focus {
		e.nt = true
	}
	live := e.liveNodes()
	for t := 0; t < 4 && acts[len(acts)-1] > live+leakSlack && acts[len(acts)-1] > acts[0]+leakSlack; t++ {
		e.tick("churn_retry")
		e.refresh()
		e.goGC()
		b.Initref()
		if !e.forceGC() {
			return
		}
		a, _ := e.activeCount()
		acts = append(acts, a)
	}
	if last := acts[len(acts)-1]; last > live+leakSlack && last > acts[0]+leakSlack {
		e.leaked("active nodes after collection grow with the number of rounds: %v (reachable: %d)", acts, live)
	}
	if e.cfg.Minfree != nil && *e.cfg.Minfree > 50 {
		return // the table has to grow even if it is almost empty (always, above 98)
	}
	half := sizes[len(sizes)/2]
	if s := sizes[len(sizes)-1]; s > 4*half {
		e.leaked("the node table keeps growing with a bounded live set: %v", sizes)
	}
}

// ---------------------------------------------------------------- counting

func opSatcount(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok || e.cfg.Varnum > 100000 && a.f > 1 && e.m.Level(a.f) > 100000 {
		return
	}
	f := a.f
	if e.focus && op.C == 0 { // count what the node actually denotes
		g, err := e.observe(a.n)
		if err != nil {
			panic(abort{err.Error()})
		}
		f = g
	}
	want := e.m.Count(f)
	got := e.b.Satcount(a.n)
	if got == nil || got.Cmp(want) != 0 {
		e.fail("Satcount(%s) over %d variables = %v, expected %v", e.show(f), e.cfg.Varnum, got, want)
	}
	if e.focus {
		if f > 1 {
			e.nt = true
		}
		if want.BitLen() > 64 {
			e.tick("count_beyond_64_bits")
		}
		got.Add(got, big.NewInt(12345)).Lsh(got, 3)
		if again := e.b.Satcount(a.n); again.Cmp(want) != 0 {
			e.viol("Satcount changed from %v to %v after the caller modified its result", want, again)
		}
		if !e.err && e.b.Errored() {
			e.viol("Satcount of a valid node set the error status: %q", e.b.Error())
		}
		if nn := e.b.Not(a.n); nn == nil {
			if e.cfg.Maxnode == 0 || !e.b.Errored() {
				panic(abort{"Not failed"})
			}
			e.err = true
		} else if again := e.b.Satcount(nn); again != nil && op.N == 1 {
			sum := new(big.Int).Add(again, want)
			if sum.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(e.cfg.Varnum))) != 0 {
				e.viol("Satcount(f)+Satcount(!f) = %v", sum)
			}
		}
	}
	e.tick("counted")
}

// ---------------------------------------------------------------- Allsat

var errStop = errors.New("stop requested by the callback")

type satCheck struct {
	e     *Exec
	f     ref.F
	sum   ref.F
	calls int
}

func (s *satCheck) one(a []int) {
	e := s.e
	s.calls++
	if len(a) != e.cfg.Varnum {
		e.fail("slice of length %d for %d variables", len(a), e.cfg.Varnum)
	}
	for _, v := range a {
		if v < -1 || v > 1 {
			e.fail("value %d in an assignment", v)
		}
	}
	c := e.cubeOf(a)
	if e.m.And(c, e.m.Not(s.f)) != 0 {
		e.fail("assignment %s does not satisfy %s", e.show(c), e.show(s.f))
	}
	if e.m.And(c, s.sum) != 0 {
		e.fail("assignment %s overlaps a previous one", e.show(c))
	}
	s.sum = e.m.Or(s.sum, c)
}

func (s *satCheck) done() {
	if s.sum != s.f {
		s.e.fail("the assignments cover %s, not %s", s.e.show(s.sum), s.e.show(s.f))
	}
}

func opAllsat(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok || e.cfg.Varnum > 3000 {
		return
	}
	f, err := e.observeWith(op.B&1, a.n)
	if err != nil {
		panic(abort{err.Error()})
	}
	p := e.m.Paths(f, 3000)
	if p >= 3000 || p*e.cfg.Varnum > 400000 {
		return
	}
	if e.focus && f > 1 {
		e.nt = true
	}
	if op.N == 1 && p > 0 { // stop at the C-th call
		stop := op.C%p + 1
		calls := 0
		err := e.b.Allsat(func(v []int) error {
			calls++
			e.elsewhere()
			if calls == stop {
				return errStop
			}
			return nil
		}, a.n)
		if calls < stop {
			e.fail("only %d calls, at least %d expected", calls, stop)
		}
		if calls > stop {
			e.fail("the callback returned an error at call %d but was called %d times", stop, calls)
		}
		if err == nil {
			e.fail("the callback returned an error at call %d but Allsat returned nil", stop)
		}
		e.tick("allsat_stopped")
		return
	}
	s := &satCheck{e: e, f: f}
	nested := -1
	if op.N == 2 && p > 0 { // another enumeration in the middle of this one
		nested = op.C%p + 1
	}
	if err := e.b.Allsat(func(v []int) error {
		e.elsewhere()
		s.one(v)
		if s.calls == nested {
			q := &satCheck{e: e, f: f}
			if err := e.b.Allsat(func(v []int) error { q.one(v); return nil }, a.n); err != nil {
				e.fail("nested Allsat failed: %v", err)
			}
			q.done()
			e.tick("allsat_nested")
		}
		return nil
	}, a.n); err != nil {
		e.fail("Allsat failed: %v", err)
	}
	s.done()
	e.tick("allsat_full")
	if e.focus && !e.err && e.b.Errored() {
		e.viol("Allsat of a valid node set the error status: %q", e.b.Error())
	}
}

// opAllsatCallback enumerates a node while the callback computes with the BDD.
// With N&1 the enumerated node is referenced by nothing but the argument, with
// N&2 the callback runs the Go collector.
func opAllsatCallback(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok || e.cfg.Varnum > 400 {
		return
	}
	b := e.b
	var other Reg
	if r, ok := e.reg(op.B); ok {
		other = r
	} else {
		other = Reg{b.True(), 1}
	}
	f, err := e.observeWith(0, a.n)
	if err != nil {
		panic(abort{err.Error()})
	}
	if e.m.Paths(f, 200) >= 120 {
		return
	}
	if e.focus && f > 1 {
		e.nt = true
	}
	n := a.n
	if op.N&1 == 1 && !e.safe {
		// only safe if the node's only holders are this register and its pins
		for i := range e.regs {
			if i != op.A && e.regs[i].n == n {
				e.regs[i] = Reg{}
				e.pins[i] = nil
			}
		}
		a = Reg{}
		e.regs[op.A] = Reg{}
		e.pins[op.A] = nil
		e.tick("allsat_lastref")
	}
	s := &satCheck{e: e, f: f}
	acc, rest := b.False(), b.True()
	accf, restf := 0, 1
	cb := func(v []int) error {
		e.elsewhere()
		s.one(v)
		if op.N&2 == 2 && !e.safe {
			e.goGC()
		}
		var vs []int
		var pol []bool
		for k, x := range v {
			if x >= 0 {
				vs = append(vs, k)
				pol = append(pol, x == 1)
			}
		}
		c := b.True()
		if len(vs) > 0 {
			c = b.Makecube(vs, pol)
		}
		cf := e.cubeOf(v)
		b.Initref()
		if !e.safe {
			e.fill(op.C, true)
		}
		acc = b.Or(acc, b.And(c, other.n))
		accf = e.m.Or(accf, e.m.And(cf, other.f))
		rest = b.And(rest, b.Not(c))
		restf = e.m.And(restf, e.m.Not(cf))
		return nil
	}
	err = allsatOf(b, &n, cb)
	if err != nil {
		e.fail("Allsat failed: %v", err)
	}
	s.done()
	if s.calls > 0 && acc != nil && rest != nil {
		if _, _, ok := e.agrees(acc, accf); !ok {
			e.fail("nodes computed in the callback are wrong")
		}
		if _, _, ok := e.agrees(rest, restf); !ok {
			e.fail("nodes computed in the callback are wrong")
		}
	}
	e.tick("allsat_callback")
}

// allsatOf hands the last reference over to Allsat.
//
//go:noinline
func allsatOf(b *rudd.BDD, n *rudd.Node, cb func([]int) error) error {
	x := *n
	*n = nil
	return b.Allsat(cb, x)
}

// ---------------------------------------------------------------- Allnodes

// walkIDs reads the diagram below the roots with Low/High/Label.
func (e *Exec) walkIDs(roots []rudd.Node) (map[int]rec, error) {
	seen := map[int]rec{}
	var err error
	var walk func(n rudd.Node, d int)
	walk = func(n rudd.Node, d int) {
		if err != nil {
			return
		}
		if n == nil || d > e.cfg.Varnum {
			err = errMalformed
			return
		}
		if *n < 2 {
			return
		}
		if _, ok := seen[*n]; ok {
			return
		}
		lo, hi := e.b.Low(n), e.b.High(n)
		if lo == nil || hi == nil {
			err = errMalformed
			return
		}
		seen[*n] = rec{e.b.Label(n), *lo, *hi}
		walk(lo, d+1)
		walk(hi, d+1)
	}
	for _, r := range roots {
		walk(r, 0)
	}
	return seen, err
}

func opAllnodes(e *Exec, op Op) {
	if e.cfg.Varnum > 100000 {
		return
	}
	ns, fs, ok := e.regList(op.L)
	if !ok {
		return
	}
	b := e.b
	for _, f := range fs {
		if e.focus && f > 1 {
			e.nt = true
		}
	}
	if len(ns) == 0 {
		e.allActive(op)
		return
	}
	want, err := e.walkIDs(ns)
	if err != nil {
		panic(abort{err.Error()})
	}
	if op.B == 1 { // do not leave references behind
		e.goGC()
	}
	got := map[int]rec{}
	calls := 0
	stop := 0
	if op.N == 1 && len(want) > 0 {
		stop = op.C%len(want) + 1
	}
	visit := func(id, level, low, high int) error {
		calls++
		e.elsewhere()
		if id == 0 || id == 1 {
			return nil // reporting constants is allowed
		}
		if _, dup := got[id]; dup {
			e.fail("node %d visited twice", id)
		}
		got[id] = rec{level, low, high}
		w, ok := want[id]
		if !ok {
			e.fail("node %d is not reachable from the roots", id)
		}
		if w != (rec{level, low, high}) {
			e.fail("node %d reported as %v, it is %v", id, rec{level, low, high}, w)
		}
		switch op.N {
		case 2: // nested visit
			if len(got) == op.C%5+1 {
				k := 0
				if err := b.Allnodes(func(id, level, low, high int) error { k++; return nil }, ns...); err != nil {
					e.fail("nested Allnodes failed: %v", err)
				}
				e.tick("allnodes_nested")
			}
		case 3: // computation and collections in the callback
			if len(got) == op.C%5+1 {
				b.Initref()
				e.fill(0, true)
				x := b.And(ns[0], b.Not(ns[len(ns)-1]))
				xf := e.m.And(fs[0], e.m.Not(fs[len(fs)-1]))
				if x == nil {
					e.fail("operation in the callback failed: %q", b.Error())
				}
				e.junk = append(e.junk, x)
				if xf > 1 && b.Label(x) != e.m.Level(xf) {
					e.fail("Label of a node computed in the callback is wrong, expected %d", e.m.Level(xf))
				}
				if b.Satcount(x).Cmp(e.m.Count(xf)) != 0 {
					e.fail("wrong result for an operation computed in the callback")
				}
				e.tick("allnodes_callback_op")
			}
		}
		if stop > 0 && len(got) == stop {
			return errStop
		}
		return nil
	}
	err = b.Allnodes(visit, ns...)
	if stop > 0 {
		if len(got) != stop {
			e.fail("the callback returned an error at node %d but %d nodes were visited", stop, len(got))
		}
		if err == nil {
			e.fail("the callback returned an error but Allnodes returned nil")
		}
		e.tick("allnodes_stopped")
	} else {
		if err != nil {
			e.fail("Allnodes failed: %v", err)
		}
		if len(got) != len(want) {
			e.fail("%d nodes visited, %d are reachable", len(got), len(want))
		}
		e.tick("allnodes_full")
	}
	// a second visit sees the same nodes
	if op.N == 0 || op.N == 1 {
		k := 0
		if err := b.Allnodes(func(id, level, low, high int) error {
			if id > 1 {
				k++
				if w, ok := want[id]; !ok || w != (rec{level, low, high}) {
					e.fail("a second visit reports node %d as %v", id, rec{level, low, high})
				}
			}
			return nil
		}, ns...); err != nil {
			e.fail("second Allnodes failed: %v", err)
		}
		if k != len(want) {
			e.fail("a second visit reports %d nodes instead of %d", k, len(want))
		}
	}
	if e.focus && !e.err && b.Errored() {
		e.viol("Allnodes set the error status: %q", b.Error())
	}
}

// allActive checks Allnodes without roots.
func (e *Exec) allActive(op Op) {
	b := e.b
	var roots []rudd.Node
	for _, r := range e.regs {
		if r.n != nil {
			roots = append(roots, r.n)
		}
	}
	want, err := e.walkIDs(roots)
	if err != nil {
		panic(abort{err.Error()})
	}
	st, stok := e.stat()
	got := map[int]rec{}
	consts := [2]int{}
	err = b.Allnodes(func(id, level, low, high int) error {
		if id == 0 || id == 1 {
			consts[id]++
			return nil
		}
		if _, dup := got[id]; dup {
			e.fail("node %d visited twice", id)
		}
		got[id] = rec{level, low, high}
		return nil
	})
	if err != nil {
		e.fail("Allnodes failed: %v", err)
	}
	if consts[0] > 1 || consts[1] > 1 {
		e.fail("a constant is visited more than once")
	}
	for id, w := range want {
		if g, ok := got[id]; !ok || g != w {
			e.fail("held node %d = %v is reported as %v (present: %v)", id, w, g, ok)
		}
	}
	for i := 0; i < e.cfg.Varnum && i < 500; i++ {
		for s, n := range []rudd.Node{b.Ithvar(i), b.NIthvar(i)} {
			g, ok := got[*n]
			if !ok || g != (rec{i, s, 1 - s}) {
				e.fail("literal of variable %d is reported as %v (present: %v)", i, g, ok)
			}
		}
	}
	if stok && st.used != len(got)+2 {
		e.fail("%d active nodes visited (with the constants), the table has %d in use", len(got)+2, st.used)
	}
	stop := 0
	calls := 0
	if op.N == 1 {
		stop = op.C%(len(got)+1) + 1
		err := b.Allnodes(func(id, level, low, high int) error {
			calls++
			if calls == stop {
				return errStop
			}
			return nil
		})
		if calls > stop || err == nil {
			e.fail("the callback returned an error at call %d; %d calls were made and Allnodes returned %v", stop, calls, err)
		}
	}
	e.tick("allnodes_active")
	if e.focus {
		e.nt = true
	}
}

// ---------------------------------------------------------------- text output

var reDotNode = regexp.MustCompile(`(?s)(\d+) \[label=<(.*?)>\];`)
var reDotEdge = regexp.MustCompile(`(\d+) -> (\d+) \[style=(\w+)\];`)
var reNum = regexp.MustCompile(`>(\[?\d+\]?)</FONT>`)

func parseDot(s string) (map[int]rec, error) {
	r := map[int]rec{}
	for _, m := range reDotNode.FindAllStringSubmatch(s, -1) {
		id, _ := strconv.Atoi(m[1])
		if _, dup := r[id]; dup {
			return nil, fmt.Errorf("node %d written twice", id)
		}
		nums := reNum.FindAllStringSubmatch(m[2], -1)
		lv, lid := -1, -1
		for _, x := range nums {
			if strings.HasPrefix(x[1], "[") {
				lid, _ = strconv.Atoi(strings.Trim(x[1], "[]"))
			} else {
				lv, _ = strconv.Atoi(x[1])
			}
		}
		if lv < 0 || lid != id {
			return nil, fmt.Errorf("node %d has label %q", id, m[2])
		}
		r[id] = rec{lv, 0, 0}
	}
	seen := map[string]bool{}
	for _, m := range reDotEdge.FindAllStringSubmatch(s, -1) {
		a, _ := strconv.Atoi(m[1])
		b, _ := strconv.Atoi(m[2])
		x, ok := r[a]
		if !ok {
			return nil, fmt.Errorf("edge from %d, which is not a node", a)
		}
		if k := m[1] + m[3]; seen[k] {
			return nil, fmt.Errorf("two %s edges from node %d", m[3], a)
		} else {
			seen[k] = true
		}
		if b == 0 {
			return nil, fmt.Errorf("edge to False")
		}
		if _, ok := r[b]; !ok && b != 1 {
			return nil, fmt.Errorf("edge to %d, which is not a node", b)
		}
		switch m[3] {
		case "dotted":
			x.low = b
		case "filled":
			x.high = b
		default:
			return nil, fmt.Errorf("edge style %q", m[3])
		}
		r[a] = x
	}
	if !strings.HasPrefix(strings.TrimSpace(s), "digraph") || !strings.HasSuffix(strings.TrimSpace(s), "}") {
		return nil, fmt.Errorf("not a dot graph")
	}
	return r, nil
}

var rePrint = regexp.MustCompile(`^\s*(\d+)\s*\[\s*(\d+)\s*\]\s*\?\s*(\d+)\s*:\s*(\d+)\s*$`)

func parsePrint(s string) (map[int]rec, error) {
	r := map[int]rec{}
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := rePrint.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("line %q", l)
		}
		var v [4]int
		for i := range v {
			v[i], _ = strconv.Atoi(m[i+1])
		}
		if _, dup := r[v[0]]; dup {
			return nil, fmt.Errorf("node %d written twice", v[0])
		}
		r[v[0]] = rec{v[1], v[2], v[3]}
	}
	return r, nil
}

func (e *Exec) textTarget(op Op) (ns []rudd.Node, fs []ref.F, want map[int]rec, ok bool) {
	if e.cfg.Varnum > 5000 {
		return
	}
	ns, fs, ok = e.regList(op.L)
	if !ok {
		return
	}
	var err error
	if len(ns) > 0 {
		want, err = e.walkIDs(ns)
	} else {
		want = map[int]rec{}
		err = e.b.Allnodes(func(id, level, low, high int) error {
			if id > 1 {
				want[id] = rec{level, low, high}
			}
			return nil
		})
	}
	if err != nil {
		panic(abort{err.Error()})
	}
	return
}

func (e *Exec) sameNodes(got, want map[int]rec, text string) {
	for id, w := range want {
		if g, ok := got[id]; !ok || g != w {
			e.fail("node %d = %v is written as %v (present: %v) in\n%s", id, w, g, ok, text)
		}
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			e.fail("node %d is written but is not part of the diagram, in\n%s", id, text)
		}
	}
}

func opDot(e *Exec, op Op) {
	if e.err {
		return
	}
	ns, fs, want, ok := e.textTarget(op)
	if !ok {
		return
	}
	var buf bytes.Buffer
	if err := e.b.Dot(&buf, ns...); err != nil {
		e.fail("Dot failed: %v", err)
	}
	got, err := parseDot(buf.String())
	if err != nil {
		e.fail("Dot output: %v in\n%s", err, buf.String())
	}
	e.sameNodes(got, want, buf.String())
	for i, n := range ns {
		f, err := importSnap(e.m, got, *n, map[int]ref.F{})
		if err != nil || f != fs[i] {
			e.fail("the function rebuilt from Dot output is %s (%v), expected %s", e.show(f), err, e.show(fs[i]))
		}
		if e.focus && fs[i] > 1 {
			e.nt = true
		}
	}
	e.tick("dot")
	if e.focus && e.b.Errored() {
		e.viol("Dot set the error status: %q", e.b.Error())
	}
}

func opPrint(e *Exec, op Op) {
	if e.err {
		return
	}
	ns, fs, want, ok := e.textTarget(op)
	if !ok {
		return
	}
	var buf bytes.Buffer
	e.b.Print(&buf, ns...)
	s := buf.String()
	if len(ns) == 1 && *ns[0] < 2 {
		if t := strings.TrimSpace(s); t != []string{"False", "True"}[*ns[0]] {
			e.fail("Print of a constant gives %q", s)
		}
		return
	}
	got, err := parsePrint(s)
	if err != nil {
		e.fail("Print output: %v in\n%s", err, s)
	}
	e.sameNodes(got, want, s)
	for i, n := range ns {
		f, err := importSnap(e.m, got, *n, map[int]ref.F{})
		if err != nil || f != fs[i] {
			e.fail("the function rebuilt from Print output is %s (%v), expected %s", e.show(f), err, e.show(fs[i]))
		}
		if e.focus && fs[i] > 1 {
			e.nt = true
		}
	}
	e.tick("print")
	if e.focus && e.b.Errored() {
		e.viol("Print set the error status: %q", e.b.Error())
	}
}

// opErrPrint puts the BDD in error, then checks what Print and Dot report.
func opErrPrint(e *Exec, op Op) {
	ns, _, ok := e.regList(op.L)
	if !ok {
		return
	}
	if !e.b.Errored() {
		e.b.Ithvar(-1 - op.N%3)
	}
	e.err = true
	if !e.b.Errored() {
		panic(abort{"no error status"})
	}
	msg := e.b.Error()
	var buf bytes.Buffer
	e.b.Print(&buf, ns...)
	if s := buf.String(); !strings.Contains(s, msg) || !strings.Contains(s, "Error") {
		e.fail("Print of a BDD in error (%q) gives %q", msg, s)
	}
	buf.Reset()
	err := e.b.Dot(&buf, ns...)
	if err == nil {
		e.fail("Dot of a BDD in error (%q) returned nil", msg)
	}
	if s := buf.String(); !strings.Contains(s, msg) || !strings.Contains(s, "Error") || strings.Contains(s, "->") {
		e.fail("Dot of a BDD in error (%q) gives %q", msg, s)
	}
	if !strings.Contains(err.Error(), msg) {
		e.fail("Dot of a BDD in error (%q) returned %q", msg, err)
	}
	e.tick("error_output")
	if e.focus {
		e.nt = true
	}
}

// ---------------------------------------------------------------- canonicity

func opCanon(e *Exec, op Op) {
	type ent struct {
		n rudd.Node
		f ref.F
		i int
	}
	var es []ent
	for i, r := range e.regs {
		if r.n == nil {
			continue
		}
		f, err := e.observe(r.n)
		if err != nil {
			f, err = e.observeWith(1, r.n)
			if err != nil {
				e.fail("register %d: %v", i, err)
			}
		}
		if e.focus && f > 1 {
			e.nt = true
		}
		if f < 2 {
			if (f == 1 && r.n != e.b.True()) || (f == 0 && r.n != e.b.False()) {
				e.fail("register %d denotes constant %d but is not the constant node (id %d)", i, f, *r.n)
			}
		}
		es = append(es, ent{r.n, f, i})
	}
	for _, a := range es {
		for _, b := range es {
			if eq := e.b.Equal(a.n, b.n); eq != (a.f == b.f) {
				e.fail("registers %d (%s) and %d (%s): Equal = %v", a.i, e.show(a.f), b.i, e.show(b.f), eq)
			}
			if (*a.n == *b.n) != (a.f == b.f) {
				e.fail("registers %d (%s, id %d) and %d (%s, id %d)", a.i, e.show(a.f), *a.n, b.i, e.show(b.f), *b.n)
			}
		}
	}
	e.tick("canon")
}

// opRebuild recomputes the function of a register by another route and asks for
// the same node.
func opRebuild(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok {
		return
	}
	f, err := e.observe(a.n)
	if err != nil {
		f, err = e.observeWith(1, a.n)
		if err != nil {
			e.fail("register %d: %v", op.A, err)
		}
	}
	n := e.route(f, op.N)
	if n == nil {
		e.fail("rebuilding %s by route %d gives nil: %q", e.show(f), op.N, e.b.Error())
	}
	if g, err, ok := e.agrees(n, f); !ok {
		// the route itself computed something else: not a canonicity matter
		panic(abort{fmt.Sprintf("route %d: %v %v", op.N, g, err)})
	}
	if !e.b.Equal(n, a.n) || !e.b.Equal(a.n, n) {
		e.fail("%s held as node %d, rebuilt by route %d as node %d", e.show(f), *a.n, op.N, *n)
	}
	if f < 2 && n != a.n {
		e.fail("constant %d is not the unique constant node", f)
	}
	if e.focus && f > 1 {
		e.nt = true
	}
	e.tick("rebuilt")
}

// structure checks the active nodes: reduced, ordered, closed, unique.
func (e *Exec) structure() {
	if e.cfg.Varnum > 1500000 {
		return
	}
	nodes := map[int]rec{}
	err := e.b.Allnodes(func(id, level, low, high int) error {
		if id > 1 {
			if _, dup := nodes[id]; dup {
				return nil // C08's business
			}
			nodes[id] = rec{level, low, high}
		}
		return nil
	})
	if err != nil {
		e.fail("Allnodes failed: %v", err)
	}
	uniq := map[rec]int{}
	for id, r := range nodes {
		if r.low == r.high {
			e.fail("node %d has equal branches: %v", id, r)
		}
		if r.level < 0 || r.level >= e.cfg.Varnum {
			e.fail("node %d has level %d", id, r.level)
		}
		for _, c := range []int{r.low, r.high} {
			if c == 0 || c == 1 {
				continue
			}
			cr, ok := nodes[c]
			if !ok {
				e.fail("node %d = %v has branch %d, which is not an active node", id, r, c)
			}
			if cr.level <= r.level {
				e.fail("node %d at level %d has branch %d at level %d", id, r.level, c, cr.level)
			}
		}
		if o, dup := uniq[r]; dup {
			e.fail("nodes %d and %d are both %v", o, id, r)
		}
		uniq[r] = id
	}
	if e.focus {
		e.nt = true
	}
	e.tick("structure")
}

// ---------------------------------------------------------------- statistics

func opStats(e *Exec, op Op) {
	st, ok := e.stat()
	if !ok {
		e.fail("Stats() does not report the variables, the nodes and the collections:\n%s", e.b.Stats())
	}
	max, act := -1, 0
	err := e.b.Allnodes(func(id, level, low, high int) error {
		act++
		if id > max {
			max = id
		}
		return nil
	})
	if err != nil {
		panic(abort{err.Error()})
	}
	if st.varnum != e.cfg.Varnum {
		e.fail("Varnum reported as %d, it is %d", st.varnum, e.cfg.Varnum)
	}
	if st.used != act {
		e.fail("Used is %d but %d nodes are active", st.used, act)
	}
	if st.allocated != st.used+st.free {
		e.fail("Allocated %d, Used %d, Free %d", st.allocated, st.used, st.free)
	}
	if max >= st.allocated {
		e.fail("node id %d with %d allocated", max, st.allocated)
	}
	if st.produced < e.lastProduced || st.gc < e.lastGC {
		e.fail("Produced went from %d to %d, GC from %d to %d", e.lastProduced, st.produced, e.lastGC, st.gc)
	}
	if st.produced < act-2 {
		e.fail("Produced is %d but %d non-constant nodes are active", st.produced, act-2)
	}
	e.lastProduced, e.lastGC = st.produced, st.gc
	// every creation is counted, and nothing else
	before, _ := e.activeIDs()
	e.b.Initref()
	for i := 0; i < op.N; i++ {
		p0 := st.produced
		id := e.garbage()
		st2, ok := e.stat()
		if id < 0 {
			if ok && st2.produced != p0 {
				e.fail("Makenode failed; Produced went from %d to %d", p0, st2.produced)
			}
			e.tick("stats_failed_creation")
			e.err = true
			break
		}
		if !ok {
			break
		}
		fresh := id > 1 && !before[id]
		if st2.gc != st.gc { // slots may have been reused
			before, _ = e.activeIDs()
			if st2.produced != p0+1 {
				e.fail("a collection made room for one node; Produced went from %d to %d", p0, st2.produced)
			}
			if st2.used != len(before) {
				e.fail("Used is %d after a collection but %d nodes are active", st2.used, len(before))
			}
		} else {
			d := 0
			if fresh {
				d = 1
				before[id] = true
			}
			if st2.produced != p0+d {
				e.fail("Makenode returned node %d (new: %v); Produced went from %d to %d", id, fresh, p0, st2.produced)
			}
			if st2.used != st.used+d {
				e.fail("Makenode returned node %d (new: %v); Used went from %d to %d", id, fresh, st.used, st2.used)
			}
		}
		st = st2
	}
	e.lastProduced, e.lastGC = st.produced, st.gc
	if e.focus {
		e.nt = true
	}
	e.tick("stats")
	if debugBuild && op.N%4 == 0 {
		e.statRefs(op)
	}
}

// statRefs checks the counts of external references that Stats reports with the
// build tag debug.
func (e *Exec) statRefs(op Op) {
	read := func() (ext, rec int, ok bool) {
		s := e.b.Stats()
		ext, ok1 := field(s, "Ext. refs:")
		rec, ok2 := field(s, "Reclaimed:")
		return ext, rec, ok1 && ok2
	}
	x0, r0, ok := read()
	if !ok {
		return
	}
	if r0 > x0 || x0 < e.lastRefs[0] || r0 < e.lastRefs[1] {
		e.fail("Ext. refs %d, Reclaimed %d; they were %d and %d", x0, r0, e.lastRefs[0], e.lastRefs[1])
	}
	e.lastRefs = [2]int{x0, r0}
	a, ok := e.reg(op.A)
	if !ok || *a.n < 2 || e.grabs[a.f] > 0 {
		return
	}
	// is it a node whose references are counted? (not a literal)
	if s := e.m.Reach(a.f); len(s) < 2 {
		return
	}
	k := 1 + op.N%40
	held := make([]rudd.Node, k)
	for i := range held {
		held[i] = e.b.Retnode(*a.n)
	}
	x1, _, _ := read()
	if x1 != x0+k {
		e.fail("%d references were created; Ext. refs went from %d to %d", k, x0, x1)
	}
	runtime.KeepAlive(held)
	for i := range held {
		held[i] = nil
	}
	e.goGC()
	if !e.forceGC() {
		return
	}
	x2, r2, _ := read()
	if r2 < r0+k/2 || r2 > x2 || x2 != x1 {
		e.fail("%d references were created and dropped; Ext. refs went from %d to %d, Reclaimed from %d to %d", k, x0, x2, r0, r2)
	}
	e.lastRefs = [2]int{x2, r2}
	e.tick("stat_refs")
}

func (e *Exec) activeIDs() (map[int]bool, error) {
	s := map[int]bool{}
	err := e.b.Allnodes(func(id, level, low, high int) error { s[id] = true; return nil })
	return s, err
}

// ---------------------------------------------------------------- limits

// opLimit checks that the node table respects Maxnodesize.
func opLimit(e *Exec, op Op) {
	if e.cfg.Maxnode <= 0 {
		return
	}
	max := 0
	act := 0
	e.b.Allnodes(func(id, level, low, high int) error {
		act++
		if id > max {
			max = id
		}
		return nil
	})
	if max >= e.cfg.Maxnode {
		e.fail("node id %d with Maxnodesize(%d)", max, e.cfg.Maxnode)
	}
	if st, ok := e.stat(); ok && st.allocated > e.cfg.Maxnode {
		e.fail("table of %d nodes with Maxnodesize(%d)", st.allocated, e.cfg.Maxnode)
	}
	if e.focus && act*2 > e.cfg.Maxnode {
		e.nt = true
	}
	e.tick("limit_checked")
}

// opRecover drops everything, lets the runtime notice, and requires small
// operations to succeed again.
func opRecover(e *Exec, op Op) {
	for i := range e.regs {
		if i >= op.N {
			e.regs[i] = Reg{}
			e.pins[i] = nil
		}
	}
	e.goGC()
	live := e.liveNodes()
	if e.cfg.Maxnode-live < 3*leakSlack {
		return
	}
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) == 0 || len(L) > 12 {
		return
	}
	b := e.b
	stop := false
	try := func(what string, n rudd.Node, want ref.F) {
		if n == nil {
			if msg := b.Error(); !e.staleRefs(live, 2*leakSlack) {
				e.fail("%s failed (%q) although only %d of %d nodes are in use", what, msg, live, e.cfg.Maxnode)
			}
			stop = true
			return
		}
		if f, err, ok := e.agrees(n, want); !ok {
			e.fail("%s denotes %s (%v), expected %s", what, e.show(f), err, e.show(want))
		}
	}
	s := b.Makeset(L)
	try("Makeset", s, e.m.Cube(L, nil))
	if stop {
		return
	}
	try("Not", b.Not(s), e.m.Not(e.m.Cube(L, nil)))
	if stop {
		return
	}
	x, y := L[0], L[len(L)-1]
	try("Xor", b.Apply(b.Ithvar(x), b.Ithvar(y), rudd.OPxor), e.m.Apply(ref.Ops["xor"], e.m.Var(x), e.m.Var(y)))
	if stop {
		return
	}
	try("Ite", b.Ite(b.Ithvar(y), b.Ithvar(x), s), e.m.Ite(e.m.Var(y), e.m.Var(x), e.m.Cube(L, nil)))
	e.tick("recovered")
	if e.focus {
		e.nt = true
	}
}

// operands gives the registers read by an operation.
func operands(op Op) ([]int, bool) {
	switch op.K {
	case "not", "exist", "replace":
		return []int{op.A}, true
	case "imp", "equiv", "apply", "appex":
		return []int{op.A, op.B}, true
	case "ite":
		return []int{op.A, op.B, op.C}, true
	case "and", "or":
		return op.L, true
	case "fn", "makeset", "makecube":
		return nil, true
	}
	return nil, false
}

// opRetry makes the operation that has just failed again, after all references
// but its operands (N = 0: also those of other registers) were dropped. It must
// succeed if there is room for the nodes that it makes in a table without limit.
func opRetry(e *Exec, op Op) {
	l := e.lastFail
	if l == nil || l.k != e.k-1 || e.cfg.Varnum > 1000 {
		return
	}
	e.lastFail = nil
	regs, ok := operands(l.op)
	if !ok {
		return
	}
	use := map[int]bool{}
	for _, i := range regs {
		use[i] = true
	}
	for i := range e.regs {
		if use[i] && e.regs[i].f != l.fs[i] {
			return
		}
		if !use[i] && i >= op.N {
			e.regs[i] = Reg{}
		}
		e.pins[i] = nil
	}
	// how many nodes does the operation make?
	cfg := plainConfig(e.cfg)
	cfg.Nodesize = 2*cfg.Varnum + 20000
	e2 := newExec(&Profile{ID: e.p.ID, Focus: map[string]bool{}}, cfg, map[string]int{})
	e2.m = e.m
	for i := range use {
		if i < 0 || i >= NREG || e.regs[i].n == nil {
			return
		}
		e2.regs[i] = Reg{e2.kernel(e.regs[i].f), e.regs[i].f}
	}
	if m := e.repm[l.op.N]; l.op.K == "replace" {
		var o, w []int
		for a := range m {
			o = append(o, a)
		}
		sort.Ints(o)
		for _, a := range o {
			w = append(w, m[a])
		}
		r, err := e2.b.NewReplacer(o, w)
		if err != nil {
			return
		}
		e2.reps[l.op.N], e2.repm[l.op.N] = r, m
	}
	s0, ok0 := e2.stat()
	e2.step(0, l.op)
	s1, ok1 := e2.stat()
	if !ok0 || !ok1 || s1.gc != s0.gc {
		return
	}
	need := s1.produced - s0.produced
	e.goGC()
	if e.cfg.Maxnode == 0 {
		return
	}
	live := e.liveNodes()
	max := primeBelow(e.cfg.Maxnode)
	if live+need+leakSlack > max {
		e.tick("retry_no_room")
		return
	}
	e.tick("retry")
	e.op, e.lastFail = l.op, nil
	ops[l.op.K](e, l.op)
	e.op = op
	if e.lastFail != nil && !e.staleRefs(live, need) {
		e.fail("%s failed at the limit; references were dropped, but it fails again although %d nodes are in use and it needs at most %d, of %d", l.op.K, live, need, e.cfg.Maxnode)
	}
	e.lastFail = nil
}

func opNoerr(e *Exec, op Op) {
	if !e.err && e.b.Errored() {
		e.fail("only valid calls were made but the error status is %q", e.b.Error())
	}
	if !e.b.Errored() && e.b.Error() != "" || e.b.Errored() && e.b.Error() == "" {
		e.fail("Errored() = %v but Error() = %q", e.b.Errored(), e.b.Error())
	}
}
