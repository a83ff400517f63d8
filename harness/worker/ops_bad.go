package main

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"

	"github.com/dalzilio/rudd"
)

func mkNode(i int) rudd.Node { return &i }

// badNode makes an illegal node. C selects the kind.
func (e *Exec) badNode(c int) (rudd.Node, string) {
	st, ok := e.stat()
	switch c % 7 {
	case 0, 1:
		return nil, "nil"
	case 2:
		return mkNode(-1), "-1"
	case 3:
		if ok {
			return mkNode(st.allocated), "one past the table"
		}
	case 4:
		return mkNode(math.MaxInt32), "maxint32"
	case 5: // a slot of the table that holds no node
		if act, err := e.activeIDs(); ok && err == nil {
			for i := 2; i < st.allocated; i++ {
				if !act[i] {
					return mkNode(i), fmt.Sprintf("unused slot %d", i)
				}
			}
		}
	case 6:
		return mkNode(math.MinInt), "minint"
	}
	return nil, "nil"
}

var badVars = []func(n int) int{
	func(n int) int { return -1 },
	func(n int) int { return n },
	func(n int) int { return n + 1 },
	func(n int) int { return math.MaxInt32 },
	func(n int) int { return math.MinInt32 },
	func(n int) int { return pow2(32) },
	func(n int) int { return pow2(32) + n - 1 },
	func(n int) int { return math.MaxInt },
	func(n int) int { return math.MinInt },
	func(n int) int { return -n },
	func(n int) int { return 1 << 21 },
	func(n int) int { return pow2(31) },
}

// pow2 is 2^k, or the largest integer on a platform where this is too large.
func pow2(k int) int {
	if k >= bits.UintSize-1 {
		return math.MaxInt - 63 + k
	}
	return 1 << k
}

const nBadKinds = 48

// opBad makes one invalid call. N selects the call, C the illegal node, B the
// illegal variable; A and L give valid operands.
func opBad(e *Exec, op Op) {
	a, ok := e.reg(op.A)
	if !ok {
		a = Reg{e.b.True(), 1}
	}
	b := e.b
	v := a.n
	n := e.cfg.Varnum
	bv := badVars[((op.B%len(badVars))+len(badVars))%len(badVars)](n)
	L := clip(sortedSet(op.L), n)
	if len(L) == 0 {
		L = []int{0}
	}
	set := b.Makeset(L)
	bad, badName := e.badNode(op.C) // after the last allocation
	var what string
	var before []Reg = append([]Reg(nil), e.regs[:]...)
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case *Violation, abort:
				panic(x)
			}
			if !panicInRudd() {
				panic(x)
			}
			e.fail("%s panics: %v", what, x)
		}
	}()
	node := func(w string, f func() rudd.Node) rudd.Node {
		what = fmt.Sprintf("%s with an illegal node (%s)", w, badName)
		r := f()
		if r != nil {
			e.fail("%s returned node %d instead of nil", what, *r)
		}
		if !b.Errored() || b.Error() == "" {
			e.fail("%s did not set the error status", what)
		}
		return r
	}
	other := func(w string, f func() string) {
		what = w
		if s := f(); s != "" {
			e.fail("%s: %s", w, s)
		}
		if !b.Errored() || b.Error() == "" {
			e.fail("%s did not set the error status", w)
		}
	}
	oi := opByIndex[((op.B%10)+10)%10]
	res := rudd.Node(nil)
	k := ((op.N % nBadKinds) + nBadKinds) % nBadKinds
	e.tick(fmt.Sprintf("bad_%02d", k))
	switch k {
	case 0:
		res = node("Not", func() rudd.Node { return b.Not(bad) })
	case 1:
		res = node("Apply "+oi.name+" left", func() rudd.Node { return b.Apply(bad, v, oi.op) })
	case 2:
		res = node("Apply "+oi.name+" right", func() rudd.Node { return b.Apply(v, bad, oi.op) })
	case 3:
		res = node("Apply "+oi.name+" both", func() rudd.Node { return b.Apply(bad, bad, oi.op) })
	case 4:
		res = node("And first", func() rudd.Node { return b.And(bad, v) })
	case 5:
		res = node("And last", func() rudd.Node { return b.And(v, v, bad) })
	case 6:
		res = node("Or first", func() rudd.Node { return b.Or(bad, v, v) })
	case 7:
		res = node("Or last", func() rudd.Node { return b.Or(v, bad) })
	case 8:
		res = node("Imp", func() rudd.Node { return b.Imp(v, bad) })
	case 9:
		res = node("Equiv", func() rudd.Node { return b.Equiv(bad, v) })
	case 10:
		res = node("Ite 1", func() rudd.Node { return b.Ite(bad, v, v) })
	case 11:
		res = node("Ite 2", func() rudd.Node { return b.Ite(v, bad, v) })
	case 12:
		res = node("Ite 3", func() rudd.Node { return b.Ite(v, v, bad) })
	case 13:
		res = node("Exist node", func() rudd.Node { return b.Exist(bad, set) })
	case 14:
		res = node("Exist set", func() rudd.Node { return b.Exist(v, bad) })
	case 15:
		res = node("AppEx left", func() rudd.Node { return b.AppEx(bad, v, rudd.OPor, set) })
	case 16:
		res = node("AppEx right", func() rudd.Node { return b.AppEx(v, bad, rudd.OPand, set) })
	case 17:
		res = node("AppEx set", func() rudd.Node { return b.AppEx(v, v, rudd.OPxor, bad) })
	case 18:
		res = node("AndExist", func() rudd.Node { return b.AndExist(v, bad, set) })
	case 19:
		res = node("AppEx with the empty set", func() rudd.Node { return b.AppEx(bad, v, rudd.OPnand, b.True()) })
	case 20:
		r, err := b.NewReplacer(nil, nil)
		if err != nil {
			panic(abort{err.Error()})
		}
		res = node("Replace", func() rudd.Node { return b.Replace(bad, r) })
	case 21:
		res = node("Low", func() rudd.Node { return b.Low(bad) })
	case 22:
		res = node("High", func() rudd.Node { return b.High(bad) })
	case 23:
		other("Label of an illegal node ("+badName+")", func() string {
			if l := b.Label(bad); l != -1 {
				return fmt.Sprintf("returned %d instead of -1", l)
			}
			return ""
		})
	case 24:
		other("Label of a constant", func() string {
			if l := b.Label(b.From(op.B&1 == 1)); l != -1 {
				return fmt.Sprintf("returned %d instead of -1", l)
			}
			return ""
		})
	case 25:
		other("Scanset of an illegal node ("+badName+")", func() string {
			if l := b.Scanset(bad); l != nil {
				return fmt.Sprintf("returned %v instead of nil", l)
			}
			return ""
		})
	case 26:
		other("Satcount of an illegal node ("+badName+")", func() string {
			if c := b.Satcount(bad); c == nil || c.Sign() != 0 {
				return fmt.Sprintf("returned %v instead of 0", c)
			}
			return ""
		})
	case 27:
		other("Allsat of an illegal node ("+badName+")", func() string {
			calls := 0
			if err := b.Allsat(func([]int) error { calls++; return nil }, bad); err == nil || calls > 0 {
				return fmt.Sprintf("returned %v after %d calls", err, calls)
			}
			return ""
		})
	case 28, 29:
		other("Allnodes of an illegal node ("+badName+")", func() string {
			ns := []rudd.Node{v, bad}
			if k == 29 {
				ns = []rudd.Node{bad}
			}
			calls := 0
			if err := b.Allnodes(func(int, int, int, int) error { calls++; return nil }, ns...); err == nil || calls > 0 {
				return fmt.Sprintf("returned %v after %d calls", err, calls)
			}
			return ""
		})
	case 30:
		what = "Equal with an illegal node"
		if b.Equal(nil, v) || b.Equal(v, nil) || !b.Equal(nil, nil) {
			e.fail("Equal with nil operands is wrong")
		}
	case 31:
		what = "Print of an illegal node"
		var buf bytes.Buffer
		b.Print(&buf, bad)
		if !b.Errored() {
			e.fail("Print of an illegal node (%s) did not set the error status", badName)
		}
		if buf.Len() == 0 {
			e.fail("Print of an illegal node (%s) wrote nothing", badName)
		}
	case 32:
		what = "Dot of an illegal node"
		var buf bytes.Buffer
		if err := b.Dot(&buf, bad); err == nil {
			e.fail("Dot of an illegal node (%s) returned nil", badName)
		}
		if !b.Errored() {
			e.fail("Dot of an illegal node (%s) did not set the error status", badName)
		}
	case 33:
		other(fmt.Sprintf("Ithvar(%d)", bv), func() string {
			if bv >= 0 && bv < n {
				return ""
			}
			if r := b.Ithvar(bv); r != nil {
				return fmt.Sprintf("returned node %d instead of nil", *r)
			}
			return ""
		})
	case 34:
		other(fmt.Sprintf("NIthvar(%d)", bv), func() string {
			if r := b.NIthvar(bv); r != nil {
				return fmt.Sprintf("returned node %d instead of nil", *r)
			}
			return ""
		})
	case 35, 36:
		vs := append(append([]int(nil), L...), bv)
		if k == 36 {
			vs = append([]int{bv}, L...)
		}
		other(fmt.Sprintf("Makeset(%v)", vs), func() string {
			if r := b.Makeset(vs); r != b.False() {
				return "did not return False"
			}
			return ""
		})
	case 37, 38:
		vs := append(append([]int(nil), L...), bv)
		if k == 38 || bv < 0 {
			vs = append([]int{bv}, L...)
		}
		if bv >= n && k == 38 { // keep the indices increasing: anything else is outside the contract
			vs = []int{bv}
		}
		pol := make([]bool, len(vs))
		for i := range pol {
			pol[i] = (op.B+i)%3 == 0
		}
		other(fmt.Sprintf("Makecube(%v)", vs), func() string {
			if r := b.Makecube(vs, pol); r != nil {
				return fmt.Sprintf("returned node %d instead of nil", *r)
			}
			return ""
		})
	case 39:
		other("Makecube with slices of different lengths", func() string {
			pol := make([]bool, len(L)+1+op.B%2)
			if op.B%3 == 0 {
				pol = make([]bool, len(L)-1)
			}
			if r := b.Makecube(L, pol); r != nil {
				return fmt.Sprintf("returned node %d instead of nil", *r)
			}
			return ""
		})
	case 40:
		other("Makecube(nil, pol) with a wrong length", func() string {
			w := n + 1
			if op.B%2 == 0 {
				w = n - 1
			}
			if r := b.Makecube(nil, make([]bool, w)); r != nil {
				return fmt.Sprintf("returned node %d instead of nil", *r)
			}
			return ""
		})
	case 41:
		o := []rudd.Operator{10, 11, 12, 13, 100, -1, math.MaxInt32}[((op.B%7)+7)%7]
		other(fmt.Sprintf("Apply with operator %d", int(o)), func() string {
			if r := b.Apply(v, b.Ithvar(L[0]), o); r != nil {
				return fmt.Sprintf("returned node %d instead of nil", *r)
			}
			return ""
		})
	case 42:
		o := []rudd.Operator{4, 5, 6, 7, 8, 9, 10, 11, 50, -1}[((op.B%10)+10)%10]
		other(fmt.Sprintf("AppEx with operator %d", int(o)), func() string {
			if r := b.AppEx(v, b.Ithvar(L[0]), o, set); r != nil {
				return fmt.Sprintf("returned node %d instead of nil", *r)
			}
			return ""
		})
	case 43: // a chain of calls on failed results
		x := b.Ithvar(-1)
		for i := 0; i < 5 && x == nil; i++ {
			w := (op.B + i*7) % 6
			bad, badName = x, "nil result of a failed call"
			switch w {
			case 0:
				x = node("And", func() rudd.Node { return b.And(v, b.Not(x)) })
			case 1:
				x = node("Ite", func() rudd.Node { return b.Ite(x, v, x) })
			case 2:
				x = node("Exist", func() rudd.Node { return b.Exist(b.Or(v, x), set) })
			case 3:
				x = node("AndExist", func() rudd.Node { return b.AndExist(v, x, set) })
			case 4:
				x = node("Equiv", func() rudd.Node { return b.Equiv(b.Low(x), b.High(x)) })
			default:
				x = node("Apply", func() rudd.Node { return b.Apply(x, x, oi.op) })
			}
		}
		if c := b.Satcount(x); c == nil || c.Sign() != 0 {
			e.fail("Satcount of a failed result is %v", c)
		}
	case 44, 45: // an illegal node anywhere in a list
		q := mix(uint64(op.B)<<20 ^ uint64(op.A)<<8 ^ uint64(op.C))
		ns := make([]rudd.Node, 1+q%7)
		for i := range ns {
			ns[i] = v
			if r := e.regs[int(q>>(8+3*uint(i))%NREG)]; r.n != nil && q>>(40+uint(i))&3 != 0 {
				ns[i] = r.n
			}
		}
		at := int(q >> 32 % uint64(len(ns)))
		ns[at] = bad
		where := fmt.Sprintf(" of %d nodes, the one at %d", len(ns), at)
		if k := q >> 56 % 5; k < 2 && bad != nil && *bad >= 0 && *bad < math.MaxInt32 {
			// the evaluation of the rest of the list may make this node
			ns[at], bad, badName = nil, nil, "nil"
		}
		switch q >> 56 % 5 {
		case 0:
			res = node("And"+where, func() rudd.Node { return b.And(ns...) })
		case 1:
			res = node("Or"+where, func() rudd.Node { return b.Or(ns...) })
		case 2:
			other("Allnodes"+where+" illegal ("+badName+")", func() string {
				calls := 0
				if err := b.Allnodes(func(int, int, int, int) error { calls++; return nil }, ns...); err == nil || calls > 0 {
					return fmt.Sprintf("returned %v after %d calls", err, calls)
				}
				return ""
			})
		case 3:
			other("Dot"+where+" illegal ("+badName+")", func() string {
				var buf bytes.Buffer
				if err := b.Dot(&buf, ns...); err == nil {
					return "returned nil"
				}
				return ""
			})
		case 4:
			other("Print"+where+" illegal ("+badName+")", func() string {
				var buf bytes.Buffer
				b.Print(&buf, ns...)
				if buf.Len() == 0 {
					return "wrote nothing"
				}
				return ""
			})
		}
	case 46, 47: // an illegal variable anywhere in a list
		at := op.A
		if at < 0 {
			at = -at
		}
		at %= len(L) + 1
		vs := append(append(append([]int(nil), L[:at]...), bv), L[at:]...)
		if k == 46 {
			other(fmt.Sprintf("Makeset(%v)", vs), func() string {
				if r := b.Makeset(vs); r != b.False() {
					return "did not return False"
				}
				return ""
			})
		} else {
			pol := make([]bool, len(vs))
			for i := range pol {
				pol[i] = (op.B+i)%3 == 0
			}
			other(fmt.Sprintf("Makecube(%v)", vs), func() string {
				if r := b.Makecube(vs, pol); r != nil {
					return fmt.Sprintf("returned node %d instead of nil", *r)
				}
				return ""
			})
		}
	}
	_ = res
	e.err = e.err || b.Errored()
	what = "reading valid nodes after " + what
	for i, r := range before {
		if e.regs[i].n != r.n {
			panic(abort{"registers changed"})
		}
	}
	if e.focus {
		e.nt = true
	}
	e.tick("bad_calls")
}

// opBadRep calls NewReplacer with an invalid pair of slices.
func opBadRep(e *Exec, op Op) {
	n := e.cfg.Varnum
	L := clip(sortedSet(op.L), n)
	V := clip(sortedSet(op.V), n)
	in := map[int]bool{}
	for _, x := range L {
		in[x] = true
	}
	var W []int
	for _, x := range V {
		if !in[x] {
			W = append(W, x)
		}
	}
	k := len(L)
	if len(W) < k {
		k = len(W)
	}
	old := append([]int(nil), L[:k]...)
	nw := append([]int(nil), W[:k]...)
	bv := badVars[((op.B%len(badVars))+len(badVars))%len(badVars)](n)
	at := 0
	if k > 0 {
		at = op.C % k
	}
	var why string
	switch op.N % 7 {
	case 0:
		why = "lengths differ"
		if k > 0 && op.C&1 == 0 {
			old = old[:k-1]
		} else {
			nw = append(nw, 0)
		}
	case 1:
		if k == 0 {
			return
		}
		why = "variable repeated in oldvars"
		if len(W) <= k {
			return
		}
		old = append(old, old[at])
		nw = append(nw, W[k])
	case 2:
		if k == 0 || len(L) <= k {
			return
		}
		why = "variable repeated in newvars"
		old = append(old, L[k])
		nw = append(nw, nw[at])
	case 3:
		if k == 0 {
			old, nw = []int{bv}, []int{0}
		} else {
			old[at] = bv
		}
		why = "out of range variable in oldvars"
	case 4:
		if k == 0 {
			old, nw = []int{0}, []int{bv}
		} else {
			nw[at] = bv
		}
		why = "out of range variable in newvars"
	case 5:
		why = "out of range variable in both"
		old, nw = append(old, bv), append(nw, bv)
	case 6:
		if k == 0 || len(W) <= k && len(L) <= k {
			return
		}
		why = "variable both replaced and new"
		if len(W) > k && op.C&1 == 0 { // old[at] becomes nw[at], which becomes another one
			old, nw = append(old, nw[at]), append(nw, W[k])
		} else if len(L) > k {
			old, nw = append(old, L[k]), append(nw, old[at])
		} else {
			return
		}
	}
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case *Violation, abort:
				panic(x)
			}
			if !panicInRudd() {
				panic(x)
			}
			e.fail("NewReplacer(%v, %v) (%s) panics: %v", old, nw, why, x)
		}
	}()
	if n := len(old); n == len(nw) && n > 1 { // in any order
		p := int(mix(uint64(op.C*31+op.B)) >> 8 % uint64(n))
		old = append(append([]int(nil), old[p:]...), old[:p]...)
		nw = append(append([]int(nil), nw[p:]...), nw[:p]...)
	}
	r, err := e.b.NewReplacer(old, nw)
	if err == nil {
		e.fail("NewReplacer(%v, %v) accepted (%s)", old, nw, why)
	}
	if r != nil {
		e.fail("NewReplacer(%v, %v) returned an error and a replacer", old, nw)
	}
	e.err = e.err || e.b.Errored()
	e.tick("bad_replacers")
	if e.focus {
		e.nt = true
	}
}

// opBadNew calls New with a bad number of variables.
func opBadNew(e *Exec, op Op) {
	vs := []int{0, -1, -op.N - 1, 1 << 21, 1<<21 + op.N, math.MaxInt32, pow2(32), pow2(32) + 1, math.MaxInt, math.MinInt, pow2(31), math.MinInt32}
	v := vs[((op.B%len(vs))+len(vs))%len(vs)]
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case *Violation, abort:
				panic(x)
			}
			if !panicInRudd() {
				panic(x)
			}
			e.fail("New(%d) panics: %v", v, x)
		}
	}()
	c := e.cfg
	c.Varnum = v
	if op.C&1 == 1 {
		c = Config{Varnum: v}
	}
	b, err := newBDD(c)
	if b != nil || err == nil {
		e.fail("New(%d) returned %v, %v", v, b != nil, err)
	}
	e.tick("bad_new")
}
