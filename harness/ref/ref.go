// Package ref is the reference model: a deliberately simple, unbounded,
// hash-consed decision diagram with no garbage collection, no lossy cache and
// no connection with the code under test. Two functions are equal iff their
// ids are equal. Its own correctness is checked against truth tables in
// ref_test.go.
package ref

import (
	"math/big"
)

type rnode struct{ lv, lo, hi int }

// F is a Boolean function (an id in the manager). 0 is false and 1 is true.
type F = int

type M struct {
	N     int // number of variables
	nodes []rnode
	uniq  map[rnode]F
	ite   map[[3]int]F
	big   map[F]*big.Int
}

func New(n int) *M {
	m := &M{N: n, uniq: map[rnode]F{}, ite: map[[3]int]F{}}
	m.nodes = []rnode{{n, 0, 0}, {n, 1, 1}}
	return m
}

// Mk returns the function "if x_lv then hi else lo"; lv must be above both.
func (m *M) Mk(lv int, lo, hi F) F {
	if lo == hi {
		return lo
	}
	k := rnode{lv, lo, hi}
	if f, ok := m.uniq[k]; ok {
		return f
	}
	m.nodes = append(m.nodes, k)
	f := len(m.nodes) - 1
	m.uniq[k] = f
	return f
}

func (m *M) Level(f F) int { return m.nodes[f].lv }
func (m *M) Low(f F) F     { return m.nodes[f].lo }
func (m *M) High(f F) F    { return m.nodes[f].hi }
func (m *M) Var(i int) F   { return m.Mk(i, 0, 1) }
func (m *M) NVar(i int) F  { return m.Mk(i, 1, 0) }

func (m *M) cof(f F, lv int) (F, F) {
	if n := m.nodes[f]; f > 1 && n.lv == lv {
		return n.lo, n.hi
	}
	return f, f
}

func (m *M) Ite(f, g, h F) F {
	if f == 1 {
		return g
	}
	if f == 0 {
		return h
	}
	if g == h {
		return g
	}
	k := [3]int{f, g, h}
	if r, ok := m.ite[k]; ok {
		return r
	}
	lv := m.nodes[f].lv
	if l := m.nodes[g].lv; l < lv {
		lv = l
	}
	if l := m.nodes[h].lv; l < lv {
		lv = l
	}
	f0, f1 := m.cof(f, lv)
	g0, g1 := m.cof(g, lv)
	h0, h1 := m.cof(h, lv)
	r := m.Mk(lv, m.Ite(f0, g0, h0), m.Ite(f1, g1, h1))
	m.ite[k] = r
	return r
}

func (m *M) Not(f F) F { return m.Ite(f, 0, 1) }

// Ops gives the truth table of each binary operator, by name, as results for
// (0,0) (0,1) (1,0) (1,1). It is written from the documentation of Apply.
var Ops = map[string][4]int{
	"and":    {0, 0, 0, 1},
	"xor":    {0, 1, 1, 0},
	"or":     {0, 1, 1, 1},
	"nand":   {1, 1, 1, 0},
	"nor":    {1, 0, 0, 0},
	"imp":    {1, 1, 0, 1},
	"biimp":  {1, 0, 0, 1},
	"diff":   {0, 0, 1, 0},
	"less":   {0, 1, 0, 0},
	"invimp": {1, 0, 1, 1},
}

// Apply combines f and g with a truth table: ite(f, g?t11:t10, g?t01:t00).
func (m *M) Apply(t [4]int, f, g F) F {
	return m.Ite(f, m.Ite(g, t[3], t[2]), m.Ite(g, t[1], t[0]))
}

func (m *M) And(f, g F) F { return m.Ite(f, g, 0) }
func (m *M) Or(f, g F) F  { return m.Ite(f, 1, g) }

// Cofactor restricts variable i to v.
func (m *M) Cofactor(f F, i int, v bool) F {
	memo := map[F]F{}
	var rec func(f F) F
	rec = func(f F) F {
		n := m.nodes[f]
		if n.lv > i {
			return f
		}
		if n.lv == i {
			if v {
				return n.hi
			}
			return n.lo
		}
		if r, ok := memo[f]; ok {
			return r
		}
		r := m.Mk(n.lv, rec(n.lo), rec(n.hi))
		memo[f] = r
		return r
	}
	return rec(f)
}

// Exist quantifies the variables of vs, one at a time.
func (m *M) Exist(f F, vs []int) F {
	for _, v := range vs {
		f = m.Or(m.Cofactor(f, v, false), m.Cofactor(f, v, true))
	}
	return f
}

// Rename substitutes simultaneously variable i by img(i).
func (m *M) Rename(f F, img func(int) int) F {
	memo := map[F]F{}
	var rec func(f F) F
	rec = func(f F) F {
		if f < 2 {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := m.nodes[f]
		r := m.Ite(m.Var(img(n.lv)), rec(n.hi), rec(n.lo))
		memo[f] = r
		return r
	}
	return rec(f)
}

// Compose substitutes function g for variable i in f.
func (m *M) Compose(f F, i int, g F) F {
	return m.Ite(g, m.Cofactor(f, i, true), m.Cofactor(f, i, false))
}

// Cube is the conjunction of the literals (vs[k], pol[k]).
func (m *M) Cube(vs []int, pol []bool) F {
	r := 1
	for k, v := range vs {
		if pol == nil || pol[k] {
			r = m.And(m.Var(v), r)
		} else {
			r = m.And(m.NVar(v), r)
		}
	}
	return r
}

// Count is the number of satisfying assignments over all N variables.
func (m *M) Count(f F) *big.Int {
	memo := map[F]*big.Int{}
	// rec counts over the variables from level(f) to N-1
	var rec func(f F) *big.Int
	rec = func(f F) *big.Int {
		if f < 2 {
			return big.NewInt(int64(f))
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := m.nodes[f]
		a := new(big.Int).Lsh(rec(n.lo), uint(m.nodes[n.lo].lv-n.lv-1))
		c := new(big.Int).Lsh(rec(n.hi), uint(m.nodes[n.hi].lv-n.lv-1))
		r := a.Add(a, c)
		memo[f] = r
		return r
	}
	return new(big.Int).Lsh(rec(f), uint(m.nodes[f].lv))
}

// Paths counts the paths to 1, saturating at limit.
func (m *M) Paths(f F, limit int) int {
	memo := map[F]int{}
	var rec func(f F) int
	rec = func(f F) int {
		if f < 2 {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		r := rec(m.nodes[f].lo) + rec(m.nodes[f].hi)
		if r > limit {
			r = limit
		}
		memo[f] = r
		return r
	}
	return rec(f)
}

// Eval evaluates f at an assignment.
func (m *M) Eval(f F, a func(int) bool) bool {
	for f > 1 {
		if a(m.nodes[f].lv) {
			f = m.nodes[f].hi
		} else {
			f = m.nodes[f].lo
		}
	}
	return f == 1
}

// Reach returns the non-constant nodes reachable from the roots.
func (m *M) Reach(roots ...F) map[F]bool {
	seen := map[F]bool{}
	var rec func(f F)
	rec = func(f F) {
		if f < 2 || seen[f] {
			return
		}
		seen[f] = true
		rec(m.nodes[f].lo)
		rec(m.nodes[f].hi)
	}
	for _, f := range roots {
		rec(f)
	}
	return seen
}

// Support returns the set of variables f depends on.
func (m *M) Support(f F) map[int]bool {
	s := map[int]bool{}
	for g := range m.Reach(f) {
		s[m.nodes[g].lv] = true
	}
	return s
}

// FromTable builds the function over the given (increasing) levels whose value
// at the assignment with index i (bit j of i is the value of lv[j]) is bit(i).
func (m *M) FromTable(lv []int, bit func(i int) bool) F {
	var rec func(j, i int) F
	rec = func(j, i int) F {
		if j == len(lv) {
			if bit(i) {
				return 1
			}
			return 0
		}
		return m.Mk(lv[j], rec(j+1, i), rec(j+1, i|1<<j))
	}
	return rec(0, 0)
}
