package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/dalzilio/rudd"
	"verifharness/ref"
)

const NREG = 12

// Violation is raised (as a panic) by a focused assertion that fails.
type Violation struct {
	Op  int    // index of the operation
	K   string // its kind
	Msg string
}

func (v *Violation) Error() string { return fmt.Sprintf("op#%d %s: %s", v.Op, v.K, v.Msg) }

// abort stops a case whose unfocused part went wrong: it proves nothing about
// the property under check.
type abort struct{ msg string }

type Reg struct {
	n rudd.Node
	f ref.F
}

type Exec struct {
	p        *Profile
	cfg      Config
	b        *rudd.BDD
	m        *ref.M
	regs     [NREG]Reg
	pins     [NREG][]rudd.Node
	reps     map[int]rudd.Replacer
	repm     map[int]map[int]int
	alloc0   int           // size of the initial table, once seen
	grabs    map[ref.F]int // references ever created by grab
	junk     []rudd.Node   // external references waiting for a gogc
	jn       uint64        // garbage counter
	jlev     []int
	lits     [][2]int
	k        int // index of current op
	op       Op
	focus    bool
	err      bool // error status known to be set
	feat     map[string]int
	lastRefs [2]int   // see statRefs
	small    *int     // see apart
	shift    int      // see leaked
	again    bool     // see leaked
	ops      []Op     // see leaked
	lastFail *failure // the last operation that failed at the limit
	nt       bool     // a focused assertion on a non-constant was evaluated
	// statistics seen so far (C18)
	lastProduced, lastGC int
	safe                 bool // keep every operand alive and force no collection (ablation)
	prog                 func(k int)
	outer                func() // runs operations of other BDDs, in the middle of an enumeration (C16)
}

func (e *Exec) elsewhere() {
	if e.outer != nil {
		e.outer()
	}
}

// failure is an operation that failed, with the functions of its operands.
type failure struct {
	k  int
	op Op
	fs [NREG]ref.F
}

// Profile says what a property's check asserts and generates.
type Profile struct {
	ID     string
	Focus  map[string]bool // kinds whose result is asserted; "*" for all
	Ablate map[string]bool // kinds removed to decide attribution of a "verify" failure
	Gen    func(g *Gen) *Case
	Rule   string
	// QuickN is the number of cases per shard in the quick tier.
	QuickN, ThoroughN int
	Special           func(tier string, shard int) []*Case // fixed extra cases run first
}

func sliceOf[T any](xs ...T) []T { return xs }

func newBDD(c Config) (*rudd.BDD, error) {
	opts := sliceOf(rudd.Nodesize(0))[:0]
	if c.Nodesize != 0 {
		opts = append(opts, rudd.Nodesize(c.Nodesize))
	}
	if c.Cachesize != 0 {
		opts = append(opts, rudd.Cachesize(c.Cachesize))
	}
	if c.Cacheratio != 0 {
		opts = append(opts, rudd.Cacheratio(c.Cacheratio))
	}
	if c.Minfree != nil {
		opts = append(opts, rudd.Minfreenodes(*c.Minfree))
	}
	if c.Maxinc != nil {
		opts = append(opts, rudd.Maxnodeincrease(*c.Maxinc))
	}
	if c.Maxnode != 0 {
		opts = append(opts, rudd.Maxnodesize(c.Maxnode))
	}
	return rudd.New(c.Varnum, opts...)
}

func (e *Exec) viol(format string, a ...any) {
	panic(&Violation{Op: e.k, K: e.op.K, Msg: fmt.Sprintf(format, a...)})
}

// fail is a violation when the current operation is in focus and ends the case
// otherwise.
func (e *Exec) fail(format string, a ...any) {
	if e.focus {
		e.viol(format, a...)
	}
	panic(abort{fmt.Sprintf(format, a...)})
}

func (e *Exec) tick(s string) { e.feat[s]++ }

// ---------------------------------------------------------------- observers

type rec struct{ level, low, high int }

var errMalformed = errors.New("malformed diagram")

func importSnap(m *ref.M, nodes map[int]rec, root int, memo map[int]ref.F) (ref.F, error) {
	if root == 0 || root == 1 {
		return root, nil
	}
	if f, ok := memo[root]; ok {
		if f < 0 {
			return 0, fmt.Errorf("%w: cycle through node %d", errMalformed, root)
		}
		return f, nil
	}
	r, ok := nodes[root]
	if !ok {
		return 0, fmt.Errorf("%w: node %d is referenced but not present", errMalformed, root)
	}
	memo[root] = -1
	if r.level < 0 || r.level >= m.N {
		return 0, fmt.Errorf("%w: node %d has level %d", errMalformed, root, r.level)
	}
	lo, err := importSnap(m, nodes, r.low, memo)
	if err != nil {
		return 0, err
	}
	hi, err := importSnap(m, nodes, r.high, memo)
	if err != nil {
		return 0, err
	}
	if m.Level(lo) <= r.level && lo > 1 || m.Level(hi) <= r.level && hi > 1 {
		return 0, fmt.Errorf("%w: node %d at level %d has a branch at a level not below", errMalformed, root, r.level)
	}
	f := m.Mk(r.level, lo, hi)
	memo[root] = f
	return f, nil
}

func (e *Exec) snapshot(ns ...rudd.Node) (map[int]rec, error) {
	nodes := map[int]rec{}
	err := e.b.Allnodes(func(id, level, low, high int) error {
		nodes[id] = rec{level, low, high}
		return nil
	}, ns...)
	return nodes, err
}

func (e *Exec) obsAllnodes(n rudd.Node) (ref.F, error) {
	if *n == 0 || *n == 1 {
		return *n, nil
	}
	nodes, err := e.snapshot(n)
	if err != nil {
		return 0, err
	}
	return importSnap(e.m, nodes, *n, map[int]ref.F{})
}

func (e *Exec) obsWalk(n rudd.Node) (ref.F, error) {
	memo := map[int]ref.F{}
	var walk func(n rudd.Node, depth int) (ref.F, error)
	walk = func(n rudd.Node, depth int) (ref.F, error) {
		if n == nil {
			return 0, fmt.Errorf("%w: nil branch", errMalformed)
		}
		id := *n
		if id == 0 || id == 1 {
			return id, nil
		}
		if f, ok := memo[id]; ok {
			return f, nil
		}
		if depth > e.m.N {
			return 0, fmt.Errorf("%w: path longer than the number of variables", errMalformed)
		}
		lv := e.b.Label(n)
		if lv < 0 || lv >= e.m.N {
			return 0, fmt.Errorf("%w: node %d has label %d", errMalformed, id, lv)
		}
		lo, err := walk(e.b.Low(n), depth+1)
		if err != nil {
			return 0, err
		}
		hi, err := walk(e.b.High(n), depth+1)
		if err != nil {
			return 0, err
		}
		if m := e.m; m.Level(lo) <= lv && lo > 1 || m.Level(hi) <= lv && hi > 1 {
			return 0, fmt.Errorf("%w: node %d at level %d has a branch at a level not below", errMalformed, id, lv)
		}
		f := e.m.Mk(lv, lo, hi)
		memo[id] = f
		return f, nil
	}
	return walk(n, 0)
}

var errTooMany = errors.New("too many paths")

func (e *Exec) obsAllsat(n rudd.Node) (ref.F, error) {
	r := 0
	cnt := 0
	err := e.b.Allsat(func(a []int) error {
		cnt++
		if cnt > 400 {
			return errTooMany
		}
		r = e.m.Or(r, e.cubeOf(a))
		return nil
	}, n)
	if cnt > 400 || err != nil {
		return e.obsWalk(n)
	}
	return r, nil
}

func (e *Exec) cubeOf(a []int) ref.F {
	r := 1
	for k := len(a) - 1; k >= 0; k-- {
		switch a[k] {
		case 0:
			r = e.m.Mk(k, r, 0)
		case 1:
			r = e.m.Mk(k, 0, r)
		}
	}
	return r
}

func (e *Exec) observeWith(o int, n rudd.Node) (f ref.F, err error) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(*Violation); ok {
				panic(x)
			}
			f, err = 0, fmt.Errorf("%w: panic while reading: %v", errMalformed, x)
		}
	}()
	switch o {
	case 0:
		return e.obsAllnodes(n)
	case 1:
		return e.obsWalk(n)
	default:
		return e.obsAllsat(n)
	}
}

// observe reads the function denoted by n.
func (e *Exec) observe(n rudd.Node) (ref.F, error) {
	o := e.cfg.Obs
	if e.cfg.Varnum > 200000 {
		o = 1
	}
	return e.observeWith(o, n)
}

// agrees tells whether n denotes want according to some observer: a
// disagreement is reported only when two independent readers confirm it.
func (e *Exec) agrees(n rudd.Node, want ref.F) (ref.F, error, bool) {
	f, err := e.observe(n)
	if err == nil && f == want {
		return f, nil, true
	}
	e.tick("second_observer")
	o := 1
	if e.cfg.Obs == 1 || e.cfg.Varnum > 200000 {
		o = 0
	}
	f2, err2 := e.observeWith(o, n)
	if err2 == nil && f2 == want {
		return f2, nil, true
	}
	return f, err, false
}

func (e *Exec) show(f ref.F) string {
	if f < 2 {
		return []string{"False", "True"}[f]
	}
	var sb strings.Builder
	cnt := 0
	var walk func(f ref.F, pre string)
	walk = func(f ref.F, pre string) {
		if cnt > 12 || f == 0 {
			return
		}
		if f == 1 {
			cnt++
			if cnt > 12 {
				sb.WriteString(" + ...")
				return
			}
			if sb.Len() > 0 {
				sb.WriteString(" + ")
			}
			sb.WriteString(strings.TrimPrefix(pre, "."))
			return
		}
		walk(e.m.Low(f), pre+".!x"+strconv.Itoa(e.m.Level(f)))
		walk(e.m.High(f), pre+".x"+strconv.Itoa(e.m.Level(f)))
	}
	walk(f, "")
	return sb.String()
}

// ---------------------------------------------------------------- registers

func (e *Exec) reg(i int) (Reg, bool) {
	if i < 0 || i >= NREG || e.regs[i].n == nil {
		return Reg{}, false
	}
	return e.regs[i], true
}

// put records the result of an operation and asserts it if in focus.
func (e *Exec) put(d int, n rudd.Node, want ref.F) {
	e.apart()
	if d < 0 || d >= NREG {
		d = 0
	}
	e.pins[d] = nil
	if n == nil {
		if e.cfg.Maxnode > 0 && e.b.Errored() {
			e.err = true
			e.tick("limit_failures")
			e.limitReached()
			e.lastFail = &failure{k: e.k, op: e.op}
			for i, r := range e.regs {
				e.lastFail.fs[i] = r.f
				if r.n == nil {
					e.lastFail.fs[i] = -1
				}
			}
			return
		}
		if e.focus {
			e.viol("valid operation returned nil (error status %q); expected %s", e.b.Error(), e.show(want))
		}
		e.tick("unfocused_nil")
		e.regs[d] = Reg{}
		return
	}
	if e.focus {
		f, err, ok := e.agrees(n, want)
		if !ok {
			if err != nil {
				e.viol("result unreadable: %v; expected %s", err, e.show(want))
			}
			e.viol("result denotes %s, expected %s", e.show(f), e.show(want))
		}
		if !e.err && e.b.Errored() {
			e.viol("valid operation set the error status: %q", e.b.Error())
		}
		e.regs[d] = Reg{n, want}
		e.tick("asserted_results")
		if want > 1 {
			e.tick("asserted_nonconst")
			e.nt = true
		}
		return
	}
	f, err := e.observe(n)
	if err != nil {
		f, err = e.observeWith(1, n)
	}
	if err != nil {
		e.tick("unfocused_unreadable")
		e.regs[d] = Reg{}
		return
	}
	if f != want {
		e.tick("resync")
	}
	e.regs[d] = Reg{n, f}
}

// refresh replaces every reference held in a register by a new one, so that the
// held references do not share a block of memory with one that was dropped: the
// Go runtime keeps small objects that share an allocation block alive together.
func (e *Exec) refresh() {
	for i := range e.regs {
		if e.regs[i].n != nil {
			e.apart()
			if n := e.b.Retnode(*e.regs[i].n); n != nil && *n == *e.regs[i].n {
				e.regs[i].n = n
			}
			e.pins[i] = nil
		}
	}
	e.apart()
}

// apart fills the block of memory (16 bytes) in which the Go runtime is placing
// the small objects, so that a node reference does not share it with one that
// lives longer (they are reclaimed together).
func (e *Exec) apart() {
	const size = unsafe.Sizeof(int(0))
	for i := 0; i < 8; i++ {
		e.small = new(int)
		if uintptr(unsafe.Pointer(e.small))&15 == 16-size {
			break
		}
	}
	e.small = nil
}

// leaked reports references that were dropped but are not reclaimed. On 32-bit
// platforms a reference shares its block of memory with three other objects, and
// sometimes with one that lives longer, which no retry can change; so the
// operations are executed again, with other positions inside the blocks.
func (e *Exec) leaked(format string, a ...any) {
	if unsafe.Sizeof(int(0)) < 8 && e.ops != nil && e.focus {
		if e.again {
			panic(abort{"leak"})
		}
		for i := 1; i <= 12; i++ {
			x := newExec(e.p, e.cfg, map[string]int{})
			x.again, x.shift = true, i
			if x.holds(e.ops[:e.k+1]) {
				e.tick("leak_shared_block")
				return
			}
		}
	}
	e.fail(format, a...)
}

// holds executes operations and tells that no check failed.
func (e *Exec) holds(ops []Op) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	e.run(ops)
	return true
}

// ---------------------------------------------------------------- statistics

type Stat struct{ varnum, allocated, produced, free, used, gc int }

func field(s, name string) (int, bool) {
	i := strings.Index(s, name)
	if i < 0 {
		return 0, false
	}
	s = strings.TrimLeft(s[i+len(name):], " \t")
	j := 0
	for j < len(s) && (s[j] >= '0' && s[j] <= '9' || j == 0 && s[j] == '-') {
		j++
	}
	v, err := strconv.Atoi(s[:j])
	return v, err == nil
}

func (e *Exec) stat() (st Stat, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	s := e.b.Stats()
	oks := [6]bool{}
	st.varnum, oks[0] = field(s, "Varnum:")
	st.allocated, oks[1] = field(s, "Allocated:")
	st.produced, oks[2] = field(s, "Produced:")
	st.free, oks[3] = field(s, "Free:")
	st.used, oks[4] = field(s, "Used:")
	st.gc, oks[5] = field(s, "# of GC:")
	ok = true
	for _, o := range oks {
		ok = ok && o
	}
	return
}

// limitReached checks that a failure happened only once the table could not
// grow any more (C13).
func (e *Exec) limitReached() {
	if st, ok := e.stat(); ok && e.focus {
		if st.allocated < primeBelow(e.cfg.Maxnode) {
			e.viol("operation failed although the table has %d nodes and the limit is %d", st.allocated, e.cfg.Maxnode)
		}
	}
}

func primeBelow(n int) int {
	for n > 2 && !big.NewInt(int64(n)).ProbablyPrime(5) {
		n--
	}
	return n
}

// ---------------------------------------------------------------- collections

// finalizersStuck is raised when the finalizers do not complete.
type finalizersStuck struct{}

type sentinel struct {
	p *int
	x [6]int
}

//go:noinline
func armSentinel(ch chan struct{}) {
	s := &sentinel{}
	s.p = &s.x[0]
	s.p = nil
	runtime.SetFinalizer(s, func(*sentinel) { close(ch) })
}

// goGC runs the Go collector and waits until the finalizers it made runnable
// have run: the finalizers of one collection run before those of the next.
func goGC() {
	for r := 0; r < 2; r++ {
		ch := make(chan struct{})
		armSentinel(ch)
		runtime.GC()
		select {
		case <-ch:
		case <-time.After(60 * time.Second):
			panic(finalizersStuck{})
		}
	}
}

func (e *Exec) goGC() {
	for i := range e.junk {
		e.junk[i] = nil
	}
	e.junk = nil
	goGC()
	e.tick("gogc")
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// garbage makes one node that nothing references (or finds an existing one).
func (e *Exec) garbage() int {
	if e.jlev == nil {
		if e.cfg.Varnum <= 48 {
			for i := 0; i < e.cfg.Varnum; i++ {
				e.jlev = append(e.jlev, i)
			}
		} else {
			s := map[int]bool{}
			for _, a := range e.cfg.Active {
				s[a] = true
			}
			for k := uint64(0); len(s) < 48; k++ {
				s[int(mix(k+77)%uint64(e.cfg.Varnum))] = true
			}
			for a := range s {
				e.jlev = append(e.jlev, a)
			}
			sort.Ints(e.jlev)
		}
	}
	if e.lits == nil { // literals are never reclaimed, their ids do not change
		for _, l := range e.jlev {
			x, y := e.b.NIthvar(l), e.b.Ithvar(l)
			if x == nil || y == nil {
				panic(abort{"no literal"})
			}
			e.lits = append(e.lits, [2]int{*x, *y})
		}
	}
	J := e.jlev
	r := mix(e.jn)
	e.jn++
	i := int(r % uint64(len(J)))
	r = mix(r)
	pick := func() int {
		v := r
		r = mix(r)
		if i == len(J)-1 {
			return int(v & 1)
		}
		w := int(v>>8) & 0xfffff
		if w%9 == 0 {
			return int(v & 1)
		}
		j := i + 1 + w%(len(J)-i-1)
		return e.lits[j][v&1]
	}
	return e.b.Makenode(int32(J[i]), pick(), pick())
}

// fill makes garbage until exactly k free slots are left (force: after at least
// one collection). It does nothing to the reference stack.
func (e *Exec) fill(k int, force bool) {
	st, ok := e.stat()
	max := e.cfg.Nodesize + 2*e.cfg.Varnum + 6000
	if len(e.cfg.Active) > 1000 {
		max += 50000
	}
	if ok && st.allocated > max {
		e.tick("fill_too_big")
		return
	}
	if !ok {
		for i := 0; i < 200; i++ {
			e.garbage()
		}
		return
	}
	if force {
		g0 := st.gc
		for t := 0; t < 4*st.allocated+400; t++ {
			if st.free > 0 {
				for i := st.free; i > 0; i-- {
					e.garbage()
				}
			} else if id := e.garbage(); id < 0 {
				return
			}
			st, _ = e.stat()
			if st.gc > g0 {
				break
			}
			if t > 300 && st.free > 0 {
				e.tick("fill_short")
				return
			}
		}
	}
	for t := 0; st.free > k && t < 40; t++ {
		for i := st.free - k; i > 0; i-- {
			if e.garbage() < 0 {
				return
			}
		}
		st, _ = e.stat()
	}
	if st.free != k {
		e.tick("fill_inexact")
	} else {
		e.tick("fill_exact")
	}
}

// ---------------------------------------------------------------- builders

// spec evaluates a function description in the model.
func (e *Exec) spec(L []int, S string) ref.F {
	m := e.m
	parts := strings.Split(S, ":")
	switch parts[0] {
	case "t": // truth table in hex, least significant nibble first
		h := parts[1]
		return m.FromTable(L, func(i int) bool {
			j := i / 4
			if j >= len(h) {
				return false
			}
			v, _ := strconv.ParseUint(h[j:j+1], 16, 8)
			return v>>(i%4)&1 == 1
		})
	case "par":
		f := 0
		for k := len(L) - 1; k >= 0; k-- {
			f = m.Mk(L[k], f, m.Not(f))
		}
		return f
	case "thr":
		k, _ := strconv.Atoi(parts[1])
		memo := map[[2]int]ref.F{}
		var rec func(j, c int) ref.F
		rec = func(j, c int) ref.F {
			if c >= k {
				return 1
			}
			if j == len(L) {
				return 0
			}
			if f, ok := memo[[2]int{j, c}]; ok {
				return f
			}
			f := m.Mk(L[j], rec(j+1, c), rec(j+1, c+1))
			memo[[2]int{j, c}] = f
			return f
		}
		return rec(0, 0)
	case "mod": // the number of variables that are true, modulo M, is in a set (bits)
		mo, _ := strconv.Atoi(parts[1])
		bits, _ := strconv.Atoi(parts[2])
		if mo < 1 {
			return 0
		}
		row := make([]ref.F, mo)
		for c := range row {
			row[c] = bits >> c & 1
		}
		for k := len(L) - 1; k >= 0; k-- {
			next := make([]ref.F, mo)
			for c := range next {
				next[c] = m.Mk(L[k], row[c], row[(c+1)%mo])
			}
			row = next
		}
		return row[0]
	case "cube":
		f := 1
		for k := len(L) - 1; k >= 0; k-- {
			if parts[1][k%len(parts[1])] == '1' {
				f = m.Mk(L[k], 0, f)
			} else {
				f = m.Mk(L[k], f, 0)
			}
		}
		return f
	case "cnf", "dnf":
		seed, _ := strconv.ParseUint(parts[1], 10, 64)
		nc, _ := strconv.Atoi(parts[2])
		w, _ := strconv.Atoi(parts[3])
		f := 1
		if parts[0] == "dnf" {
			f = 0
		}
		for c := 0; c < nc; c++ {
			// literals of a clause are taken in a window to keep diagrams small
			seed = mix(seed)
			base := int(seed % uint64(len(L)))
			cl := 0
			if parts[0] == "dnf" {
				cl = 1
			}
			for i := 0; i < w; i++ {
				seed = mix(seed)
				v := L[(base+int(seed>>1%7))%len(L)]
				lit := m.Var(v)
				if seed&1 == 0 {
					lit = m.NVar(v)
				}
				if parts[0] == "dnf" {
					cl = m.And(cl, lit)
				} else {
					cl = m.Or(cl, lit)
				}
			}
			if parts[0] == "dnf" {
				f = m.Or(f, cl)
			} else {
				f = m.And(f, cl)
			}
		}
		return f
	}
	return 0
}

// kernel copies a model function into the BDD with the kernel functions only.
func (e *Exec) kernel(f ref.F) rudd.Node {
	if f < 2 {
		return e.b.From(f == 1)
	}
	e.b.Initref()
	memo := map[ref.F]int{}
	var rec func(f ref.F) int
	rec = func(f ref.F) int {
		if f < 2 {
			return f
		}
		if id, ok := memo[f]; ok {
			return id
		}
		lo := rec(e.m.Low(f))
		hi := rec(e.m.High(f))
		if lo < 0 || hi < 0 {
			return -1
		}
		id := e.b.Makenode(int32(e.m.Level(f)), lo, hi)
		if id < 0 {
			memo[f] = -1
			return -1
		}
		e.b.Pushref(id)
		memo[f] = id
		return id
	}
	id := rec(f)
	var n rudd.Node
	if id >= 0 {
		n = e.b.Retnode(id)
	}
	e.b.Initref()
	return n
}

// route builds the model function f through one of several chains of public
// operations.
func (e *Exec) route(f ref.F, style int) rudd.Node {
	b, m := e.b, e.m
	switch style {
	case 0:
		return e.kernel(f)
	case 1: // Shannon expansion with Ite
		memo := map[ref.F]rudd.Node{}
		var rec func(f ref.F) rudd.Node
		rec = func(f ref.F) rudd.Node {
			if f < 2 {
				return b.From(f == 1)
			}
			if n, ok := memo[f]; ok {
				return n
			}
			n := b.Ite(b.Ithvar(m.Level(f)), rec(m.High(f)), rec(m.Low(f)))
			memo[f] = n
			return n
		}
		return rec(f)
	case 2: // sum of cubes
		r := b.False()
		cnt := 0
		var rec func(f ref.F, vs []int, pol []bool)
		rec = func(f ref.F, vs []int, pol []bool) {
			if f == 0 {
				return
			}
			if f == 1 {
				cnt++
				c := b.True()
				if len(vs) > 0 {
					c = b.Makecube(vs, pol)
				}
				r = b.Or(r, c)
				return
			}
			vs = append(vs, m.Level(f))
			rec(m.Low(f), vs, append(pol, false))
			rec(m.High(f), vs, append(pol, true))
		}
		if m.Paths(f, 100000) > 600 {
			return e.route(f, 1)
		}
		rec(f, nil, nil)
		return r
	case 3: // product of negated cubes of the complement
		g := m.Not(f)
		if m.Paths(g, 100000) > 600 {
			return e.route(f, 4)
		}
		r := b.True()
		var rec func(f ref.F, ns []rudd.Node)
		rec = func(f ref.F, ns []rudd.Node) {
			if f == 0 {
				return
			}
			if f == 1 {
				r = b.And(r, b.Not(b.And(ns...)))
				return
			}
			ns = ns[:len(ns):len(ns)]
			rec(m.Low(f), append(ns, b.NIthvar(m.Level(f))))
			rec(m.High(f), append(ns, b.Ithvar(m.Level(f))))
		}
		rec(g, nil)
		return r
	case 4: // (x & hi) xor (!x & lo)
		memo := map[ref.F]rudd.Node{}
		var rec func(f ref.F) rudd.Node
		rec = func(f ref.F) rudd.Node {
			if f < 2 {
				return b.From(f == 1)
			}
			if n, ok := memo[f]; ok {
				return n
			}
			v := m.Level(f)
			n := b.Apply(b.Apply(b.Ithvar(v), rec(m.High(f)), rudd.OPand), b.Apply(b.Ithvar(v), rec(m.Low(f)), rudd.OPless), rudd.OPxor)
			memo[f] = n
			return n
		}
		return rec(f)
	default: // double negation of nand/imp form
		memo := map[ref.F]rudd.Node{}
		var rec func(f ref.F) rudd.Node
		rec = func(f ref.F) rudd.Node {
			if f < 2 {
				return b.From(f == 1)
			}
			if n, ok := memo[f]; ok {
				return n
			}
			v := m.Level(f)
			n := b.And(b.Imp(b.Ithvar(v), rec(m.High(f))), b.Imp(b.NIthvar(v), rec(m.Low(f))))
			memo[f] = n
			return n
		}
		return rec(f)
	}
}

// vset builds a set of variables (increasing levels) in one of several ways.
func (e *Exec) vset(L []int, style int) rudd.Node {
	switch style {
	case 1:
		n := e.b.True()
		for _, v := range L {
			n = e.b.And(n, e.b.Ithvar(v))
		}
		return n
	case 2:
		return e.kernel(e.m.Cube(L, nil))
	default:
		return e.b.Makeset(L)
	}
}

var opByIndex = []struct {
	name string
	op   rudd.Operator
}{
	{"and", rudd.OPand}, {"xor", rudd.OPxor}, {"or", rudd.OPor}, {"nand", rudd.OPnand}, {"nor", rudd.OPnor},
	{"imp", rudd.OPimp}, {"biimp", rudd.OPbiimp}, {"diff", rudd.OPdiff}, {"less", rudd.OPless}, {"invimp", rudd.OPinvimp},
}

func clip(vs []int, n int) []int {
	var r []int
	for _, v := range vs {
		if v >= 0 && v < n {
			r = append(r, v)
		}
	}
	return r
}

func sortedSet(vs []int) []int {
	r := append([]int(nil), vs...)
	sort.Ints(r)
	j := 0
	for i, v := range r {
		if i == 0 || v != r[i-1] {
			r[j] = v
			j++
		}
	}
	return r[:j]
}

// ---------------------------------------------------------------- main step

func (e *Exec) isFocus(k string) bool { return e.p.Focus["*"] || e.p.Focus[k] }

func (e *Exec) step(k int, op Op) {
	e.apart()
	for i := 0; i < e.shift; i++ {
		e.small = new(int)
	}
	e.k, e.op = k, op
	e.focus = e.isFocus(op.K)
	var st0 Stat
	measured := false
	if e.focus {
		st0, measured = e.stat()
	}
	h, ok := ops[op.K]
	if !ok {
		panic(abort{"unknown operation " + op.K})
	}
	h(e, op)
	if e.focus {
		e.tick("op_" + op.K)
		if measured && op.K != "fill" {
			if st1, ok := e.stat(); ok && st1.gc > st0.gc {
				e.tick("gc_inside_op")
				if st1.allocated > st0.allocated {
					e.tick("resize_inside_op")
				} else {
					e.tick("gc_without_resize_inside_op")
				}
			}
		}
	}
	if e.b.Errored() {
		e.err = true
	}
}

// newExec creates the BDD of a case.
func newExec(p *Profile, cfg Config, feat map[string]int) *Exec {
	e := &Exec{p: p, cfg: cfg, feat: feat, reps: map[int]rudd.Replacer{}, repm: map[int]map[int]int{}, lastProduced: -1}
	e.m = ref.New(cfg.Varnum)
	b, err := newBDD(cfg)
	if err != nil || b == nil {
		e.op = Op{K: "new"}
		e.focus = e.isFocus("new")
		e.fail("New(%d, ...) failed: %v", cfg.Varnum, err)
	}
	e.b = b
	return e
}

func (e *Exec) run(ops []Op) {
	e.ops = ops
	for k, op := range ops {
		if e.prog != nil {
			e.prog(k)
		}
		e.step(k, op)
	}
}

// verifyAll checks that every register still denotes its function.
func (e *Exec) verifyAll() {
	for i := range e.regs {
		r := e.regs[i]
		if r.n == nil {
			continue
		}
		f, err, ok := e.agrees(r.n, r.f)
		if !ok {
			if err != nil {
				e.fail("held node (register %d, id %d) unreadable: %v; it denoted %s", i, *r.n, err, e.show(r.f))
			}
			e.fail("held node (register %d, id %d) now denotes %s; it denoted %s", i, *r.n, e.show(f), e.show(r.f))
		}
		if e.focus && r.f > 1 {
			e.nt = true
		}
		for _, p := range e.pins[i] {
			if p == nil || *p != *r.n {
				e.fail("references to the same node differ")
			}
		}
	}
	e.tick("verified")
}

var discard = io.Discard
