package main

import (
	"runtime"

	"github.com/dalzilio/rudd"
	"verifharness/ref"
)

// opEndure repeats one kind of operation C times, long enough for identifiers of
// one or two bytes to wrap around. Every result is compared with a node held
// since the beginning, so that a repetition costs about a microsecond.
func opEndure(e *Exec, op Op) {
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) < 4 {
		return
	}
	switch op.S {
	case "quant":
		e.endureQuant(op, L[:4])
	case "replace":
		e.endureReplace(op, L)
	case "gc":
		e.endureGC(op)
	case "bool":
		e.endureBool(op, L[:4])
	}
}

// someFns gives functions over L (up to four levels) that depend on every level.
func (e *Exec) someFns(L []int, n, seed int) (fs []ref.F, ns []rudd.Node) {
	s := uint64(seed) + 5
	for len(fs) < n {
		s = mix(s)
		q := s
		f := e.m.FromTable(L, func(i int) bool { return q>>(i%64)&1 == 1 })
		if len(e.m.Support(f)) != len(L) {
			continue
		}
		x := e.kernel(f)
		if x == nil {
			panic(abort{"kernel construction failed"})
		}
		fs, ns = append(fs, f), append(ns, x)
	}
	return
}

func (e *Exec) heldNode(held map[ref.F]rudd.Node, f ref.F) rudd.Node {
	if n, ok := held[f]; ok {
		return n
	}
	n := e.kernel(f)
	if n == nil {
		panic(abort{"kernel construction failed"})
	}
	held[f] = n
	return n
}

// endureQuant quantifies the variable L[0] once (and then never again, or every
// N-th time), and the others C times.
func (e *Exec) endureQuant(op Op, L []int) {
	const nf = 6
	fs, ns := e.someFns(L, nf, op.N)
	sets := [][]int{{L[0]}, {L[1]}, {L[2]}, {L[1], L[2]}, {L[3]}, {L[2], L[3]}}
	if op.B&1 == 1 { // the rare variable is the last one
		sets = [][]int{{L[3]}, {L[1]}, {L[2]}, {L[0], L[2]}, {L[0]}, {L[1], L[2]}}
	}
	var sn []rudd.Node
	held := map[ref.F]rudd.Node{}
	var ex [nf][6]rudd.Node
	var ap [nf][nf][4][6]rudd.Node
	for s := range sets {
		sn = append(sn, e.b.Makeset(sets[s]))
		for i := range fs {
			ex[i][s] = e.heldNode(held, e.m.Exist(fs[i], sets[s]))
			for j := range fs {
				for o := 0; o < 4; o++ {
					ap[i][j][o][s] = e.heldNode(held, e.m.Exist(e.m.Apply(ref.Ops[opByIndex[o].name], fs[i], fs[j]), sets[s]))
				}
			}
		}
	}
	r := uint64(op.N)
	for k := 0; k < op.C; k++ {
		r = mix(r)
		s := 1 + k%5
		if k == 0 || op.A > 0 && k%op.A == 0 {
			s = 0
		}
		i, j, o := int(r>>8%nf), int(r>>16%nf), int(r>>24%4)
		var got, want rudd.Node
		what := "Exist"
		if op.B&2 == 0 || r>>32&1 == 0 {
			got, want = e.b.Exist(ns[i], sn[s]), ex[i][s]
		} else {
			what = "AppEx"
			got, want = e.b.AppEx(ns[i], ns[j], opByIndex[o].op, sn[s]), ap[i][j][o][s]
		}
		if got == nil {
			e.fail("%s returned nil at repetition %d: %q", what, k, e.b.Error())
		}
		if *got != *want {
			f, _ := e.observeWith(1, got)
			g, _ := e.observeWith(1, want)
			if f == g {
				panic(abort{"two nodes for the same function"})
			}
			e.fail("%s over variables %v denotes %s at repetition %d, expected %s", what, sets[s], e.show(f), k, e.show(g))
		}
	}
	e.tick("endure_quant")
	e.nt = e.nt || e.focus
}

// endureReplace creates C replacers, used alternately on the same operands.
func (e *Exec) endureReplace(op Op, L []int) {
	if len(L) < 6 {
		return
	}
	fs, ns := e.someFns(L[:2], 2, op.N)
	var maps []map[int]int
	for i := 2; i < len(L); i++ {
		for j := 2; j < len(L); j++ {
			if i != j {
				maps = append(maps, map[int]int{L[0]: L[i], L[1]: L[j]})
			}
		}
		maps = append(maps, map[int]int{L[1]: L[i]}, map[int]int{L[0]: L[i]})
	}
	held := map[ref.F]rudd.Node{}
	want := make([][2]rudd.Node, len(maps))
	for k, m := range maps {
		for i := range fs {
			want[k][i] = e.heldNode(held, e.m.Rename(fs[i], func(v int) int {
				if w, ok := m[v]; ok {
					return w
				}
				return v
			}))
		}
	}
	type used struct {
		r rudd.Replacer
		m int
	}
	var old []used
	s := uint64(op.N)
	try := func(k int, u used) {
		for i := range ns {
			got := e.b.Replace(ns[i], u.r)
			if got == nil {
				e.fail("Replace returned nil at repetition %d: %q", k, e.b.Error())
			}
			if *got != *want[u.m][i] {
				f, _ := e.observeWith(1, got)
				g, _ := e.observeWith(1, want[u.m][i])
				if f == g {
					panic(abort{"two nodes for the same function"})
				}
				e.fail("Replace(%s, %v) denotes %s at repetition %d, expected %s", e.show(fs[i]), maps[u.m], e.show(f), k, e.show(g))
			}
		}
	}
	for k := 0; k < op.C; k++ {
		s = mix(s)
		m := int(s >> 7 % uint64(len(maps)))
		if m < 0 {
			m = -m
		}
		var o, w []int
		for a, b := range maps[m] {
			o, w = append(o, a), append(w, b)
		}
		r, err := e.b.NewReplacer(o, w)
		if err != nil {
			e.fail("NewReplacer(%v, %v) refused at repetition %d: %v", o, w, k, err)
		}
		u := used{r, m}
		try(k, u)
		if k < 50 || k%5000 == 0 {
			old = append(old, u)
		}
		if k%97 == 0 {
			try(k, old[int(mix(s)&0x7fffffff%uint64(len(old)))])
		}
	}
	e.tick("endure_replace")
	e.nt = e.nt || e.focus
}

// endureGC makes the BDD collect C times, looking at the registers from time to
// time.
func (e *Exec) endureGC(op Op) {
	st, ok := e.stat()
	if !ok {
		return
	}
	g0 := st.gc
	last := 0
	e.b.Initref()
	for t := 0; st.gc-g0 < op.C && t < 300*op.C; t++ {
		for i := 0; i < 8*(st.free+1) && i < 2000; i++ {
			if e.garbage() < 0 {
				return
			}
		}
		old := st
		if st, ok = e.stat(); !ok {
			return
		}
		if op.A > 0 && (st.gc < old.gc || st.produced < old.produced) {
			e.fail("GC went from %d to %d, Produced from %d to %d", old.gc, st.gc, old.produced, st.produced)
		}
		if st.gc-g0-last > 700 {
			last = st.gc - g0
			e.verifyAll()
			if op.A > 0 {
				opStats(e, Op{K: "stats", N: 3})
			}
		}
		if t == 2000 && st.gc == g0 {
			e.tick("endure_gc_none")
			return
		}
	}
	e.verifyAll()
	e.tick("endure_gc")
	e.nt = e.nt || e.focus
}

// endureBool mixes C Boolean operations over a few operands.
func (e *Exec) endureBool(op Op, L []int) {
	const nf = 5
	fs, ns := e.someFns(L, nf, op.N)
	held := map[ref.F]rudd.Node{}
	var ap [10][nf][nf]rudd.Node
	var it [nf][nf][nf]rudd.Node
	for i := range fs {
		for j := range fs {
			for o := range opByIndex {
				ap[o][i][j] = e.heldNode(held, e.m.Apply(ref.Ops[opByIndex[o].name], fs[i], fs[j]))
			}
			for k := range fs {
				it[i][j][k] = e.heldNode(held, e.m.Ite(fs[i], fs[j], fs[k]))
			}
		}
	}
	r := uint64(op.N)
	for t := 0; t < op.C; t++ {
		r = mix(r)
		i, j, k, o := int(r>>8%nf), int(r>>16%nf), int(r>>24%nf), int(r>>32%10)
		var got, want rudd.Node
		what := opByIndex[o].name
		if r>>40&3 == 0 {
			what = "ite"
			got, want = e.b.Ite(ns[i], ns[j], ns[k]), it[i][j][k]
		} else {
			got, want = e.b.Apply(ns[i], ns[j], opByIndex[o].op), ap[o][i][j]
		}
		if got == nil {
			e.fail("%s returned nil at repetition %d: %q", what, t, e.b.Error())
		}
		if *got != *want {
			f, _ := e.observeWith(1, got)
			g, _ := e.observeWith(1, want)
			if f == g {
				panic(abort{"two nodes for the same function"})
			}
			e.fail("%s denotes %s at repetition %d, expected %s", what, e.show(f), t, e.show(g))
		}
	}
	e.tick("endure_bool")
	e.nt = e.nt || e.focus
}

// opKDeep pushes N nodes, among which B are distinct and unreachable otherwise,
// then collects and looks at them, at several depths of the stack.
func opKDeep(e *Exec, op Op) {
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) < 4 {
		return
	}
	L = L[:4]
	x := e.b
	x.Initref()
	var ids []int
	var fs []ref.F
	s := uint64(op.C)
	build := func(f ref.F) int {
		n := 0
		memo := map[ref.F]int{}
		var rec func(f ref.F) int
		rec = func(f ref.F) int {
			if f < 2 {
				return f
			}
			if id, ok := memo[f]; ok {
				return id
			}
			lo := rec(e.m.Low(f))
			hi := rec(e.m.High(f))
			if lo < 0 || hi < 0 {
				return -1
			}
			id := x.Makenode(int32(e.m.Level(f)), lo, hi)
			x.Pushref(id)
			n++
			memo[f] = id
			return id
		}
		id := rec(f)
		x.Popref(n)
		return id
	}
	lits := []int{}
	for _, l := range L {
		lits = append(lits, *x.Ithvar(l), *x.NIthvar(l))
	}
	period := op.N/op.B + 1
	depth := 0
	var at []int
	for depth < op.N {
		if depth%period == period-1 || depth == op.N-1 {
			s = mix(s)
			q := s
			f := e.m.FromTable(L, func(i int) bool { return q>>(i%64)&1 == 1 })
			id := build(f)
			if id < 0 {
				e.fail("Makenode failed: %q", x.Error())
			}
			x.Pushref(id)
			ids, fs, at = append(ids, id), append(fs, f), append(at, depth)
		} else {
			x.Pushref(lits[depth%len(lits)])
		}
		depth++
	}
	check := func() {
		act := e.activeMap()
		memo := map[int]ref.F{}
		for i := range ids {
			if at[i] >= depth {
				return
			}
			f, err := importSnap(e.m, act, ids[i], memo)
			if err != nil || f != fs[i] {
				e.fail("pushed node %d (position %d of %d) denotes %s (%v) after a collection, it was %s", ids[i], at[i], depth, e.show(f), err, e.show(fs[i]))
			}
		}
	}
	for _, d := range []int{depth, depth - 1, depth * 15 / 16, 65537, 65536, 65535, 40000, 32769, 32768, 32767, 1025, 1024, 300, 256, 255, 128, 64, 16} {
		if d > depth {
			continue
		}
		x.Popref(depth - d)
		depth = d
		e.goGC()
		for k := 0; k < 3; k++ {
			if !e.forceGC() {
				break
			}
			e.tick("kdeep_gc")
		}
		check()
	}
	x.Initref()
	e.nt = e.nt || e.focus
	e.tick("kdeep")
}

// opRefstress takes and drops references to the same nodes while the Go
// collector runs in the background, then checks that held nodes are kept and
// that nodes that are not held any more are reclaimed.
func opRefstress(e *Exec, op Op) {
	L := clip(sortedSet(op.L), e.cfg.Varnum)
	if len(L) < 6 || e.cfg.Varnum > 5000 {
		return
	}
	const nf, batch = 6, 280
	fs, ns := e.someFns(L[:6], nf, op.C)
	ids := make([]int, nf)
	for i := range ns {
		ids[i] = *ns[i]
	}
	var hold []rudd.Node // only used in safe mode
	stop, done := make(chan struct{}), make(chan struct{})
	if !e.safe {
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}()
	} else {
		close(done)
	}
	ended := false
	end := func() {
		if !ended {
			ended = true
			close(stop)
			<-done
		}
	}
	defer end()
	take := func(n int) (xs []rudd.Node) {
		for k := 0; k < n; k++ {
			for i := range ns {
				var x rudd.Node
				switch (k + i) % 3 {
				case 0:
					x = e.b.Retnode(ids[i])
				case 1:
					x = e.b.And(ns[i], ns[i])
				default:
					x = e.b.Or(ns[i], e.b.False())
				}
				if x == nil || *x != ids[i] {
					e.fail("a reference to node %d could not be obtained: %q", ids[i], e.b.Error())
				}
				xs = append(xs, x)
			}
		}
		return
	}
	look := func(t int) {
		for i := range ns {
			if f, err := e.observe(ns[i]); err != nil || f != fs[i] {
				e.fail("round %d: held node %d denotes %s (%v), it was %s", t, *ns[i], e.show(f), err, e.show(fs[i]))
			}
		}
	}
	e.b.Initref()
	for t := 0; t < op.N; t++ {
		xs := take(batch)
		if e.safe {
			hold = append(hold, xs...)
		}
		for i := range ns { // the remaining reference is one of the batch
			ns[i] = xs[(t%batch)*nf+i]
		}
		for i := range xs {
			xs[i] = nil
		}
		xs = take(batch) // while finalizers run
		if e.safe {
			hold = append(hold, xs...)
		}
		xs = nil
		for i := 0; i < 30; i++ {
			e.garbage()
		}
		goGC() // so that there are never more than a thousand references
		if t%8 == 7 {
			e.forceGC()
			look(t)
		}
	}
	e.forceGC()
	look(op.N)
	keep := hold
	end()
	if !e.safe {
		for i := range ns {
			ns[i] = nil
		}
		opLeak(e, op)
	}
	_ = keep
	e.tick("refstress")
	e.nt = e.nt || e.focus
}
