package main

// opBigFree fills a table of more than 2^31/100 nodes with nodes that nothing
// references. The next collection frees nearly all of them, so that the table
// must not grow: the percentage of free nodes does not fit in 32 bits before the
// division.
func opBigFree(e *Exec, op Op) {
	b := e.b
	b.Initref()
	st, ok := e.stat()
	if !ok || st.allocated < 1000 || st.allocated < 20*op.N || e.cfg.Varnum > 20 || e.cfg.Minfree != nil || e.cfg.Maxnode > 0 {
		return // not nearly all free
	}
	s := st
	pool := []int{0, 1}
	for l := e.cfg.Varnum - 1; l >= 0 && s.free > 0; l-- {
		n := op.N
		if l == 0 {
			n = s.free
		}
		var made []int
		for i := 0; i < len(pool) && len(made) < n; i++ {
			for j := 0; j < len(pool) && len(made) < n; j++ {
				if i == j || pool[i] < 2 && pool[j] < 2 {
					continue
				}
				id := b.Makenode(int32(l), pool[i], pool[j])
				if id < 0 {
					e.fail("no room for a node in a table of %d nodes, without a limit", st.allocated)
				}
				if l > 0 || len(made) == 0 {
					made = append(made, id)
				} else if n--; n == 0 {
					break
				}
			}
		}
		pool = append([]int{0, 1, e.lit(l)}, made...)
		if s, ok = e.stat(); !ok {
			return
		}
	}
	for k := 0; s.gc == st.gc && k < 20; k++ { // the few nodes left, and one more
		e.garbage()
		s, _ = e.stat()
	}
	if s.gc == st.gc {
		e.tick("big_free_inexact")
		return
	}
	if s.free < s.allocated/2 || s.gc != st.gc+1 || s.allocated != st.allocated {
		e.fail("a table of %d nodes that nothing references was collected %d times and has %d nodes, %d free", st.allocated, s.gc-st.gc, s.allocated, s.free)
	}
	e.tick("big_free")
	if e.focus {
		e.nt = true
	}
}

func init() {
	ops["bigfree"] = opBigFree
	also("C21", func(tier string, shard int) []*Case {
		switch {
		case debugBuild: // caches with more than 2^31/100 entries
			return []*Case{{Prop: "C21", Note: "C20", Cfg: Config{Varnum: 12, Active: []int{0, 1}, Nodesize: 1100, Cachesize: 100, Cacheratio: 1000000, Minfree: ip(50), Maxnode: 2210},
				Ops: []Op{{K: "grow", N: 4000, C: 80}}}}
		case shard == 1 || shard == 5:
			return []*Case{{Prop: "C21", Note: "C20", Cfg: Config{Varnum: 9, Active: []int{0, 1}, Nodesize: 21600000, Cachesize: 50}, Ops: []Op{{K: "bigfree", N: 4700}}}}
		}
		return nil
	})
}
