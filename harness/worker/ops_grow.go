package main

import (
	"math/big"
	"strings"
)

func primeAbove(n int) int {
	for !big.NewInt(int64(n)).ProbablyPrime(5) {
		n++
	}
	return n
}

// cacheSizes reads the number of entries of the caches, which Stats reports
// with the build tag debug.
func (e *Exec) cacheSizes() map[string]int {
	s := e.b.Stats()
	r := map[string]int{}
	for _, k := range []string{"== Apply cache", "== ITE cache", "== Quant cache", "== AppEx cache", "== Replace"} {
		if v, ok := field(s, k); ok {
			r[strings.TrimPrefix(k, "== ")] = v
		}
	}
	return r
}

func (e *Exec) checkCaches(st Stat, when string) {
	if !debugBuild {
		return
	}
	size := 10000
	if e.cfg.Cachesize > 0 {
		size = e.cfg.Cachesize
	}
	if e.cfg.Cacheratio > 0 && st.allocated > e.alloc0 {
		size = int(int64(st.allocated) * int64(e.cfg.Cacheratio) / 100)
	}
	for k, v := range e.cacheSizes() {
		if v < size || v > primeAbove(max(size, 3)) {
			e.fail("%s %d entries in %s; Cachesize %d, Cacheratio %d and %d nodes ask for %d", when, v, k, e.cfg.Cachesize, e.cfg.Cacheratio, st.allocated, size)
		}
		e.tick("cache_sizes")
	}
}

// opGrow allocates nodes one at a time, keeping some, and checks each decision
// to collect or to grow against the options.
func opGrow(e *Exec, op Op) {
	e.b.Initref()
	e.garbage() // the literals
	st, ok := e.stat()
	if !ok {
		e.tick("stats_unreadable")
		return
	}
	if e.alloc0 == 0 {
		e.alloc0 = st.allocated
		want := 2*e.cfg.Varnum + 2
		if e.cfg.Nodesize > want {
			want = e.cfg.Nodesize
		}
		if st.gc == 0 {
			if hi := primeAbove(want); st.allocated < want && e.cfg.Maxnode == 0 || st.allocated > hi {
				e.fail("the initial table has %d nodes, %d were requested", st.allocated, want)
			}
			e.checkCaches(st, "initially")
		}
	}
	if st.allocated < e.alloc0 {
		e.fail("the table went from %d to %d nodes", e.alloc0, st.allocated)
	}
	minfree := 20
	if e.cfg.Minfree != nil {
		minfree = *e.cfg.Minfree
	}
	maxinc := 1 << 20
	if e.cfg.Maxinc != nil {
		maxinc = *e.cfg.Maxinc
	}
	for i := 0; i < op.N; i++ {
		id := e.garbage()
		s2, ok := e.stat()
		if !ok {
			return
		}
		if id < 0 {
			if e.cfg.Maxnode == 0 {
				e.fail("no room for a node, without a limit (%d nodes, %d free)", s2.allocated, s2.free)
			}
			e.err = true
			e.tick("grow_limit")
			return
		}
		if s2.gc == st.gc {
			if s2.allocated != st.allocated {
				e.fail("the table went from %d to %d nodes without a collection", st.allocated, s2.allocated)
			}
		} else {
			if s2.gc != st.gc+1 {
				e.fail("%d collections for one node", s2.gc-st.gc)
			}
			if st.free != 0 {
				e.fail("a collection was made while there were %d free nodes", st.free)
			}
			inc := s2.allocated - st.allocated
			free := s2.free + 1 - inc // free nodes found by the collection
			capped := e.cfg.Maxnode > 0 && st.allocated >= primeBelow(e.cfg.Maxnode)
			must := (free*100 < minfree*st.allocated || free == 0) && !capped
			mustnot := free > 0 && free*100 >= (minfree+1)*st.allocated
			switch {
			case inc < 0:
				e.fail("the table shrank from %d to %d nodes", st.allocated, s2.allocated)
			case inc == 0 && must:
				e.fail("the table did not grow: %d free nodes out of %d after a collection, Minfreenodes %d", free, st.allocated, minfree)
			case inc > 0 && mustnot:
				e.fail("the table grew to %d: %d free nodes out of %d after a collection, Minfreenodes %d", s2.allocated, free, st.allocated, minfree)
			case inc > 0:
				hi := 2 * st.allocated
				if maxinc > 0 && hi-st.allocated > maxinc {
					hi = st.allocated + maxinc
				}
				if e.cfg.Maxnode > 0 && hi > e.cfg.Maxnode {
					hi = e.cfg.Maxnode
				}
				lo := primeBelow(hi)
				if lo <= st.allocated {
					lo = st.allocated + 1
				}
				if s2.allocated < lo || s2.allocated > hi {
					e.fail("the table grew from %d to %d nodes, expected %d to %d (Maxnodeincrease %d, Maxnodesize %d)", st.allocated, s2.allocated, lo, hi, maxinc, e.cfg.Maxnode)
				}
				e.tick("grown")
				e.checkCaches(s2, "after a growth")
			default:
				e.tick("collected_without_growth")
			}
			if e.focus {
				e.nt = true
			}
		}
		if op.C > 0 && int(mix(e.jn)%100) < op.C {
			if n := e.b.Retnode(id); n != nil {
				e.junk = append(e.junk, n)
			}
		}
		st = s2
	}
}

// opGrowBig fills a table of more than a million nodes with nodes that are all
// referenced, and checks the growth that follows, which the default value of
// Maxnodeincrease limits.
func opGrowBig(e *Exec, op Op) {
	b := e.b
	b.Initref()
	st, ok := e.stat()
	if !ok {
		return
	}
	left := st.free + 1
	var s2 Stat
	pool := []int{0, 1}
	for l := e.cfg.Varnum - 1; l >= 0 && left > 0; l-- {
		var made []int
		last := l == 0
		for i := 0; i < len(pool) && left > 0 && (last || len(made) < 1500); i++ {
			for j := 0; j < len(pool) && left > 0 && (last || len(made) < 1500); j++ {
				if i == j || pool[i] < 2 && pool[j] < 2 {
					continue
				}
				if left == 1 {
					if s2, ok = e.stat(); !ok || s2.free != 0 || s2.gc != st.gc || s2.allocated != st.allocated {
						e.fail("%d new nodes in a table of %d with %d free: now %d nodes, %d free, %d collections", st.free, st.allocated, st.free, s2.allocated, s2.free, s2.gc-st.gc)
					}
				}
				id := b.Makenode(int32(l), pool[i], pool[j])
				if id < 0 {
					e.fail("no room for a node in a table of %d nodes, without a limit", st.allocated)
				}
				b.Pushref(id)
				made = append(made, id)
				left--
			}
		}
		pool = append([]int{0, 1, e.lit(l)}, made...)
		if len(pool) > 1500 {
			pool = pool[:1500]
		}
	}
	if left > 0 {
		return
	}
	s3, _ := e.stat()
	maxinc := 1 << 20
	if e.cfg.Maxinc != nil {
		maxinc = *e.cfg.Maxinc
	}
	hi := 2 * st.allocated
	if maxinc > 0 && hi-st.allocated > maxinc {
		hi = st.allocated + maxinc
	}
	if s3.allocated < primeBelow(hi) || s3.allocated > hi || s3.gc != st.gc+1 {
		e.fail("the table grew from %d to %d nodes after %d collections, expected %d to %d", st.allocated, s3.allocated, s3.gc-st.gc, primeBelow(hi), hi)
	}
	e.tick("grown_big")
	if e.focus {
		e.nt = true
	}
	b.Initref()
}

func (e *Exec) lit(l int) int {
	if n := e.b.Ithvar(l); n != nil {
		return *n
	}
	panic(abort{"no literal"})
}

func init() { ops["growbig"] = opGrowBig }
