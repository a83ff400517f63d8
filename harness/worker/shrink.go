package main

import "time"

type shrinker struct {
	p        *Profile
	k        string // kind of the failing operation
	runs     int
	deadline time.Time
	best     *Case
	res      *Result
}

func (s *shrinker) try(c *Case) bool {
	if s.runs > 1500 || time.Now().After(s.deadline) {
		return false
	}
	s.runs++
	r := judge(s.p, c, nil)
	if r.Viol != nil && r.Viol.K == s.k {
		s.best, s.res = c, r
		return true
	}
	return false
}

// shrink makes a failing case smaller.
func shrink(p *Profile, c *Case, r *Result, budget time.Duration) (*Case, *Result) {
	s := &shrinker{p: p, k: r.Viol.K, deadline: time.Now().Add(budget), best: c, res: r}
	for round := 0; round < 4; round++ {
		before := s.runs
		size := len(s.best.JSON())
		if len(s.best.Sub) > 0 {
			s.sched()
		}
		s.ops(-1)
		for i := 0; i < len(s.best.Sub); i++ {
			s.ops(i)
		}
		s.config(-1)
		for i := 0; i < len(s.best.Sub); i++ {
			s.config(i)
		}
		s.args()
		if len(s.best.JSON()) >= size || s.runs == before {
			break
		}
	}
	return s.best, s.res
}

func opsOf(c *Case, i int) *[]Op {
	if i < 0 {
		return &c.Ops
	}
	return &c.Sub[i].Ops
}

func cfgOf(c *Case, i int) *Config {
	if i < 0 {
		return &c.Cfg
	}
	return &c.Sub[i].Cfg
}

// ops removes blocks of operations of decreasing size.
func (s *shrinker) ops(i int) {
	n := len(*opsOf(s.best, i))
	if len(s.best.Sub) > 0 && i < 0 {
		return
	}
	for w := (n + 1) / 2; w >= 1; w /= 2 {
		for at := len(*opsOf(s.best, i)) - w; at >= 0; at -= w {
			c := cloneCase(s.best)
			o := opsOf(c, i)
			if at+w > len(*o) {
				continue
			}
			*o = append(append([]Op(nil), (*o)[:at]...), (*o)[at+w:]...)
			s.try(c)
		}
		if w == 1 {
			break
		}
	}
}

// sched tries the sequential schedules.
func (s *shrinker) sched() {
	if s.best.Sched == nil {
		return
	}
	c := cloneCase(s.best)
	c.Sched = c.Sched[:0]
	for i := range c.Sub {
		for range c.Sub[i].Ops {
			c.Sched = append(c.Sched, i)
		}
	}
	s.try(c)
}

func (s *shrinker) config(i int) {
	if len(s.best.Sub) > 0 && i < 0 {
		return
	}
	mods := []func(*Config){
		func(c *Config) { c.Minfree = nil },
		func(c *Config) { c.Maxinc = nil },
		func(c *Config) { c.Cacheratio = 0 },
		func(c *Config) { c.Nodesize = 0 },
		func(c *Config) { c.Cachesize = 0 },
		func(c *Config) { c.Obs = 0 },
	}
	for _, m := range mods {
		c := cloneCase(s.best)
		m(cfgOf(c, i))
		if string(c.JSON()) != string(s.best.JSON()) {
			s.try(c)
		}
	}
	// compact the levels
	cf := cfgOf(s.best, i)
	if len(cf.Active) < cf.Varnum {
		used := map[int]int{}
		lv := append([]int(nil), cf.Active...)
		for _, o := range *opsOf(s.best, i) {
			for _, l := range opLevels(&o) {
				lv = append(lv, *l)
			}
		}
		lv = sortedSet(clip(lv, cf.Varnum))
		for k, l := range lv {
			used[l] = k
		}
		if len(lv) > 0 && len(lv) < cf.Varnum {
			c := cloneCase(s.best)
			x := cfgOf(c, i)
			x.Varnum = len(lv)
			x.Active = nil
			for k := range lv {
				x.Active = append(x.Active, k)
			}
			os := *opsOf(c, i)
			for k := range os {
				for _, l := range opLevels(&os[k]) {
					if v, ok := used[*l]; ok {
						*l = v
					}
				}
			}
			s.try(c)
		}
	}
}

// opLevels lists the level arguments of an operation.
func opLevels(o *Op) (r []*int) {
	switch o.K {
	case "var", "nvar":
		r = append(r, &o.N)
	case "and", "or", "allnodes", "dot", "print", "errprint":
		return
	case "newrep", "badrep":
		for i := range o.V {
			r = append(r, &o.V[i])
		}
	}
	for i := range o.L {
		r = append(r, &o.L[i])
	}
	return
}

// args removes elements of lists and lowers numbers.
func (s *shrinker) args() {
	if len(s.best.Sub) > 0 {
		return
	}
	for k := 0; k < len(s.best.Ops); k++ {
		for j := len(s.best.Ops[k].L) - 1; j >= 0; j-- {
			if s.best.Ops[k].K == "newrep" {
				break
			}
			c := cloneCase(s.best)
			o := &c.Ops[k]
			if j >= len(o.L) {
				continue
			}
			o.L = append(append([]int(nil), o.L[:j]...), o.L[j+1:]...)
			s.try(c)
		}
		for _, half := range []bool{true, false} {
			c := cloneCase(s.best)
			o := &c.Ops[k]
			if (o.K == "endure" || o.K == "soak" || o.K == "manyrep" || o.K == "wrapset") && o.C > 1 {
				if half {
					o.C /= 2
				} else {
					o.C--
				}
				s.try(c)
			}
			if o.N > 1 && (o.K == "kdeep" || o.K == "kseq" || o.K == "garbage" || o.K == "grab" || o.K == "ungrab" || o.K == "bulk" || o.K == "churn") {
				if half {
					o.N /= 2
				} else {
					o.N--
				}
				s.try(c)
			}
		}
		if o := s.best.Ops[k]; o.K == "fill" && o.C != 0 {
			c := cloneCase(s.best)
			c.Ops[k].C = 0
			s.try(c)
		}
	}
}
