package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
)

// panicInRudd tells, from a deferred function that recovered, whether the panic
// was raised inside package rudd.
func panicInRudd() bool {
	pc := make([]uintptr, 64)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	seenPanic := false
	for {
		f, more := fr.Next()
		fn := f.Function
		if fn == "runtime.gopanic" {
			seenPanic = true
		} else if seenPanic && !strings.HasPrefix(fn, "runtime.") {
			if strings.HasPrefix(fn, "github.com/dalzilio/rudd.") {
				return true
			}
			// code of the standard library called by rudd or by the harness
			if dot := strings.IndexByte(strings.SplitN(fn, "/", 2)[0], '.'); strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "verifharness") || dot < 0 && strings.Contains(fn, ".com/") {
				return false
			}
		}
		if !more {
			return false
		}
	}
}

// Result is what running one case gives.
type Result struct {
	Viol    *Violation
	Abort   string
	NT      bool
	Feat    map[string]int
	Harness string // a panic of the harness itself
}

type runOpt struct {
	drop map[string]bool // kinds of operations not executed
	safe bool
	prog func(k int)
}

// guard runs f and classifies the way it ends.
func guard(e **Exec, r *Result, f func()) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		ex := *e
		switch v := x.(type) {
		case *Violation:
			r.Viol = v
			return
		case abort:
			r.Abort = v.msg
			return
		case finalizersStuck:
			if ex != nil && (ex.p.ID == "C11" || ex.p.ID == "C15" || ex.p.ID == "C10") {
				r.Viol = &Violation{Op: ex.k, K: ex.op.K, Msg: "the finalizers of dropped references do not complete"}
				return
			}
			r.Abort = "finalizers stuck"
			return
		}
		in := panicInRudd()
		if !in {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r.Harness = fmt.Sprintf("%v\n%s", x, buf)
			r.Abort = "harness panic"
			return
		}
		if ex != nil && ex.focus {
			r.Viol = &Violation{Op: ex.k, K: ex.op.K, Msg: fmt.Sprintf("panic: %v", x)}
			return
		}
		r.Abort = fmt.Sprintf("panic: %v", x)
	}()
	f()
}

func filterOps(in []Op, drop map[string]bool) []Op {
	if len(drop) == 0 {
		return in
	}
	var out []Op
	for _, o := range in {
		if !drop[o.K] {
			out = append(out, o)
		}
	}
	return out
}

// runOps runs a single-BDD case under a profile.
func runOps(p *Profile, c *Case, opt runOpt) *Result {
	r := &Result{Feat: map[string]int{}}
	e := &Exec{p: p, cfg: c.Cfg, feat: r.Feat, op: Op{K: "new"}}
	e.focus = e.isFocus("new")
	guard(&e, r, func() {
		e = newExec(p, c.Cfg, r.Feat)
		e.safe, e.prog = opt.safe, opt.prog
		e.run(filterOps(c.Ops, opt.drop))
	})
	r.NT = e.nt
	return r
}

// runMulti runs several BDDs, interleaved as Sched says or one per goroutine.
func runMulti(p *Profile, c *Case, opt runOpt) *Result {
	r := &Result{Feat: map[string]int{}}
	n := len(c.Sub)
	es := make([]*Exec, n)
	rs := make([]*Result, n)
	for i := range es {
		rs[i] = &Result{Feat: map[string]int{}}
		es[i] = &Exec{p: p, cfg: c.Sub[i].Cfg, feat: rs[i].Feat, op: Op{K: "new"}, focus: true}
	}
	fin := func() *Result {
		nt := 0
		for i, s := range rs {
			if s.Viol != nil && r.Viol == nil {
				r.Viol = &Violation{Op: s.Viol.Op, K: s.Viol.K, Msg: fmt.Sprintf("BDD %d: %s", i, s.Viol.Msg)}
			}
			if s.Abort != "" {
				r.Abort = s.Abort
			}
			if s.Harness != "" {
				r.Harness = s.Harness
			}
			for k, v := range s.Feat {
				r.Feat[k] += v
			}
			if es[i].nt {
				nt++
			}
		}
		r.NT = nt >= 2
		return r
	}
	if c.Sched == nil {
		r.Feat["concurrent"]++
		var wg sync.WaitGroup
		for i := range es {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				guard(&es[i], rs[i], func() {
					es[i] = newExec(p, c.Sub[i].Cfg, rs[i].Feat)
					es[i].safe = opt.safe
					es[i].run(c.Sub[i].Ops)
				})
			}(i)
		}
		wg.Wait()
		return fin()
	}
	r.Feat["interleaved"]++
	pos := make([]int, n)
	dead := make([]bool, n)
	for i := range es {
		guard(&es[i], rs[i], func() {
			es[i] = newExec(p, c.Sub[i].Cfg, rs[i].Feat)
			es[i].safe = opt.safe
		})
		dead[i] = rs[i].Viol != nil || rs[i].Abort != ""
	}
	for k, i := range c.Sched {
		if i >= n || i < 0 || dead[i] || pos[i] >= len(c.Sub[i].Ops) {
			continue
		}
		if opt.prog != nil {
			opt.prog(k)
		}
		op := c.Sub[i].Ops[pos[i]]
		budget := int(mix(uint64(k)*31+uint64(i)) % 4)
		if es[i] != nil {
			es[i].outer = func() { // an operation of another BDD in a callback of this one
				j := (i + 1 + budget%(n-1)) % n
				if budget <= 0 || dead[j] || pos[j] >= len(c.Sub[j].Ops) {
					return
				}
				budget--
				r.Feat["nested_in_callback"]++
				guard(&es[j], rs[j], func() { es[j].step(pos[j], c.Sub[j].Ops[pos[j]]) })
				pos[j]++
				dead[j] = rs[j].Viol != nil || rs[j].Abort != ""
			}
		}
		guard(&es[i], rs[i], func() { es[i].step(pos[i], op) })
		if es[i] != nil {
			es[i].outer = nil
		}
		pos[i]++
		dead[i] = rs[i].Viol != nil || rs[i].Abort != ""
		if anyViol(rs) {
			break
		}
	}
	return fin()
}

func runCase(p *Profile, c *Case, opt runOpt) *Result {
	if len(c.Sub) > 0 {
		return runMulti(p, c, opt)
	}
	return runOps(p, c, opt)
}

func plainConfig(c Config) Config {
	return Config{Varnum: c.Varnum, Active: c.Active, Obs: c.Obs}
}

// failsAlone runs one of several BDDs in a process of its own, where nothing else
// happened before.
func failsAlone(c *Case) bool {
	f, err := os.CreateTemp("", "alone")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	f.Write(c.JSON())
	f.Close()
	cmd := exec.Command("/proc/self/exe", "-replay", f.Name())
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 atexit_sleep_ms=0 exitcode=66")
	cmd.Run()
	return cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1
}

// judge runs a case and, when it fails, decides whether the failure belongs to
// the property: a failure that remains when the ingredient the property is about
// is taken away is another property's.
func judge(p *Profile, c *Case, prog func(int)) *Result {
	r := runCase(p, c, runOpt{prog: prog})
	if r.Viol == nil {
		return r
	}
	suppress := func(why string) {
		r.Feat["not_attributed"]++
		r.Abort = why + ": " + r.Viol.Error()
		r.Viol = nil
	}
	switch p.ID {
	case "C12":
		d := cloneCase(c)
		d.Cfg = plainConfig(c.Cfg)
		if x := runCase(p, d, runOpt{}); x.Viol != nil {
			if c.Note != "cross" {
				r.Feat["cross_candidate"]++
			}
			suppress("also fails with default options")
		}
	case "C13":
		d := cloneCase(c)
		d.Cfg.Maxnode = 0
		if x := runCase(p, d, runOpt{}); x.Viol != nil {
			suppress("also fails without a limit")
		}
	case "C15":
		if x := runCase(p, c, runOpt{safe: true}); x.Viol != nil && !raceBuild {
			suppress("also fails without the Go collector")
		}
	case "C16":
		for i := range c.Sub {
			if failsAlone(&c.Sub[i]) {
				suppress("also fails alone")
				return r
			}
		}
	case "C10":
		if p.Ablate[r.Viol.K] {
			// a table so large that nothing is ever collected
			d := cloneCase(c)
			d.Cfg = plainConfig(c.Cfg)
			d.Cfg.Nodesize = 2*c.Cfg.Varnum + 100000
			if x := runCase(p, d, runOpt{safe: true, drop: set("fill", "gogc")}); x.Viol != nil {
				suppress("also fails with all operands held and no collection")
			}
		}
	default:
		if len(p.Ablate) > 0 && !p.Ablate[r.Viol.K] {
			if x := runCase(p, c, runOpt{drop: p.Ablate}); x.Viol != nil {
				suppress("also fails without the calls under test")
			}
		}
	}
	return r
}

func anyViol(rs []*Result) bool {
	for _, r := range rs {
		if r.Viol != nil {
			return true
		}
	}
	return false
}
