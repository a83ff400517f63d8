// Command worker runs generated cases of one property against the rudd package
// it is linked with.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Out is what a worker writes.
type Out struct {
	Prop      string         `json:"prop"`
	Build     string         `json:"build"`
	Shard     int            `json:"shard"`
	Cases     int            `json:"cases"`
	NonTriv   int            `json:"nontrivial"`
	Hashes    []uint64       `json:"hashes"`
	Feat      map[string]int `json:"feat"`
	Aborts    map[string]int `json:"aborts"`
	Samples   []*Case        `json:"samples"`
	Viol      *Case          `json:"viol,omitempty"`
	ViolOrig  *Case          `json:"viol_orig,omitempty"`
	ViolMsg   string         `json:"viol_msg,omitempty"`
	ViolOp    string         `json:"viol_op,omitempty"`
	ViolIdx   int            `json:"viol_idx"`
	Cross     []*Case        `json:"cross,omitempty"`
	Hang      bool           `json:"hang,omitempty"`
	HangIdx   int            `json:"hang_idx"`
	HangOp    string         `json:"hang_op,omitempty"`
	HangFocus bool           `json:"hang_focus,omitempty"`
	HangWhy   string         `json:"hang_why,omitempty"`
	Done      bool           `json:"done"`
	CPU       float64        `json:"cpu"`
	Next      int            `json:"next"`
	Rule      string         `json:"rule"`
}

func buildName() string {
	s := implName
	if debugBuild {
		s += "-debug"
	}
	if raceBuild {
		s += "-race"
	}
	if bits.UintSize == 32 {
		s += "-386"
	}
	return s
}

func caseAt(p *Profile, seed int64, tier string, shard, idx int) *Case {
	// the build does not enter the seed: every build sees the same cases
	g := newGen(mix(uint64(seed))^mix(uint64(shard)<<40|uint64(idx)), tier)
	return p.Gen(g)
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	n := flag.Int("n", 0, "number of random cases (default: that of the tier)")
	scale := flag.Int("scale", 100, "percentage of the number of cases of the tier")
	deadline := flag.Int("deadline", 0, "start no new case after that many seconds")
	focusof := flag.String("focusof", "", "IDX,OP: print the kind of an operation if the property is about it")
	start := flag.Int("start", -1000, "first case (negative: special cases)")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "result file")
	progress := flag.String("progress", "", "progress file")
	replay := flag.String("replay", "", "case file to run")
	dump := flag.Int("dump", -999999, "print the case with this index")
	one := flag.Bool("one", false, "run only the case -start")
	last := flag.Int("last", -999999, "index of the last case")
	limit := flag.Int("limit", 60, "CPU seconds per case")
	gogc := flag.Int("gogc", -1, "GOGC")
	noshrink := flag.Bool("noshrink", false, "do not shrink")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if debugBuild {
		log.SetOutput(discard)
	}
	debug.SetGCPercent(*gogc)
	// what the runtime has not collected does not count as used by an operation
	debug.SetMemoryLimit(3 << 29)
	if *replay != "" {
		os.Exit(replayFile(*replay, *limit))
	}
	p := profiles[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	var special []*Case
	if p.Special != nil {
		special = p.Special(*tier, *shard)
	}
	get := func(i int) *Case {
		if i < 0 {
			return special[i+len(special)]
		}
		return caseAt(p, *seed, *tier, *shard, i)
	}
	if *dump != -999999 {
		c := get(*dump)
		c.Impl = buildName()
		os.Stdout.Write(c.JSON())
		return
	}
	if *focusof != "" {
		var idx, k int
		fmt.Sscanf(*focusof, "%d,%d", &idx, &k)
		c := get(idx)
		kind := kindOf(c, k)
		if p.Focus["*"] || p.Focus[kind] || len(c.Sub) > 0 {
			fmt.Println(kind)
		}
		return
	}
	if *n == 0 {
		*n = p.QuickN
		if *tier == "thorough" {
			*n = p.ThoroughN
		}
		*n = *n * *scale / 100
	}
	t0 := time.Now()
	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	o := &Out{Prop: *prop, Build: buildName(), Shard: *shard, Feat: map[string]int{}, Aborts: map[string]int{}, Rule: p.Rule}
	write := func() {
		o.CPU = cpuTime().Seconds()
		b, _ := json.Marshal(o)
		if *out != "" {
			os.WriteFile(*out+".tmp", b, 0o644)
			os.Rename(*out+".tmp", *out)
		}
	}
	var curIdx, curOp, startCPU atomic.Int64
	curIdx.Store(-1 << 40)
	note := func(idx, op int) {
		curOp.Store(int64(op))
		if pf != nil {
			var b [16]byte
			binary.LittleEndian.PutUint64(b[:], uint64(int64(idx)))
			binary.LittleEndian.PutUint64(b[8:], uint64(int64(op)))
			pf.WriteAt(b[:], 0)
		}
	}
	if *start < -len(special) {
		*start = -len(special)
	}
	end := *n
	if *one {
		end = *start + 1
	} else if *last != -999999 {
		end = *last + 1
	}
	go watchdog(&curIdx, &curOp, &startCPU, *limit, get, p, func(why string, idx int, k string) {
		h := &Out{Prop: *prop, Build: buildName(), Shard: *shard, Hang: true, HangIdx: idx, HangOp: k, HangWhy: why, HangFocus: p.Focus["*"] || p.Focus[k]}
		b, _ := json.Marshal(h)
		if *out != "" {
			os.WriteFile(*out+".hang", b, 0o644)
		}
		os.Exit(4)
	})
	seen := map[uint64]bool{}
	lastGC := 0
	for i := *start; i < end; i++ {
		if *deadline > 0 && time.Since(t0) > time.Duration(*deadline)*time.Second {
			o.Feat["stopped_by_the_clock"]++
			break
		}
		c := get(i)
		startCPU.Store(int64(cpuTime()))
		note(i, -1)
		curIdx.Store(int64(i))
		r := judge(p, c, func(k int) { note(i, k) })
		o.Cases++
		o.Next = i + 1
		for k, v := range r.Feat {
			if strings.HasSuffix(k, "_max") {
				if v > o.Feat[k] {
					o.Feat[k] = v
				}
			} else {
				o.Feat[k] += v
			}
		}
		if r.Harness != "" {
			if o.Feat["harness_panics"] == 0 {
				fmt.Fprintf(os.Stderr, "harness panic in case %d: %s\n", i, r.Harness)
			}
			o.Feat["harness_panics"]++
		}
		if r.Abort != "" {
			m := r.Abort
			if len(m) > 60 {
				m = m[:60]
			}
			if len(o.Aborts) < 30 {
				o.Aborts[m]++
			}
			o.Feat["aborted"]++
			if r.Feat["cross_candidate"] > 0 && len(o.Cross) < 3 {
				c.Impl = buildName()
				o.Cross = append(o.Cross, c)
			}
		}
		if r.NT && r.Viol == nil {
			if h := c.Hash(); !seen[h] {
				seen[h] = true
				o.NonTriv++
				if len(o.Samples) < 2 && len(c.JSON()) < 4000 {
					o.Samples = append(o.Samples, c)
				}
			}
		}
		if r.Viol != nil {
			c.Impl = buildName()
			o.Viol, o.ViolMsg, o.ViolOp, o.ViolIdx = c, r.Viol.Error(), r.Viol.K, i
			write()
			if !*noshrink {
				curIdx.Store(-1 << 40)
				c2, r2 := shrink(p, c, r, 20*time.Second)
				o.ViolOrig = c
				o.Viol, o.ViolMsg, o.ViolOp = c2, r2.Viol.Error(), r2.Viol.K
			}
			break
		}
		if lastGC++; lastGC >= 40 && *gogc < 0 {
			runtime.GC()
			lastGC = 0
		}
	}
	curIdx.Store(-1 << 40)
	for h := range seen {
		o.Hashes = append(o.Hashes, h)
	}
	sort.Slice(o.Hashes, func(i, j int) bool { return o.Hashes[i] < o.Hashes[j] })
	o.Done = true
	write()
	if o.Viol != nil {
		fmt.Println("violation:", o.ViolMsg)
		os.Exit(1)
	}
}

// kindOf is the kind of the operation number k of a case.
func kindOf(c *Case, k int) string {
	if k >= 0 && k < len(c.Ops) {
		return c.Ops[k].K
	}
	return "new"
}

// rss is the resident memory of the process.
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscanf(string(b), "%d %d", &size, &res)
	return res * int64(os.Getpagesize())
}

// watchdog stops the process when one case uses too much processor time, or
// none at all for a long time (deadlock).
func watchdog(curIdx, curOp, startCPU *atomic.Int64, limit int, get func(int) *Case, p *Profile, fire func(why string, idx int, k string)) {
	idle := 0
	last := int64(-1 << 40)
	lastCPU := cpuTime()
	for {
		time.Sleep(time.Second)
		i := curIdx.Load()
		now := cpuTime()
		if i == -1<<40 {
			idle = 0
			last = i
			lastCPU = now
			continue
		}
		kind := func() string { return kindOf(get(int(i)), int(curOp.Load())) }
		if i != last || now-lastCPU > 20*time.Millisecond {
			idle = 0
		} else {
			idle++
		}
		last, lastCPU = i, now
		l := time.Duration(limit) * time.Second
		if i < 0 {
			l *= 6
		}
		if now-time.Duration(startCPU.Load()) > l {
			fire("uses too much processor time", int(i), kind())
		}
		if c := get(int(i)); rss() > 3<<30 && (c == nil || c.Cfg.Cacheratio < 100000 || rss() > 6<<30) {
			fire("uses too much memory", int(i), kind())
		}
		if idle >= 90 {
			fire("is blocked", int(i), kind())
		}
	}
}

// replayFile runs a saved case and prints what happens.
func replayFile(f string, limit int) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := profiles[c.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
		return 2
	}
	for _, o := range c.Ops {
		if o.K == "wrapset" {
			limit *= 6
		}
	}
	var curIdx, curOp, startCPU atomic.Int64
	startCPU.Store(int64(cpuTime()))
	go watchdog(&curIdx, &curOp, &startCPU, limit, func(int) *Case { return &c }, p, func(why string, idx int, k string) {
		fmt.Printf("hang: operation %s %s\n", k, why)
		os.Exit(4)
	})
	r := judge(p, &c, func(k int) { curOp.Store(int64(k)) })
	if r.Viol != nil {
		fmt.Println("violation:", r.Viol.Error())
		return 1
	}
	if r.Abort != "" {
		fmt.Println("aborted:", r.Abort, r.Harness)
		return 3
	}
	var ks []string
	for k := range r.Feat {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Println("held;", len(ks), "features")
	return 0
}
