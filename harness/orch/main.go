// Command orch runs the check of one property: it builds the worker against the
// working tree of /repo, runs it in several processes, decides what each ending
// means, and writes the evidence file.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Out mirrors the result file of a worker.
type Out struct {
	Prop      string            `json:"prop"`
	Build     string            `json:"build"`
	Shard     int               `json:"shard"`
	Cases     int               `json:"cases"`
	NonTriv   int               `json:"nontrivial"`
	Hashes    []uint64          `json:"hashes"`
	Feat      map[string]int    `json:"feat"`
	Aborts    map[string]int    `json:"aborts"`
	Samples   []json.RawMessage `json:"samples"`
	Viol      json.RawMessage   `json:"viol"`
	ViolOrig  json.RawMessage   `json:"viol_orig"`
	ViolMsg   string            `json:"viol_msg"`
	ViolOp    string            `json:"viol_op"`
	ViolIdx   int               `json:"viol_idx"`
	Cross     []json.RawMessage `json:"cross"`
	Hang      bool              `json:"hang"`
	HangIdx   int               `json:"hang_idx"`
	HangOp    string            `json:"hang_op"`
	HangFocus bool              `json:"hang_focus"`
	HangWhy   string            `json:"hang_why"`
	Done      bool              `json:"done"`
	CPU       float64           `json:"cpu"`
	Next      int               `json:"next"`
	Rule      string            `json:"rule"`
}

type build struct {
	name string // hudd, buddy, ...
	tags string
	race bool
	arch string // GOARCH, when it is not that of the sandbox
}

var allBuilds = map[string]build{
	"hudd":        {"hudd", "", false, ""},
	"buddy":       {"buddy", "buddy", false, ""},
	"hudd-debug":  {"hudd-debug", "debug", false, ""},
	"buddy-debug": {"buddy-debug", "buddy,debug", false, ""},
	"hudd-race":   {"hudd-race", "", true, ""},
	"buddy-race":  {"buddy-race", "buddy", true, ""},

	"hudd-386":  {"hudd-386", "", false, "386"},
	"buddy-386": {"buddy-386", "buddy", false, "386"},

	"hudd-debug-386":  {"hudd-debug-386", "debug", false, "386"},
	"buddy-debug-386": {"buddy-debug-386", "buddy,debug", false, "386"},

	"hudd-debug-race":  {"hudd-debug-race", "debug", true, ""},
	"buddy-debug-race": {"buddy-debug-race", "buddy,debug", true, ""},
}

// plan says which builds a property uses: share is the number of worker
// processes, n scales the number of cases of each, gogc sets the Go collector.
type plan struct {
	build string
	share int
	pct   int
	gogc  int
}

func plansFor(prop string) []plan {
	switch prop {
	case "C12":
		return []plan{{"hudd", 2, 100, -1}, {"buddy", 2, 100, -1}, {"hudd-debug", 2, 100, -1}, {"buddy-debug", 2, 100, -1}}
	case "C15":
		return []plan{{"hudd-race", 3, 100, 4}, {"buddy-race", 3, 100, 4}, {"hudd-debug-race", 1, 100, 4}, {"buddy-debug-race", 1, 100, 4}, {"hudd", 1, 300, 4}, {"buddy", 1, 300, 4}}
	case "C16":
		return []plan{{"hudd", 3, 100, -1}, {"buddy", 3, 100, -1}, {"hudd-race", 1, 20, 20}, {"buddy-race", 1, 20, 20}}
	case "C18":
		return []plan{{"hudd", 3, 100, -1}, {"buddy", 3, 100, -1}, {"hudd-debug", 1, 100, -1}, {"buddy-debug", 1, 100, -1}}
	case "C21":
		return []plan{{"hudd-386", 4, 100, -1}, {"buddy-386", 4, 100, -1}, {"hudd-debug-386", 1, 50, -1}, {"buddy-debug-386", 1, 50, -1}}
	case "C20":
		return []plan{{"hudd", 2, 100, -1}, {"buddy", 2, 100, -1}, {"hudd-debug", 2, 100, -1}, {"buddy-debug", 2, 100, -1}}
	}
	return []plan{{"hudd", 4, 100, -1}, {"buddy", 4, 100, -1}, {"hudd-debug", 1, 60, -1}, {"buddy-debug", 1, 60, -1}}
}

var (
	root     = "/verif"
	bdir     string
	prop     = flag.String("prop", "", "property")
	tier     = flag.String("tier", "quick", "tier")
	replayF  = flag.String("replay", "", "replay a saved case")
	warm     = flag.Bool("warm", false, "only build")
	seedFlag = flag.Int64("seed", 0, "seed (default VERIF_SEED)")
	scale    = flag.Int("scale", 100, "percentage of the number of cases")
	jobsN    = flag.Int("jobs", 0, "parallel processes")
	mu       sync.Mutex

	// running is cancelled some time after a violation was found, when the other
	// processes have had a chance to find a smaller one.
	running, stopRunning = context.WithCancel(context.Background())
)

const grace = 6 * time.Second

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	cleanup()
	os.Exit(code)
}

func cleanup() {
	if bdir != "" {
		os.RemoveAll(bdir)
	}
}

// compile builds the worker for b from the current tree.
func compile(b build) (string, error) {
	bin := filepath.Join(bdir, "worker-"+b.name)
	args := []string{"build", "-o", bin}
	if b.tags != "" {
		args = append(args, "-tags", b.tags)
	}
	if b.race {
		args = append(args, "-race")
	}
	args = append(args, "./worker")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	if b.race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if b.arch != "" {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0", "GOARCH="+b.arch)
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("cannot build %s: %v\n%s", b.name, err, out)
	}
	return bin, nil
}

// limitOf is the processor time given to a case, in seconds.
func limitOf() int {
	if *prop == "C19" {
		return 30 // a case takes about 0.02 s
	}
	return 60
}

type ending struct {
	code    int
	signal  bool
	out     *Out
	hang    *Out
	stderr  string
	stdout  string
	idx, op int
}

// work runs a worker process once.
func work(bin string, b build, env []string, base string, args ...string) *ending {
	os.Remove(base + ".json")
	os.Remove(base + ".json.hang")
	os.Remove(base + ".prog")
	all := append([]string{"-out", base + ".json", "-progress", base + ".prog"}, args...)
	ctx, cancel := context.WithTimeout(running, 14*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, all...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Env = append(cmd.Env, "GOTRACEBACK=all")
	if b.race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 atexit_sleep_ms=0 exitcode=66")
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{b: &se}
	err := cmd.Run()
	e := &ending{idx: -1 << 40, op: -1}
	e.stderr, e.stdout = se.String(), so.String()
	if err != nil {
		e.code = -1
		var x *exec.ExitError
		if errors.As(err, &x) {
			e.code = x.ExitCode()
			e.signal = e.code < 0
		}
	}
	if j, err := os.ReadFile(base + ".json"); err == nil {
		o := &Out{}
		if json.Unmarshal(j, o) == nil {
			e.out = o
		}
	}
	if j, err := os.ReadFile(base + ".json.hang"); err == nil {
		o := &Out{}
		if json.Unmarshal(j, o) == nil {
			e.hang = o
		}
	}
	if p, err := os.ReadFile(base + ".prog"); err == nil && len(p) == 16 {
		e.idx = int(int64(binary.LittleEndian.Uint64(p)))
		e.op = int(int64(binary.LittleEndian.Uint64(p[8:])))
	}
	return e
}

// limited keeps the first part of what is written to it.
type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 200000 {
		l.b.Write(p)
	}
	return len(p), nil
}

type found struct {
	msg    string
	replay []byte
	build  string
}

type result struct {
	outs    []*Out
	viol    *found
	errs    []string
	notes   []string
	skipped int
	native  map[string]string // for a build of another architecture, the worker of the sandbox's own
}

func (r *result) merge(o *Out) {
	mu.Lock()
	defer mu.Unlock()
	r.outs = append(r.outs, o)
}

func (r *result) violation(f *found) {
	mu.Lock()
	defer mu.Unlock()
	if r.viol == nil {
		time.AfterFunc(grace, stopRunning)
	}
	if r.viol == nil || len(f.replay) > 0 && len(f.replay) < len(r.viol.replay) {
		r.viol = f
	}
}

func (r *result) note(format string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	r.notes = append(r.notes, fmt.Sprintf(format, a...))
}

func (r *result) fail(format string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	r.errs = append(r.errs, fmt.Sprintf(format, a...))
}

func (r *result) stopped() bool {
	mu.Lock()
	defer mu.Unlock()
	return r.viol != nil
}

func inRudd(s string) bool { return strings.Contains(s, "github.com/dalzilio/rudd.") }

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// shard runs one worker until it has gone through all its cases, restarting it
// after a case that kills it.
func shard(r *result, pl plan, bin string, sh int, seed int64, deadline time.Time) {
	b := allBuilds[pl.build]
	base := filepath.Join(bdir, fmt.Sprintf("%s-%s-%d", *prop, pl.build, sh))
	procs := 1 // the Go collector is several times faster on a single processor
	if b.race || *prop == "C16" || *prop == "C15" {
		procs = 4
	}
	env := []string{fmt.Sprintf("GOMAXPROCS=%d", procs)}
	common := []string{"-prop", *prop, "-seed", strconv.FormatInt(seed, 10), "-shard", strconv.Itoa(sh), "-tier", *tier,
		"-scale", strconv.Itoa(*scale * pl.pct / 100), "-gogc", strconv.Itoa(pl.gogc)}
	skipped := func() {
		mu.Lock()
		r.skipped++
		mu.Unlock()
	}
	start := -1000000
	for try := 0; try < 30; try++ {
		if r.stopped() || time.Now().After(deadline) {
			return
		}
		left := int(time.Until(deadline).Seconds()) + 1
		e := work(bin, b, env, base, append(common, "-start", strconv.Itoa(start), "-deadline", strconv.Itoa(left), "-limit", strconv.Itoa(limitOf()))...)
		dump := func(idx int) []byte {
			out, _ := exec.Command(bin, append(common, "-dump", strconv.Itoa(idx))...).Output()
			return out
		}
		one := func(idx int, limit int) *ending {
			return work(bin, b, env, base+"-one", append(common, "-start", strconv.Itoa(idx), "-one", "-noshrink", "-limit", strconv.Itoa(limit))...)
		}
		// after runs the case idx after the ones before it: all of them if fewer do
		// not show the failure, which may depend on the state of the process.
		after := func(idx, limit int, fails func(*ending) bool) []byte {
			for _, d := range []int{1, 10, 100, 1 << 30} {
				s := idx - d
				if s < start {
					s = start
				}
				args := append(append([]string{}, common...), "-start", strconv.Itoa(s), "-last", strconv.Itoa(idx), "-noshrink", "-limit", strconv.Itoa(limit))
				if e := work(bin, b, env, base+"-after", args...); running.Err() == nil && fails(e) {
					j, _ := json.Marshal(map[string]any{"prop": *prop, "impl": pl.build, "note": "sequence", "args": args, "last": json.RawMessage(dump(idx))})
					return j
				}
				if s == start || running.Err() != nil || time.Now().After(deadline) {
					break
				}
			}
			return nil
		}
		switch {
		case running.Err() != nil: // a violation was found elsewhere
			return
		case e.code == 0 && e.out != nil && e.out.Done:
			r.merge(e.out)
			return
		case e.code == 1 && e.out != nil && e.out.Viol != nil:
			r.merge(e.out)
			f := &found{msg: e.out.ViolMsg, replay: e.out.Viol, build: pl.build}
			switch {
			case confirm(bin, env, f.replay, 4):
			case e.out.ViolOrig != nil && confirm(bin, env, e.out.ViolOrig, 4):
				f.replay = e.out.ViolOrig
			case b.arch == "":
				idx := e.out.ViolIdx
				if j := after(idx, limitOf(), func(e *ending) bool { return e.code == 1 && e.out != nil && e.out.ViolIdx == idx }); j != nil {
					f.replay = j
				}
			}
			if b.arch != "" {
				switch {
				case holdsOn(r.native[pl.build], f.replay):
				case e.out.ViolOrig != nil && holdsOn(r.native[pl.build], e.out.ViolOrig):
					f.replay = e.out.ViolOrig
				default:
					r.note("%s shard %d: case %d fails on the native build too (%s)", pl.build, sh, e.out.ViolIdx, firstLines(f.msg, 1))
					start = e.out.ViolIdx + 1
					skipped()
					continue
				}
			}
			r.violation(f)
			return
		case e.code == 4 && e.hang != nil:
			h := e.hang
			if h.HangFocus {
				msg := fmt.Sprintf("case %d: operation %s %s", h.HangIdx, h.HangOp, h.HangWhy)
				e2 := one(h.HangIdx, limitOf()*5/2)
				if e2.code == 4 && running.Err() == nil && (b.arch == "" || holdsOn(r.native[pl.build], dump(h.HangIdx))) {
					r.violation(&found{msg: msg, replay: dump(h.HangIdx), build: pl.build})
					return
				}
				if e2.code == 0 && b.arch == "" {
					again := func(e *ending) bool { return e.code == 4 && e.hang != nil && e.hang.HangIdx == h.HangIdx }
					if j := after(h.HangIdx, limitOf()*5/2, again); j != nil {
						r.violation(&found{msg: msg + " after other cases", replay: j, build: pl.build})
						return
					}
				}
			}
			r.note("%s shard %d: case %d (operation %s) %s; skipped", pl.build, sh, h.HangIdx, h.HangOp, h.HangWhy)
			start = h.HangIdx + 1
		case e.code == 66 && b.race:
			if inRudd(e.stderr) && strings.Contains(e.stderr, "DATA RACE") {
				r.violation(&found{msg: "data race:\n" + firstLines(e.stderr, 40), replay: dump(e.idx), build: pl.build})
				return
			}
			r.fail("%s shard %d: a race outside rudd:\n%s", pl.build, sh, firstLines(e.stderr, 60))
			return
		case e.idx > -1<<40 && (e.signal || e.code == 2):
			// the process died: out of memory, stack overflow, runtime fault...
			e2 := one(e.idx, limitOf()*5/2)
			if running.Err() == nil && e2.code != 0 && e2.code != 1 && e2.code != 4 && inRudd(e2.stderr) && fatal(e2.stderr) {
				focus := focusOp(bin, common, e2.idx, e2.op)
				if focus != "" && (b.arch == "" || holdsOn(r.native[pl.build], dump(e2.idx))) {
					r.violation(&found{msg: fmt.Sprintf("case %d: the process dies in operation %s:\n%s", e2.idx, focus, firstLines(e2.stderr, 6)), replay: dump(e2.idx), build: pl.build})
					return
				}
			}
			if e2.code == 0 && running.Err() == nil && b.arch == "" && inRudd(e.stderr) && fatal(e.stderr) {
				dies := func(x *ending) bool {
					return x.idx == e.idx && (x.signal || x.code == 2) && inRudd(x.stderr) && fatal(x.stderr) && focusOp(bin, common, x.idx, x.op) != ""
				}
				if j := after(e.idx, limitOf(), dies); j != nil {
					r.violation(&found{msg: fmt.Sprintf("case %d, after others: the process dies:\n%s", e.idx, firstLines(e.stderr, 6)), replay: j, build: pl.build})
					return
				}
			}
			r.note("%s shard %d: case %d ended the process (%s); skipped", pl.build, sh, e.idx, firstLines(e.stderr, 1))
			start = e.idx + 1
		default:
			r.fail("%s shard %d: worker ended with code %d\n%s", pl.build, sh, e.code, firstLines(e.stderr, 40))
			return
		}
		skipped()
	}
	if b.arch != "" {
		return
	}
	r.fail("%s shard %d: too many cases ended the process", pl.build, sh)
}

func fatal(s string) bool {
	return strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:") || strings.Contains(s, "SIGSEGV")
}

// focusOp gives the kind of operation number op of case idx when the property is
// about it.
func focusOp(bin string, common []string, idx, op int) string {
	out, err := exec.Command(bin, append(append([]string{}, common...), "-focusof", fmt.Sprintf("%d,%d", idx, op))...).Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}

// holdsOn tells that a case holds with the worker bin.
func holdsOn(bin string, c []byte) bool {
	f, err := os.CreateTemp(bdir, "native")
	if err != nil {
		return false
	}
	f.Write(c)
	f.Close()
	cmd := exec.Command(bin, "-replay", f.Name())
	cmd.Run()
	return cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 0
}

// runsHere tells that the programs of another architecture can be executed.
func runsHere(bin string) bool {
	return exec.Command(bin, "-prop", *prop, "-dump", "0").Run() == nil
}

func confirm(bin string, env []string, c []byte, n int) bool {
	f, err := os.CreateTemp(bdir, "confirm")
	if err != nil {
		return true
	}
	f.Write(c)
	f.Close()
	for i := 0; i < n; i++ {
		cmd := exec.Command(bin, "-replay", f.Name())
		cmd.Env = append(os.Environ(), env...)
		if cmd.Run(); cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1 {
			return true
		}
	}
	return false
}

// cross replays with default options, on every build, the cases that failed both
// with and without options on one build: the results must be the same.
func cross(r *result, bins map[string]string) {
	seen := map[string]int{}
	for _, o := range r.outs {
		for _, c := range o.Cross {
			if seen[o.Build] >= 3 || r.stopped() {
				continue
			}
			seen[o.Build]++
			var m map[string]any
			json.Unmarshal(c, &m)
			m["note"] = "cross"
			cfg, _ := m["cfg"].(map[string]any)
			for k := range cfg {
				if k != "varnum" && k != "active" && k != "obs" {
					delete(cfg, k)
				}
			}
			j, _ := json.Marshal(m)
			f := filepath.Join(bdir, "cross.json")
			os.WriteFile(f, j, 0o644)
			held, failed := "", ""
			var names []string
			for n := range bins {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				cmd := exec.Command(bins[n], "-replay", f)
				cmd.Run()
				switch cmd.ProcessState.ExitCode() {
				case 0:
					held = n
				case 3:
					failed = n
				}
			}
			if held != "" && failed != "" {
				m["impl"] = failed
				j, _ = json.Marshal(m)
				r.violation(&found{msg: fmt.Sprintf("the same operations succeed with build %s and fail with build %s", held, failed), replay: j, build: failed})
			}
		}
	}
}

// nativeOf is the build of the sandbox's own architecture with the same tags.
func nativeOf(name string) string { return strings.TrimSuffix(name, "-"+allBuilds[name].arch) }

func main() {
	flag.Parse()
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		root = d
	}
	t0 := time.Now()
	var err error
	os.MkdirAll(filepath.Join(root, "build"), 0o755)
	bdir, err = os.MkdirTemp(filepath.Join(root, "build"), "run-")
	if err != nil {
		die(2, "%v", err)
	}
	defer cleanup()
	if *warm {
		for _, b := range allBuilds {
			if _, err := compile(b); err != nil && b.arch == "" {
				die(2, "%v", err)
			}
		}
		return
	}
	if *replayF != "" {
		code := replay(*replayF)
		cleanup()
		os.Exit(code)
	}
	if t := os.Getenv("VERIF_TIER"); t != "" && !flagSet("tier") {
		*tier = t
	}
	seed := *seedFlag
	if seed == 0 {
		seed = 1
		if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			seed = s
		}
	}
	plans := plansFor(*prop)
	bins := map[string]string{}
	var wg sync.WaitGroup
	var berr error
	archErr := map[string]error{}
	var names []string
	for _, pl := range plans {
		names = append(names, pl.build)
		if allBuilds[pl.build].arch != "" {
			names = append(names, nativeOf(pl.build))
		}
	}
	for _, name := range names {
		if _, ok := bins[name]; ok {
			continue
		}
		bins[name] = ""
		wg.Add(1)
		go func(n string) {
			defer wg.Done()
			bin, err := compile(allBuilds[n])
			mu.Lock()
			defer mu.Unlock()
			bins[n] = bin
			if err != nil && allBuilds[n].arch != "" {
				archErr[n] = err
			} else if err != nil {
				berr = err
			}
		}(name)
	}
	wg.Wait()
	if berr != nil {
		die(2, "%v", berr)
	}
	budget := 300 * time.Second
	if *tier == "thorough" {
		budget = 720 * time.Second
	}
	deadline := time.Now().Add(budget)
	r := &result{native: map[string]string{}}
	var keep []plan
	for _, pl := range plans {
		b := allBuilds[pl.build]
		if b.arch == "" {
			keep = append(keep, pl)
			continue
		}
		r.native[pl.build] = bins[nativeOf(pl.build)]
		switch {
		case archErr[pl.build] != nil:
			// everything compiles on the native architecture: berr is nil
			j, _ := json.Marshal(map[string]any{"prop": *prop, "impl": pl.build, "note": "compile"})
			r.violation(&found{msg: archErr[pl.build].Error(), replay: j, build: pl.build})
		case !runsHere(bins[pl.build]):
			r.note("programs for %s cannot be executed here: only their compilation was checked, and the cases were run on the native build", b.arch)
			pl.build = nativeOf(pl.build)
			keep = append(keep, pl)
		default:
			keep = append(keep, pl)
		}
	}
	plans = keep
	n := *jobsN
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	sem := make(chan struct{}, n)
	sh := 0
	for _, pl := range plans {
		for k := 0; k < pl.share; k++ {
			wg.Add(1)
			go func(pl plan, sh int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				shard(r, pl, bins[pl.build], sh, seed, deadline)
			}(pl, sh)
			sh++
		}
	}
	wg.Wait()
	if *prop == "C12" && r.viol == nil {
		cross(r, bins)
	}
	writeEvidence(r, plans, seed, time.Since(t0).Seconds())
	for _, s := range r.notes {
		fmt.Println("note:", s)
	}
	if r.viol != nil {
		path := filepath.Join(root, "replays")
		os.MkdirAll(path, 0o755)
		path = filepath.Join(path, fmt.Sprintf("%s-%s-%d-%d.json", *prop, r.viol.build, seed, len(r.viol.replay)))
		os.WriteFile(path, setImpl(r.viol.replay, r.viol.build), 0o644)
		fmt.Println(strings.TrimSpace(r.viol.msg))
		fmt.Printf("reproduce with: /verif/run.sh replay %s\n", path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		cleanup()
		os.Exit(1)
	}
	if len(r.errs) > 0 {
		die(2, "error: %s", strings.Join(r.errs, "\nerror: "))
	}
	cases, nt := 0, map[uint64]bool{}
	for _, o := range r.outs {
		cases += o.Cases
		for _, h := range o.Hashes {
			nt[h] = true
		}
	}
	if cases == 0 || len(nt) == 0 {
		die(2, "error: no non-trivial case was run")
	}
	fmt.Printf("property %s held on %d cases (%d distinct and non-trivial), %d skipped, %.0f s\n", *prop, cases, len(nt), r.skipped, time.Since(t0).Seconds())
}

func flagSet(name string) (ok bool) {
	flag.Visit(func(f *flag.Flag) { ok = ok || f.Name == name })
	return
}

func setImpl(c []byte, impl string) []byte {
	var m map[string]any
	if json.Unmarshal(c, &m) != nil {
		return c
	}
	m["impl"] = impl
	j, err := json.Marshal(m)
	if err != nil {
		return c
	}
	return append(j, '\n')
}

func replay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Prop, Impl, Note string
		Args             []string
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bd, ok := allBuilds[m.Impl]
	if !ok {
		bd = allBuilds["hudd"]
	}
	bin, err := compile(bd)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		if bd.arch != "" {
			if _, err := compile(allBuilds[nativeOf(bd.name)]); err == nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n", m.Prop, f)
				return 1
			}
		}
		return 2
	}
	if m.Note == "compile" {
		return 0
	}
	tries := 1
	if bd.race {
		tries = 5
	}
	for i := 0; i < tries; i++ {
		args := []string{"-replay", f}
		if bd.race {
			args = append(args, "-gogc", "4")
		}
		if m.Note == "sequence" {
			args = m.Args
		}
		cmd := exec.Command(bin, args...)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 atexit_sleep_ms=0 exitcode=66", "GOMAXPROCS=4")
		cmd.Run()
		switch c := cmd.ProcessState.ExitCode(); c {
		case 0:
			continue
		case 3:
			fmt.Println("the case does not concern the property any more")
			return 0
		default:
			fmt.Printf("VIOLATION property=%s replay=%s\n", m.Prop, f)
			return 1
		}
	}
	return 0
}

func writeEvidence(r *result, plans []plan, seed int64, wall float64) {
	type bs struct {
		Cases      int     `json:"cases"`
		NonTrivial int     `json:"nontrivial"`
		CPU        float64 `json:"cpu_s"`
	}
	per := map[string]*bs{}
	feat := map[string]int{}
	aborts := map[string]int{}
	hashes := map[uint64]bool{}
	cases := 0
	rule := ""
	var samples []json.RawMessage
	sort.Slice(r.outs, func(i, j int) bool { return r.outs[i].Shard < r.outs[j].Shard })
	for _, o := range r.outs {
		cases += o.Cases
		b := per[o.Build]
		if b == nil {
			b = &bs{}
			per[o.Build] = b
		}
		b.Cases += o.Cases
		b.NonTrivial += o.NonTriv
		b.CPU += o.CPU
		if o.Rule != "" {
			rule = o.Rule
		}
		for k, v := range o.Feat {
			if strings.HasSuffix(k, "_max") {
				if v > feat[k] {
					feat[k] = v
				}
			} else {
				feat[k] += v
			}
		}
		for k, v := range o.Aborts {
			if len(aborts) < 40 {
				aborts[k] += v
			}
		}
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		if len(samples) < 4 && len(o.Samples) > 0 {
			samples = append(samples, o.Samples[0])
		}
	}
	viol := 0
	if r.viol != nil {
		viol = 1
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         cases,
			"distinct_nontrivial": len(hashes),
			"rule":                "Cases are programs over BDDs produced by a seeded generator and run against a reference model; a case is non-trivial when " + rule + ".",
			"samples":             samples,
			"builds":              per,
			"features":            feat,
			"aborted":             aborts,
			"skipped_cases":       r.skipped,
			"notes":               r.notes,
		},
		"assumptions": []string{
			"the reference model in harness/ref is right",
			"two independent readers of a node (among Allnodes, Label/Low/High and Allsat) do not make the same mistake",
		},
		"wall_s":     wall,
		"violations": viol,
	}
	if r.viol != nil {
		ev["violation"] = map[string]string{"message": r.viol.msg, "build": r.viol.build}
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", *prop+".json"), append(j, '\n'), 0o644)
}
