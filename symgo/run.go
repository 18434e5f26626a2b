package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func asFunc(d ast.Decl) (*ast.FuncDecl, bool) {
	f, ok := d.(*ast.FuncDecl)
	if ok && f.Recv != nil {
		return nil, false
	}
	return f, ok
}

type hRun struct {
	h         *harnessInfo
	mu        sync.Mutex
	queue     []altPrefix
	active    int
	paths     int
	ends      map[string]int
	reached   map[string]bool
	asserts   map[string]int
	nassert   int
	nimplicit int
	forks     int
	merges    int
	mfails    map[string]int
	unknown   map[string]int
	viol      []Violation
	violN     map[string]int
	fns       map[string]bool
	start     time.Time
	deadline  time.Time
	maxPaths  int
	stopped   string
	steps     int64
	maxSteps  int64
	noMerge   bool
	splitPtr  bool
	started   bool
	cpu       time.Duration
	samples   [][]InputVal
	okSeen    int
}

// runPath executes one path of harness h from prefix p.
func (it *Interp) runPath(hr *hRun, p altPrefix, concrete []InputVal) (res *pathResult) {
	res = &pathResult{reached: map[string]bool{}, asserts: map[string]int{}, mergeFails: map[string]int{}}
	it.res = res
	it.harness = hr.h.name
	it.deadline = hr.deadline
	it.pc = it.pc[:0]
	it.pcHas = map[*Expr]int{}
	it.trace = append([]dec(nil), p.tr...)
	it.prefixLen = len(p.tr)
	it.pos = 0
	it.nchecks, it.spec, it.lazy, it.steps, it.depth, it.failMode = 0, 0, 0, 0, 0, 0
	it.maxSteps = hr.maxSteps
	it.inputs = nil
	it.inCount = map[string]int{}
	it.mapOrder = false
	it.files = map[string]*fileObj{}
	it.cur = nil
	it.tmp = 0
	it.concrete = concrete
	it.concPos = 0
	it.opts.noMerge = hr.noMerge
	it.opts.splitPtr = hr.splitPtr
	it.modelInit = p.model
	if it.modelInit == nil {
		it.modelInit = map[string]uint64{}
	}
	it.model = &Model{}
	it.extendModel()
	it.ensureInit(it.main)
	it.journaling = true
	it.sched = newSched(it)
	defer func() {
		it.sched.killAll()
		it.undoTo(0)
		it.journaling = false
		it.concrete = nil
	}()
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case pathEnd:
				res.end = e.why
			case targetExit:
				res.end = fmt.Sprintf("os.Exit(%d)", e.code)
			case targetPanic:
				if e.msg == "deadlock" {
					res.end = "deadlock"
				} else {
					res.end = "panic"
				}
				it.report("panic:"+it.panicSite()+":"+e.msg, e.msg, it.model)
			case unsupportedErr:
				res.end = "unsupported: " + e.msg + " at " + it.where()
			case abortSpec:
				res.end = "internal: stray abort " + e.why
			case deadArm:
				res.end = "dead path"
			default:
				res.end = fmt.Sprintf("internal error: %v", r)
				if os.Getenv("SYMGO_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
					fmt.Fprintln(os.Stderr, it.where())
				}
			}
		}()
		it.callFn(hr.h.fn, nil, nil)
		res.end = "ok"
		if len(res.viol) == 0 {
			it.report("", "", it.model)
			res.sample = res.viol[0].Inputs
			res.viol = nil
		}
	}()
	return res
}

type runCfg struct {
	workers  int
	deadline time.Time
	verbose  bool
}

func runHarnesses(L *Loader, hrs []*hRun, cfg runCfg) (stats Solver) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	remaining := len(hrs)
	for _, hr := range hrs {
		hr.queue = []altPrefix{{}}
	}
	next := func() (*hRun, altPrefix, bool) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if remaining == 0 {
				return nil, altPrefix{}, false
			}
			// harness with the fewest active workers first
			var best *hRun
			now := time.Now()
			for _, hr := range hrs {
				if hr.stopped == "done" {
					continue
				}
				if hr.started && (now.After(hr.deadline) || hr.paths >= hr.maxPaths) && len(hr.queue) > 0 {
					hr.queue = nil
					hr.stopped = "budget"
					if hr.active == 0 {
						remaining--
						hr.stopped = "budget!"
						cond.Broadcast()
					}
				}
				if len(hr.queue) == 0 {
					continue
				}
				if best == nil || hr.active < best.active {
					best = hr
				}
			}
			if best != nil {
				n := len(best.queue)
				p := best.queue[n-1]
				best.queue = best.queue[:n-1]
				best.active++
				best.paths++
				if !best.started {
					best.started = true
					best.start = now
					if d, ok := best.h.doc["budget"]; ok {
						if dur, err := time.ParseDuration(d); err == nil && now.Add(dur).Before(best.deadline) {
							best.deadline = now.Add(dur)
						}
					}
				}
				return best, p, true
			}
			cond.Wait()
		}
	}
	finish := func(hr *hRun, res *pathResult, it *Interp, dt time.Duration) {
		mu.Lock()
		defer mu.Unlock()
		hr.active--
		hr.cpu += dt
		e := res.end
		if i := strings.Index(e, " at "); i >= 0 && !cfg.verbose {
			e = e[:i]
		}
		hr.ends[e]++
		if res.sample != nil {
			// keep the first few, then a sparse selection
			hr.okSeen++
			if len(hr.samples) < 4 {
				hr.samples = append(hr.samples, res.sample)
			} else if hr.okSeen&(hr.okSeen-1) == 0 {
				hr.samples[hr.okSeen%4] = res.sample
			}
		}
		for k := range res.reached {
			hr.reached[k] = true
		}
		for k, n := range res.asserts {
			hr.asserts[k] += n
		}
		for k, n := range res.mergeFails {
			hr.mfails[k] += n
		}
		for _, u := range res.unknown {
			hr.unknown[u]++
		}
		hr.nassert += res.nassert
		hr.nimplicit += res.nimplicit
		hr.forks += res.forks
		hr.merges += res.merges
		hr.steps += it.steps
		for _, v := range res.viol {
			hr.violN[v.ID]++
			if hr.violN[v.ID] <= 3 {
				hr.viol = append(hr.viol, v)
			}
		}
		if !strings.HasPrefix(hr.stopped, "budget") {
			hr.queue = append(hr.queue, res.alts...)
		}
		if len(hr.queue) == 0 && hr.active == 0 {
			if hr.stopped == "" {
				hr.stopped = "done"
			} else {
				hr.stopped = "budget!"
			}
			remaining--
		}
		cond.Broadcast()
	}
	// wake sleepers periodically so that deadlines are noticed
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
				mu.Lock()
				cond.Broadcast()
				mu.Unlock()
			}
		}
	}()
	var st sync.Mutex
	for w := 0; w < cfg.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			it := NewInterp(L)
			for {
				hr, p, ok := next()
				if !ok {
					break
				}
				it.sol.deadline = hr.deadline
				t0 := time.Now()
				res := it.runPath(hr, p, nil)
				if cfg.verbose && os.Getenv("SYMGO_PATHS") != "" {
					fmt.Fprintf(os.Stderr, "[%s] %s steps=%d forks=%d merges=%d %.1fs\n", hr.h.name, res.end, it.steps, res.forks, res.merges, time.Since(t0).Seconds())
				}
				finish(hr, res, it, time.Since(t0))
				if it.x.n > 3000000 {
					it.resetCtx()
				}
			}
			st.Lock()
			stats.Queries += it.sol.Queries
			stats.Sat += it.sol.Sat
			stats.Unsat += it.sol.Unsat
			stats.Unk += it.sol.Unk
			stats.Cached += it.sol.Cached
			stats.Errors += it.sol.Errors
			stats.Fallbk += it.sol.Fallbk
			stats.IntQ += it.sol.IntQ
			stats.NarQ += it.sol.NarQ
			stats.IntUnk += it.sol.IntUnk
			stats.IntTime += it.sol.IntTime
			stats.Time += it.sol.Time
			if it.sol.lastErr != "" {
				stats.lastErr = it.sol.lastErr
			}
			for f := range it.encoded {
				encodedAll[f] = true
			}
			it.sol.stopAll()
			st.Unlock()
		}()
	}
	wg.Wait()
	close(stop)
	return stats
}

var encodedAll = map[*ssa.Function]bool{}

func newHRun(h *harnessInfo, deadline time.Time, thorough bool) *hRun {
	hr := &hRun{h: h, ends: map[string]int{}, reached: map[string]bool{}, asserts: map[string]int{}, mfails: map[string]int{},
		unknown: map[string]int{}, violN: map[string]int{}, fns: map[string]bool{}, deadline: deadline, maxPaths: 200000, maxSteps: 20000000}
	if v, ok := h.doc["paths"]; ok {
		hr.maxPaths, _ = strconv.Atoi(v)
	}
	if v, ok := h.doc["steps"]; ok {
		n, _ := strconv.Atoi(v)
		hr.maxSteps = int64(n)
	}
	if _, ok := h.doc["splitptr"]; ok {
		hr.splitPtr = true
	}
	if _, ok := h.doc["nomerge"]; ok {
		hr.noMerge = true
	}
	return hr
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|run|list|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		L, err := Load(envOr("VERIF_REPO", "/repo"), envOr("VERIF_HARNESSES", "/verif/harness"), nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for f, m := range L.dropped {
			fmt.Println("dropped", f, m)
		}
		for _, h := range L.harnesses() {
			fmt.Println(h.name, h.doc)
		}
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// cmdRun: development command, runs the named harnesses and prints details
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	verbose := fs.Bool("v", false, "verbose")
	workers := fs.Int("j", 8, "workers")
	secs := fs.Int("t", 120, "seconds")
	topics := fs.String("f", "", "harness file topics, comma separated")
	noreplay := fs.Bool("n", false, "no native replay")
	nomerge := fs.Bool("nomerge", false, "no merging")
	fs.Parse(args)
	t0 := time.Now()
	var tl []string
	if *topics != "" {
		tl = strings.Split(*topics, ",")
	}
	match := func(name string) bool {
		for _, a := range fs.Args() {
			if name == a || name == "H_"+a || (strings.HasSuffix(a, "*") && (strings.HasPrefix(name, "H_"+a[:len(a)-1]) || strings.HasPrefix(name, a[:len(a)-1]))) {
				return true
			}
		}
		return false
	}
	if tl == nil {
		tl = topicsFor(envOr("VERIF_HARNESSES", "/verif/harness"), "", match)
	}
	L, err := Load(envOr("VERIF_REPO", "/repo"), envOr("VERIF_HARNESSES", "/verif/harness"), tl)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	L.verbose = *verbose
	for f, m := range L.dropped {
		fmt.Println("dropped", f, m)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	var hrs []*hRun
	dl := time.Now().Add(time.Duration(*secs) * time.Second)
	for _, h := range L.harnesses() {
		if match(h.name) {
			hr := newHRun(h, dl, false)
			hr.noMerge = hr.noMerge || *nomerge
			hrs = append(hrs, hr)
		}
	}
	st := runHarnesses(L, hrs, runCfg{workers: *workers, deadline: dl, verbose: *verbose})
	work, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(work)
	for _, hr := range hrs {
		fmt.Printf("== %s [%s] paths=%d forks=%d merges=%d asserts=%d implicit=%d steps=%d cpu=%.1fs ends=%v\n", hr.h.name, hr.stopped, hr.paths, hr.forks, hr.merges, hr.nassert, hr.nimplicit, hr.steps, hr.cpu.Seconds(), hr.ends)
		fmt.Printf("   reached=%v asserts=%v\n", sortedKeys(hr.reached), hr.asserts)
		if len(hr.unknown) > 0 {
			fmt.Printf("   unknown=%v\n", hr.unknown)
		}
		if *verbose {
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range hr.mfails {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			for i, e := range l {
				if i > 25 {
					break
				}
				fmt.Printf("   mergefail %d %s\n", e.n, e.k)
			}
		}
		for _, v := range hr.viol {
			fmt.Printf("   VIOL %s (%s) n=%d at %s\n", v.ID, v.Msg, hr.violN[v.ID], v.Where)
			for _, in := range v.Inputs {
				fmt.Printf(" %s=%d", in.Name, in.Val)
			}
			fmt.Println()
			if !*noreplay {
				res, out, err := L.replayNative(hr.h.name, v.Inputs, work)
				fmt.Printf("   native: %s %v\n", res, err)
				if *verbose || res == "" {
					fmt.Println(out)
				}
			}
		}
	}
	fmt.Printf("solver: queries=%d sat=%d unsat=%d unk=%d cached=%d err=%d (%s) int=%d/%dunk/%.1fs narrow=%d fallback=%d time=%.1fs wall=%.1fs\n", st.Queries, st.Sat, st.Unsat, st.Unk, st.Cached, st.Errors, st.lastErr, st.IntQ, st.IntUnk, st.IntTime.Seconds(), st.NarQ, st.Fallbk, st.Time.Seconds(), time.Since(t0).Seconds())
}

var _ = json.Marshal
var _ = filepath.Join
