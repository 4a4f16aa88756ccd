package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Job struct {
	ID      string         `json:"id"`
	Files   []string       `json:"files"`
	Tier    string         `json:"tier,omitempty"` // "", quick, thorough
	Bounds  string         `json:"bounds,omitempty"`
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params,omitempty"`
	Timeout int            `json:"timeout,omitempty"` // s
	Merge   *bool          `json:"merge,omitempty"`
	Note    string         `json:"note,omitempty"`
	SolverT int            `json:"solver_ms,omitempty"`
	Forks   int64          `json:"max_forks,omitempty"`
	Reach   []string       `json:"reach,omitempty"` // labels that must be reached
}

type JobResult struct {
	Job       Job                 `json:"job"`
	Steps     int64               `json:"instructions"`
	Forks     int64               `json:"forks"`
	Merges    int64               `json:"merges"`
	Paths     int64               `json:"paths"`
	Asserts   int64               `json:"assertions_reached"`
	AssertQ   int64               `json:"assertion_queries"`
	Queries   int                 `json:"solver_queries"`
	Sat       int                 `json:"sat"`
	Unsat     int                 `json:"unsat"`
	Unknown   int                 `json:"unknown"`
	Cache     int                 `json:"cache_hits"`
	Fallback  int                 `json:"fallback_queries"`
	SolverS   float64             `json:"solver_s"`
	MaxQ      float64             `json:"max_query_s"`
	Wall      float64             `json:"wall_s"`
	Vars      int                 `json:"symbolic_inputs"`
	Incon     map[string]int      `json:"inconclusive,omitempty"`
	Truncated string              `json:"truncated,omitempty"`
	Reach     map[string]int64    `json:"reach,omitempty"`
	Funcs     []string            `json:"functions,omitempty"`
	Witness   []map[string]uint64 `json:"witness,omitempty"`
	Viol      []*Violation        `json:"violations,omitempty"`
	Err       string              `json:"error,omitempty"`
}

func runJob(pr *Prog, j Job) (res *JobResult) {
	t0 := time.Now()
	res = &JobResult{Job: j}
	x := &Exec{pr: pr, p: NewPool(), reach: map[string]int64{}, violKey: map[string]int{}, incon: map[string]int{}, params: j.Params, funcs: map[string]bool{}, maxViol: 12}
	x.s = NewSolver(x.p)
	if j.SolverT > 0 {
		x.s.Timeout = j.SolverT
	}
	to := j.Timeout
	if to == 0 {
		to = 120
	}
	x.deadline = t0.Add(time.Duration(to) * time.Second)
	x.maxForks = j.Forks
	x.stepLimit = 400_000_000
	if j.Merge != nil && !*j.Merge {
		x.noMerge = true
	}
	defer x.s.Close()
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case budget:
				res.Truncated = v.msg
			case unsupported:
				res.Err = v.msg
			default:
				res.Err = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
				}
			}
		}
		res.Steps, res.Forks, res.Merges, res.Paths = x.Steps, x.Forks, x.Merges, x.Paths
		res.Asserts, res.AssertQ = x.Asserts, x.AssertQ
		res.Queries, res.Sat, res.Unsat, res.Unknown = x.s.Stats.Queries, x.s.Stats.Sat, x.s.Stats.Unsat, x.s.Stats.Unknown
		res.Cache, res.Fallback = x.s.Stats.CacheHits, x.s.Stats.Fallback
		res.SolverS = x.s.Stats.Time.Seconds()
		res.MaxQ = x.s.Stats.MaxTime.Seconds()
		res.Wall = time.Since(t0).Seconds()
		res.Vars = len(x.p.vars)
		res.Incon = x.incon
		res.Reach = x.reach
		res.Viol = x.viol
		res.Witness = x.witness
		for f := range x.funcs {
			if strings.HasPrefix(f, pr.mod) || strings.HasPrefix(f, "(*"+pr.mod) || strings.HasPrefix(f, "("+pr.mod) {
				if !strings.Contains(f, "/zzverif/") && !strings.Contains(f, ".VH_") && !strings.Contains(f, ".vh") {
					res.Funcs = append(res.Funcs, f)
				}
			}
		}
		sort.Strings(res.Funcs)
	}()
	m, ok := pr.main.Members[j.Harness].(*ssa.Function)
	if !ok {
		res.Err = "no harness " + j.Harness
		return
	}
	st := x.initState()
	x.Steps, x.Forks = 0, 0
	x.funcs = map[string]bool{}
	x.pushFrame(st, pr.fn(m), nil, nil, noReg)
	rs := x.run(st, Stop{depth: 1, blk: -1})
	_ = rs
	return
}

var memHigh atomic.Bool

// watchMem raises memHigh when the heap passes lim bytes.
func watchMem(lim uint64) {
	debug.SetMemoryLimit(int64(lim))
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > lim {
				memHigh.Store(true)
			}
		}
	}()
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func cmdOne(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	hdir := fs.String("h", "/verif/harness", "")
	files := fs.String("f", "", "harness files, comma separated")
	name := fs.String("n", "", "harness")
	par := fs.String("p", "", "params k=v,k=v")
	to := fs.Int("t", 120, "timeout")
	nomerge := fs.Bool("nomerge", false, "")
	prof := fs.String("prof", "", "")
	keep := fs.Bool("keep", false, "")
	fs.Parse(args)
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if !*keep {
		defer os.RemoveAll(dir)
	} else {
		fmt.Println("scratch", dir)
	}
	watchMem(12 << 30)
	t0 := time.Now()
	mod, err := makeScratch(dir, *repo, *hdir, append([]string{"h_common.go"}, strings.Split(*files, ",")...))
	if err != nil {
		fmt.Println("scratch:", err)
		return 2
	}
	pr, err := loadProg(dir, mod, goEnv())
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	fmt.Printf("loaded in %v\n", time.Since(t0))
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	j := Job{Harness: *name, Params: map[string]int{}, Timeout: *to}
	if *nomerge {
		f := false
		j.Merge = &f
	}
	for _, kv := range strings.Split(*par, ",") {
		var k string
		var v int
		if i := strings.IndexByte(kv, '='); i > 0 {
			k = kv[:i]
			fmt.Sscan(kv[i+1:], &v)
			j.Params[k] = v
		}
	}
	r := runJob(pr, j)
	printResult(r)
	if len(r.Viol) > 0 {
		rp := &Replayer{dir: dir, mod: mod}
		for _, v := range r.Viol {
			rp.replay("x", j, v, dir)
			out := v.Output
			if len(out) > 1500 {
				out = out[:1500]
			}
			fmt.Printf("  replay of %q: %s\n%s\n", v.Msg, v.Status, indent(out))
		}
	}
	return 0
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ")
}

func printResult(r *JobResult) {
	fmt.Printf("%s %v: wall %.2fs steps %d forks %d merges %d paths %d asserts %d (queries %d) vars %d\n", r.Job.Harness, r.Job.Params, r.Wall, r.Steps, r.Forks, r.Merges, r.Paths, r.Asserts, r.AssertQ, r.Vars)
	fmt.Printf("  solver: %d queries (sat %d unsat %d unknown %d) cache %d fallback %d time %.2fs max %.2fs\n", r.Queries, r.Sat, r.Unsat, r.Unknown, r.Cache, r.Fallback, r.SolverS, r.MaxQ)
	if r.Err != "" {
		fmt.Println("  ERROR", r.Err)
	}
	if r.Truncated != "" {
		fmt.Println("  TRUNCATED", r.Truncated)
	}
	for k, n := range r.Incon {
		fmt.Printf("  INCONCLUSIVE x%d %s\n", n, k)
	}
	for k, n := range r.Reach {
		fmt.Printf("  reach %s x%d\n", k, n)
	}
	for _, v := range r.Viol {
		fmt.Printf("  VIOL %s %q at %s  trace %s\n", v.Kind, v.Msg, v.Site, v.Trace)
		if len(v.Inputs) < 60 {
			fmt.Printf("       %v\n", v.Inputs)
		}
	}
}
