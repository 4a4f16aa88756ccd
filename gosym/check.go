package main

// `gosym check PROPERTY`: runs the property's jobs, replays what the solver
// found, writes the evidence file and decides the exit code.

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type PropCfg struct {
	Assumptions []string `json:"assumptions"`
	Jobs        []Job    `json:"jobs"`
}

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Msg      string `json:"message,omitempty"`
	Site     string `json:"site,omitempty"` // function name
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type Config struct {
	Properties map[string]*PropCfg `json:"properties"`
}

func loadJSON(p string, v any) error {
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, v); err != nil {
		return fmt.Errorf("%s: %v", p, err)
	}
	return nil
}

// cmdJob: worker process. args: scratchdir module; job JSON on stdin, result
// JSON on stdout.
func cmdJob(args []string) int {
	watchMem(3500 << 20)
	var j Job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r *JobResult
	pr, err := loadProg(args[0], args[1], goEnv())
	if err != nil {
		r = &JobResult{Job: j, Err: err.Error()}
	} else {
		r = runJob(pr, j)
	}
	json.NewEncoder(os.Stdout).Encode(r)
	return 0
}

type scratch struct {
	dir, mod string
	err      error
	rp       *Replayer
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	tier := fs.String("tier", "", "")
	only := fs.String("job", "", "only jobs whose id contains this")
	verbose := fs.Bool("v", false, "")
	par := fs.Int("j", 8, "parallel jobs")
	evdir := fs.String("evidence", "", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym check [flags] PROPERTY")
		return 2
	}
	prop := fs.Arg(0)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *evdir == "" {
		*evdir = filepath.Join(*root, "evidence")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	limit := 780 * time.Second
	if *tier == "thorough" {
		limit = 4 * time.Hour
	}
	var cfg Config
	if err := loadJSON(filepath.Join(*root, "checks.json"), &cfg); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pc := cfg.Properties[prop]
	if pc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	var known []Finding
	if err := loadJSON(filepath.Join(*root, "known_findings.json"), &known); err != nil && !os.IsNotExist(err) {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var jobs []Job
	for _, j := range pc.Jobs {
		if j.Tier != "" && j.Tier != *tier {
			continue
		}
		if *only != "" && !strings.Contains(j.ID, *only) {
			continue
		}
		jobs = append(jobs, j)
	}
	base, err := os.MkdirTemp("", "gosym-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(base)
	scr := map[string]*scratch{}
	key := func(j Job) string { return strings.Join(j.Files, ",") }
	for _, j := range jobs {
		k := key(j)
		if scr[k] != nil {
			continue
		}
		s := &scratch{dir: filepath.Join(base, "m"+strconv.Itoa(len(scr)))}
		os.MkdirAll(s.dir, 0o755)
		s.mod, s.err = makeScratch(s.dir, *repo, filepath.Join(*root, "harness"), append([]string{"h_common.go"}, j.Files...))
		s.rp = &Replayer{dir: s.dir, mod: s.mod}
		scr[k] = s
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	results := make([]*JobResult, len(jobs))
	// longest jobs first
	order := make([]int, len(jobs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return jobs[order[a]].Timeout > jobs[order[b]].Timeout })
	self, _ := os.Executable()
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	var mu sync.Mutex
	rdir := filepath.Join(*evdir, "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	type viol struct {
		j Job
		v *Violation
	}
	var viols []viol
	knownHit := map[int]int{}
	traces, badTraces := 0, 0
	for _, i := range order {
		sem <- true
		if ctx.Err() != nil {
			<-sem
			results[i] = &JobResult{Job: jobs[i], Truncated: "not run (time limit or violation already found)"}
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			j := jobs[i]
			s := scr[key(j)]
			if s.err != nil {
				results[i] = &JobResult{Job: j, Err: s.err.Error()}
				return
			}
			r := runWorker(ctx, self, s, j)
			results[i] = r
			if *verbose {
				mu.Lock()
				printResult(r)
				mu.Unlock()
			}
			// replay candidate violations
			for _, v := range r.Viol {
				mu.Lock()
				s.rp.replay(prop, j, v, rdir)
				hit := -1
				for k, f := range known {
					if f.Status == "known" && f.Property == prop && f.Harness == j.Harness && f.Kind == v.Kind && f.Msg == v.Msg && f.Site == siteFunc(v.Site) {
						hit = k
					}
				}
				if v.reproduced() {
					if hit >= 0 {
						knownHit[hit]++
					} else {
						viols = append(viols, viol{j, v})
						cancel()
					}
				}
				if *verbose {
					fmt.Printf("  replay %q: %s\n", v.Msg, v.Status)
				}
				mu.Unlock()
			}
			// validate a few completed paths against the native build
			if ctx.Err() == nil {
				n := len(r.Witness)
				if *tier == "quick" && n > 3 {
					r.Witness = []map[string]uint64{r.Witness[0], r.Witness[n/2], r.Witness[n-1]}
				}
				for _, w := range r.Witness {
					v := &Violation{Kind: "witness", Inputs: w}
					mu.Lock()
					s.rp.replay(prop, j, v, s.dir)
					mu.Unlock()
					if v.Status == "ok" {
						traces++
					} else {
						badTraces++
						mu.Lock()
						fmt.Printf("NOTE witness path of %s does not replay cleanly: %s\n%s\n", j.ID, v.Status, indent(tail(v.Output, 600)))
						if r.Incon == nil {
							r.Incon = map[string]int{}
						}
						r.Incon["witness path does not replay natively: "+v.Status]++
						mu.Unlock()
					}
				}
			}
		}(i)
	}
	wg.Wait()
	// evidence
	cov := map[string]any{}
	var states, steps, asserts, aq, queries, unsat, sat, unknown, cache, fallb int64
	var solver float64
	fset := map[string]bool{}
	var samples []any
	var incon []string
	for _, r := range results {
		states += r.Paths + r.Merges
		steps += r.Steps
		asserts += r.Asserts
		aq += r.AssertQ
		queries += int64(r.Queries)
		sat += int64(r.Sat)
		unsat += int64(r.Unsat)
		unknown += int64(r.Unknown)
		cache += int64(r.Cache)
		fallb += int64(r.Fallback)
		solver += r.SolverS
		for _, f := range r.Funcs {
			fset[strings.ReplaceAll(f, "github.com/jeromelesaux/", "")] = true
		}
		if r.Err != "" {
			incon = append(incon, r.Job.ID+": "+r.Err)
		}
		if r.Truncated != "" {
			incon = append(incon, r.Job.ID+": stopped early: "+r.Truncated)
		}
		for k, n := range r.Incon {
			incon = append(incon, fmt.Sprintf("%s: %s (x%d)", r.Job.ID, k, n))
		}
		if r.Err == "" && r.Truncated == "" {
			for _, l := range r.Job.Reach {
				if r.Reach[l] == 0 {
					incon = append(incon, r.Job.ID+": witness label not reached: "+l)
				}
			}
		}
		sm := map[string]any{"job": r.Job.ID, "harness": r.Job.Harness, "params": r.Job.Params, "bounds": r.Job.Bounds,
			"paths": r.Paths, "instructions": r.Steps, "forks": r.Forks, "merges": r.Merges, "assertions": r.Asserts,
			"assertion_queries": r.AssertQ, "solver_queries": r.Queries, "sat": r.Sat, "unsat": r.Unsat, "unknown": r.Unknown,
			"solver_s": round(r.SolverS), "max_query_s": round(r.MaxQ), "wall_s": round(r.Wall), "symbolic_inputs": r.Vars, "reach": r.Reach}
		if len(r.Witness) > 0 && len(r.Witness[len(r.Witness)-1]) <= 64 {
			sm["sample_path_inputs"] = r.Witness[len(r.Witness)-1]
		}
		if r.Truncated != "" || r.Err != "" || len(r.Incon) > 0 {
			sm["complete_within_bounds"] = false
		} else {
			sm["complete_within_bounds"] = true
		}
		samples = append(samples, sm)
	}
	var fl []string
	for f := range fset {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	sort.Strings(incon)
	cov["states"] = states
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = traces
	cov["traces_failing_validation"] = badTraces
	cov["samples"] = samples
	cov["functions_encoded"] = fl
	cov["assertions_reached"] = asserts
	cov["assertion_queries"] = aq
	cov["solver_queries"] = queries
	cov["solver_sat"] = sat
	cov["solver_unsat"] = unsat
	cov["solver_unknown"] = unknown
	cov["solver_cache_hits"] = cache
	cov["solver_fallbacks"] = fallb
	cov["solver_s"] = round(solver)
	cov["inconclusive"] = incon
	cov["rule"] = "states = completed symbolic paths plus state merges; transitions = SSA instructions executed symbolically; every job explores all values of its symbolic inputs within the stated bounds; entries under inconclusive are outside what this run decided"
	cov["exhaustive"] = false
	var kl []string
	for k, n := range knownHit {
		kl = append(kl, fmt.Sprintf("%s (x%d)", known[k].What, n))
	}
	sort.Strings(kl)
	cov["known_findings_seen"] = kl
	ev := map[string]any{"property": prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": round(time.Since(t0).Seconds()), "violations": len(viols), "assumptions": append(append([]string{}, pc.Assumptions...), commonAssumptions...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(*evdir, 0o755)
	if err := os.WriteFile(filepath.Join(*evdir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range kl {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, l)
	}
	for _, l := range incon {
		fmt.Printf("INCONCLUSIVE %s\n", l)
	}
	fmt.Printf("%s %s: %d jobs, %d paths/merges, %d assertions, %d solver queries (%d unsat, %d sat, %d unknown, %d cached), solver %.1fs, wall %.1fs, %d path models replayed natively\n",
		prop, *tier, len(jobs), states, asserts, queries, unsat, sat, unknown, cache, solver, time.Since(t0).Seconds(), traces)
	if len(viols) > 0 {
		for _, w := range viols {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, w.v.Replay)
			fmt.Printf("  job %s: %s %q at %s (%s)\n  %s\n%s\n", w.j.ID, w.v.Kind, w.v.Msg, w.v.Site, w.v.Status, w.v.Trace, indent(tail(w.v.Output, 400)))
		}
		return 1
	}
	return 0
}

var commonAssumptions = []string{
	"the code is executed from go/ssa of /repo's current source (non-test files); only the imports os, fmt, path/filepath, io/ioutil and flag are redirected to the in-memory models of harness/zzverif",
	"library code below that (strings, bytes, bufio, strconv, time, sort, unicode) is executed from its own source, except strings.Index, errors.Is, sort.Strings, time.Now and the assembly routines of internal/bytealg, which have plain Go models in harness/zzverif/vstd",
	"64-bit int, sequential execution, no allocation failure",
	"the executor, its term simplifier and the SMT solver (z3, with z3-new/cvc5 as fallback) are trusted for 'holds'; every 'broken' is replayed on the natively compiled code before it is reported",
}

func siteFunc(s string) string {
	if i := strings.IndexByte(s, '('); i > 0 {
		return s[:i]
	}
	return s
}

func round(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func runWorker(ctx context.Context, self string, s *scratch, j Job) *JobResult {
	to := j.Timeout
	if to == 0 {
		to = 120
	}
	c2, cancel := context.WithTimeout(ctx, time.Duration(to+60)*time.Second)
	defer cancel()
	c := exec.CommandContext(c2, self, "job", s.dir, s.mod)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	b, _ := json.Marshal(j)
	c.Stdin = strings.NewReader(string(b))
	var eb strings.Builder
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		if ctx.Err() != nil {
			return &JobResult{Job: j, Truncated: "stopped (time limit or violation already found)"}
		}
		return &JobResult{Job: j, Err: fmt.Sprintf("worker: %v %s", err, tail(eb.String(), 400))}
	}
	var r JobResult
	if err := json.Unmarshal(out, &r); err != nil {
		return &JobResult{Job: j, Err: "worker output: " + err.Error()}
	}
	if eb.Len() > 0 {
		if r.Incon == nil {
			r.Incon = map[string]int{}
		}
		r.Incon["worker: "+tail(eb.String(), 200)]++
	}
	r.Job = j
	return &r
}

// cmdReplay: gosym replay FILE — replays a recorded counterexample natively.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	fs.Parse(args)
	var rf replayFile
	if err := loadJSON(fs.Arg(0), &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	mod, err := makeScratch(dir, *repo, filepath.Join(*root, "harness"), append([]string{"h_common.go"}, rf.Files...))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := &Replayer{dir: dir, mod: mod}
	v := &Violation{Kind: rf.Kind, Msg: rf.Msg, Site: rf.Site, Trace: rf.Trace, Inputs: rf.Inputs}
	rp.replay(rf.Property, Job{ID: "replay", Harness: rf.Harness, Params: rf.Params, Files: rf.Files}, v, dir)
	fmt.Println(v.Output)
	fmt.Println(v.Status)
	if v.reproduced() {
		return 1
	}
	return 0
}
