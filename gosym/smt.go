package main

// SMT-LIB2 back end: one z3 process per job, constraints sliced by shared
// variables, query cache, one-shot fallback solvers on "unknown".

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Model map[*Term]uint64

type SolverStats struct {
	Queries   int
	CacheHits int
	Sat       int
	Unsat     int
	Unknown   int
	Fallback  int
	Time      time.Duration
	MaxTime   time.Duration
}

type Solver struct {
	p       *Pool
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	gen     int
	Timeout int // ms
	Fall    int // ms, one-shot fallback
	Stats   SolverStats
	cache   map[string]cacheEnt
	nq      int
	bin     string
}

type cacheEnt struct {
	r Result
	m Model
}

func NewSolver(p *Pool) *Solver {
	s := &Solver{p: p, Timeout: 20000, Fall: 60000, cache: map[string]cacheEnt{}, bin: "z3-new"}
	if b := os.Getenv("GOSYM_Z3"); b != "" {
		s.bin = b
	}
	return s
}

func (s *Solver) start() error {
	s.gen++
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.Timeout)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	if w == 1 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(k uint64, w uint8) string {
	if w == 1 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func ref(t *Term) string {
	if t.op == OConst {
		return constStr(t.k, t.w)
	}
	if t.op == OVar {
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

// emit writes definitions for t and everything below it.
func (s *Solver) emit(w io.Writer, t *Term, gen int, seen map[*Term]bool) {
	if t.op == OConst {
		return
	}
	if seen != nil {
		if seen[t] {
			return
		}
		seen[t] = true
	} else {
		if t.emitted == gen {
			return
		}
		t.emitted = gen
	}
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", ref(t), sortOf(t.w))
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.emit(w, x, gen, seen)
		}
	}
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", ref(t), sortOf(t.w), s.body(t))
}

func (s *Solver) body(t *Term) string {
	switch t.op {
	case OExtract:
		if t.w == 1 {
			return fmt.Sprintf("(= ((_ extract %d %d) %s) #b1)", t.k, t.k, ref(t.a))
		}
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, ref(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OTable:
		return tblStr(t.tbl.runs, ref(t.a), t.a.w, t.w)
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", ref(t.a), ref(t.b), ref(t.c))
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opNames[t.op])
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func tblStr(runs []tblRun, idx string, iw, w uint8) string {
	if len(runs) == 1 {
		return constStr(runs[0].val, w)
	}
	m := len(runs) / 2
	return fmt.Sprintf("(ite (bvult %s %s) %s %s)", idx, constStr(runs[m].start, iw), tblStr(runs[:m], idx, iw, w), tblStr(runs[m:], idx, iw, w))
}

// slice returns the conjuncts transitively sharing variables with extra.
func sliceConj(pc []*Term, extra *Term) []*Term {
	vs := extra.vs
	used := make([]bool, len(pc))
	var out []*Term
	for {
		ch := false
		for i := len(pc) - 1; i >= 0; i-- {
			if !used[i] && pc[i].vs.meets(&vs) {
				used[i] = true
				ch = true
				vs.or(&pc[i].vs)
			}
		}
		if !ch {
			break
		}
	}
	for i, u := range used {
		if u {
			out = append(out, pc[i])
		}
	}
	return out
}

func collectVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var vars []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			vars = append(vars, t)
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, t := range ts {
		walk(t)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	return vars
}

// Check decides pc ∧ extra. The model covers the sliced variables only; the
// caller overlays it on a model of pc.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	if extra.isConst() && extra.k == 0 {
		return Unsat, nil
	}
	sl := sliceConj(pc, extra)
	sl = append(sl, extra)
	ids := make([]int, 0, len(sl))
	for _, t := range sl {
		ids = append(ids, int(t.id))
	}
	sort.Ints(ids)
	kb := make([]byte, 0, len(ids)*5)
	prev := -1
	for _, i := range ids {
		if i == prev {
			continue
		}
		prev = i
		kb = append(kb, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	key := string(kb)
	if e, ok := s.cache[key]; ok {
		s.Stats.CacheHits++
		return e.r, e.m
	}
	t0 := time.Now()
	r, m := s.query(sl)
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	if d > 2*time.Second && debugSlow {
		fmt.Fprintf(os.Stderr, "SLOW query %v -> %d  %s\n", d, r, extra)
	}
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

var debugSlow = os.Getenv("GOSYM_SLOW") != ""

func (s *Solver) query(sl []*Term) (Result, Model) {
	if s.cmd != nil && s.nq > 4000 {
		s.Close()
		s.nq = 0
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.nq++
	// z3's own limit does not cover reading the definitions
	proc := s.cmd.Process
	wd := time.AfterFunc(time.Duration(s.Timeout+4000)*time.Millisecond, func() {
		if debugSlow {
			fmt.Fprintln(os.Stderr, "solver watchdog")
		}
		proc.Kill()
	})
	defer wd.Stop()
	for _, t := range sl {
		s.emit(s.in, t, s.gen, nil)
	}
	s.in.WriteString("(push)\n")
	for _, t := range sl {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Close()
		return s.fallback(sl)
	}
	line := ""
	for line == "" { // skip the newline left after a get-value answer
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return s.fallback(sl)
		}
		line = strings.TrimSpace(l)
	}
	switch line {
	case "unsat":
		s.in.WriteString("(pop)\n")
		return Unsat, nil
	case "sat":
		vars := collectVars(sl)
		m := Model{}
		for i := 0; i < len(vars); i += 200 {
			j := min(i+200, len(vars))
			s.in.WriteString("(get-value (")
			for _, v := range vars[i:j] {
				s.in.WriteString(ref(v) + " ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			if !s.readValues(s.out, vars[i:j], m) {
				s.Close()
				return s.fallback(sl)
			}
		}
		s.in.WriteString("(pop)\n")
		if !s.verify(sl, m) {
			return Unknown, nil
		}
		return Sat, m
	default:
		if debugSlow {
			fmt.Fprintf(os.Stderr, "z3 says %q\n", line)
		}
		s.Close()
		return s.fallback(sl)
	}
}

// verify re-evaluates the constraints under the returned model with our own
// evaluator: a mismatch means the encoding and evaluator disagree.
func (s *Solver) verify(sl []*Term, m Model) bool {
	for _, v := range s.p.EvalMany(sl, m) {
		if v == 0 {
			fmt.Fprintln(os.Stderr, "gosym: model does not satisfy the constraints under the evaluator")
			modelMismatch++
			return false
		}
	}
	return true
}

var modelMismatch int

func (s *Solver) readValues(r *bufio.Reader, vars []*Term, m Model) bool {
	depth := 0
	var sb strings.Builder
	for {
		c, err := r.ReadByte()
		if err != nil {
			return false
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return false
	}
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[ref(v)] = v
	}
	for i := 0; i+1 < len(f); i++ {
		v := byName[f[i]]
		if v == nil {
			continue
		}
		x := f[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			u, err := strconv.ParseUint(x[2:], 16, 64)
			if err != nil {
				return false
			}
			m[v] = u
		case strings.HasPrefix(x, "#b"):
			u, err := strconv.ParseUint(x[2:], 2, 64)
			if err != nil {
				return false
			}
			m[v] = u
		case x == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			u, err := strconv.ParseUint(f[i+2][2:], 10, 64)
			if err != nil {
				return false
			}
			m[v] = u
		default:
			return false
		}
	}
	for _, v := range vars {
		if _, ok := m[v]; !ok {
			return false
		}
	}
	return true
}

func (s *Solver) script(sl []*Term, logic bool, vars []*Term) string {
	var sb strings.Builder
	if logic {
		sb.WriteString("(set-logic QF_BV)\n")
	}
	sb.WriteString("(set-option :produce-models true)\n")
	seen := map[*Term]bool{}
	for _, t := range sl {
		s.emit(&sb, t, 0, seen)
	}
	for _, t := range sl {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// fallback runs one-shot solvers on the query.
func (s *Solver) fallback(sl []*Term) (Result, Model) {
	s.Stats.Fallback++
	vars := collectVars(sl)
	type ans struct {
		r Result
		m Model
	}
	progs := [][]string{{"z3", "-smt2", "-in", fmt.Sprintf("-T:%d", (s.Fall+999)/1000)}, {"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.Fall), "-"}}
	ch := make(chan ans, len(progs))
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.Fall+3000)*time.Millisecond)
	defer cancel()
	txt := s.script(sl, false, vars)
	if debugSlow {
		os.WriteFile("/tmp/slow.smt2", []byte(txt), 0o644)
	}
	txtL := s.script(sl, true, vars)
	var gv strings.Builder
	if len(vars) > 0 {
		gv.WriteString("(get-value (")
		for _, v := range vars {
			gv.WriteString(ref(v) + " ")
		}
		gv.WriteString("))\n")
	}
	for i, pr := range progs {
		t := txt
		if i == 1 {
			t = txtL
		}
		go func() {
			c := exec.CommandContext(ctx, pr[0], pr[1:]...)
			c.Stdin = strings.NewReader(t + gv.String())
			out, _ := c.Output()
			o := string(out)
			nl := strings.IndexByte(o, '\n')
			if nl < 0 {
				ch <- ans{Unknown, nil}
				return
			}
			switch strings.TrimSpace(o[:nl]) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				m := Model{}
				if len(vars) == 0 || s.readValues(bufio.NewReader(strings.NewReader(o[nl+1:])), vars, m) {
					ch <- ans{Sat, m}
				} else {
					ch <- ans{Unknown, nil}
				}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	for range progs {
		a := <-ch
		if a.r == Unsat {
			return a.r, nil
		}
		if a.r == Sat {
			if s.verify(sl, a.m) {
				return Sat, a.m
			}
		}
	}
	return Unknown, nil
}
