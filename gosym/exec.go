package main

// Symbolic interpreter with structured merging.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Kind   string // assert, panic, hang
	Msg    string
	Site   string
	Trace  string
	Inputs map[string]uint64
	Replay string
	Status string // reproduced / not reproduced
	Output string
}

type Exec struct {
	pr       *Prog
	p        *Pool
	s        *Solver
	ownerCtr uint64

	Steps, Forks, Merges, Paths int64
	Asserts                     int64
	AssertQ                     int64
	reach                       map[string]int64
	viol                        []*Violation
	violKey                     map[string]int
	incon                       map[string]int
	params                      map[string]int
	funcs                       map[string]bool
	deadline                    time.Time
	firstViol                   time.Time
	witness                     []map[string]uint64
	maxForks                    int64
	stepLimit                   int64 // per path
	sides                       []*State
	inner                       Stop
	forkBase                    int
	varRange                    map[*Term]bool
	maxViol                     int
	cloneCtr                    int
	initSt                      *State
	initMode                    bool
	fnMode                      map[*Fn]uint8
	noMerge                     bool
	capture                     bool
	truncated                   string
	repl                        map[string]*Fn
	rootDepth                   int
}

type Stop struct {
	depth int
	blk   int
}

type budget struct{ msg string }

type ev int

const (
	evStop ev = iota
	evDead
	evFork
)

func (x *Exec) inconc(msg string) {
	if len(x.incon) < 200 {
		x.incon[msg]++
	}
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) ownTop() *Frame {
	i := len(st.frames) - 1
	fr := st.frames[i]
	if fr.owner == st.owner {
		return fr
	}
	nf := &Frame{}
	*nf = *fr
	nf.owner = st.owner
	nf.regs = append([]Val(nil), fr.regs...)
	nf.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	st.frames[i] = nf
	return nf
}

func (fr *Frame) get(o int32) Val {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.fn.consts[^o]
}

func (x *Exec) addPC(st *State, t *Term) {
	if t.op == OBAnd {
		x.addPC(st, t.a)
		x.addPC(st, t.b)
		return
	}
	if t.isConst() {
		return
	}
	if t.op == OBNot && t.a.op == OBOr {
		x.addPC(st, x.p.BNot(t.a.a))
		x.addPC(st, x.p.BNot(t.a.b))
		return
	}
	for _, q := range st.pc {
		if q == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

func overlay(base Model, m Model) Model {
	out := make(Model, len(base)+len(m))
	for k, v := range base {
		out[k] = v
	}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// feasible decides pc ∧ c, returning a model of it.
func (x *Exec) feasible(st *State, c *Term) (Result, Model) {
	if c.isConst() {
		if c.k != 0 {
			return Sat, st.model
		}
		return Unsat, nil
	}
	if x.p.Eval(c, st.model) != 0 {
		return Sat, st.model
	}
	for _, q := range st.pc {
		if q == c {
			return Sat, st.model // cannot happen with a correct model
		}
	}
	r, m := x.s.Check(st.pc, c)
	if r == Sat {
		return Sat, overlay(st.model, m)
	}
	if r == Unknown {
		x.inconc("solver gave no answer on a branch condition")
	}
	return r, nil
}

// implied: pc forces c.
func (x *Exec) pcHas(st *State, c *Term) bool {
	for _, q := range st.pc {
		if q == c {
			return true
		}
	}
	return false
}

func (x *Exec) checkBudget() {
	now := time.Now()
	if now.After(x.deadline) {
		panic(budget{"time limit"})
	}
	if !x.firstViol.IsZero() && now.Sub(x.firstViol) > 15*time.Second {
		panic(budget{"stopped after violations"})
	}
	if memHigh.Load() {
		panic(budget{"memory limit"})
	}
	if x.maxForks > 0 && x.Forks > x.maxForks {
		panic(budget{"fork limit"})
	}
}

func (x *Exec) run(st *State, stop Stop) (out []*State) {
	for {
		e := x.stepSafe(st, stop)
		switch e {
		case evStop:
			if len(st.frames) == 0 && !x.initMode {
				x.endPath(st)
				return nil
			}
			return []*State{st}
		case evDead:
			if len(x.sides) == 0 {
				return nil
			}
			fallthrough
		case evFork:
			sides := x.sides
			x.sides = nil
			inner, base := x.inner, x.forkBase
			if e == evFork {
				sides = append([]*State{st}, sides...)
			}
			x.checkBudget()
			var rs []*State
			for _, s := range sides {
				rs = append(rs, x.run(s, inner)...)
			}
			rs = x.merge(rs, base)
			if len(rs) == 0 {
				return nil
			}
			if len(rs) == 1 {
				st = rs[0]
				continue
			}
			for _, r := range rs {
				out = append(out, x.run(r, stop)...)
			}
			return x.merge(out, base)
		}
	}
}

// endPath: the harness returned. Some path models are kept as witnesses; they
// are replayed natively to validate the encoding (every assertion of the
// harness must hold there too).
func (x *Exec) endPath(st *State) {
	x.Paths++
	if x.Paths&(x.Paths-1) != 0 || len(x.witness) >= 10 {
		return
	}
	w := map[string]uint64{}
	for _, t := range x.p.vars {
		w[t.name] = st.model[t] & maskW(t.w)
	}
	x.witness = append(x.witness, w)
}

func (x *Exec) stepSafe(st *State, stop Stop) (e ev) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				where := ""
				if len(st.frames) > 0 {
					where = " at " + x.where(st)
				}
				x.inconc("unsupported: " + u.msg + where)
				e = evDead
				x.inner, x.forkBase = stop, 0
				return
			}
			if _, ok := r.(budget); ok {
				panic(r)
			}
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "internal: %v at %s\n%s\n", r, x.where(st), debug.Stack())
			}
			x.inconc(fmt.Sprintf("internal error %v at %s", r, x.where(st)))
			e = evDead
			x.inner, x.forkBase = stop, 0
		}
	}()
	return x.step(st, stop)
}

func (x *Exec) where(st *State) string {
	var sb strings.Builder
	for i := len(st.frames) - 1; i >= 0 && i > len(st.frames)-6; i-- {
		fr := st.frames[i]
		if fr.blk < len(fr.fn.blocks) {
			b := fr.fn.blocks[fr.blk]
			pc := fr.pc
			if i < len(st.frames)-1 {
				pc--
			}
			if pc >= 0 && pc < len(b.ins) {
				if i < len(st.frames)-1 {
					sb.WriteString(" < ")
				}
				sb.WriteString(x.posOf(fr.fn, &b.ins[pc]))
			}
		}
	}
	return sb.String()
}

func (x *Exec) posOf(fn *Fn, in *Ins) string {
	p := in.pos
	if !p.IsValid() {
		if bb := in.in.Block(); bb != nil {
			for _, o := range bb.Instrs {
				if o.Pos().IsValid() {
					p = o.Pos()
				}
				if o == in.in {
					break
				}
			}
		}
	}
	ps := x.pr.fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s(%s:%d)", fn.f.Name(), f, ps.Line)
}

func (x *Exec) site(st *State) string {
	// innermost frame in the code under test
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		b := fr.fn.blocks[fr.blk]
		pc := fr.pc
		if i < len(st.frames)-1 {
			pc--
		}
		if pc < 0 || pc >= len(b.ins) {
			continue
		}
		if strings.HasPrefix(fr.fn.pkg, x.pr.mod) {
			return x.posOf(fr.fn, &b.ins[pc])
		}
	}
	return "?"
}

// violation records a candidate counterexample.
func (x *Exec) violation(st *State, kind, msg string, m Model) {
	site := x.site(st)
	key := kind + "|" + msg + "|" + site
	x.violKey[key]++
	if x.violKey[key] > 2 || len(x.viol) >= x.maxViol {
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Site: site, Trace: x.where(st), Inputs: map[string]uint64{}}
	for _, t := range x.p.vars {
		v.Inputs[t.name] = m[t] & maskW(t.w)
	}
	x.viol = append(x.viol, v)
	if x.firstViol.IsZero() {
		x.firstViol = time.Now()
	}
}

// require ensures ok holds, spawning the failing side. Returns false if the
// current state itself panics.
func (x *Exec) require(st *State, ok *Term, msg string) bool {
	if ok.isConst() {
		if ok.k != 0 {
			return true
		}
		x.raise(st, msg)
		return false
	}
	if x.pcHas(st, ok) {
		return true
	}
	bad := x.p.BNot(ok)
	if x.p.Eval(ok, st.model) != 0 {
		r, m := x.feasible(st, bad)
		if r == Sat {
			s2 := x.fork(st)
			x.addPC(s2, bad)
			s2.model = m
			x.raise(s2, msg)
			if len(s2.frames) > 0 {
				x.sides = append(x.sides, s2)
			}
			x.addPC(st, ok)
		}
		return true
	}
	// the current model violates ok
	r, m := x.feasible(st, ok)
	if r == Sat {
		s2 := x.fork(st)
		x.addPC(s2, bad)
		x.raise(s2, msg)
		if len(s2.frames) > 0 {
			x.sides = append(x.sides, s2)
		}
		x.addPC(st, ok)
		st.model = m
		return true
	}
	x.raise(st, msg)
	return false
}

// raise starts a run-time panic.
func (x *Exec) raise(st *State, msg string) {
	x.raiseVal(st, Val{p: &Iface{typ: x.pr.rtErr, v: strVal(msg)}}, msg)
}

func (x *Exec) raiseVal(st *State, v Val, msg string) {
	st.panic = &panicRec{v: v, msg: msg, site: x.site(st), trace: x.where(st)}
	x.unwind(st)
}

func (x *Exec) unwind(st *State) {
	for {
		if len(st.frames) == 0 {
			pr := st.panic
			key := "panic|" + pr.msg + "|" + pr.site
			x.violKey[key]++
			if x.violKey[key] <= 2 && len(x.viol) < x.maxViol {
				v := &Violation{Kind: "panic", Msg: pr.msg, Site: pr.site, Trace: pr.trace, Inputs: map[string]uint64{}}
				for _, t := range x.p.vars {
					v.Inputs[t.name] = st.model[t] & maskW(t.w)
				}
				x.viol = append(x.viol, v)
				if x.firstViol.IsZero() {
					x.firstViol = time.Now()
				}
			}
			x.Paths++
			return
		}
		fr := st.ownTop()
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			x.pushFrame(st, d.c.fn, d.args, d.c.bind, noReg)
			nf := st.ownTop()
			nf.kind = 2
			nf.rec = st.panic
			return
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
}

func (x *Exec) pushFrame(st *State, fn *Fn, args, bind []Val, dst int32) {
	x.pr.ready(fn)
	if fn.repl != nil {
		fn = fn.repl
	}
	if fn.err != "" {
		unsup("%s", fn.err)
	}
	if fn.intr != nil {
		unsup("intrinsic %s used as a deferred or indirect call", fn.name)
	}
	if len(st.frames) > 4000 {
		unsup("call depth")
	}
	fr := &Frame{owner: st.owner, fn: fn, regs: make([]Val, fn.nregs), dst: dst}
	for i, r := range fn.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fn.free {
		fr.regs[r] = bind[i]
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	if !x.funcs[fn.name] {
		x.funcs[fn.name] = true
	}
}

// take follows successor si of the frame's block.
func (fr *Frame) take(si int) {
	b := fr.fn.blocks[fr.blk]
	mv := &b.moves[si]
	switch len(mv.dst) {
	case 0:
	case 1:
		fr.regs[mv.dst[0]] = fr.get(mv.src[0])
	default:
		var tmp [16]Val
		t := tmp[:0]
		for _, s := range mv.src {
			t = append(t, fr.get(s))
		}
		for i, d := range mv.dst {
			fr.regs[d] = t[i]
		}
	}
	fr.prev = fr.blk
	fr.blk = b.succ[si]
	fr.pc = 0
}

func (x *Exec) atStop(st *State, stop Stop) bool {
	n := len(st.frames)
	if n < stop.depth {
		return true
	}
	if n == stop.depth && stop.blk >= 0 {
		fr := st.frames[n-1]
		return fr.pc == 0 && fr.blk == stop.blk
	}
	return false
}

func (x *Exec) step(st *State, stop Stop) ev {
	if len(st.frames) == 0 {
		if st.panic == nil {
			if stop.depth > 0 {
				return evStop
			}
		}
		return evDead
	}
	if x.atStop(st, stop) {
		return evStop
	}
	fr := st.ownTop()
	cnt := 0
	for {
		ins := &fr.fn.blocks[fr.blk].ins[fr.pc]
		cnt++
		if cnt&0xffff == 0 {
			x.Steps += 0x10000
			st.steps += 0x10000
			x.checkBudget()
			if x.stepLimit > 0 && st.steps > x.stepLimit {
				if x.initMode {
					panic(budget{"init too long"})
				}
				x.violation(st, "hang", fmt.Sprintf("path exceeds %d instructions", x.stepLimit), st.model)
				return evDead
			}
		}
		switch ins.op {
		case IBin:
			a, b := fr.get(ins.a), fr.get(ins.b)
			if ins.ok && a.p == nil && b.p == nil {
				if r, ok := binConc(ins, a.n, b.n); ok {
					fr.regs[ins.dst] = Val{n: r}
					fr.pc++
					continue
				}
			}
			base, dep := len(st.pc), len(st.frames)
			v, ok := x.binSlow(st, ins, a, b)
			if ok {
				fr = st.top()
				if fr.owner != st.owner {
					fr = st.ownTop()
				}
				fr.regs[ins.dst] = v
				fr.pc++
			}
			if len(x.sides) > 0 || !ok {
				return x.forked(st, fr, base, dep, ok)
			}
		case IJump:
			fr.take(0)
			if len(st.frames) == stop.depth && fr.blk == stop.blk {
				x.Steps += int64(cnt & 0xffff)
				return evStop
			}
		case IIf:
			c := fr.get(ins.a)
			if c.p == nil {
				if c.n != 0 {
					fr.take(0)
				} else {
					fr.take(1)
				}
				if len(st.frames) == stop.depth && fr.blk == stop.blk {
					x.Steps += int64(cnt & 0xffff)
					return evStop
				}
				continue
			}
			ct := c.p.(*Term)
			if x.pcHas(st, ct) {
				fr.take(0)
			} else if x.pcHas(st, x.p.BNot(ct)) {
				fr.take(1)
			} else {
				mv := x.p.Eval(ct, st.model)
				var other *Term
				if mv != 0 {
					other = x.p.BNot(ct)
				} else {
					other = ct
				}
				r, m := x.feasible(st, other)
				if r != Sat {
					if mv != 0 {
						fr.take(0)
					} else {
						fr.take(1)
					}
				} else {
					base := len(st.pc)
					blk := fr.blk
					s2 := x.fork(st)
					s2.model = m
					x.addPC(s2, other)
					x.addPC(st, x.p.BNot(other))
					f1, f2 := st.ownTop(), s2.ownTop()
					if mv != 0 {
						f1.take(0)
						f2.take(1)
					} else {
						f1.take(1)
						f2.take(0)
					}
					x.sides = append(x.sides, s2)
					x.inner = Stop{len(st.frames), fr.fn.blocks[blk].ipdom}
					x.forkBase = base
					x.Steps += int64(cnt & 0xffff)
					st.steps += int64(cnt & 0xffff)
					s2.steps = st.steps
					return evFork
				}
			}
			if len(st.frames) == stop.depth && fr.blk == stop.blk {
				x.Steps += int64(cnt & 0xffff)
				return evStop
			}
		case ILoad:
			p := fr.get(ins.a)
			if p.p == nil && p.n>>32 == 0 {
				x.raise(st, "nil pointer dereference")
				return x.afterRaise(st)
			}
			if p.p == nil && !ins.agg {
				o := st.getObj(uint32(p.n >> 32))
				if len(o.log) == 0 && !o.unin {
					fr.regs[ins.dst] = o.get(int(uint32(p.n)))
					fr.pc++
					continue
				}
			}
			fr.regs[ins.dst] = x.load(st, p, ins.typ, ins.agg)
			fr.pc++
		case IStore:
			p := fr.get(ins.a)
			if p.p == nil && p.n>>32 == 0 {
				x.raise(st, "nil pointer dereference")
				return x.afterRaise(st)
			}
			x.store(st, p, fr.get(ins.b), ins.typ, ins.agg)
			fr.pc++
		case IFieldAddr:
			p := fr.get(ins.a)
			if sp, ok := p.p.(*SymPtr); ok {
				q := *sp
				q.base += uint32(ins.k)
				fr.regs[ins.dst] = Val{p: &q}
				fr.pc++
				continue
			}
			if p.n>>32 == 0 {
				x.raise(st, "nil pointer dereference")
				return x.afterRaise(st)
			}
			fr.regs[ins.dst] = Val{n: p.n + uint64(ins.k)}
			fr.pc++
		case IIndexAddr:
			a, b := fr.get(ins.a), fr.get(ins.b)
			if b.p == nil && ins.k2 == -1 && a.p != nil {
				s := a.p.(*Slice)
				i := b.n
				if ins.sg {
					i = uint64(sx(i, ins.w))
				}
				if i < uint64(s.len) {
					fr.regs[ins.dst] = Val{n: uint64(s.id)<<32 | uint64(int(s.off)+int(i)*ins.k)}
					fr.pc++
					continue
				}
			}
			base, dep := len(st.pc), len(st.frames)
			v, ok := x.indexAddr(st, ins, a, b)
			if ok {
				fr = st.ownTop()
				fr.regs[ins.dst] = v
				fr.pc++
			}
			if len(x.sides) > 0 || !ok {
				return x.forked(st, fr, base, dep, ok)
			}
		case ICall:
			base, dep := len(st.pc), len(st.frames)
			blk := fr.blk
			ok := x.call(st, fr, ins)
			if len(x.sides) > 0 || !ok {
				x.Steps += int64(cnt & 0xffff)
				e := x.forked(st, nil, base, dep, ok)
				if dep <= len(st.frames) {
					x.inner = Stop{dep, st.frames[dep-1].fn.blocks[blk].ipdom}
				}
				return e
			}
			fr = st.ownTop()
		case IReturn:
			var v Val
			switch len(ins.args) {
			case 0:
			case 1:
				v = fr.get(ins.args[0])
			default:
				t := make([]Val, len(ins.args))
				for i, a := range ins.args {
					t[i] = fr.get(a)
				}
				v = Val{p: t}
			}
			if x.ret(st, v) {
				x.Steps += int64(cnt & 0xffff)
				st.steps += int64(cnt & 0xffff)
				if len(st.frames) == 0 {
					if st.panic != nil {
						return evDead
					}
					return evStop
				}
				return x.step(st, stop)
			}
			if len(st.frames) < stop.depth {
				x.Steps += int64(cnt & 0xffff)
				st.steps += int64(cnt & 0xffff)
				return evStop
			}
			fr = st.ownTop()
		default:
			base, dep := len(st.pc), len(st.frames)
			ok := x.slow(st, fr, ins)
			if len(x.sides) > 0 || !ok {
				x.Steps += int64(cnt & 0xffff)
				return x.forked(st, fr, base, dep, ok)
			}
			fr = st.ownTop()
		}
	}
}

// forked: an instruction spawned side states (or killed the main one).
func (x *Exec) forked(st *State, _ *Frame, base, dep int, ok bool) ev {
	x.forkBase = base
	x.inner = Stop{dep, -1}
	if dep <= len(st.frames) {
		f := st.frames[dep-1]
		x.inner = Stop{dep, f.fn.blocks[f.blk].ipdom}
	}
	if !ok && len(st.frames) == 0 {
		return evDead
	}
	return evFork
}

func (x *Exec) afterRaise(st *State) ev {
	x.forkBase = len(st.pc)
	x.inner = Stop{len(st.frames), -1}
	if len(st.frames) == 0 {
		return evDead
	}
	return evFork
}

// ret pops the top frame with result v. Reports true when control went
// somewhere other than straight back to the caller.
func (x *Exec) ret(st *State, v Val) bool {
	fr := st.top()
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	switch fr.kind {
	case 1: // deferred by RunDefers: re-execute it
		return true
	case 2: // deferred by a panic
		if fr.rec.recovered {
			st.panic = nil
			return x.resumeRecovered(st)
		}
		x.unwind(st)
		return true
	case 3:
		return x.resumeRecovered(st)
	}
	if fr.hook != nil {
		fr.hook(x, st, v)
		return true
	}
	if len(st.frames) == 0 {
		st.retVal(v)
		return true
	}
	if fr.dst != noReg && fr.dst >= 0 {
		c := st.ownTop()
		c.regs[fr.dst] = v
	}
	return false
}

func (st *State) retVal(v Val) {}

func (x *Exec) resumeRecovered(st *State) bool {
	fr := st.ownTop()
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[: n-1 : n-1]
		x.pushFrame(st, d.c.fn, d.args, d.c.bind, noReg)
		st.ownTop().kind = 3
		return true
	}
	if fr.fn.recov >= 0 {
		fr.blk = fr.fn.recov
		fr.pc = 0
		fr.recov = true
		return true
	}
	x.ret(st, Val{})
	return true
}

func binConc(ins *Ins, a, b uint64) (uint64, bool) {
	w := ins.w
	switch ins.tok {
	case token.ADD:
		return (a + b) & maskW(w), true
	case token.SUB:
		return (a - b) & maskW(w), true
	case token.MUL:
		return (a * b) & maskW(w), true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.AND_NOT:
		return a &^ b, true
	case token.EQL:
		return b2u(a == b), true
	case token.NEQ:
		return b2u(a != b), true
	case token.LSS:
		if ins.sg {
			return b2u(sx(a, w) < sx(b, w)), true
		}
		return b2u(a < b), true
	case token.LEQ:
		if ins.sg {
			return b2u(sx(a, w) <= sx(b, w)), true
		}
		return b2u(a <= b), true
	case token.GTR:
		if ins.sg {
			return b2u(sx(a, w) > sx(b, w)), true
		}
		return b2u(a > b), true
	case token.GEQ:
		if ins.sg {
			return b2u(sx(a, w) >= sx(b, w)), true
		}
		return b2u(a >= b), true
	case token.SHL:
		if ins.sg2 && sx(b, ins.w2) < 0 {
			return 0, false
		}
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & maskW(w), true
	case token.SHR:
		if ins.sg2 && sx(b, ins.w2) < 0 {
			return 0, false
		}
		if ins.sg {
			if b > 63 {
				b = 63
			}
			return uint64(sx(a, w)>>b) & maskW(w), true
		}
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		if ins.sg {
			if sx(b, w) == -1 {
				return (-a) & maskW(w), true
			}
			return uint64(sx(a, w)/sx(b, w)) & maskW(w), true
		}
		return a / b, true
	case token.REM:
		if b == 0 {
			return 0, false
		}
		if ins.sg {
			if sx(b, w) == -1 {
				return 0, true
			}
			return uint64(sx(a, w)%sx(b, w)) & maskW(w), true
		}
		return a % b, true
	}
	return 0, false
}

func (x *Exec) binSlow(st *State, ins *Ins, a, b Val) (Val, bool) {
	p := x.p
	if !ins.ok {
		return x.binOther(st, ins, a, b), true
	}
	w := ins.w
	ta := x.term(a, w)
	switch ins.tok {
	case token.SHL, token.SHR:
		tb := x.term(b, ins.w2)
		if ins.sg2 {
			if !x.require(st, p.Sle(p.Const(0, ins.w2), tb), "negative shift amount") {
				return Val{}, false
			}
		}
		// saturate the count to width w
		var cnt *Term
		if tb.w > w {
			cnt = p.Ite(p.Ult(tb, p.Const(uint64(w), tb.w)), p.Extract(tb, 0, w), p.Const(uint64(w), w))
		} else {
			cnt = p.Zext(tb, w)
		}
		if ins.tok == token.SHL {
			return tv(x.shiftIte(OShl, ta, cnt)), true
		}
		if ins.sg {
			return tv(x.shiftIte(OAshr, ta, cnt)), true
		}
		return tv(x.shiftIte(OLshr, ta, cnt)), true
	}
	tb := x.term(b, w)
	switch ins.tok {
	case token.ADD:
		return tv(p.Bin(OAdd, ta, tb)), true
	case token.SUB:
		return tv(p.Bin(OSub, ta, tb)), true
	case token.MUL:
		return tv(p.Bin(OMul, ta, tb)), true
	case token.AND:
		if w == 1 {
			return tv(p.BAnd(ta, tb)), true
		}
		return tv(p.Bin(OAnd, ta, tb)), true
	case token.OR:
		if w == 1 {
			return tv(p.BOr(ta, tb)), true
		}
		return tv(p.Bin(OOr, ta, tb)), true
	case token.XOR:
		return tv(p.Bin(OXor, ta, tb)), true
	case token.AND_NOT:
		return tv(p.Bin(OAnd, ta, p.Not(tb))), true
	case token.EQL:
		return tv(p.Eq(ta, tb)), true
	case token.NEQ:
		return tv(p.BNot(p.Eq(ta, tb))), true
	case token.LSS:
		if ins.sg {
			return tv(p.Slt(ta, tb)), true
		}
		return tv(p.Ult(ta, tb)), true
	case token.LEQ:
		if ins.sg {
			return tv(p.Sle(ta, tb)), true
		}
		return tv(p.Ule(ta, tb)), true
	case token.GTR:
		if ins.sg {
			return tv(p.Slt(tb, ta)), true
		}
		return tv(p.Ult(tb, ta)), true
	case token.GEQ:
		if ins.sg {
			return tv(p.Sle(tb, ta)), true
		}
		return tv(p.Ule(tb, ta)), true
	case token.QUO, token.REM:
		if !x.require(st, p.BNot(p.Eq(tb, p.Const(0, w))), "integer divide by zero") {
			return Val{}, false
		}
		op := OUDiv
		switch {
		case ins.tok == token.QUO && ins.sg:
			op = OSDiv
		case ins.tok == token.REM && ins.sg:
			op = OSRem
		case ins.tok == token.REM:
			op = OURem
		}
		if ins.sg && ta.slo >= 0 && tb.slo >= 0 {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
		}
		return tv(p.Bin(op, ta, tb)), true
	}
	unsup("binary op %s", ins.tok)
	return Val{}, false
}

// shiftIte expands shifts by a symbolic amount with a small range.
func (x *Exec) shiftIte(op Op, a, cnt *Term) *Term {
	p := x.p
	if cnt.isConst() {
		return p.Bin(op, a, cnt)
	}
	if cnt.op == OIte && (cnt.b.isConst() || cnt.c.isConst()) {
		return p.Ite(cnt.a, x.shiftIte(op, a, cnt.b), x.shiftIte(op, a, cnt.c))
	}
	return p.Bin(op, a, cnt)
}

func (x *Exec) binOther(st *State, ins *Ins, a, b Val) Val {
	t := ins.typ
	switch {
	case isString(t):
		sa, sb := getStr(a), getStr(b)
		switch ins.tok {
		case token.ADD:
			return concatStr(sa, sb)
		case token.EQL:
			return tv(x.strEq(sa, sb))
		case token.NEQ:
			return tv(x.p.BNot(x.strEq(sa, sb)))
		case token.LSS:
			return tv(x.strLt(sa, sb))
		case token.GTR:
			return tv(x.strLt(sb, sa))
		case token.LEQ:
			return tv(x.p.BNot(x.strLt(sb, sa)))
		case token.GEQ:
			return tv(x.p.BNot(x.strLt(sa, sb)))
		}
	case isFloat(t):
		if a.p != nil || b.p != nil {
			unsup("symbolic floating point")
		}
		fa, fb := math.Float64frombits(a.n), math.Float64frombits(b.n)
		switch ins.tok {
		case token.ADD:
			return Val{n: math.Float64bits(fa + fb)}
		case token.SUB:
			return Val{n: math.Float64bits(fa - fb)}
		case token.MUL:
			return Val{n: math.Float64bits(fa * fb)}
		case token.QUO:
			return Val{n: math.Float64bits(fa / fb)}
		case token.EQL:
			return Val{n: b2u(fa == fb)}
		case token.NEQ:
			return Val{n: b2u(fa != fb)}
		case token.LSS:
			return Val{n: b2u(fa < fb)}
		case token.GTR:
			return Val{n: b2u(fa > fb)}
		case token.LEQ:
			return Val{n: b2u(fa <= fb)}
		case token.GEQ:
			return Val{n: b2u(fa >= fb)}
		}
	default:
		switch ins.tok {
		case token.EQL:
			return tv(x.eqVal(a, b, t, ins.typ2))
		case token.NEQ:
			return tv(x.p.BNot(x.eqVal(a, b, t, ins.typ2)))
		}
	}
	unsup("binary op %s on %s", ins.tok, t)
	return Val{}
}

func concatStr(a, b *Str) Val {
	if len(a.s) == 0 {
		if len(b.s) == 0 {
			return Val{}
		}
		return Val{p: b}
	}
	if len(b.s) == 0 {
		return Val{p: a}
	}
	r := &Str{s: a.s + b.s}
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.s))
		copy(r.t, a.t)
		copy(r.t[len(a.s):], b.t)
	}
	return Val{p: r}
}

func (x *Exec) eqVal(a, b Val, t, t2 types.Type) *Term {
	p := x.p
	_, ia := t.Underlying().(*types.Interface)
	if t2 != nil {
		if _, ib := t2.Underlying().(*types.Interface); ib && !ia {
			// mixed comparison: wrap a
			a = Val{p: &Iface{t, a}}
			ia = true
			t = t2
		} else if ia && !ib && b != (Val{}) {
			b = Val{p: &Iface{t2, b}}
		}
	}
	if w, _, ok := intInfo(t); ok {
		return p.Eq(x.term(a, w), x.term(b, w))
	}
	if isString(t) {
		return x.strEq(getStr(a), getStr(b))
	}
	if isFloat(t) {
		return p.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return p.Bool(a.p == nil && b.p == nil)
		}
		i, j := a.p.(*Iface), b.p.(*Iface)
		if !types.Identical(i.typ, j.typ) {
			return p.fa
		}
		return x.eqVal(i.v, j.v, i.typ, nil)
	case *types.Struct:
		r := p.tr
		n := x.pr.size(t)
		ca, cb := cellsOf(a, n), cellsOf(b, n)
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fn := x.pr.size(ft)
			if isAgg(ft) {
				r = p.BAnd(r, x.eqVal(Val{p: ca[o : o+fn]}, Val{p: cb[o : o+fn]}, ft, nil))
			} else {
				r = p.BAnd(r, x.eqVal(ca[o], cb[o], ft, nil))
			}
			o += fn
		}
		return r
	case *types.Array:
		r := p.tr
		n := x.pr.size(t)
		ca, cb := cellsOf(a, n), cellsOf(b, n)
		fn := x.pr.size(u.Elem())
		for o := 0; o < n; o += fn {
			if isAgg(u.Elem()) {
				r = p.BAnd(r, x.eqVal(Val{p: ca[o : o+fn]}, Val{p: cb[o : o+fn]}, u.Elem(), nil))
			} else {
				r = p.BAnd(r, x.eqVal(ca[o], cb[o], u.Elem(), nil))
			}
		}
		return r
	case *types.Slice, *types.Signature:
		return p.Bool((a.p == nil) == (b.p == nil))
	}
	// pointers, maps
	_, sa := a.p.(*SymPtr)
	_, sb := b.p.(*SymPtr)
	if sa || sb {
		if (sa && b.p == nil && b.n == 0) || (sb && a.p == nil && a.n == 0) {
			return p.fa
		}
		unsup("comparison of symbolic pointers")
	}
	return p.Bool(a.n == b.n)
}

// idxTerm widens an index to 64 bits.
func (x *Exec) idx64(b Val, w uint8, sg bool) Val {
	if b.p == nil {
		if sg {
			return Val{n: uint64(sx(b.n, w))}
		}
		return b
	}
	t := b.p.(*Term)
	if sg {
		return tv(x.p.Sext(t, 64))
	}
	return tv(x.p.Zext(t, 64))
}

func (x *Exec) indexAddr(st *State, ins *Ins, a, b Val) (Val, bool) {
	i := x.idx64(b, ins.w, ins.sg)
	var id, off uint32
	var n int
	var outer *SymPtr
	if ins.k2 == -1 {
		if a.p == nil {
			x.raise(st, "index out of range")
			return Val{}, false
		}
		s := a.p.(*Slice)
		id, off, n = s.id, s.off, s.len
	} else {
		n = ins.k2
		if sp, ok := a.p.(*SymPtr); ok {
			outer = sp
		} else {
			if a.n>>32 == 0 {
				x.raise(st, "nil pointer dereference")
				return Val{}, false
			}
			id, off = uint32(a.n>>32), uint32(a.n)
		}
	}
	it := x.term(i, 64)
	if !x.require(st, x.p.Ult(it, x.p.Const(uint64(n), 64)), "index out of range") {
		return Val{}, false
	}
	if outer != nil {
		if i.p != nil {
			v := x.concretize(st, it)
			i = Val{n: v}
		}
		q := *outer
		q.base += uint32(int(i.n) * ins.k)
		return Val{p: &q}, true
	}
	if i.p == nil {
		return ptrVal(id, off+uint32(int(i.n)*ins.k)), true
	}
	// single possible value?
	o := st.getObj(id)
	w := x.pr.cellWidths(o.elem)
	allInt := true
	for _, c := range w {
		if c == 0 {
			allInt = false
		}
	}
	if !allInt {
		return ptrVal(id, off+uint32(int(x.concretize(st, it))*ins.k)), true
	}
	if v, ok := x.pinned(st, it); ok {
		return ptrVal(id, off+uint32(int(v)*ins.k)), true
	}
	return Val{p: &SymPtr{id: id, base: off, stride: uint32(ins.k), count: uint32(n), idx: it}}, true
}

// pinned finds an equality fact for t in the path condition.
func (x *Exec) pinned(st *State, t *Term) (uint64, bool) {
	if t.isConst() {
		return t.k, true
	}
	for i := len(st.pc) - 1; i >= 0; i-- {
		q := st.pc[i]
		if q.op == OEq && q.b.isConst() && q.a == t {
			return q.b.k, true
		}
		if t.w == 1 {
			if q == t {
				return 1, true
			}
			if q.op == OBNot && q.a == t {
				return 0, true
			}
		}
	}
	// t is a zero extension of something pinned
	if t.op == OZext {
		if v, ok := x.pinned(st, t.a); ok {
			return v, true
		}
	}
	return 0, false
}

// concretize picks the model's value for t and forks the remaining values
// off at the current instruction.
func (x *Exec) concretize(st *State, t *Term) uint64 {
	if v, ok := x.pinned(st, t); ok {
		return v
	}
	v := x.p.Eval(t, st.model)
	eq := x.p.Eq(t, x.p.Const(v, t.w))
	ne := x.p.BNot(eq)
	r, m := x.feasible(st, ne)
	if r == Sat {
		s2 := x.fork(st)
		s2.model = m
		x.addPC(s2, ne)
		x.sides = append(x.sides, s2)
		x.addPC(st, eq)
	}
	return v
}

func (x *Exec) concInt(st *State, v Val, w uint8, sg bool) int {
	if v.p == nil {
		if sg {
			return int(sx(v.n, w))
		}
		return int(v.n)
	}
	u := x.concretize(st, v.p.(*Term))
	if sg {
		return int(sx(u, w))
	}
	return int(u)
}

type rangeIter struct {
	str *Str
	m   uint32
	pos int
	n   int
}

var _ = ssa.InstantiateGenerics

// slow handles the less frequent instructions. false: the state raised.
func (x *Exec) slow(st *State, fr *Frame, ins *Ins) bool {
	set := func(v Val) bool {
		f := st.ownTop()
		f.regs[ins.dst] = v
		f.pc++
		return true
	}
	p := x.p
	switch ins.op {
	case INot:
		a := fr.get(ins.a)
		if a.p == nil {
			return set(Val{n: 1 - a.n})
		}
		return set(tv(p.BNot(a.p.(*Term))))
	case INeg:
		a := fr.get(ins.a)
		if !ins.ok {
			if a.p != nil {
				unsup("symbolic float")
			}
			return set(Val{n: math.Float64bits(-math.Float64frombits(a.n))})
		}
		if a.p == nil {
			return set(Val{n: (-a.n) & maskW(ins.w)})
		}
		return set(tv(p.Bin(OSub, p.Const(0, ins.w), a.p.(*Term))))
	case ICompl:
		a := fr.get(ins.a)
		if a.p == nil {
			return set(Val{n: (^a.n) & maskW(ins.w)})
		}
		return set(tv(p.Not(a.p.(*Term))))
	case IAlloc:
		return set(ptrVal(st.alloc(ins.typ2, ins.k, ins.k2), 0))
	case IField:
		c := fr.get(ins.a)
		if c.p == nil {
			return set(Val{})
		}
		cs := c.p.([]Val)
		if ins.agg {
			return set(Val{p: cs[ins.k : ins.k+ins.k2 : ins.k+ins.k2]})
		}
		return set(cs[ins.k])
	case IIndex, ILookup:
		return x.index(st, fr, ins, set)
	case ISlice:
		return x.sliceOp(st, fr, ins, set)
	case IMakeSlice:
		n := x.concInt(st, fr.get(ins.a), 64, true)
		c := x.concInt(st, fr.get(ins.b), 64, true)
		if n < 0 || n > 1<<31 {
			x.raise(st, "makeslice: len out of range")
			return false
		}
		if c < n {
			x.raise(st, "makeslice: cap out of range")
			return false
		}
		if n > 64<<20 {
			unsup("allocation of %d elements", n)
		}
		id := st.alloc(ins.typ2, ins.k, c)
		return set(Val{p: &Slice{id: id, len: n, cap: c}})
	case IMakeIface:
		return set(Val{p: &Iface{ins.typ2, fr.get(ins.a)}})
	case IMakeClosure:
		c := fr.get(ins.a).p.(*Closure)
		nc := &Closure{fn: c.fn}
		for _, a := range ins.args {
			nc.bind = append(nc.bind, fr.get(a))
		}
		return set(Val{p: nc})
	case IMakeMap:
		id := st.alloc(types.Typ[types.Int], 1, 0)
		st.getObj(id).m = &mapObj{owner: st.owner, index: map[string]int{}}
		return set(Val{n: uint64(id) << 32})
	case IMapUpdate:
		m := fr.get(ins.a)
		if m.n == 0 {
			x.raise(st, "assignment to entry in nil map")
			return false
		}
		kt := ins.typ2.Underlying().(*types.Map).Key()
		k := x.mapKey(st, fr.get(ins.b), kt)
		mo := x.ownMap(st, uint32(m.n>>32))
		if i, ok := mo.index[k]; ok {
			mo.vals[i] = fr.get(ins.c)
		} else {
			mo.index[k] = len(mo.keys)
			mo.keys = append(mo.keys, fr.get(ins.b))
			mo.vals = append(mo.vals, fr.get(ins.c))
			mo.ks = append(mo.ks, k)
		}
		fr.pc++
		return true
	case IConvert:
		return x.convert(st, fr, ins, set)
	case ICopy:
		return set(fr.get(ins.a))
	case ITypeAssert:
		return x.typeAssert(st, fr, ins, set)
	case IExtract:
		t := fr.get(ins.a)
		if t.p == nil {
			return set(Val{})
		}
		return set(t.p.([]Val)[ins.k])
	case IDefer:
		c, args, ok := x.callee(st, fr, ins)
		if !ok {
			return false
		}
		if c == nil {
			unsup("deferred builtin %s", ins.call.bi)
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{c, args})
		fr.pc++
		return true
	case IRunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			x.pr.ready(d.c.fn)
			if d.c.fn.intr != nil {
				d.c.fn.intr(x, st, ins, d.args)
				return true
			}
			x.pushFrame(st, d.c.fn, d.args, d.c.bind, noReg)
			st.ownTop().kind = 1
			return true
		}
		fr.pc++
		return true
	case IPanic:
		v := fr.get(ins.a)
		x.raiseVal(st, v, x.panicMsg(st, v))
		return false
	case IRange:
		a := fr.get(ins.a)
		if isString(ins.typ2) {
			return set(Val{p: &rangeIter{str: getStr(a)}})
		}
		it := &rangeIter{m: uint32(a.n >> 32)}
		if it.m != 0 {
			it.n = len(st.getObj(it.m).m.keys)
		}
		return set(Val{p: it})
	case INext:
		return x.next(st, fr, ins, set)
	case ISlice2Arr:
		a := fr.get(ins.a)
		if a.p == nil {
			if ins.k == 0 {
				return set(Val{})
			}
			x.raise(st, "slice to array conversion")
			return false
		}
		s := a.p.(*Slice)
		if s.len < ins.k {
			x.raise(st, "slice to array conversion")
			return false
		}
		return set(ptrVal(s.id, s.off))
	}
	unsup("instruction %T", ins.in)
	return false
}

func (x *Exec) panicMsg(st *State, v Val) string {
	if i, ok := v.p.(*Iface); ok {
		if s, ok := i.v.p.(*Str); ok {
			return "panic: " + s.s
		}
		return "panic: value of type " + i.typ.String()
	}
	return "panic"
}

func (x *Exec) ownMap(st *State, id uint32) *mapObj {
	o := st.ownObj(id)
	if o.m.owner != st.owner {
		m := &mapObj{owner: st.owner, keys: append([]Val(nil), o.m.keys...), vals: append([]Val(nil), o.m.vals...), ks: append([]string(nil), o.m.ks...), index: make(map[string]int, len(o.m.index))}
		for k, v := range o.m.index {
			m.index[k] = v
		}
		o.m = m
	}
	return o.m
}

func (x *Exec) mapKey(st *State, v Val, t types.Type) string {
	if w, _, ok := intInfo(t); ok {
		n := v.n
		if v.p != nil {
			n = x.concretize(st, v.p.(*Term))
		}
		_ = w
		return fmt.Sprintf("i%d", n)
	}
	if isString(t) {
		s := getStr(v)
		if s.t != nil {
			b := []byte(s.s)
			for i, q := range s.t {
				if q != nil {
					b[i] = byte(x.concretize(st, q))
				}
			}
			return "s" + string(b)
		}
		return "s" + s.s
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.p == nil {
			return "n"
		}
		i := v.p.(*Iface)
		return "I" + i.typ.String() + ":" + x.mapKey(st, i.v, i.typ)
	case *types.Pointer, *types.Map:
		if v.p != nil {
			unsup("symbolic pointer as map key")
		}
		return fmt.Sprintf("p%d", v.n)
	case *types.Struct:
		s := "{"
		cs := cellsOf(v, x.pr.size(t))
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := x.pr.size(ft)
			if isAgg(ft) {
				s += x.mapKey(st, Val{p: cs[o : o+n]}, ft) + ","
			} else {
				s += x.mapKey(st, cs[o], ft) + ","
			}
			o += n
		}
		return s + "}"
	case *types.Array:
		s := "["
		cs := cellsOf(v, x.pr.size(t))
		n := x.pr.size(u.Elem())
		for o := 0; o < len(cs); o += n {
			if isAgg(u.Elem()) {
				s += x.mapKey(st, Val{p: cs[o : o+n]}, u.Elem()) + ","
			} else {
				s += x.mapKey(st, cs[o], u.Elem()) + ","
			}
		}
		return s + "]"
	}
	unsup("map key type %s", t)
	return ""
}

func (x *Exec) zero(t types.Type) Val {
	return Val{}
}

func (x *Exec) index(st *State, fr *Frame, ins *Ins, set func(Val) bool) bool {
	a, b := fr.get(ins.a), fr.get(ins.b)
	if mt, ok := ins.typ2.Underlying().(*types.Map); ok {
		var res Val
		found := uint64(0)
		if a.n != 0 {
			k := x.mapKey(st, b, mt.Key())
			mo := st.getObj(uint32(a.n >> 32)).m
			if i, ok := mo.index[k]; ok {
				res = mo.vals[i]
				found = 1
			}
		}
		if ins.ok {
			return set(Val{p: []Val{res, {n: found}}})
		}
		return set(res)
	}
	i := x.idx64(b, ins.w, ins.sg)
	it := x.term(i, 64)
	if isString(ins.typ2) {
		s := getStr(a)
		if !x.require(st, x.p.Ult(it, x.p.Const(uint64(len(s.s)), 64)), "index out of range") {
			return false
		}
		if i.p == nil {
			return set(s.at(int(i.n)))
		}
		vals := make([]uint64, len(s.s))
		for k := range vals {
			vals[k] = uint64(s.s[k])
		}
		v := x.p.Table(vals, 8, 0, it)
		if s.t != nil {
			for k, q := range s.t {
				if q != nil {
					v = x.p.Ite(x.p.Eq(it, x.p.Const(uint64(k), 64)), q, v)
				}
			}
		}
		return set(tv(v))
	}
	// array value
	n := ins.k2
	if !x.require(st, x.p.Ult(it, x.p.Const(uint64(n), 64)), "index out of range") {
		return false
	}
	if i.p != nil {
		i = Val{n: x.concretize(st, it)}
	}
	if a.p == nil {
		return set(Val{})
	}
	cs := a.p.([]Val)
	o := int(i.n) * ins.k
	if ins.agg {
		return set(Val{p: cs[o : o+ins.k : o+ins.k]})
	}
	return set(cs[o])
}

func (x *Exec) sliceOp(st *State, fr *Frame, ins *Ins, set func(Val) bool) bool {
	a := fr.get(ins.a)
	var length, capn int
	var id, off uint32
	var str *Str
	switch ins.k2 {
	case -2:
		str = getStr(a)
		length = len(str.s)
		capn = length
	case -1:
		if a.p != nil {
			s := a.p.(*Slice)
			length, capn, id, off = s.len, s.cap, s.id, s.off
		}
	default:
		if a.p != nil {
			unsup("slice of symbolic array pointer")
		}
		if a.n>>32 == 0 {
			x.raise(st, "nil pointer dereference")
			return false
		}
		length, capn = ins.k2, ins.k2
		id, off = uint32(a.n>>32), uint32(a.n)
	}
	opW := func(r int32) (uint8, bool) {
		var v ssa.Value
		in := ins.in.(*ssa.Slice)
		switch r {
		case 0:
			v = in.Low
		case 1:
			v = in.High
		case 2:
			v = in.Max
		}
		w, sg, _ := intInfo(v.Type())
		return w, sg
	}
	getB := func(o int32, which int32, def int) Val {
		if o == noReg {
			return Val{n: uint64(def)}
		}
		w, sg := opW(which)
		return x.idx64(fr.get(o), w, sg)
	}
	lo := getB(ins.b, 0, 0)
	hi := getB(ins.c, 1, length)
	mx := getB(ins.d, 2, capn)
	p := x.p
	lt, ht, mt := x.term(lo, 64), x.term(hi, 64), x.term(mx, 64)
	limit := capn
	if ins.d != noReg {
		if !x.require(st, p.Ule(mt, p.Const(uint64(capn), 64)), "slice bounds out of range") {
			return false
		}
		if !x.require(st, p.Ule(ht, mt), "slice bounds out of range") {
			return false
		}
	} else if !x.require(st, p.Ule(ht, p.Const(uint64(limit), 64)), "slice bounds out of range") {
		return false
	}
	if !x.require(st, p.Ule(lt, ht), "slice bounds out of range") {
		return false
	}
	l := int(x.conc64(st, lo))
	h := int(x.conc64(st, hi))
	m := int(x.conc64(st, mx))
	if str != nil {
		return set(str.sub(l, h))
	}
	if ins.k2 == -1 && a.p == nil {
		return set(Val{})
	}
	return set(Val{p: &Slice{id: id, off: off + uint32(l*ins.k), len: h - l, cap: m - l}})
}

func (x *Exec) conc64(st *State, v Val) uint64 {
	if v.p == nil {
		return v.n
	}
	return x.concretize(st, v.p.(*Term))
}

func (x *Exec) convert(st *State, fr *Frame, ins *Ins, set func(Val) bool) bool {
	a := fr.get(ins.a)
	from, to := ins.typ2.Underlying(), ins.typ.Underlying()
	if ins.ok && ins.w2 != 0 && ins.w != 1 {
		if a.p == nil {
			n := a.n
			if ins.sg {
				n = uint64(sx(n, ins.w))
			}
			return set(Val{n: n & maskW(ins.w2)})
		}
		t := a.p.(*Term)
		switch {
		case ins.w2 == ins.w:
		case ins.w2 < ins.w:
			t = x.p.Extract(t, 0, ins.w2)
		case ins.sg:
			t = x.p.Sext(t, ins.w2)
		default:
			t = x.p.Zext(t, ins.w2)
		}
		return set(tv(t))
	}
	if isString(to) {
		if sl, ok := from.(*types.Slice); ok {
			w, _, _ := intInfo(sl.Elem())
			if w == 8 {
				if a.p == nil {
					return set(Val{})
				}
				return set(mkStr(x.sliceVals(st, a.p.(*Slice))))
			}
			if w == 32 {
				var out []rune
				if a.p != nil {
					for _, v := range x.sliceVals(st, a.p.(*Slice)) {
						n := v.n
						if v.p != nil {
							n = x.concretize(st, v.p.(*Term))
						}
						out = append(out, rune(int32(n)))
					}
				}
				return set(strVal(string(out)))
			}
		}
		if isString(from) {
			return set(a)
		}
		if ins.ok {
			n := a.n
			if a.p != nil {
				n = x.concretize(st, a.p.(*Term))
			}
			if ins.sg {
				n = uint64(sx(n, ins.w))
			}
			return set(strVal(string(rune(int64(n)))))
		}
	}
	if isString(from) {
		if sl, ok := to.(*types.Slice); ok {
			w, _, _ := intInfo(sl.Elem())
			s := getStr(a)
			if w == 8 {
				id := st.alloc(sl.Elem(), 1, len(s.s))
				o := st.getObj(id)
				for i := range s.s {
					o.set(st.owner, i, s.at(i))
				}
				return set(Val{p: &Slice{id: id, len: len(s.s), cap: len(s.s)}})
			}
			if w == 32 {
				b := []byte(s.s)
				for i, q := range s.t {
					if q != nil {
						b[i] = byte(x.concretize(st, q))
					}
				}
				rs := []rune(string(b))
				id := st.alloc(sl.Elem(), 1, len(rs))
				o := st.getObj(id)
				for i, r := range rs {
					o.set(st.owner, i, Val{n: uint64(uint32(r))})
				}
				return set(Val{p: &Slice{id: id, len: len(rs), cap: len(rs)}})
			}
		}
	}
	if isFloat(to) {
		if a.p != nil {
			unsup("symbolic float conversion")
		}
		if isFloat(from) {
			if b := to.(*types.Basic); b.Kind() == types.Float32 {
				return set(Val{n: math.Float64bits(float64(float32(math.Float64frombits(a.n))))})
			}
			return set(a)
		}
		if ins.sg {
			return set(Val{n: math.Float64bits(float64(sx(a.n, ins.w)))})
		}
		return set(Val{n: math.Float64bits(float64(a.n))})
	}
	if isFloat(from) && ins.w2 != 0 {
		f := math.Float64frombits(a.n)
		if ins.sg2 {
			return set(Val{n: uint64(int64(f)) & maskW(ins.w2)})
		}
		return set(Val{n: uint64(f) & maskW(ins.w2)})
	}
	// unsafe.Pointer and pointer conversions keep the representation
	isPtr := func(t types.Type) bool {
		if _, ok := t.(*types.Pointer); ok {
			return true
		}
		b, ok := t.(*types.Basic)
		return ok && (b.Kind() == types.UnsafePointer)
	}
	if isPtr(from) && isPtr(to) {
		return set(a)
	}
	unsup("conversion %s -> %s", ins.typ2, ins.typ)
	return false
}

func (x *Exec) sliceVals(st *State, s *Slice) []Val {
	o := st.getObj(s.id)
	out := make([]Val, s.len)
	for i := range out {
		out[i] = x.loadCell(o, int(s.off)+i)
	}
	return out
}

func (x *Exec) typeAssert(st *State, fr *Frame, ins *Ins, set func(Val) bool) bool {
	a := fr.get(ins.a)
	ok := false
	var res Val
	if a.p != nil {
		i := a.p.(*Iface)
		if it, isI := ins.typ2.Underlying().(*types.Interface); isI {
			if x.pr.implements(i.typ, it) {
				ok = true
				res = a
			}
		} else if types.Identical(i.typ, ins.typ2) {
			ok = true
			res = i.v
		}
	}
	if ins.ok {
		return set(Val{p: []Val{res, {n: b2u(ok)}}})
	}
	if !ok {
		x.raise(st, "interface conversion: not "+ins.typ2.String())
		return false
	}
	return set(res)
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (pr *Prog) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := pr.mcache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	pr.mcache.Store(k, r)
	return r
}

func (x *Exec) next(st *State, fr *Frame, ins *Ins, set func(Val) bool) bool {
	it := fr.get(ins.a).p.(*rangeIter)
	// the iterator register is updated functionally
	reg := ins.a
	upd := func(n *rangeIter) { st.ownTop().regs[reg] = Val{p: n} }
	if !ins.ok { // map
		if it.m == 0 || it.pos >= it.n {
			return set(Val{p: []Val{{}, {}, {}}})
		}
		m := st.getObj(it.m).m
		if it.pos >= len(m.keys) {
			return set(Val{p: []Val{{}, {}, {}}})
		}
		k, v := m.keys[it.pos], m.vals[it.pos]
		n := *it
		n.pos++
		upd(&n)
		return set(Val{p: []Val{{n: 1}, k, v}})
	}
	s := it.str
	if it.pos >= len(s.s) {
		return set(Val{p: []Val{{}, {}, {}}})
	}
	c := s.at(it.pos)
	if c.p == nil && c.n < 0x80 {
		n := *it
		n.pos++
		upd(&n)
		return set(Val{p: []Val{{n: 1}, {n: uint64(it.pos)}, {n: c.n}}})
	}
	if s.t == nil {
		for i, r := range s.s[it.pos:] {
			_ = i
			n := *it
			n.pos += runeLen(s.s[it.pos:])
			upd(&n)
			return set(Val{p: []Val{{n: 1}, {n: uint64(it.pos)}, {n: uint64(uint32(r))}}})
		}
	}
	// symbolic bytes: ASCII or concretise up to 4 bytes
	b := []byte(s.s[it.pos:min(len(s.s), it.pos+4)])
	if c.p != nil {
		t := c.p.(*Term)
		asc := x.p.Ult(t, x.p.Const(0x80, 8))
		if x.concretize(st, asc) != 0 {
			n := *it
			n.pos++
			upd(&n)
			return set(Val{p: []Val{{n: 1}, {n: uint64(it.pos)}, tv(x.p.Zext(t, 32))}})
		}
	}
	for k := range b {
		if v := s.at(it.pos + k); v.p != nil {
			b[k] = byte(x.concretize(st, v.p.(*Term)))
		}
	}
	for _, r := range string(b) {
		n := *it
		n.pos += runeLen(string(b))
		upd(&n)
		return set(Val{p: []Val{{n: 1}, {n: uint64(it.pos)}, {n: uint64(uint32(r))}}})
	}
	return false
}

func runeLen(s string) int {
	n := 0
	for i := range s {
		if n == 1 {
			return i
		}
		n++
	}
	return len(s)
}

// callee resolves the callee and arguments of a call. ok=false: raised.
func (x *Exec) callee(st *State, fr *Frame, ins *Ins) (*Closure, []Val, bool) {
	ci := ins.call
	if ci.bi != "" {
		return nil, nil, true
	}
	if ci.static != nil {
		args := make([]Val, len(ins.args))
		for i, a := range ins.args {
			args[i] = fr.get(a)
		}
		return &Closure{fn: ci.static}, args, true
	}
	v := fr.get(ins.a)
	if v.p == nil {
		x.raise(st, "nil pointer dereference")
		return nil, nil, false
	}
	if ci.invoke != nil {
		i := v.p.(*Iface)
		f := x.pr.method(i.typ, ci.invoke)
		if f == nil {
			unsup("method %s of %s", ci.invoke.Name(), i.typ)
		}
		args := make([]Val, 0, len(ins.args)+1)
		args = append(args, i.v)
		for _, a := range ins.args {
			args = append(args, fr.get(a))
		}
		return &Closure{fn: f}, args, true
	}
	args := make([]Val, len(ins.args))
	for i, a := range ins.args {
		args[i] = fr.get(a)
	}
	return v.p.(*Closure), args, true
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (pr *Prog) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t, m}
	if v, ok := pr.mcache.Load(k); ok {
		return v.(*Fn)
	}
	f := pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		return nil
	}
	n := pr.fn(f)
	pr.mcache.Store(k, n)
	return n
}

func (x *Exec) call(st *State, fr *Frame, ins *Ins) bool {
	ci := ins.call
	if ci.bi != "" {
		return x.builtin(st, fr, ins)
	}
	c, args, ok := x.callee(st, fr, ins)
	if !ok {
		return false
	}
	fn := c.fn
	x.pr.ready(fn)
	if x.repl != nil {
		if r, ok := x.repl[fn.name]; ok {
			fn = r
			x.pr.ready(fn)
		}
	}
	if x.initMode && fn.err != "" {
		f := st.ownTop()
		if ins.dst != noReg {
			f.regs[ins.dst] = Val{}
		}
		f.pc++
		return true
	}
	if fn.intr != nil {
		v, st2 := fn.intr(x, st, ins, args)
		if st2 == intrRaised {
			return false
		}
		if st2 == intrPushed {
			return true
		}
		f := st.ownTop()
		if ins.dst != noReg {
			f.regs[ins.dst] = v
		}
		f.pc++
		return true
	}
	fr.pc++
	x.pushFrame(st, fn, args, c.bind, ins.dst)
	return true
}
