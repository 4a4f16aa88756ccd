package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Intrinsics: harness primitives (package vrt) and body-less library functions.

var stdIntr, vrtIntr map[string]intrinsic

func init() {
	stdIntr = stdIntrTable()
	vrtIntr = vrtIntrTable()
}

func stdIntrTable() map[string]intrinsic {
	return map[string]intrinsic{
		"internal/abi.NoEscape":                    intrArg0,
		"internal/reflectlite.TypeOf":              intrNop,
		"internal/abi.Escape":                      intrArg0,
		"runtime.KeepAlive":                        intrNop,
		"(*sync.Mutex).Lock":                       intrNop,
		"(*sync.Mutex).Unlock":                     intrNop,
		"(*sync.RWMutex).Lock":                     intrNop,
		"(*sync.RWMutex).Unlock":                   intrNop,
		"(*sync.RWMutex).RLock":                    intrNop,
		"(*sync.RWMutex).RUnlock":                  intrNop,
		"internal/race.Acquire":                    intrNop,
		"internal/race.Release":                    intrNop,
		"internal/race.Enable":                     intrNop,
		"internal/race.Disable":                    intrNop,
		"sync/atomic.LoadUint32":                   intrALoad,
		"sync/atomic.LoadInt32":                    intrALoad,
		"sync/atomic.LoadUint64":                   intrALoad,
		"sync/atomic.LoadInt64":                    intrALoad,
		"sync/atomic.StoreUint32":                  intrAStore,
		"sync/atomic.StoreInt32":                   intrAStore,
		"sync/atomic.StoreUint64":                  intrAStore,
		"sync/atomic.StoreInt64":                   intrAStore,
		"sync/atomic.LoadPointer":                  intrALoad,
		"sync/atomic.AddInt32":                     intrAAdd(32),
		"sync/atomic.AddUint32":                    intrAAdd(32),
		"sync/atomic.AddInt64":                     intrAAdd(64),
		"sync/atomic.AddUint64":                    intrAAdd(64),
		"(*sync.Pool).Put":                         intrNop,
		"maps.clone":                               intrMapClone,
		"internal/bytealg.MakeNoZero":              intrMakeNoZero,
		"internal/bytealg.Equal":                   intrEqBytes,
		"internal/stringslite.Clone":               intrArg0,
		"strings.Clone":                            intrArg0,
		"(*time.Location).get":                     intrUTC,
		"(*internal/godebug.Setting).Value":        intrNop,
		"internal/godebug.New":                     intrNop,
		"internal/godebugs.Lookup":                 intrNop,
		"internal/bytealg.abigen_runtime_memequal": intrNop,
	}
}

func intrNop(x *Exec, st *State, ins *Ins, args []Val) (Val, int) { return Val{}, intrOK }
func intrArg0(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	return args[0], intrOK
}
func intrALoad(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	if args[0].p == nil && args[0].n == 0 {
		x.raise(st, "nil pointer dereference")
		return Val{}, intrRaised
	}
	return x.load(st, args[0], types.Typ[types.Int], false), intrOK
}
func intrAStore(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	x.store(st, args[0], args[1], types.Typ[types.Int], false)
	return Val{}, intrOK
}
func intrMakeNoZero(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	n := x.concInt(st, args[0], 64, true)
	id := st.alloc(types.Typ[types.Uint8], 1, n)
	return Val{p: &Slice{id: id, len: n, cap: n}}, intrOK
}
func intrUTC(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	for _, g := range x.pr.glist {
		if g.Pkg.Pkg.Path() == "time" && g.Name() == "utcLoc" {
			return ptrVal(x.pr.gids[g], 0), intrOK
		}
	}
	unsup("time.utcLoc not found")
	return Val{}, intrOK
}

func intrAAdd(w uint8) intrinsic {
	return func(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
		v := x.load(st, args[0], types.Typ[types.Int], false)
		r := tv(x.p.Bin(OAdd, x.term(v, w), x.term(args[1], w)))
		x.store(st, args[0], r, types.Typ[types.Int], false)
		return r, intrOK
	}
}

func intrMapClone(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	i := args[0].p.(*Iface)
	if i.v.n == 0 {
		return args[0], intrOK
	}
	o := st.getObj(uint32(i.v.n >> 32))
	m := &mapObj{owner: st.owner, keys: append([]Val(nil), o.m.keys...), vals: append([]Val(nil), o.m.vals...), ks: append([]string(nil), o.m.ks...), index: make(map[string]int, len(o.m.index))}
	for k, v := range o.m.index {
		m.index[k] = v
	}
	id := st.alloc(types.Typ[types.Int], 1, 0)
	st.getObj(id).m = m
	return Val{p: &Iface{i.typ, Val{n: uint64(id) << 32}}}, intrOK
}

// AnyLen(x): the length of a slice in an interface.
func intrAnyLen(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	i, ok := args[0].p.(*Iface)
	if !ok {
		unsup("length of no slice")
	}
	if _, ok := i.typ.Underlying().(*types.Slice); !ok {
		unsup("length of no slice")
	}
	if i.v.p == nil {
		return Val{}, intrOK
	}
	return Val{n: uint64(i.v.p.(*Slice).len)}, intrOK
}

// AnySwap(x, i, j): exchange two elements of a slice in an interface.
func intrAnySwap(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	i := args[0].p.(*Iface)
	t := i.typ.Underlying().(*types.Slice).Elem()
	s := i.v.p.(*Slice)
	n := x.pr.size(t)
	at := func(v Val) Val {
		k := x.concInt(st, v, 64, true)
		return ptrVal(s.id, s.off+uint32(k*n))
	}
	p, q := at(args[1]), at(args[2])
	a, b := x.load(st, p, t, isAgg(t)), x.load(st, q, t, isAgg(t))
	x.store(st, p, b, t, isAgg(t))
	x.store(st, q, a, t, isAgg(t))
	return Val{}, intrOK
}

// AsTarget(err, target): what errors.As does with one error.
func intrAsTarget(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	e, ok := args[0].p.(*Iface)
	t, ok2 := args[1].p.(*Iface)
	if !ok || !ok2 {
		return Val{}, intrOK
	}
	pt, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		unsup("errors.As to no pointer")
	}
	v := e.v
	if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
		if !x.pr.implements(e.typ, it) {
			return Val{}, intrOK
		}
		v = args[0]
	} else if !types.Identical(e.typ, pt.Elem()) {
		return Val{}, intrOK
	}
	x.store(st, t.v, v, pt.Elem(), isAgg(pt.Elem()))
	return Val{n: 1}, intrOK
}

func (x *Exec) bytesEq(st *State, a, b Val) *Term {
	la, lb := 0, 0
	var sa, sb *Slice
	if a.p != nil {
		sa = a.p.(*Slice)
		la = sa.len
	}
	if b.p != nil {
		sb = b.p.(*Slice)
		lb = sb.len
	}
	if la != lb {
		return x.p.fa
	}
	if la == 0 {
		return x.p.tr
	}
	va, vb := x.sliceVals(st, sa), x.sliceVals(st, sb)
	for i := range va {
		if va[i].p == nil && vb[i].p == nil && va[i].n != vb[i].n {
			return x.p.fa
		}
	}
	r := x.p.tr
	for i := range va {
		r = x.p.BAnd(r, x.p.Eq(x.term(va[i], 8), x.term(vb[i], 8)))
	}
	return r
}

func intrEqBytes(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	return tv(x.bytesEq(st, args[0], args[1])), intrOK
}

// vrt ----------------------------------------------------------------------

func (x *Exec) freshName(st *State, args []Val) string {
	s := getStr(args[0])
	if s.t != nil {
		unsup("symbolic input name")
	}
	k := st.nextSeq(s.s)
	return fmt.Sprintf("%s#%d", s.s, k)
}

func (x *Exec) input(st *State, name string, w uint8) *Term {
	v := x.p.Var(name, w)
	return v
}

func intrInput(w uint8) intrinsic {
	return func(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
		return tv(x.input(st, x.freshName(st, args), w)), intrOK
	}
}

func (x *Exec) rangeInput(st *State, name string, lo, hi int) Val {
	if hi < lo {
		unsup("empty input range")
	}
	span := uint64(hi - lo)
	if span == 0 {
		return Val{n: uint64(lo)}
	}
	var w uint8 = 8
	for maskW(w) < span {
		w += 8
	}
	// one variable per range: its interval is known to every path using it
	v := x.input(st, fmt.Sprintf("%s~%d", name, span), w)
	if span != maskW(w) {
		c := x.p.Ule(v, x.p.Const(span, w))
		if !x.pcHas(st, c) {
			if x.p.Eval(c, st.model) == 0 {
				m := overlay(st.model, Model{v: 0})
				st.model = m
			}
			x.addPC(st, c)
		}
	}
	t := x.p.Bin(OAdd, x.p.Zext(v, 64), x.p.Const(uint64(lo), 64))
	// tighten the interval of the value term with the assumed range
	if t.op != OConst && lo >= 0 && t.hi > uint64(hi) {
		t.hi = uint64(hi)
		if t.shi > int64(hi) {
			t.shi = int64(hi)
		}
	}
	return tv(t)
}

func intrInt(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	name := x.freshName(st, args)
	lo := x.concInt(st, args[1], 64, true)
	hi := x.concInt(st, args[2], 64, true)
	return x.rangeInput(st, name, lo, hi), intrOK
}

// Choice(name, n): concretised immediately (forks).
func intrChoice(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	n := x.concInt(st, args[1], 64, true)
	s := getStr(args[0]).s
	name := fmt.Sprintf("%s#%d", s, st.seq[s])
	v := x.rangeInput(st, name, 0, n-1)
	if v.p == nil {
		st.nextSeq(s)
		return v, intrOK
	}
	k := x.concretize(st, v.p.(*Term))
	st.nextSeq(s)
	return Val{n: k}, intrOK
}

func intrBytes(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	n := x.concInt(st, args[1], 64, true)
	id := st.alloc(types.Typ[types.Uint8], 1, n)
	o := st.getObj(id)
	for i := 0; i < n; i++ {
		o.set(st.owner, i, tv(x.input(st, x.freshName(st, args), 8)))
	}
	return Val{p: &Slice{id: id, len: n, cap: n}}, intrOK
}

func intrAssume(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	c := x.term(args[0], 1)
	if c.isConst() {
		if c.k == 0 {
			st.frames = nil
			st.panic = &panicRec{}
			return Val{}, intrRaised
		}
		return Val{}, intrOK
	}
	r, m := x.feasible(st, c)
	if r != Sat {
		st.frames = nil
		st.panic = &panicRec{}
		return Val{}, intrRaised
	}
	st.model = m
	x.addPC(st, c)
	return Val{}, intrOK
}

func intrAssert(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	c := x.term(args[0], 1)
	ms := getStr(args[1])
	msg := ms.s
	x.Asserts++
	x.reach["assert:"+msg]++
	if c.isConst() {
		if c.k == 0 {
			x.violation(st, "assert", msg, st.model)
			st.frames = nil
			st.panic = &panicRec{}
			return Val{}, intrRaised
		}
		return Val{}, intrOK
	}
	if x.pcHas(st, c) {
		return Val{}, intrOK
	}
	x.AssertQ++
	bad := x.p.BNot(c)
	if x.p.Eval(bad, st.model) != 0 {
		x.violation(st, "assert", msg, st.model)
		r, m := x.feasible(st, c)
		if r != Sat {
			st.frames = nil
			st.panic = &panicRec{}
			return Val{}, intrRaised
		}
		st.model = m
		x.addPC(st, c)
		return Val{}, intrOK
	}
	r, m := x.s.Check(st.pc, bad)
	switch r {
	case Sat:
		x.violation(st, "assert", msg, overlay(st.model, m))
	case Unknown:
		x.inconc("solver gave no answer on assertion: " + msg)
	}
	x.addPC(st, c)
	return Val{}, intrOK
}

func intrReach(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	x.reach[getStr(args[0]).s]++
	return Val{}, intrOK
}

func intrParam(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	n := getStr(args[0]).s
	if v, ok := x.params[n]; ok {
		return Val{n: uint64(v)}, intrOK
	}
	return args[1], intrOK
}

func intrConc(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	if args[0].p == nil {
		return args[0], intrOK
	}
	v := uint64(x.concInt(st, args[0], 64, true))
	// an explicit case distinction: its cases are never joined again
	st.tag = (st.tag ^ (v + 0x9e3779b97f4a7c15)) * 0xff51afd7ed558ccd
	return Val{n: v}, intrOK
}

func intrMergeInts(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	st.mergeI = args[0].n != 0
	return Val{}, intrOK
}

func intrBool2(f func(p *Pool, a, b *Term) *Term) intrinsic {
	return func(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
		return tv(f(x.p, x.term(args[0], 1), x.term(args[1], 1))), intrOK
	}
}

// Select(c, a, b int) int without branching.
func intrSelect(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	return tv(x.p.Ite(x.term(args[0], 1), x.term(args[1], 64), x.term(args[2], 64))), intrOK
}

// At(b, i): element i of b, 0 when out of range (no branching).
func intrLog(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	return Val{}, intrOK
}

// StepLimit(n): per-path instruction limit from now on; exceeding it is
// reported as a hang.
func intrStepLimit(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	x.stepLimit = st.steps + int64(args[0].n)
	return Val{}, intrOK
}

func intrIsSym(x *Exec, st *State, ins *Ins, args []Val) (Val, int) { return Val{n: 1}, intrOK }

// Stop(): end the path silently.
func intrStop(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
	st.frames = nil
	st.panic = &panicRec{}
	return Val{}, intrRaised
}

func vrtIntrTable() map[string]intrinsic {
	return map[string]intrinsic{
		"Byte": intrInput(8), "U16": intrInput(16), "U32": intrInput(32), "U64": intrInput(64), "Bool": intrInput(1),
		"Int": intrInt, "Choice": intrChoice, "Bytes": intrBytes,
		"Assume": intrAssume, "Assert": intrAssert, "Reach": intrReach, "Param": intrParam, "Conc": intrConc,
		"EqBytes": intrEqBytes, "MergeInts": intrMergeInts, "Select": intrSelect,
		"And":     intrBool2(func(p *Pool, a, b *Term) *Term { return p.BAnd(a, b) }),
		"Or":      intrBool2(func(p *Pool, a, b *Term) *Term { return p.BOr(a, b) }),
		"Implies": intrBool2(func(p *Pool, a, b *Term) *Term { return p.BOr(p.BNot(a), b) }),
		"Log":     intrLog, "StepLimit": intrStepLimit, "Symbolic": intrIsSym, "Stop": intrStop,
		"Unsup": func(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
			unsup("no model of %s", getStr(args[0]).s)
			return Val{}, intrOK
		},
		"AnyLen": intrAnyLen, "AnySwap": intrAnySwap, "AsTarget": intrAsTarget,
		"EqStr": func(x *Exec, st *State, ins *Ins, args []Val) (Val, int) {
			return tv(x.strEq(getStr(args[0]), getStr(args[1]))), intrOK
		},
	}
}

func intrinsicFor(n *Fn) (intrinsic, bool) {
	if f, ok := stdIntr[n.name]; ok {
		return f, true
	}
	if n.f.Synthetic == "package initializer" && !initOK[n.pkg] && !strings.HasPrefix(n.pkg, modPrefix) {
		return intrNop, true
	}
	if strings.HasSuffix(n.pkg, "/zzverif/vrt") && n.f.Parent() == nil && n.f.Signature.Recv() == nil {
		if f, ok := vrtIntr[n.f.Name()]; ok {
			return f, true
		}
	}
	return nil, false
}
