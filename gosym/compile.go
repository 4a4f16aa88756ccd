package main

// SSA -> compact register code.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type IOp uint8

const (
	INop IOp = iota
	IBin
	INot   // !x
	INeg   // -x
	ICompl // ^x
	ILoad  // *x
	IStore
	IAlloc
	IFieldAddr
	IIndexAddr
	IField
	IIndex
	ILookup
	ISlice
	IMakeSlice
	IMakeIface
	IMakeClosure
	IMakeMap
	IMapUpdate
	IConvert
	ICopy // ChangeType, ChangeInterface
	ITypeAssert
	IExtract
	IPhi // resolved on edges
	IJump
	IIf
	IReturn
	ICall
	IDefer
	IRunDefers
	IPanic
	IRange
	INext
	ISlice2Arr
	IBad
)

type Ins struct {
	op   IOp
	tok  token.Token
	w    uint8
	sg   bool
	agg  bool
	ok   bool // commaOk
	w2   uint8
	sg2  bool
	dst  int32
	a, b int32
	c, d int32
	k    int
	k2   int
	typ  types.Type
	typ2 types.Type
	args []int32
	call *callInfo
	fns  func(*Exec, *State, *Frame, *Ins)
	in   ssa.Instruction
	pos  token.Pos
}

type callInfo struct {
	static *Fn
	binds  bool // callee is a closure value in a
	invoke *types.Func
	bi     string // builtin name
	sig    *types.Signature
	argT   []types.Type
	live   []uint64 // registers live after the call (lazily)
	liveOK bool
	cache  map[types.Type]*Fn
}

type edge struct {
	dst []int32
	src []int32
}

type Blk struct {
	ins   []Ins
	succ  []int
	preds []int
	// phi moves per successor index
	moves []edge
	ipdom int // -1: function exit
	live  []uint64
}

type Fn struct {
	name   string
	f      *ssa.Function
	once   sync.Once
	blocks []*Blk
	nregs  int
	regT   []types.Type
	regW   []uint8
	consts []Val
	params []int32
	free   []int32
	intr   intrinsic
	repl   *Fn // replacement
	resN   int
	err    string
	hasDef bool
	liveMu sync.Mutex
	liveOK bool
	recov  int
	named  []int32
	pkg    string
}

type Prog struct {
	prog   *ssa.Program
	fset   *token.FileSet
	fns    sync.Map // *ssa.Function -> *Fn
	sizes  sync.Map
	widths sync.Map
	foffs  sync.Map
	gids   map[*ssa.Global]uint32
	glist  []*ssa.Global
	pkgs   []*ssa.Package
	main   *ssa.Package
	repl   map[string]*ssa.Function
	mcache sync.Map
	rtErr  types.Type
	dir    string
	mod    string
}

func (pr *Prog) fn(f *ssa.Function) *Fn {
	if v, ok := pr.fns.Load(f); ok {
		return v.(*Fn)
	}
	n := &Fn{f: f, name: f.String()}
	if f.Pkg != nil {
		n.pkg = f.Pkg.Pkg.Path()
	}
	v, _ := pr.fns.LoadOrStore(f, n)
	return v.(*Fn)
}

func (pr *Prog) fieldOff(t *types.Struct, i int) int {
	key := t
	var offs []int
	if v, ok := pr.foffs.Load(key); ok {
		offs = v.([]int)
	} else {
		o := 0
		for j := 0; j < t.NumFields(); j++ {
			offs = append(offs, o)
			o += pr.size(t.Field(j).Type())
		}
		pr.foffs.Store(key, offs)
	}
	return offs[i]
}

func (pr *Prog) ready(n *Fn) {
	n.once.Do(func() { pr.compile(n) })
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (pr *Prog) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{}
	}
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{n: b2u(constant.BoolVal(c.Value))}
		case b.Info()&types.IsInteger != 0:
			w, _, _ := intInfo(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Val{n: uint64(i) & maskW(w)}
			}
			uv, _ := constant.Uint64Val(v)
			return Val{n: uv & maskW(w)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Val{n: math.Float64bits(f)}
		case b.Info()&types.IsString != 0:
			return strVal(constant.StringVal(c.Value))
		case b.Kind() == types.UnsafePointer:
			return Val{}
		}
	}
	return Val{}
}

type compiler struct {
	pr   *Prog
	n    *Fn
	regs map[ssa.Value]int32
	cst  map[ssa.Value]int32
}

func (c *compiler) opnd(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	if r, ok := c.cst[v]; ok {
		return r
	}
	var val Val
	switch v := v.(type) {
	case *ssa.Const:
		val = c.pr.constVal(v)
	case *ssa.Global:
		id, ok := c.pr.gids[v]
		if !ok {
			panic(unsupported{"global outside the program: " + v.String()})
		}
		val = ptrVal(id, 0)
	case *ssa.Function:
		val = Val{p: &Closure{fn: c.pr.fn(v)}}
	case *ssa.Builtin:
		val = Val{}
	default:
		panic(unsupported{fmt.Sprintf("operand %T %s", v, v.Name())})
	}
	r := ^int32(len(c.n.consts))
	c.n.consts = append(c.n.consts, val)
	c.cst[v] = r
	return r
}

func (c *compiler) newReg(v ssa.Value) int32 {
	r := int32(c.n.nregs)
	c.n.nregs++
	c.regs[v] = r
	c.n.regT = append(c.n.regT, v.Type())
	w, _, ok := intInfo(v.Type())
	if !ok {
		w = 0
	}
	c.n.regW = append(c.n.regW, w)
	return r
}

func (pr *Prog) compile(n *Fn) {
	f := n.f
	if fn, ok := intrinsicFor(n); ok {
		n.intr = fn
		return
	}
	if r, ok := pr.repl[n.name]; ok && r != f {
		n.repl = pr.fn(r)
		pr.ready(n.repl)
		n.intr = n.repl.intr
		return
	}
	if len(f.Blocks) == 0 {
		n.err = "function without body: " + n.name
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				n.err = u.msg
				return
			}
			panic(r)
		}
	}()
	c := &compiler{pr: pr, n: n, regs: map[ssa.Value]int32{}, cst: map[ssa.Value]int32{}}
	for _, p := range f.Params {
		n.params = append(n.params, c.newReg(p))
	}
	for _, p := range f.FreeVars {
		n.free = append(n.free, c.newReg(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.newReg(v)
			}
		}
	}
	n.recov = -1
	for _, b := range f.Blocks {
		bl := &Blk{ipdom: -1}
		for _, s := range b.Succs {
			bl.succ = append(bl.succ, s.Index)
		}
		for _, s := range b.Preds {
			bl.preds = append(bl.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			bl.ins = append(bl.ins, c.instr(in))
		}
		n.blocks = append(n.blocks, bl)
	}
	if f.Recover != nil {
		n.recov = f.Recover.Index
	}
	// phi moves
	for bi, b := range f.Blocks {
		bl := n.blocks[bi]
		seenPred := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			var e edge
			// which predecessor slot
			slot := -1
			cnt := seenPred[s]
			for pi, p := range s.Preds {
				if p == b {
					if cnt == 0 {
						slot = pi
						break
					}
					cnt--
				}
			}
			seenPred[s]++
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e.dst = append(e.dst, c.regs[ph])
				e.src = append(e.src, c.opnd(ph.Edges[slot]))
			}
			bl.moves = append(bl.moves, e)
		}
	}
	n.ipdoms()
	n.resN = f.Signature.Results().Len()
}

// ipdoms: immediate post-dominators over blocks that can reach a return.
func (n *Fn) ipdoms() {
	nb := len(n.blocks)
	exit := nb
	succ := make([][]int, nb+1)
	reach := make([]bool, nb+1)
	for i, b := range n.blocks {
		if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == IReturn {
			succ[i] = []int{exit}
		} else {
			succ[i] = b.succ
		}
	}
	reach[exit] = true
	for ch := true; ch; {
		ch = false
		for i := 0; i < nb; i++ {
			if reach[i] {
				continue
			}
			for _, s := range succ[i] {
				if reach[s] {
					reach[i] = true
					ch = true
				}
			}
		}
	}
	// iterative bitset post-dominators
	nw := (nb + 1 + 63) / 64
	full := make([]uint64, nw)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, nb+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, nw)
	pd[exit][exit/64] |= 1 << (exit % 64)
	for ch := true; ch; {
		ch = false
		for i := nb - 1; i >= 0; i-- {
			if !reach[i] {
				continue
			}
			cur := append([]uint64(nil), full...)
			for _, s := range succ[i] {
				if !reach[s] {
					continue
				}
				for k := range cur {
					cur[k] &= pd[s][k]
				}
			}
			cur[i/64] |= 1 << (i % 64)
			for k := range cur {
				if cur[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = cur
		}
	}
	count := func(i int) int {
		c := 0
		for j := 0; j <= nb; j++ {
			if pd[i][j/64]>>(j%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	cnt := make([]int, nb+1)
	for i := 0; i <= nb; i++ {
		if reach[i] {
			cnt[i] = count(i)
		}
	}
	for i := 0; i < nb; i++ {
		n.blocks[i].ipdom = -1
		if !reach[i] {
			continue
		}
		best, bc := -1, -1
		for j := 0; j <= nb; j++ {
			if j != i && reach[j] && pd[i][j/64]>>(j%64)&1 != 0 && cnt[j] > bc {
				best, bc = j, cnt[j]
			}
		}
		if best >= 0 && best != exit {
			n.blocks[i].ipdom = best
		}
	}
}

func (ins *Ins) uses(f func(int32)) {
	if ins.op == INop {
		return
	}
	f(ins.a)
	f(ins.b)
	f(ins.c)
	f(ins.d)
	for _, a := range ins.args {
		f(a)
	}
}

const noReg = int32(1) << 30

// liveness: registers live on entry of each block (after phi moves), and
// after each call.
func (n *Fn) liveness() {
	n.liveMu.Lock()
	defer n.liveMu.Unlock()
	if n.liveOK {
		return
	}
	nw := (n.nregs + 63) / 64
	for _, b := range n.blocks {
		b.live = make([]uint64, nw)
	}
	set := func(s []uint64, r int32) {
		if r >= 0 && r < noReg {
			s[r/64] |= 1 << (r % 64)
		}
	}
	clr := func(s []uint64, r int32) {
		if r >= 0 && r < noReg {
			s[r/64] &^= 1 << (r % 64)
		}
	}
	for ch := true; ch; {
		ch = false
		for bi := len(n.blocks) - 1; bi >= 0; bi-- {
			b := n.blocks[bi]
			cur := make([]uint64, nw)
			for si, s := range b.succ {
				l := append([]uint64(nil), n.blocks[s].live...)
				for _, d := range b.moves[si].dst {
					clr(l, d)
				}
				for _, d := range b.moves[si].src {
					set(l, d)
				}
				for k := range cur {
					cur[k] |= l[k]
				}
			}
			for i := len(b.ins) - 1; i >= 0; i-- {
				in := &b.ins[i]
				if in.call != nil {
					in.call.live = append([]uint64(nil), cur...)
				}
				clr(cur, in.dst)
				in.uses(func(r int32) { set(cur, r) })
			}
			for k := range cur {
				if cur[k]|b.live[k] != b.live[k] {
					b.live[k] |= cur[k]
					ch = true
				}
			}
		}
	}
	n.liveOK = true
}

func (c *compiler) instr(in ssa.Instruction) Ins {
	i := Ins{a: noReg, b: noReg, c: noReg, d: noReg, dst: noReg, in: in, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		i.dst = c.regs[v]
		i.typ = v.Type()
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		i.op = IBin
		i.tok = in.Op
		i.a, i.b = c.opnd(in.X), c.opnd(in.Y)
		i.typ = in.X.Type()
		i.w, i.sg, i.ok = intInfo(in.X.Type())
		if in.Op == token.SHL || in.Op == token.SHR {
			i.w2, i.sg2, _ = intInfo(in.Y.Type())
		}
		if isNilConst(in.X) && !isNilConst(in.Y) {
			i.typ = in.Y.Type()
		}
		i.typ2 = in.Y.Type()
	case *ssa.UnOp:
		i.a = c.opnd(in.X)
		switch in.Op {
		case token.NOT:
			i.op = INot
		case token.SUB:
			i.op = INeg
			i.w, i.sg, i.ok = intInfo(in.Type())
		case token.XOR:
			i.op = ICompl
			i.w, i.sg, i.ok = intInfo(in.Type())
		case token.MUL:
			i.op = ILoad
			i.agg = isAgg(in.Type())
		default:
			i.op = IBad
		}
	case *ssa.Store:
		i.op = IStore
		i.a, i.b = c.opnd(in.Addr), c.opnd(in.Val)
		i.typ = in.Val.Type()
		i.agg = isAgg(i.typ)
	case *ssa.Alloc:
		i.op = IAlloc
		i.typ = deref(in.Type())
		i.k = c.pr.size(i.typ)
		i.typ2 = i.typ
		// arrays: element-typed object
		i.k2 = 1
		if a, ok := i.typ.Underlying().(*types.Array); ok {
			i.typ2 = a.Elem()
			i.k = c.pr.size(a.Elem())
			i.k2 = int(a.Len())
		}
	case *ssa.FieldAddr:
		i.op = IFieldAddr
		i.a = c.opnd(in.X)
		st := deref(in.X.Type()).Underlying().(*types.Struct)
		i.k = c.pr.fieldOff(st, in.Field)
	case *ssa.IndexAddr:
		i.op = IIndexAddr
		i.a, i.b = c.opnd(in.X), c.opnd(in.Index)
		i.w, i.sg, _ = intInfo(in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			i.k = c.pr.size(u.Elem())
			i.k2 = -1
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			i.k = c.pr.size(a.Elem())
			i.k2 = int(a.Len())
		default:
			i.op = IBad
		}
	case *ssa.Field:
		i.op = IField
		i.a = c.opnd(in.X)
		st := in.X.Type().Underlying().(*types.Struct)
		i.k = c.pr.fieldOff(st, in.Field)
		i.k2 = c.pr.size(in.Type())
		i.agg = isAgg(in.Type())
		i.w2 = 0
		i.typ2 = in.X.Type()
	case *ssa.Index:
		i.op = IIndex
		i.a, i.b = c.opnd(in.X), c.opnd(in.Index)
		i.w, i.sg, _ = intInfo(in.Index.Type())
		i.typ2 = in.X.Type()
		i.agg = isAgg(in.Type())
		i.k = c.pr.size(in.Type())
		if a, ok := in.X.Type().Underlying().(*types.Array); ok {
			i.k2 = int(a.Len())
		} else {
			i.k2 = -1
		}
	case *ssa.Lookup:
		i.op = ILookup
		i.a, i.b = c.opnd(in.X), c.opnd(in.Index)
		i.ok = in.CommaOk
		i.typ2 = in.X.Type()
		i.w, i.sg, _ = intInfo(in.Index.Type())
	case *ssa.Slice:
		i.op = ISlice
		i.a = c.opnd(in.X)
		if in.Low != nil {
			i.b = c.opnd(in.Low)
		}
		if in.High != nil {
			i.c = c.opnd(in.High)
		}
		if in.Max != nil {
			i.d = c.opnd(in.Max)
		}
		i.typ2 = in.X.Type()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			i.k = c.pr.size(u.Elem())
			i.k2 = -1
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			i.k = c.pr.size(a.Elem())
			i.k2 = int(a.Len())
		default:
			i.k2 = -2 // string
		}
	case *ssa.MakeSlice:
		i.op = IMakeSlice
		i.a, i.b = c.opnd(in.Len), c.opnd(in.Cap)
		e := in.Type().Underlying().(*types.Slice).Elem()
		i.typ2 = e
		i.k = c.pr.size(e)
	case *ssa.MakeInterface:
		i.op = IMakeIface
		i.a = c.opnd(in.X)
		i.typ2 = in.X.Type()
	case *ssa.MakeClosure:
		i.op = IMakeClosure
		i.a = c.opnd(in.Fn)
		for _, b := range in.Bindings {
			i.args = append(i.args, c.opnd(b))
		}
	case *ssa.MakeMap:
		i.op = IMakeMap
	case *ssa.MapUpdate:
		i.op = IMapUpdate
		i.a, i.b, i.c = c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		i.typ2 = in.Map.Type()
	case *ssa.Convert:
		i.op = IConvert
		i.a = c.opnd(in.X)
		i.typ2 = in.X.Type()
		i.w, i.sg, i.ok = intInfo(in.X.Type())
		i.w2, i.sg2, _ = intInfo(in.Type())
	case *ssa.ChangeType:
		i.op = ICopy
		i.a = c.opnd(in.X)
	case *ssa.ChangeInterface:
		i.op = ICopy
		i.a = c.opnd(in.X)
	case *ssa.SliceToArrayPointer:
		i.op = ISlice2Arr
		i.a = c.opnd(in.X)
		i.k = int(deref(in.Type()).Underlying().(*types.Array).Len())
	case *ssa.TypeAssert:
		i.op = ITypeAssert
		i.a = c.opnd(in.X)
		i.typ2 = in.AssertedType
		i.ok = in.CommaOk
	case *ssa.Extract:
		i.op = IExtract
		i.a = c.opnd(in.Tuple)
		i.k = in.Index
	case *ssa.Jump:
		i.op = IJump
	case *ssa.If:
		i.op = IIf
		i.a = c.opnd(in.Cond)
	case *ssa.Return:
		i.op = IReturn
		for _, r := range in.Results {
			i.args = append(i.args, c.opnd(r))
		}
	case *ssa.Call:
		i.op = ICall
		c.call(&i, &in.Call)
	case *ssa.Defer:
		i.op = IDefer
		c.n.hasDef = true
		c.call(&i, &in.Call)
	case *ssa.RunDefers:
		i.op = IRunDefers
	case *ssa.Panic:
		i.op = IPanic
		i.a = c.opnd(in.X)
	case *ssa.Range:
		i.op = IRange
		i.a = c.opnd(in.X)
		i.typ2 = in.X.Type()
	case *ssa.Next:
		i.op = INext
		i.a = c.opnd(in.Iter)
		i.ok = in.IsString
	default:
		i.op = IBad
	}
	return i
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (c *compiler) call(i *Ins, cc *ssa.CallCommon) {
	ci := &callInfo{}
	i.call = ci
	ci.sig = cc.Signature()
	if cc.IsInvoke() {
		ci.invoke = cc.Method
		i.a = c.opnd(cc.Value)
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		ci.bi = b.Name()
	} else if f, ok := cc.Value.(*ssa.Function); ok {
		ci.static = c.pr.fn(f)
	} else {
		i.a = c.opnd(cc.Value)
		ci.binds = true
	}
	for _, a := range cc.Args {
		i.args = append(i.args, c.opnd(a))
		ci.argT = append(ci.argT, a.Type())
	}
}
