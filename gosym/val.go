package main

// Values and the copy-on-write heap.
//
// A Val is interpreted through its static Go type:
//   integers/bools: n when p==nil, else p is *Term
//   floats:         n holds the bits (concrete only)
//   pointers:       n = id<<32|off, or p is *SymPtr
//   strings:        p==nil (empty) or *Str
//   slices:         p==nil (nil slice) or *Slice
//   interfaces:     p==nil or *Iface
//   funcs:          p==nil or *Closure
//   maps:           n = object id (0 = nil)
//   structs/arrays: p is []Val of flattened cells (nil = all zero)
//   tuples:         p is []Val, one per component

import (
	"fmt"
	"go/types"
)

type Val struct {
	n uint64
	p any
}

type SymPtr struct {
	id     uint32
	base   uint32
	stride uint32
	count  uint32 // idx < count under the path condition
	idx    *Term  // width 64
}

type Str struct {
	s string
	t []*Term // nil if wholly concrete; t[i]==nil means s[i]
}

type Slice struct {
	id       uint32
	off      uint32 // in cells
	len, cap int    // in elements
}

type Iface struct {
	typ types.Type
	v   Val
}

type Closure struct {
	fn   *Fn
	bind []Val
	// bound intrinsic (method value of a builtin etc.)
}

const pageShift = 6
const pageSize = 1 << pageShift

type page struct {
	owner uint64
	c     []Val
}

type symStore struct {
	base, stride, count uint32
	idx                 *Term
	v                   Val
}

type mapObj struct {
	owner uint64
	keys  []Val
	vals  []Val
	ks    []string
	index map[string]int
}

type Obj struct {
	owner uint64
	n     int // cells
	elem  types.Type
	esz   int // cells per element
	pages []*page
	log   []symStore
	epoch map[int]int // cell -> number of log entries when last written
	m     *mapObj
	unin  bool // global of a package whose initialiser was not run
	name  string
}

const chunkShift = 8
const chunkSize = 1 << chunkShift

type chunk struct {
	owner uint64
	o     [chunkSize]*Obj
}

type Frame struct {
	owner  uint64
	fn     *Fn
	regs   []Val
	blk    int
	pc     int
	prev   int
	dst    int32 // caller's destination register (-1: none)
	defers []deferred
	kind   uint8                    // 0 normal, 1 deferred call run by RunDefers, 2 deferred call run by panic unwinding
	rec    *panicRec                // panic being handled while this (kind 2) frame runs
	hook   func(*Exec, *State, Val) // called with the result instead of storing to dst
	recov  bool                     // in the recover block
}

type deferred struct {
	c    *Closure
	args []Val
}

type panicRec struct {
	v         Val // interface value
	msg       string
	recovered bool
	site      string
	trace     string
}

type State struct {
	owner  uint64
	chunks []*chunk
	nobj   uint32
	frames []*Frame
	pc     []*Term
	model  Model
	seq    map[string]int
	seqOwn bool
	log    []inputRec // inputs drawn so far (for replay)
	panic  *panicRec
	steps  int64
	trail  []string
	mergeI bool
	tag    uint64 // case distinctions made by vrt.Conc
	trunc  int
}

type inputRec struct {
	name string
	t    *Term // nil: concrete
	n    uint64
}

type unsupported struct{ msg string }

func unsup(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func ptrVal(id uint32, off uint32) Val { return Val{n: uint64(id)<<32 | uint64(off)} }

func (x *Exec) newOwner() uint64 { x.ownerCtr++; return x.ownerCtr }

func (x *Exec) fork(st *State) *State {
	x.Forks++
	n := &State{}
	*n = *st
	n.owner = x.newOwner()
	st.owner = x.newOwner()
	n.chunks = append([]*chunk(nil), st.chunks...)
	n.frames = append([]*Frame(nil), st.frames...)
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = n.pc
	n.log = st.log[:len(st.log):len(st.log)]
	st.log = n.log
	n.trail = st.trail[:len(st.trail):len(st.trail)]
	st.trail = n.trail
	st.seqOwn, n.seqOwn = false, false
	return n
}

func (st *State) nextSeq(name string) int {
	if !st.seqOwn {
		m := make(map[string]int, len(st.seq)+1)
		for k, v := range st.seq {
			m[k] = v
		}
		st.seq = m
		st.seqOwn = true
	}
	k := st.seq[name]
	st.seq[name] = k + 1
	return k
}

func (st *State) getObj(id uint32) *Obj {
	return st.chunks[id>>chunkShift].o[id&(chunkSize-1)]
}

func (st *State) ownObj(id uint32) *Obj {
	ci := id >> chunkShift
	c := st.chunks[ci]
	o := c.o[id&(chunkSize-1)]
	if o.owner == st.owner {
		return o
	}
	if c.owner != st.owner {
		nc := &chunk{owner: st.owner, o: c.o}
		st.chunks[ci] = nc
		c = nc
	}
	no := &Obj{}
	*no = *o
	no.owner = st.owner
	no.pages = append([]*page(nil), o.pages...)
	no.log = o.log[:len(o.log):len(o.log)]
	if o.epoch != nil {
		no.epoch = make(map[int]int, len(o.epoch))
		for k, v := range o.epoch {
			no.epoch[k] = v
		}
	}
	c.o[id&(chunkSize-1)] = no
	return no
}

func (st *State) alloc(elem types.Type, esz, count int) uint32 {
	n := esz * count
	id := st.nobj
	ci := id >> chunkShift
	if int(ci) >= len(st.chunks) {
		st.chunks = append(st.chunks, &chunk{owner: st.owner})
	}
	c := st.chunks[ci]
	if c.owner != st.owner {
		c = &chunk{owner: st.owner, o: c.o}
		st.chunks[ci] = c
	}
	st.nobj++
	o := &Obj{owner: st.owner, n: n, elem: elem, esz: esz}
	o.pages = make([]*page, (n+pageSize-1)>>pageShift)
	c.o[id&(chunkSize-1)] = o
	return id
}

func (o *Obj) get(off int) Val {
	pg := o.pages[off>>pageShift]
	if pg == nil {
		return Val{}
	}
	return pg.c[off&(pageSize-1)]
}

func (o *Obj) set(owner uint64, off int, v Val) {
	pi := off >> pageShift
	pg := o.pages[pi]
	if pg == nil || pg.owner != owner {
		n := o.n - pi<<pageShift
		if n > pageSize {
			n = pageSize
		}
		np := &page{owner: owner, c: make([]Val, n)}
		if pg != nil {
			copy(np.c, pg.c)
		}
		o.pages[pi] = np
		pg = np
	}
	pg.c[off&(pageSize-1)] = v
}

// cells per type ------------------------------------------------------------

func (pr *Prog) size(t types.Type) int {
	if v, ok := pr.sizes.Load(t); ok {
		return v.(int)
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += pr.size(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * pr.size(u.Elem())
	}
	pr.sizes.Store(t, n)
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// cellWidths gives, per cell of one value of type t, the integer width
// (1 = bool, 0 = not an integer).
func (pr *Prog) cellWidths(t types.Type) []uint8 {
	if v, ok := pr.widths.Load(t); ok {
		return v.([]uint8)
	}
	var out []uint8
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, pr.cellWidths(u.Field(i).Type())...)
		}
	case *types.Array:
		e := pr.cellWidths(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, e...)
		}
	default:
		w, _, ok := intInfo(t)
		if !ok {
			w = 0
		}
		out = []uint8{w}
	}
	pr.widths.Store(t, out)
	return out
}

// intInfo: width and signedness of an integer or bool type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) term(v Val, w uint8) *Term {
	if v.p == nil {
		return x.p.Const(v.n, w)
	}
	return v.p.(*Term)
}

func tv(t *Term) Val {
	if t.op == OConst {
		return Val{n: t.k}
	}
	return Val{p: t}
}

func strVal(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: &Str{s: s}}
}

func getStr(v Val) *Str {
	if v.p == nil {
		return emptyStr
	}
	return v.p.(*Str)
}

var emptyStr = &Str{}

func (s *Str) at(i int) Val {
	if s.t != nil && s.t[i] != nil {
		return Val{p: s.t[i]}
	}
	return Val{n: uint64(s.s[i])}
}

func mkStr(vals []Val) Val {
	if len(vals) == 0 {
		return Val{}
	}
	b := make([]byte, len(vals))
	var ts []*Term
	for i, v := range vals {
		if v.p != nil {
			if ts == nil {
				ts = make([]*Term, len(vals))
			}
			ts[i] = v.p.(*Term)
		} else {
			b[i] = byte(v.n)
		}
	}
	return Val{p: &Str{s: string(b), t: ts}}
}

func (s *Str) sub(i, j int) Val {
	if i == j {
		return Val{}
	}
	if i == 0 && j == len(s.s) {
		return Val{p: s}
	}
	r := &Str{s: s.s[i:j]}
	if s.t != nil {
		for _, t := range s.t[i:j] {
			if t != nil {
				r.t = s.t[i:j]
				break
			}
		}
	}
	return Val{p: r}
}

func (x *Exec) strEq(a, b *Str) *Term {
	if len(a.s) != len(b.s) {
		return x.p.fa
	}
	if a.t == nil && b.t == nil {
		return x.p.Bool(a.s == b.s)
	}
	// concrete mismatches first
	for i := range a.s {
		if (a.t == nil || a.t[i] == nil) && (b.t == nil || b.t[i] == nil) && a.s[i] != b.s[i] {
			return x.p.fa
		}
	}
	r := x.p.tr
	for i := range a.s {
		r = x.p.BAnd(r, x.p.Eq(x.term(a.at(i), 8), x.term(b.at(i), 8)))
		if r == x.p.fa {
			return r
		}
	}
	return r
}

func (x *Exec) strLt(a, b *Str) *Term {
	if a.t == nil && b.t == nil {
		return x.p.Bool(a.s < b.s)
	}
	n := min(len(a.s), len(b.s))
	r := x.p.Bool(len(a.s) < len(b.s))
	for i := n - 1; i >= 0; i-- {
		ta, tb := x.term(a.at(i), 8), x.term(b.at(i), 8)
		r = x.p.Ite(x.p.Eq(ta, tb), r, x.p.Ult(ta, tb))
	}
	return r
}

func cellsOf(v Val, n int) []Val {
	if v.p == nil {
		return make([]Val, n)
	}
	return v.p.([]Val)
}

// memory -------------------------------------------------------------------

func (x *Exec) loadCell(o *Obj, off int) Val {
	v := o.get(off)
	if len(o.log) == 0 {
		return v
	}
	e := 0
	if o.epoch != nil {
		e = o.epoch[off]
	}
	for i := e; i < len(o.log); i++ {
		s := &o.log[i]
		if off < int(s.base) || (off-int(s.base))%int(s.stride) != 0 {
			continue
		}
		k := (off - int(s.base)) / int(s.stride)
		if k >= int(s.count) {
			continue
		}
		c := x.p.Eq(s.idx, x.p.Const(uint64(k), 64))
		if c == x.p.fa {
			continue
		}
		v = x.iteVal(c, s.v, v, x.cellW(o, off))
	}
	return v
}

func (x *Exec) cellW(o *Obj, off int) uint8 {
	ws := x.pr.cellWidths(o.elem)
	return ws[off%len(ws)]
}

// iteVal builds if c then a else b for scalar cells; w is the integer width.
func (x *Exec) iteVal(c *Term, a, b Val, w uint8) Val {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if w != 0 {
		return tv(x.p.Ite(c, x.term(a, w), x.term(b, w)))
	}
	if x.sameVal(a, b) {
		return a
	}
	unsup("symbolic selection between non-integer values")
	return Val{}
}

func (x *Exec) sameVal(a, b Val) bool {
	if a.n != b.n {
		return false
	}
	if a.p == nil || b.p == nil {
		return a.p == nil && b.p == nil
	}
	switch p := a.p.(type) {
	case *Term:
		q, ok := b.p.(*Term)
		return ok && p == q
	case *Str:
		q, ok := b.p.(*Str)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		if p.s != q.s || (p.t == nil) != (q.t == nil) {
			return false
		}
		for i := range p.t {
			if p.t[i] != q.t[i] {
				return false
			}
		}
		return true
	case *Slice:
		q, ok := b.p.(*Slice)
		return ok && *p == *q
	case *Iface:
		q, ok := b.p.(*Iface)
		return ok && (p == q || (types.Identical(p.typ, q.typ) && x.sameVal(p.v, q.v)))
	case *Closure:
		q, ok := b.p.(*Closure)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		if p.fn != q.fn || len(p.bind) != len(q.bind) {
			return false
		}
		for i := range p.bind {
			if !x.sameVal(p.bind[i], q.bind[i]) {
				return false
			}
		}
		return true
	case *SymPtr:
		q, ok := b.p.(*SymPtr)
		return ok && *p == *q
	case []Val:
		q, ok := b.p.([]Val)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !x.sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	case *rangeIter:
		q, ok := b.p.(*rangeIter)
		return ok && *p == *q
	}
	return false
}

func (x *Exec) load(st *State, ptr Val, t types.Type, agg bool) Val {
	if sp, ok := ptr.p.(*SymPtr); ok {
		return x.loadSym(st, sp, t, agg)
	}
	id := uint32(ptr.n >> 32)
	off := int(uint32(ptr.n))
	o := st.getObj(id)
	if o.unin {
		unsup("read of uninitialised global %s", o.name)
	}
	if !agg {
		return x.loadCell(o, off)
	}
	n := x.pr.size(t)
	out := make([]Val, n)
	for i := range out {
		out[i] = x.loadCell(o, off+i)
	}
	return Val{p: out}
}

func (x *Exec) storeCell(st *State, o *Obj, off int, v Val) {
	if len(o.log) > 0 {
		if o.epoch == nil {
			o.epoch = map[int]int{}
		}
		o.epoch[off] = len(o.log)
	}
	o.set(st.owner, off, v)
}

func (x *Exec) store(st *State, ptr Val, v Val, t types.Type, agg bool) {
	if sp, ok := ptr.p.(*SymPtr); ok {
		x.storeSym(st, sp, v, t, agg)
		return
	}
	id := uint32(ptr.n >> 32)
	off := int(uint32(ptr.n))
	o := st.ownObj(id)
	if !agg {
		if len(o.log) == 0 {
			o.set(st.owner, off, v)
		} else {
			x.storeCell(st, o, off, v)
		}
		return
	}
	n := x.pr.size(t)
	cells := cellsOf(v, n)
	for i := 0; i < n; i++ {
		x.storeCell(st, o, off+i, cells[i])
	}
}

// idxRange narrows the possible index range of a symbolic pointer.
func (x *Exec) idxRange(sp *SymPtr) (lo, hi uint64) {
	lo, hi = sp.idx.lo, sp.idx.hi
	if hi >= uint64(sp.count) {
		hi = uint64(sp.count) - 1
	}
	if lo > hi {
		lo = hi
	}
	return
}

func (x *Exec) loadSym(st *State, sp *SymPtr, t types.Type, agg bool) Val {
	n := 1
	if agg {
		n = x.pr.size(t)
		out := make([]Val, n)
		for i := range out {
			q := *sp
			q.base += uint32(i)
			out[i] = x.loadSymCell(st, &q)
		}
		return Val{p: out}
	}
	return x.loadSymCell(st, sp)
}

func (x *Exec) loadSymCell(st *State, sp *SymPtr) Val {
	o := st.getObj(sp.id)
	if o.unin {
		unsup("read of uninitialised global %s", o.name)
	}
	lo, hi := x.idxRange(sp)
	w := x.cellW(o, int(sp.base))
	if w == 0 {
		unsup("symbolic index into array of non-integers")
	}
	cell := func(k uint64) Val { return o.get(int(sp.base) + int(k)*int(sp.stride)) }
	allC := true
	nsym := 0
	for k := lo; k <= hi; k++ {
		if cell(k).p != nil {
			allC = false
			nsym++
		}
	}
	var v *Term
	if hi-lo > 70000 {
		unsup("symbolic index range too large")
	}
	_ = allC
	// concrete cells as a table, symbolic cells patched on top
	vals := make([]uint64, hi-lo+1)
	last := uint64(0)
	for k := lo; k <= hi; k++ {
		c := cell(k)
		if c.p == nil {
			vals[k-lo] = c.n
			last = c.n
		} else {
			vals[k-lo] = last
		}
	}
	if w == 1 {
		v = x.p.fa
		for k := lo; k <= hi; k++ {
			if vals[k-lo] != 0 && cell(k).p == nil {
				v = x.p.BOr(v, x.p.Eq(sp.idx, x.p.Const(k, 64)))
			}
		}
	} else {
		v = x.p.Table(vals, w, lo, sp.idx)
	}
	if nsym > 0 {
		if nsym > 4096 {
			unsup("symbolic index over too many symbolic cells")
		}
		v = x.symTree(sp, cell, lo, hi, w, v)
	}
	if len(o.log) > 0 {
		v = x.applyLog(o, sp, w, v)
	}
	return tv(v)
}

// symTree: symbolic cells selected by equality on top of the table value.
func (x *Exec) symTree(sp *SymPtr, cell func(uint64) Val, lo, hi uint64, w uint8, base *Term) *Term {
	v := base
	for k := lo; k <= hi; k++ {
		c := cell(k)
		if c.p != nil {
			v = x.p.Ite(x.p.Eq(sp.idx, x.p.Const(k, 64)), c.p.(*Term), v)
		}
	}
	return v
}

func (x *Exec) applyLog(o *Obj, sp *SymPtr, w uint8, v *Term) *Term {
	// concrete writes by epoch
	byEp := map[int][]int{}
	for off, e := range o.epoch {
		byEp[e] = append(byEp[e], off)
	}
	for i := 0; i <= len(o.log); i++ {
		offs := byEp[i]
		if i > 0 && len(offs) > 0 {
			sortInts(offs)
			for _, off := range offs {
				if off < int(sp.base) || (off-int(sp.base))%int(sp.stride) != 0 {
					continue
				}
				k := uint64((off - int(sp.base)) / int(sp.stride))
				if k >= uint64(sp.count) {
					continue
				}
				v = x.p.Ite(x.p.Eq(sp.idx, x.p.Const(k, 64)), x.term(o.get(off), w), v)
			}
		}
		if i < len(o.log) {
			s := &o.log[i]
			if s.stride == sp.stride && (int(s.base)-int(sp.base))%int(sp.stride) == 0 {
				d := (int(s.base) - int(sp.base)) / int(sp.stride) // sp.idx = s.idx + d
				c := x.p.Eq(sp.idx, x.p.Bin(OAdd, s.idx, x.p.Const(uint64(d), 64)))
				v = x.p.Ite(c, x.term(s.v, w), v)
			} else if s.stride == sp.stride {
				// different field of the same element type: never aliases
				// only when the bases differ by less than a stride
			} else {
				unsup("symbolic accesses with different strides")
			}
		}
	}
	return v
}

func (x *Exec) storeSym(st *State, sp *SymPtr, v Val, t types.Type, agg bool) {
	if agg {
		n := x.pr.size(t)
		cells := cellsOf(v, n)
		for i := 0; i < n; i++ {
			q := *sp
			q.base += uint32(i)
			x.storeSymCell(st, &q, cells[i])
		}
		return
	}
	x.storeSymCell(st, sp, v)
}

const eagerStore = 80

func (x *Exec) storeSymCell(st *State, sp *SymPtr, v Val) {
	o := st.ownObj(sp.id)
	lo, hi := x.idxRange(sp)
	w := x.cellW(o, int(sp.base))
	if w == 0 {
		unsup("symbolic index store into array of non-integers")
	}
	if hi-lo < eagerStore && len(o.log) == 0 {
		for k := lo; k <= hi; k++ {
			off := int(sp.base) + int(k)*int(sp.stride)
			c := x.p.Eq(sp.idx, x.p.Const(k, 64))
			if c == x.p.fa {
				continue
			}
			o.set(st.owner, off, x.iteVal(c, v, o.get(off), w))
		}
		return
	}
	if len(o.log) == 0 {
		o.epoch = nil
	}
	o.log = append(o.log, symStore{sp.base, sp.stride, sp.count, sp.idx, v})
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j-1] > a[j]; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
}
