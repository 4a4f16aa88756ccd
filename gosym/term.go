package main

// Bit-vector / boolean term DAG with hash-consing, constructor-time
// simplification, and unsigned/signed interval + possible-bits analysis.
// Width 1 is the SMT sort Bool; every other width is a bit-vector.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot // bitwise not (w>1)
	OShl
	OLshr
	OAshr
	OExtract // k = lo, w = width
	OZext
	OSext
	OIte
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
	OTable
)

type Table struct {
	id   int
	vals []uint64 // index 0..len-1
	w    uint8
	lo   uint64 // index of vals[0]
	aff  bool
	runs []tblRun
}

type tblRun struct {
	start uint64 // first index (absolute) of the run
	val   uint64
}

type Term struct {
	op       Op
	w        uint8
	id       int32
	k        uint64
	a, b, c  *Term
	name     string
	tbl      *Table
	lo, hi   uint64
	slo, shi int64
	pm       uint64 // possible one bits
	emitted  int    // solver generation in which it was defined
	vs       varset // variables occurring in the term (hashed into a bitset)
	evGen    uint32
	evVal    uint64
}

// varset is a bitset over variable numbers (number mod 512): aliasing only
// makes constraint slicing more conservative.
type varset [8]uint64

func (v *varset) add(n int) { v[(n>>6)&7] |= 1 << (n & 63) }
func (v *varset) or(o *varset) {
	for i := range v {
		v[i] |= o[i]
	}
}
func (v *varset) meets(o *varset) bool {
	for i := range v {
		if v[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
	name    string
	tbl     int
}

type Pool struct {
	m      map[tkey]*Term
	terms  []*Term
	vars   []*Term
	tables map[string]*Table
	tlist  []*Table
	tr, fa *Term
	evGen  uint32
	consts map[uint64]*Term
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func NewPool() *Pool {
	p := &Pool{m: map[tkey]*Term{}, tables: map[string]*Table{}}
	p.fa = p.Const(0, 1)
	p.tr = p.Const(1, 1)
	return p
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (p *Pool) mk(op Op, w uint8, k uint64, a, b, c *Term, name string, tbl *Table) *Term {
	key := tkey{op: op, w: w, k: k, a: tid(a), b: tid(b), c: tid(c), name: name, tbl: -1}
	if tbl != nil {
		key.tbl = tbl.id
	}
	if t, ok := p.m[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, name: name, tbl: tbl, id: int32(len(p.terms))}
	p.analyse(t)
	if op == OVar {
		t.vs.add(len(p.vars))
	}
	for _, x := range [3]*Term{a, b, c} {
		if x != nil {
			t.vs.or(&x.vs)
		}
	}
	p.terms = append(p.terms, t)
	p.m[key] = t
	if op == OVar {
		p.vars = append(p.vars, t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func topMask(hi uint64) uint64 {
	if hi == 0 {
		return 0
	}
	return maskW(uint8(bits.Len64(hi)))
}

func (p *Pool) analyse(t *Term) {
	w := t.w
	m := maskW(w)
	t.lo, t.hi, t.pm = 0, m, m
	if w == 1 {
		t.slo, t.shi = 0, 1
		if t.op == OConst {
			t.lo, t.hi, t.pm = t.k, t.k, t.k
		}
		return
	}
	smin, smax := sx(uint64(1)<<(w-1), w), sx(m>>1, w)
	t.slo, t.shi = smin, smax
	setU := func(lo, hi uint64) {
		if lo > t.lo {
			t.lo = lo
		}
		if hi < t.hi {
			t.hi = hi
		}
	}
	switch t.op {
	case OConst:
		t.lo, t.hi, t.pm = t.k, t.k, t.k
		t.slo, t.shi = sx(t.k, w), sx(t.k, w)
		return
	case OAdd:
		if t.a.hi <= m-t.b.hi {
			setU(t.a.lo+t.b.lo, t.a.hi+t.b.hi)
			t.pm = topMask(t.hi)
		} else if t.b.isConst() && t.a.lo+t.b.k&m >= 0 {
			// x + c where every x wraps
			if t.a.lo > m-t.b.k {
				setU((t.a.lo+t.b.k)&m, (t.a.hi+t.b.k)&m)
			}
		}
		l, o1 := addOv(t.a.slo, t.b.slo)
		h, o2 := addOv(t.a.shi, t.b.shi)
		if !o1 && !o2 && l >= smin && h <= smax {
			t.slo, t.shi = l, h
		}
		// low zero bits
		tz := min(bits.TrailingZeros64(t.a.pm), bits.TrailingZeros64(t.b.pm))
		if tz < 64 {
			t.pm &^= (uint64(1) << tz) - 1
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			setU(t.a.lo-t.b.hi, t.a.hi-t.b.lo)
		}
		l, o1 := subOv(t.a.slo, t.b.shi)
		h, o2 := subOv(t.a.shi, t.b.slo)
		if !o1 && !o2 && l >= smin && h <= smax {
			t.slo, t.shi = l, h
		}
	case OMul:
		h1, l1 := bits.Mul64(t.a.hi, t.b.hi)
		if h1 == 0 && l1 <= m {
			setU(t.a.lo*t.b.lo, l1)
		}
	case OUDiv:
		if t.b.lo > 0 {
			setU(t.a.lo/t.b.hi, t.a.hi/t.b.lo)
		}
	case OURem:
		if t.b.lo > 0 {
			setU(0, min(t.a.hi, t.b.hi-1))
		}
	case OAnd:
		t.pm = t.a.pm & t.b.pm
		setU(0, min(t.a.hi, t.b.hi, t.pm))
	case OOr:
		t.pm = t.a.pm | t.b.pm
		setU(max(t.a.lo, t.b.lo), t.pm)
	case OXor:
		t.pm = t.a.pm | t.b.pm
		setU(0, t.pm)
	case OShl:
		if t.b.isConst() && t.b.k < uint64(w) {
			t.pm = (t.a.pm << t.b.k) & m
			if t.a.hi <= m>>t.b.k {
				setU(t.a.lo<<t.b.k, t.a.hi<<t.b.k)
			}
			setU(0, t.pm)
		}
	case OLshr:
		if t.b.isConst() && t.b.k < uint64(w) {
			t.pm = t.a.pm >> t.b.k
			setU(t.a.lo>>t.b.k, t.a.hi>>t.b.k)
		} else {
			setU(0, t.a.hi)
			t.pm = topMask(t.a.hi)
		}
	case OAshr:
		if t.b.isConst() {
			k := min(t.b.k, 63)
			t.slo, t.shi = t.a.slo>>k, t.a.shi>>k
		}
	case OExtract:
		t.pm = (t.a.pm >> t.k) & m
		if t.a.hi>>t.k <= m {
			setU(t.a.lo>>t.k, t.a.hi>>t.k)
		}
		setU(0, t.pm)
	case OZext:
		t.pm = t.a.pm
		setU(t.a.lo, t.a.hi)
	case OSext:
		t.slo, t.shi = t.a.slo, t.a.shi
		if t.a.slo >= 0 {
			setU(t.a.lo, t.a.hi)
			t.pm = t.a.pm
		}
	case OIte:
		t.pm = t.b.pm | t.c.pm
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
		t.slo, t.shi = min(t.b.slo, t.c.slo), max(t.b.shi, t.c.shi)
	case OTable:
		lo, hi := ^uint64(0), uint64(0)
		pm := uint64(0)
		slo, shi := int64(1<<63-1), int64(-1<<63)
		for _, v := range t.tbl.vals {
			lo, hi = min(lo, v), max(hi, v)
			pm |= v
			s := sx(v, w)
			slo, shi = min(slo, s), max(shi, s)
		}
		t.lo, t.hi, t.pm, t.slo, t.shi = lo, hi, pm, slo, shi
	}
	if t.pm < t.hi {
		t.hi = t.pm
	}
	// combine signed and unsigned
	if t.hi <= m>>1 {
		t.slo = max(t.slo, int64(t.lo))
		t.shi = min(t.shi, int64(t.hi))
	}
	if t.slo >= 0 {
		t.lo = max(t.lo, uint64(t.slo))
		t.hi = min(t.hi, uint64(t.shi))
		t.pm &= topMask(t.hi)
	} else if t.shi < 0 {
		t.lo = max(t.lo, uint64(t.slo)&m)
		t.hi = min(t.hi, uint64(t.shi)&m)
	}
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0)
}
func subOv(a, b int64) (int64, bool) {
	c := a - b
	return c, (a >= 0 && b < 0 && c < 0) || (a < 0 && b > 0 && c >= 0)
}

func (p *Pool) Const(v uint64, w uint8) *Term {
	return p.mk(OConst, w, v&maskW(w), nil, nil, nil, "", nil)
}
func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.tr
	}
	return p.fa
}
func (p *Pool) Var(name string, w uint8) *Term {
	return p.mk(OVar, w, 0, nil, nil, nil, name, nil)
}

func foldBin(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := maskW(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1, true
			}
			return m, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OAnd:
		return a & b, true
	case OOr:
		return a | b, true
	case OXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation. Shift counts have the width of a.
func (p *Pool) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if w != b.w {
		panic(fmt.Sprintf("Bin width mismatch op %d: %d %d", op, a.w, b.w))
	}
	m := maskW(w)
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, a.k, b.k, w); ok {
			return p.Const(v, w)
		}
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	// push through ite of constants (keeps small value sets visible)
	if b.isConst() && a.op == OIte && a.b.isConst() && a.c.isConst() {
		return p.Ite(a.a, p.Bin(op, a.b, b), p.Bin(op, a.c, b))
	}
	if a.isConst() && b.op == OIte && b.b.isConst() && b.c.isConst() {
		return p.Ite(b.a, p.Bin(op, a, b.b), p.Bin(op, a, b.c))
	}
	switch op {
	case OAdd:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return p.Bin(OAdd, a.a, p.Const(a.b.k+b.k, w))
			}
			if a.op == OSub && a.a.isConst() {
				return p.Bin(OSub, p.Const(a.a.k+b.k, w), a.b)
			}
		}
		if a.pm&b.pm == 0 {
			return p.Bin(OOr, a, b)
		}
		// (x + c) + y -> (x+y) + c
		if a.op == OAdd && a.b.isConst() && !b.isConst() {
			return p.Bin(OAdd, p.Bin(OAdd, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return p.Bin(OAdd, p.Bin(OAdd, a, b.a), b.b)
		}
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
	case OSub:
		if a == b {
			return p.Const(0, w)
		}
		if b.isConst() {
			return p.Bin(OAdd, a, p.Const(-b.k, w))
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b.isConst() {
			return p.Bin(OAdd, p.Bin(OSub, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return p.Bin(OAdd, p.Bin(OSub, a, b.a), p.Const(-b.b.k, w))
		}
	case OMul:
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return p.Bin(OShl, a, p.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OUDiv:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return p.Bin(OLshr, a, p.Const(uint64(bits.TrailingZeros64(b.k)), w))
		}
	case OURem:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return p.Bin(OAnd, a, p.Const(b.k-1, w))
		}
		if a.hi < b.lo {
			return a
		}
	case OSDiv:
		if a.slo >= 0 && b.slo > 0 {
			return p.Bin(OUDiv, a, b)
		}
	case OSRem:
		if a.slo >= 0 && b.slo > 0 {
			return p.Bin(OURem, a, b)
		}
	case OAnd:
		if a == b {
			return a
		}
		if a.pm&b.pm == 0 {
			return p.Const(0, w)
		}
		if b.isConst() {
			if b.k == m || a.pm&^b.k == 0 {
				return a
			}
			if a.op == OAnd && a.b.isConst() {
				return p.Bin(OAnd, a.a, p.Const(a.b.k&b.k, w))
			}
			if a.op == OOr { // distribute to drop disjoint parts
				return p.Bin(OOr, p.Bin(OAnd, a.a, b), p.Bin(OAnd, a.b, b))
			}
			// contiguous low mask -> zext(extract)
			if b.k&(b.k+1) == 0 {
				n := uint8(bits.Len64(b.k))
				return p.Zext(p.Extract(a, 0, n), w)
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
			if a.op == OOr && a.b.isConst() {
				return p.Bin(OOr, a.a, p.Const(a.b.k|b.k, w))
			}
		}
		if a.pm&b.pm == 0 {
			if t := p.fuse(a, b); t != nil {
				return t
			}
		}
	case OXor:
		if a == b {
			return p.Const(0, w)
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return p.Not(a)
			}
			if a.op == OXor && a.b.isConst() {
				return p.Bin(OXor, a.a, p.Const(a.b.k^b.k, w))
			}
		}
		if a.op == OXor && (a.a == b) {
			return a.b
		}
		if a.op == OXor && (a.b == b) {
			return a.a
		}
		if b.op == OXor && (b.a == a) {
			return b.b
		}
		if b.op == OXor && (b.b == a) {
			return b.a
		}
	case OShl, OLshr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return p.Const(0, w)
			}
			k := uint8(b.k)
			if op == OShl {
				if (a.pm<<k)&m == 0 {
					return p.Const(0, w)
				}
				if a.op == OShl && a.b.isConst() {
					return p.Bin(OShl, a.a, p.Const(a.b.k+b.k, w))
				}
				if a.op == OOr {
					return p.Bin(OOr, p.Bin(OShl, a.a, b), p.Bin(OShl, a.b, b))
				}
			} else {
				if a.pm>>k == 0 {
					return p.Const(0, w)
				}
				if a.op == OLshr && a.b.isConst() {
					return p.Bin(OLshr, a.a, p.Const(a.b.k+b.k, w))
				}
				if a.op == OOr {
					return p.Bin(OOr, p.Bin(OLshr, a.a, b), p.Bin(OLshr, a.b, b))
				}
				return p.Zext(p.Extract(a, k, w-k), w)
			}
		}
		if a.isConst() && a.k == 0 {
			return a
		}
	case OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
		if a.slo >= 0 {
			return p.Bin(OLshr, a, b)
		}
	}
	return p.mk(op, w, 0, a, b, nil, "", nil)
}

// seg describes bits [pos,pos+n) of a value being bits [slo,slo+n) of src.
type seg struct {
	pos, n, slo uint8
	src         *Term
}

func (p *Pool) segs(t *Term, depth int) []seg {
	switch t.op {
	case OZext:
		return p.segs(t.a, depth)
	case OExtract:
		return []seg{{0, t.w, uint8(t.k), t.a}}
	case OShl:
		if t.b.isConst() {
			in := p.segs(t.a, depth)
			var out []seg
			for _, s := range in {
				np := int(s.pos) + int(t.b.k)
				if np >= int(t.w) {
					continue
				}
				s.pos = uint8(np)
				if int(s.pos)+int(s.n) > int(t.w) {
					s.n = t.w - s.pos
				}
				out = append(out, s)
			}
			return out
		}
	case OOr:
		if depth > 0 && t.a.pm&t.b.pm == 0 {
			x := p.segs(t.a, depth-1)
			y := p.segs(t.b, depth-1)
			if x != nil && y != nil {
				return append(append([]seg{}, x...), y...)
			}
		}
		return nil
	case OConst:
		return nil
	}
	return []seg{{0, t.w, 0, t}}
}

// fuse rebuilds or(a,b) with disjoint bits when two pieces of one source are adjacent.
func (p *Pool) fuse(a, b *Term) *Term {
	sa, sb := p.segs(a, 6), p.segs(b, 6)
	if sa == nil || sb == nil {
		return nil
	}
	all := append(append([]seg{}, sa...), sb...)
	sort.Slice(all, func(i, j int) bool { return all[i].pos < all[j].pos })
	out := all[:1]
	fused := false
	for _, s := range all[1:] {
		l := &out[len(out)-1]
		if l.pos+l.n == s.pos && l.src == s.src && l.slo+l.n == s.slo {
			l.n += s.n
			fused = true
		} else {
			out = append(out, s)
		}
	}
	if !fused {
		return nil
	}
	w := a.w
	var r *Term
	for _, s := range out {
		x := p.Extract(s.src, s.slo, s.n)
		x = p.Zext(x, w)
		if s.pos > 0 {
			x = p.Bin(OShl, x, p.Const(uint64(s.pos), w))
		}
		if r == nil {
			r = x
		} else {
			if r.id > x.id {
				r, x = x, r
			}
			r = p.mk(OOr, w, 0, r, x, nil, "", nil)
		}
	}
	return r
}

func (p *Pool) Not(a *Term) *Term {
	if a.w == 1 {
		return p.BNot(a)
	}
	if a.isConst() {
		return p.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return p.mk(ONot, a.w, 0, a, nil, nil, "", nil)
}

func (p *Pool) Extract(a *Term, lo, n uint8) *Term {
	if lo == 0 && n == a.w {
		return a
	}
	if n == 1 {
		// single bits are kept as 8-bit-free booleans elsewhere; never used here
	}
	if a.isConst() {
		return p.Const(a.k>>lo, n)
	}
	if n > 1 && (a.pm>>lo)&maskW(n) == 0 {
		return p.Const(0, n)
	}
	switch a.op {
	case OExtract:
		return p.Extract(a.a, lo+uint8(a.k), n)
	case OZext:
		if lo+n <= a.a.w {
			return p.Extract(a.a, lo, n)
		}
		if lo < a.a.w && n > 1 {
			if a.a.w-lo == 1 {
				break
			}
			return p.Zext(p.Extract(a.a, lo, a.a.w-lo), n)
		}
	case OSext:
		if lo+n <= a.a.w {
			return p.Extract(a.a, lo, n)
		}
	case OShl:
		if a.b.isConst() {
			k := uint8(a.b.k)
			if lo >= k {
				return p.Extract(a.a, lo-k, n)
			}
			if n > 1 && lo == 0 && n > k {
				// low n bits of (x<<k)
				return p.Bin(OShl, p.Extract(a.a, 0, n), p.Const(uint64(k), n))
			}
		}
	case OLshr:
		if a.b.isConst() && lo+uint8(a.b.k)+n <= a.w {
			return p.Extract(a.a, lo+uint8(a.b.k), n)
		}
	case OAnd, OOr, OXor:
		if n > 1 {
			return p.Bin(a.op, p.Extract(a.a, lo, n), p.Extract(a.b, lo, n))
		}
	case OAdd, OSub, OMul:
		if lo == 0 && n > 1 {
			return p.Bin(a.op, p.Extract(a.a, 0, n), p.Extract(a.b, 0, n))
		}
	case OIte:
		if n > 1 && (a.b.isConst() || a.c.isConst()) {
			return p.Ite(a.a, p.Extract(a.b, lo, n), p.Extract(a.c, lo, n))
		}
	case ONot:
		if n > 1 {
			return p.Not(p.Extract(a.a, lo, n))
		}
	case OTable:
		if n > 1 {
			vals := make([]uint64, len(a.tbl.vals))
			for i, v := range a.tbl.vals {
				vals[i] = (v >> lo) & maskW(n)
			}
			return p.Table(vals, n, a.tbl.lo, a.a)
		}
	}
	if n == 1 {
		// bit test as a boolean
		return p.bitTest(a, lo)
	}
	return p.mk(OExtract, n, uint64(lo), a, nil, nil, "", nil)
}

// bitTest gives the Bool "bit lo of a is 1" as an OExtract of width 1.
func (p *Pool) bitTest(a *Term, lo uint8) *Term {
	if a.isConst() {
		return p.Const(a.k>>lo, 1)
	}
	if (a.pm>>lo)&1 == 0 {
		return p.fa
	}
	return p.mk(OExtract, 1, uint64(lo), a, nil, nil, "", nil)
}

func (p *Pool) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.w == 1 {
		return p.Ite(a, p.Const(1, w), p.Const(0, w))
	}
	if a.isConst() {
		return p.Const(a.k, w)
	}
	if a.op == OZext {
		return p.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return p.Ite(a.a, p.Zext(a.b, w), p.Zext(a.c, w))
	}
	if a.op == OTable {
		return p.tableW(a, w, false)
	}
	return p.mk(OZext, w, 0, a, nil, nil, "", nil)
}

func (p *Pool) tableW(a *Term, w uint8, signed bool) *Term {
	vals := make([]uint64, len(a.tbl.vals))
	for i, v := range a.tbl.vals {
		if signed {
			vals[i] = uint64(sx(v, a.w)) & maskW(w)
		} else {
			vals[i] = v
		}
	}
	return p.Table(vals, w, a.tbl.lo, a.a)
}

func (p *Pool) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return p.Const(uint64(sx(a.k, a.w)), w)
	}
	if a.slo >= 0 {
		return p.Zext(a, w)
	}
	if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return p.Ite(a.a, p.Sext(a.b, w), p.Sext(a.c, w))
	}
	if a.op == OTable {
		return p.tableW(a, w, true)
	}
	return p.mk(OSext, w, 0, a, nil, nil, "", nil)
}

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return p.Ite(c.a, b, a)
	}
	if a.w == 1 {
		if a.isConst() {
			if a.k != 0 {
				return p.BOr(c, b)
			}
			return p.BAnd(p.BNot(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return p.BOr(p.BNot(c), a)
			}
			return p.BAnd(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
	if b.op == OIte && b.b == a {
		return p.Ite(p.BOr(c, b.a), a, b.c)
	}
	// ite(x==k, k, x) -> x
	if c.op == OEq && a.isConst() && c.b == a && c.a == b {
		return b
	}
	return p.mk(OIte, a.w, 0, c, a, b, "", nil)
}

func (p *Pool) BNot(a *Term) *Term {
	if a.isConst() {
		return p.Const(1-a.k, 1)
	}
	if a.op == OBNot {
		return a.a
	}
	return p.mk(OBNot, 1, 0, a, nil, nil, "", nil)
}

func (p *Pool) BAnd(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return p.fa
	}
	if a.op == OBAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OBAnd && (b.a == a || b.b == a) {
		return b
	}
	// absorption a & (a | x) = a
	if b.op == OBOr && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OBOr && (a.a == b || a.b == b) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OBAnd, 1, 0, a, b, nil, "", nil)
}

func (p *Pool) BOr(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return p.tr
	}
	if b.op == OBAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OBAnd && (a.a == b || a.b == b) {
		return b
	}
	if a.op == OBOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OBOr && (b.a == a || b.b == a) {
		return b
	}
	// (x & y) | (x & !y) = x
	if a.op == OBAnd && b.op == OBAnd {
		neg := func(x, y *Term) bool { return (x.op == OBNot && x.a == y) || (y.op == OBNot && y.a == x) }
		switch {
		case a.a == b.a && neg(a.b, b.b):
			return a.a
		case a.b == b.b && neg(a.a, b.a):
			return a.b
		case a.a == b.b && neg(a.b, b.a):
			return a.a
		case a.b == b.a && neg(a.a, b.b):
			return a.b
		}
	}
	if a.op == OBAnd {
		// !x | (x & y) = !x | y
		neg := func(x, y *Term) bool { return (x.op == OBNot && x.a == y) || (y.op == OBNot && y.a == x) }
		if neg(a.a, b) {
			return p.BOr(a.b, b)
		}
		if neg(a.b, b) {
			return p.BOr(a.a, b)
		}
	}
	if b.op == OBAnd {
		neg := func(x, y *Term) bool { return (x.op == OBNot && x.a == y) || (y.op == OBNot && y.a == x) }
		if neg(b.a, a) {
			return p.BOr(b.b, a)
		}
		if neg(b.b, a) {
			return p.BOr(b.a, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OBOr, 1, 0, a, b, nil, "", nil)
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return p.tr
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 1 {
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return p.BNot(a)
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return p.fa
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo || a.shi < b.slo || b.shi < a.slo {
			return p.fa
		}
	}
	if b.isConst() {
		if b.k&^a.pm != 0 {
			return p.fa
		}
		switch a.op {
		case OAdd:
			if a.b.isConst() {
				return p.Eq(a.a, p.Const(b.k-a.b.k, a.w))
			}
		case OXor:
			if a.b.isConst() {
				return p.Eq(a.a, p.Const(b.k^a.b.k, a.w))
			}
			if b.k == 0 {
				return p.Eq(a.a, a.b)
			}
		case OSub:
			if b.k == 0 {
				return p.Eq(a.a, a.b)
			}
			if a.a.isConst() {
				return p.Eq(a.b, p.Const(a.a.k-b.k, a.w))
			}
		case ONot:
			return p.Eq(a.a, p.Const(^b.k, a.w))
		case OZext:
			if b.k > maskW(a.a.w) {
				return p.fa
			}
			return p.Eq(a.a, p.Const(b.k, a.a.w))
		case OSext:
			if uint64(sx(b.k&maskW(a.a.w), a.a.w))&maskW(a.w) != b.k {
				return p.fa
			}
			return p.Eq(a.a, p.Const(b.k, a.a.w))
		case OShl:
			if a.b.isConst() {
				k := uint8(a.b.k)
				if b.k&((1<<k)-1) != 0 {
					return p.fa
				}
				if a.a.hi <= maskW(a.w)>>k {
					return p.Eq(a.a, p.Const(b.k>>k, a.w))
				}
			}
		case OOr:
			if a.a.pm&a.b.pm == 0 {
				return p.BAnd(p.Eq(a.a, p.Const(b.k&a.a.pm, a.w)), p.Eq(a.b, p.Const(b.k&a.b.pm, a.w)))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return p.Ite(a.a, p.Eq(a.b, b), p.Eq(a.c, b))
			}
		case OTable:
			return p.tableEq(a, b.k)
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return p.Eq(a.a, b.a)
	}
	if a.op == OAdd && b.op == OAdd && a.b.isConst() && b.b.isConst() {
		return p.Eq(a.a, p.Bin(OAdd, b.a, p.Const(b.b.k-a.b.k, a.w)))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return p.mk(OEq, 1, 0, a, b, nil, "", nil)
}

// tableEq: table lookup equals constant -> range tests on the index when few runs match.
func (p *Pool) tableEq(a *Term, k uint64) *Term {
	t := a.tbl
	n := 0
	for _, r := range t.runs {
		if r.val == k {
			n++
		}
	}
	if n == 0 {
		return p.fa
	}
	if n > 8 {
		return p.mk(OEq, 1, 0, a, p.Const(k, a.w), nil, "", nil)
	}
	res := p.fa
	for i, r := range t.runs {
		if r.val != k {
			continue
		}
		end := t.lo + uint64(len(t.vals)) // exclusive
		if i+1 < len(t.runs) {
			end = t.runs[i+1].start
		}
		res = p.BOr(res, p.inRange(a.a, r.start, end-1))
	}
	return res
}

func (p *Pool) inRange(x *Term, lo, hi uint64) *Term {
	if lo == hi {
		return p.Eq(x, p.Const(lo, x.w))
	}
	return p.BAnd(p.Ule(p.Const(lo, x.w), x), p.Ule(x, p.Const(hi, x.w)))
}

func (p *Pool) Ult(a, b *Term) *Term {
	if a == b {
		return p.fa
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return p.tr
	}
	if a.lo >= b.hi {
		return p.fa
	}
	if b.isConst() {
		if b.k == a.lo+1 {
			return p.Eq(a, p.Const(a.lo, a.w))
		}
		switch a.op {
		case OZext:
			if b.k <= maskW(a.a.w) {
				return p.Ult(a.a, p.Const(b.k, a.a.w))
			}
			return p.tr
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return p.Ite(a.a, p.Ult(a.b, b), p.Ult(a.c, b))
			}
		}
	}
	if a.isConst() {
		if a.k+1 == b.hi {
			return p.Eq(b, p.Const(b.hi, b.w))
		}
		switch b.op {
		case OZext:
			if a.k <= maskW(b.a.w) {
				return p.Ult(p.Const(a.k, b.a.w), b.a)
			}
			return p.fa
		case OIte:
			if b.b.isConst() || b.c.isConst() {
				return p.Ite(b.a, p.Ult(a, b.b), p.Ult(a, b.c))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return p.Ult(a.a, b.a)
	}
	return p.mk(OUlt, 1, 0, a, b, nil, "", nil)
}
func (p *Pool) Ule(a, b *Term) *Term { return p.BNot(p.Ult(b, a)) }
func (p *Pool) Slt(a, b *Term) *Term {
	if a == b {
		return p.fa
	}
	if a.isConst() && b.isConst() {
		return p.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	if a.shi < b.slo {
		return p.tr
	}
	if a.slo >= b.shi {
		return p.fa
	}
	if a.slo >= 0 && b.slo >= 0 {
		return p.Ult(a, b)
	}
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return p.Ite(a.a, p.Slt(a.b, b), p.Slt(a.c, b))
	}
	if a.isConst() && b.op == OIte && (b.b.isConst() || b.c.isConst()) {
		return p.Ite(b.a, p.Slt(a, b.b), p.Slt(a, b.c))
	}
	// x + c1 < c2 with no signed overflow -> x < c2-c1
	if b.isConst() && a.op == OAdd && a.b.isConst() {
		c1, c2 := sx(a.b.k, a.w), sx(b.k, b.w)
		l, o1 := addOv(a.a.slo, c1)
		h, o2 := addOv(a.a.shi, c1)
		d, o3 := subOv(c2, c1)
		if !o1 && !o2 && !o3 && l >= sx(uint64(1)<<(a.w-1), a.w) && h <= sx(maskW(a.w)>>1, a.w) && d >= sx(uint64(1)<<(a.w-1), a.w) && d <= sx(maskW(a.w)>>1, a.w) {
			return p.Slt(a.a, p.Const(uint64(d), a.w))
		}
	}
	if a.isConst() && b.op == OAdd && b.b.isConst() {
		c1, c2 := sx(b.b.k, b.w), sx(a.k, a.w)
		l, o1 := addOv(b.a.slo, c1)
		h, o2 := addOv(b.a.shi, c1)
		d, o3 := subOv(c2, c1)
		if !o1 && !o2 && !o3 && l >= sx(uint64(1)<<(a.w-1), a.w) && h <= sx(maskW(a.w)>>1, a.w) && d >= sx(uint64(1)<<(a.w-1), a.w) && d <= sx(maskW(a.w)>>1, a.w) {
			return p.Slt(p.Const(uint64(d), a.w), b.a)
		}
	}
	return p.mk(OSlt, 1, 0, a, b, nil, "", nil)
}
func (p *Pool) Sle(a, b *Term) *Term { return p.BNot(p.Slt(b, a)) }

// Table builds a lookup of idx in a concrete table (vals[0] is index lo).
// The caller guarantees idx is within the table under the path condition.
func (p *Pool) Table(vals []uint64, w uint8, lo uint64, idx *Term) *Term {
	if idx.isConst() {
		i := idx.k - lo
		if i < uint64(len(vals)) {
			return p.Const(vals[i], w)
		}
	}
	same, ident := true, true
	for i, v := range vals {
		if v != vals[0] {
			same = false
		}
		if v != lo+uint64(i) {
			ident = false
		}
	}
	if same {
		return p.Const(vals[0], w)
	}
	if ident {
		if w == idx.w {
			return idx
		}
		if w > idx.w {
			return p.Zext(idx, w)
		}
		return p.Extract(idx, 0, w)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%d:", w, lo)
	for _, v := range vals {
		fmt.Fprintf(&sb, "%x,", v)
	}
	key := sb.String()
	t := p.tables[key]
	if t == nil {
		t = &Table{id: len(p.tlist), vals: append([]uint64{}, vals...), w: w, lo: lo}
		for i, v := range vals {
			if i == 0 || v != vals[i-1] {
				t.runs = append(t.runs, tblRun{lo + uint64(i), v})
			}
		}
		// GF(2)-affine tables (CRC) are encoded as xors of bits
		n := len(vals)
		if lo == 0 && n >= 4 && n&(n-1) == 0 && len(t.runs) > 8 {
			aff := true
			for i := 0; i < n && aff; i++ {
				v := vals[0]
				for b := 0; 1<<b < n; b++ {
					if i>>b&1 != 0 {
						v ^= vals[1<<b] ^ vals[0]
					}
				}
				if v != vals[i] {
					aff = false
				}
			}
			t.aff = aff
		}
		p.tables[key] = t
		p.tlist = append(p.tlist, t)
	}
	if t.aff && idx.hi < uint64(len(vals)) {
		r := p.Const(t.vals[0], w)
		for b := 0; 1<<b < len(vals); b++ {
			r = p.Bin(OXor, r, p.Ite(p.bitTest(idx, uint8(b)), p.Const(t.vals[1<<b]^t.vals[0], w), p.Const(0, w)))
		}
		return r
	}
	if len(t.runs) <= 4 {
		var r *Term
		for i := len(t.runs) - 1; i >= 0; i-- {
			v := p.Const(t.runs[i].val, w)
			if r == nil {
				r = v
			} else {
				r = p.Ite(p.Ult(idx, p.Const(t.runs[i+1].start, idx.w)), v, r)
			}
		}
		return r
	}
	return p.mk(OTable, w, 0, idx, nil, nil, "", t)
}

// Eval evaluates t under an assignment to variables (missing variables are 0).
func (p *Pool) Eval(t *Term, m map[*Term]uint64) uint64 {
	p.evGen++
	return p.eval(t, m)
}
func (p *Pool) EvalMany(ts []*Term, m map[*Term]uint64) []uint64 {
	p.evGen++
	out := make([]uint64, len(ts))
	for i, t := range ts {
		out[i] = p.eval(t, m)
	}
	return out
}

func (p *Pool) eval(t *Term, m map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m[t]
	}
	if t.evGen == p.evGen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OExtract:
		r = (p.eval(t.a, m) >> t.k) & maskW(t.w)
	case OZext:
		r = p.eval(t.a, m)
	case OSext:
		r = uint64(sx(p.eval(t.a, m), t.a.w)) & maskW(t.w)
	case OIte:
		if p.eval(t.a, m) != 0 {
			r = p.eval(t.b, m)
		} else {
			r = p.eval(t.c, m)
		}
	case OEq:
		r = b2u(p.eval(t.a, m) == p.eval(t.b, m))
	case OUlt:
		r = b2u(p.eval(t.a, m) < p.eval(t.b, m))
	case OSlt:
		r = b2u(sx(p.eval(t.a, m), t.a.w) < sx(p.eval(t.b, m), t.b.w))
	case OBNot:
		r = 1 - p.eval(t.a, m)
	case OBAnd:
		r = p.eval(t.a, m)
		if r != 0 {
			r = p.eval(t.b, m)
		}
	case OBOr:
		r = p.eval(t.a, m)
		if r == 0 {
			r = p.eval(t.b, m)
		}
	case ONot:
		r = ^p.eval(t.a, m) & maskW(t.w)
	case OTable:
		i := p.eval(t.a, m) - t.tbl.lo
		// must agree with the SMT encoding for out-of-table indices
		if i < uint64(len(t.tbl.vals)) {
			r = t.tbl.vals[i]
		} else if i>>63 != 0 { // below lo
			r = t.tbl.vals[0]
		} else {
			r = t.tbl.vals[len(t.tbl.vals)-1]
		}
	default:
		r, _ = foldBin(t.op, p.eval(t.a, m), p.eval(t.b, m), t.w)
	}
	t.evGen = p.evGen
	t.evVal = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 6 {
		return fmt.Sprintf("t%d", t.id)
	}
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OVar:
		return t.name
	}
	s := fmt.Sprintf("(%s", opNames[t.op])
	if t.op == OExtract {
		s += fmt.Sprintf("[%d+%d]", t.k, t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d+1)
		}
	}
	return s + ")"
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OBNot: "not", OBAnd: "and", OBOr: "or", OExtract: "extract", OZext: "zext", OSext: "sext", OTable: "table"}
