package main

// Joining of states that reached the same program point.

import (
	"go/types"
)

func (x *Exec) merge(rs []*State, base int) []*State {
	if len(rs) < 2 || x.noMerge {
		return rs
	}
	var out []*State
	for _, r := range rs {
		done := false
		lim := len(out) - 24
		for i := len(out) - 1; i >= 0 && i >= lim; i-- {
			if m := x.tryMerge(out[i], r, base); m != nil {
				out[i] = m
				x.Merges++
				done = true
				break
			}
		}
		if !done {
			out = append(out, r)
		}
	}
	return out
}

type cellDiff struct {
	id   uint32
	off  int
	a, b Val
	w    uint8
}

type regDiff struct {
	fi, r int
	v     Val
}

func sameSeq(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// liveRegs tells which registers of a frame are still read.
func liveRegs(f *Frame, top bool) (live []uint64, skip int32) {
	f.fn.liveness()
	skip = -1
	if top && f.pc == 0 {
		live = f.fn.blocks[f.blk].live
	} else if f.pc > 0 {
		in := &f.fn.blocks[f.blk].ins[f.pc-1]
		if in.call != nil && in.op == ICall {
			live = in.call.live
			if !top {
				skip = in.dst
			}
		}
	}
	return live, skip
}

func (x *Exec) tryMerge(a, b *State, base int) *State {
	if len(a.frames) != len(b.frames) || a.panic != b.panic || a.mergeI != b.mergeI || a.tag != b.tag && len(a.frames) > 0 {
		return nil
	}
	if len(a.frames) == 0 {
		// finished paths: nothing left to observe
		x.Paths++
		return a
	}
	for i := range a.frames {
		f, g := a.frames[i], b.frames[i]
		if f == g {
			continue
		}
		if f.fn != g.fn || f.blk != g.blk || f.pc != g.pc || f.dst != g.dst || f.kind != g.kind || len(f.defers) != len(g.defers) || f.hook != nil || g.hook != nil || f.rec != g.rec {
			return nil
		}
		for j := range f.defers {
			if f.defers[j].c.fn != g.defers[j].c.fn {
				return nil
			}
			for k := range f.defers[j].args {
				if !x.sameVal(f.defers[j].args[k], g.defers[j].args[k]) {
					return nil
				}
			}
			for k := range f.defers[j].c.bind {
				if !x.sameVal(f.defers[j].c.bind[k], g.defers[j].c.bind[k]) {
					return nil
				}
			}
		}
	}
	if !sameSeq(a.seq, b.seq) {
		return nil
	}
	if base > len(a.pc) || base > len(b.pc) {
		return nil
	}
	// what cannot be merged, found cheaply: numbers in registers
	for i := range a.frames {
		f, g := a.frames[i], b.frames[i]
		if f == g || a.mergeI {
			continue
		}
		live, skip := liveRegs(f, i == len(a.frames)-1)
		for r := range f.regs {
			if va, vb := f.regs[r], g.regs[r]; va.p == nil && vb.p == nil && va.n != vb.n {
				if live != nil && (live[r/64]>>(r%64)&1 == 0 || int32(r) == skip) {
					continue
				}
				if w, _, ok := intInfo(f.fn.regT[r]); ok && w > 1 {
					return nil
				}
			}
		}
	}
	// conditions
	inB := map[*Term]bool{}
	for _, t := range b.pc[base:] {
		inB[t] = true
	}
	var common []*Term
	condA, condB := x.p.tr, x.p.tr
	inC := map[*Term]bool{}
	for _, t := range a.pc[base:] {
		if inB[t] {
			common = append(common, t)
			inC[t] = true
		} else {
			condA = x.p.BAnd(condA, t)
		}
	}
	for _, t := range b.pc[base:] {
		if !inC[t] {
			condB = x.p.BAnd(condB, t)
		}
	}
	mergeable := func(va, vb Val, w uint8, byteCell bool) bool {
		if w == 0 {
			return false
		}
		if va.p != nil || vb.p != nil {
			return true
		}
		return w == 1 || byteCell || a.mergeI
	}
	mergeStr := func(va, vb Val) (Val, bool) {
		sa, ok1 := va.p.(*Str)
		sb, ok2 := vb.p.(*Str)
		if !ok1 || !ok2 || len(sa.s) != len(sb.s) || (sa.t == nil && sb.t == nil && !a.mergeI) {
			return Val{}, false
		}
		vals := make([]Val, len(sa.s))
		for i := range vals {
			vals[i] = tv(x.p.Ite(condA, x.term(sa.at(i), 8), x.term(sb.at(i), 8)))
		}
		return mkStr(vals), true
	}
	var mergeVal func(va, vb Val, t types.Type, byteCell bool) (Val, bool)
	mergeVal = func(va, vb Val, t types.Type, byteCell bool) (Val, bool) {
		if x.sameVal(va, vb) {
			return va, true
		}
		if w, _, ok := intInfo(t); ok {
			if mergeable(va, vb, w, byteCell) {
				return tv(x.p.Ite(condA, x.term(va, w), x.term(vb, w))), true
			}
			return Val{}, false
		}
		if isString(t) {
			return mergeStr(va, vb)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct, *types.Array:
			n := x.pr.size(t)
			ca, cb := cellsOf(va, n), cellsOf(vb, n)
			ws := x.pr.cellWidths(t)
			out := make([]Val, n)
			for i := range out {
				if x.sameVal(ca[i], cb[i]) {
					out[i] = ca[i]
					continue
				}
				if mergeable(ca[i], cb[i], ws[i], false) {
					out[i] = tv(x.p.Ite(condA, x.term(ca[i], ws[i]), x.term(cb[i], ws[i])))
					continue
				}
				if s, ok := mergeStr(ca[i], cb[i]); ok {
					out[i] = s
					continue
				}
				return Val{}, false
			}
			return Val{p: out}, true
		case *types.Tuple:
			pa, ok1 := va.p.([]Val)
			pb, ok2 := vb.p.([]Val)
			if !ok1 || !ok2 || len(pa) != u.Len() {
				return Val{}, false
			}
			out := make([]Val, len(pa))
			for i := range pa {
				v, ok := mergeVal(pa[i], pb[i], u.At(i).Type(), false)
				if !ok {
					return Val{}, false
				}
				out[i] = v
			}
			return Val{p: out}, true
		case *types.Interface:
			i, ok1 := va.p.(*Iface)
			j, ok2 := vb.p.(*Iface)
			if ok1 && ok2 && types.Identical(i.typ, j.typ) {
				v, ok := mergeVal(i.v, j.v, i.typ, false)
				if ok {
					return Val{p: &Iface{i.typ, v}}, true
				}
			}
		}
		return Val{}, false
	}
	// registers
	var regs []regDiff
	var dead []regDiff
	top := len(a.frames) - 1
	for i := range a.frames {
		f, g := a.frames[i], b.frames[i]
		if f == g {
			continue
		}
		live, skip := liveRegs(f, i == top)
		for r := range f.regs {
			if live != nil && (live[r/64]>>(r%64)&1 == 0 || int32(r) == skip) {
				if !x.sameVal(f.regs[r], g.regs[r]) {
					dead = append(dead, regDiff{i, r, Val{}})
				}
				continue
			}
			va, vb := f.regs[r], g.regs[r]
			if x.sameVal(va, vb) {
				continue
			}
			v, ok := mergeVal(va, vb, f.fn.regT[r], false)
			if !ok {
				return nil
			}
			regs = append(regs, regDiff{i, r, v})
		}
	}
	// heap
	var cells []cellDiff
	var onlyB []uint32
	nch := max(len(a.chunks), len(b.chunks))
	for ci := 0; ci < nch; ci++ {
		var ca, cb *chunk
		if ci < len(a.chunks) {
			ca = a.chunks[ci]
		}
		if ci < len(b.chunks) {
			cb = b.chunks[ci]
		}
		if ca == cb {
			continue
		}
		for oi := 0; oi < chunkSize; oi++ {
			var oa, ob *Obj
			if ca != nil {
				oa = ca.o[oi]
			}
			if cb != nil {
				ob = cb.o[oi]
			}
			if oa == ob {
				continue
			}
			id := uint32(ci<<chunkShift | oi)
			if ob == nil {
				continue
			}
			if oa == nil {
				onlyB = append(onlyB, id)
				continue
			}
			if oa.n != ob.n || oa.esz != ob.esz || !types.Identical(oa.elem, ob.elem) || len(oa.log) != len(ob.log) {
				return nil
			}
			if len(oa.log) > 0 {
				for i := range oa.log {
					if oa.log[i].idx != ob.log[i].idx || oa.log[i].base != ob.log[i].base || !x.sameVal(oa.log[i].v, ob.log[i].v) {
						return nil
					}
				}
				for k, v := range oa.epoch {
					if ob.epoch[k] != v {
						return nil
					}
				}
				if len(oa.epoch) != len(ob.epoch) {
					return nil
				}
			}
			if (oa.m == nil) != (ob.m == nil) {
				return nil
			}
			if oa.m != nil && oa.m != ob.m {
				if len(oa.m.keys) != len(ob.m.keys) {
					return nil
				}
				for i := range oa.m.keys {
					if oa.m.ks[i] != ob.m.ks[i] || !x.sameVal(oa.m.vals[i], ob.m.vals[i]) {
						return nil
					}
				}
			}
			byteArr := false
			if w, _, ok := intInfo(oa.elem); ok && w == 8 && oa.esz == 1 {
				byteArr = true
			}
			for pi := range oa.pages {
				pa, pb := oa.pages[pi], ob.pages[pi]
				if pa == pb {
					continue
				}
				n := min(pageSize, oa.n-pi<<pageShift)
				for k := 0; k < n; k++ {
					var va, vb Val
					if pa != nil {
						va = pa.c[k]
					}
					if pb != nil {
						vb = pb.c[k]
					}
					if x.sameVal(va, vb) {
						continue
					}
					off := pi<<pageShift + k
					w := x.cellW(oa, off)
					if mergeable(va, vb, w, byteArr) {
						cells = append(cells, cellDiff{id, off, tv(x.p.Ite(condA, x.term(va, w), x.term(vb, w))), Val{}, w})
					} else if s, ok := mergeStr(va, vb); ok {
						cells = append(cells, cellDiff{id, off, s, Val{}, w})
					} else if ia, ok1 := va.p.(*Iface); ok1 {
						ib, ok2 := vb.p.(*Iface)
						if !ok2 || !types.Identical(ia.typ, ib.typ) {
							return nil
						}
						v, ok := mergeVal(ia.v, ib.v, ia.typ, false)
						if !ok {
							return nil
						}
						cells = append(cells, cellDiff{id, off, Val{p: &Iface{ia.typ, v}}, Val{}, w})
					} else {
						return nil
					}
					if len(cells) > 4000 {
						return nil
					}
				}
			}
		}
	}
	// commit into a
	m := x.fork(a)
	x.Forks--
	for ci := len(m.chunks); ci < len(b.chunks); ci++ {
		m.chunks = append(m.chunks, &chunk{owner: m.owner})
	}
	for _, id := range onlyB {
		ci := id >> chunkShift
		c := m.chunks[ci]
		if c.owner != m.owner {
			c = &chunk{owner: m.owner, o: c.o}
			m.chunks[ci] = c
		}
		c.o[id&(chunkSize-1)] = b.getObj(id)
	}
	if b.nobj > m.nobj {
		m.nobj = b.nobj
	}
	for _, c := range cells {
		o := m.ownObj(c.id)
		o.set(m.owner, c.off, c.a)
	}
	own := func(i int) *Frame {
		fr := m.frames[i]
		if fr.owner == m.owner {
			return fr
		}
		nf := &Frame{}
		*nf = *fr
		nf.owner = m.owner
		nf.regs = append([]Val(nil), fr.regs...)
		nf.defers = fr.defers[:len(fr.defers):len(fr.defers)]
		m.frames[i] = nf
		return nf
	}
	for _, d := range regs {
		own(d.fi).regs[d.r] = d.v
	}
	for _, d := range dead {
		own(d.fi).regs[d.r] = Val{}
	}
	m.pc = append([]*Term(nil), a.pc[:base]...)
	for _, t := range common {
		x.addPC(m, t)
	}
	x.addPC(m, x.p.BOr(condA, condB))
	if b.steps > m.steps {
		m.steps = b.steps
	}
	return m
}
