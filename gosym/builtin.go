package main

import (
	"go/types"
	"strings"
)

func (x *Exec) builtin(st *State, fr *Frame, ins *Ins) bool {
	ci := ins.call
	arg := func(i int) Val { return fr.get(ins.args[i]) }
	set := func(v Val) bool {
		f := st.ownTop()
		if ins.dst != noReg {
			f.regs[ins.dst] = v
		}
		f.pc++
		return true
	}
	switch ci.bi {
	case "len", "cap":
		a := arg(0)
		t := ci.argT[0].Underlying()
		switch u := t.(type) {
		case *types.Slice:
			if a.p == nil {
				return set(Val{})
			}
			s := a.p.(*Slice)
			if ci.bi == "len" {
				return set(Val{n: uint64(s.len)})
			}
			return set(Val{n: uint64(s.cap)})
		case *types.Map:
			if a.n == 0 {
				return set(Val{})
			}
			return set(Val{n: uint64(len(st.getObj(uint32(a.n >> 32)).m.keys))})
		case *types.Basic:
			return set(Val{n: uint64(len(getStr(a).s))})
		case *types.Array:
			return set(Val{n: uint64(u.Len())})
		case *types.Pointer:
			return set(Val{n: uint64(u.Elem().Underlying().(*types.Array).Len())})
		}
	case "append":
		return set(x.doAppend(st, arg(0), arg(1), ci.argT[0], ci.argT[1]))
	case "copy":
		return set(x.doCopy(st, arg(0), arg(1), ci.argT[0], ci.argT[1]))
	case "delete":
		m := arg(0)
		if m.n == 0 {
			return set(Val{})
		}
		mt := ci.argT[0].Underlying().(*types.Map)
		k := x.mapKey(st, arg(1), mt.Key())
		mo := x.ownMap(st, uint32(m.n>>32))
		if i, ok := mo.index[k]; ok {
			mo.keys = append(mo.keys[:i], mo.keys[i+1:]...)
			mo.vals = append(mo.vals[:i], mo.vals[i+1:]...)
			mo.ks = append(mo.ks[:i], mo.ks[i+1:]...)
			mo.index = map[string]int{}
			for j, s := range mo.ks {
				mo.index[s] = j
			}
		}
		return set(Val{})
	case "print", "println":
		return set(Val{})
	case "recover":
		f := st.top()
		if f.kind == 2 && f.rec != nil && !f.rec.recovered && st.panic == f.rec {
			nr := *f.rec
			nr.recovered = true
			g := st.ownTop()
			g.rec = &nr
			st.panic = &nr
			return set(nr.v)
		}
		return set(Val{})
	case "min", "max":
		w, sg, ok := intInfo(ci.argT[0])
		if !ok {
			unsup("min/max on non-integers")
		}
		r := arg(0)
		for i := 1; i < len(ins.args); i++ {
			b := arg(i)
			ta, tb := x.term(r, w), x.term(b, w)
			var lt *Term
			if sg {
				lt = x.p.Slt(ta, tb)
			} else {
				lt = x.p.Ult(ta, tb)
			}
			if ci.bi == "max" {
				ta, tb = tb, ta
			}
			r = tv(x.p.Ite(lt, ta, tb))
		}
		return set(r)
	case "clear":
		a := arg(0)
		switch u := ci.argT[0].Underlying().(type) {
		case *types.Map:
			if a.n != 0 {
				mo := x.ownMap(st, uint32(a.n>>32))
				mo.keys, mo.vals, mo.ks, mo.index = nil, nil, nil, map[string]int{}
			}
		case *types.Slice:
			if a.p != nil {
				s := a.p.(*Slice)
				o := st.ownObj(s.id)
				n := s.len * x.pr.size(u.Elem())
				for i := 0; i < n; i++ {
					x.storeCell(st, o, int(s.off)+i, Val{})
				}
			}
		}
		return set(Val{})
	case "ssa:wrapnilchk":
		a := arg(0)
		if a.p == nil && a.n == 0 {
			x.raise(st, "nil pointer dereference")
			return false
		}
		return set(a)
	case "String": // unsafe.String
		a := arg(0)
		n := x.concInt(st, arg(1), 64, true)
		if n == 0 {
			return set(Val{})
		}
		o := st.getObj(uint32(a.n >> 32))
		vals := make([]Val, n)
		for i := range vals {
			vals[i] = x.loadCell(o, int(uint32(a.n))+i)
		}
		return set(mkStr(vals))
	case "SliceData":
		a := arg(0)
		if a.p == nil {
			return set(Val{})
		}
		s := a.p.(*Slice)
		return set(ptrVal(s.id, s.off))
	case "StringData":
		s := getStr(arg(0))
		id := st.alloc(types.Typ[types.Uint8], 1, len(s.s))
		o := st.getObj(id)
		for i := range s.s {
			o.set(st.owner, i, s.at(i))
		}
		return set(ptrVal(id, 0))
	case "Slice":
		a := arg(0)
		n := x.concInt(st, arg(1), 64, true)
		if a.n == 0 {
			return set(Val{})
		}
		return set(Val{p: &Slice{id: uint32(a.n >> 32), off: uint32(a.n), len: n, cap: n}})
	}
	unsup("builtin %s", ci.bi)
	return false
}

func (x *Exec) doAppend(st *State, a, b Val, ta, tb types.Type) Val {
	elem := ta.Underlying().(*types.Slice).Elem()
	esz := x.pr.size(elem)
	var src []Val
	if isString(tb) {
		s := getStr(b)
		for i := range s.s {
			src = append(src, s.at(i))
		}
	} else if b.p != nil {
		s := b.p.(*Slice)
		o := st.getObj(s.id)
		src = make([]Val, s.len*esz)
		for i := range src {
			src[i] = x.loadCell(o, int(s.off)+i)
		}
	}
	if len(src) == 0 {
		return a
	}
	add := len(src) / max(esz, 1)
	if esz == 0 {
		unsup("append of zero-size elements")
	}
	s := &Slice{}
	if a.p != nil {
		s = a.p.(*Slice)
	}
	need := s.len + add
	if need <= s.cap {
		o := st.ownObj(s.id)
		for i, v := range src {
			x.storeCell(st, o, int(s.off)+s.len*esz+i, v)
		}
		return Val{p: &Slice{id: s.id, off: s.off, len: need, cap: s.cap}}
	}
	nc := s.cap * 2
	if s.cap >= 256 {
		nc = s.cap + (s.cap+768)/4
	}
	if nc < need {
		nc = need
	}
	if esz == 1 && nc < 8 {
		nc = 8
	}
	id := st.alloc(elem, esz, nc)
	o := st.getObj(id)
	if s.len > 0 {
		old := st.getObj(s.id)
		for i := 0; i < s.len*esz; i++ {
			o.set(st.owner, i, x.loadCell(old, int(s.off)+i))
		}
	}
	for i, v := range src {
		o.set(st.owner, s.len*esz+i, v)
	}
	return Val{p: &Slice{id: id, len: need, cap: nc}}
}

func (x *Exec) doCopy(st *State, a, b Val, ta, tb types.Type) Val {
	if a.p == nil || b.p == nil {
		return Val{}
	}
	d := a.p.(*Slice)
	elem := ta.Underlying().(*types.Slice).Elem()
	esz := x.pr.size(elem)
	if isString(tb) {
		s := getStr(b)
		n := min(d.len, len(s.s))
		o := st.ownObj(d.id)
		for i := 0; i < n; i++ {
			x.storeCell(st, o, int(d.off)+i, s.at(i))
		}
		return Val{n: uint64(n)}
	}
	s := b.p.(*Slice)
	n := min(d.len, s.len)
	if n == 0 {
		return Val{}
	}
	cells := n * esz
	src := st.getObj(s.id)
	tmp := make([]Val, cells)
	for i := range tmp {
		tmp[i] = x.loadCell(src, int(s.off)+i)
	}
	o := st.ownObj(d.id)
	for i, v := range tmp {
		x.storeCell(st, o, int(d.off)+i, v)
	}
	return Val{n: uint64(n)}
}

const (
	intrOK = iota
	intrRaised
	intrPushed
)

type intrinsic func(x *Exec, st *State, ins *Ins, args []Val) (Val, int)

var _ = strings.HasPrefix
