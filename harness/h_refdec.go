package lha

import "MODULE/zzverif/vrt"

// Reference decoders, written from the descriptions of the formats and
// independent of the code under test (different data structures).

type vhBits struct {
	b   []byte
	pos int // in bits
}

func (r *vhBits) get(n int) int {
	v := 0
	for ; n > 0; n-- {
		bit := 0
		if r.pos>>3 < len(r.b) {
			bit = int(r.b[r.pos>>3]>>(7-uint(r.pos&7))) & 1
		}
		v = v<<1 | bit
		r.pos++
	}
	return v
}

type vhPut struct {
	b []byte
	n int // bits used
}

func (w *vhPut) put(n, v int) {
	for i := n - 1; i >= 0; i-- {
		if w.n&7 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n>>3] |= byte(v>>uint(i)&1) << (7 - uint(w.n&7))
		w.n++
	}
}

// vhHuf is a canonical code: shorter codes first, then by symbol.
type vhHuf struct {
	single int // >= 0: every code is this symbol, of no bits
	count  [18]int
	first  [18]int
	start  [18]int
	syms   []int
	ok     bool // complete
}

func vhSingle(c int) *vhHuf { return &vhHuf{single: c, ok: true} }

func vhCanon(lens []int) *vhHuf {
	h := &vhHuf{single: -1}
	for _, l := range lens {
		h.count[l]++
	}
	code, n := 0, 0
	for l := 1; l <= 16; l++ {
		code <<= 1
		h.first[l] = code
		h.start[l] = n
		code += h.count[l]
		n += h.count[l]
		for s, x := range lens {
			if x == l {
				h.syms = append(h.syms, s)
			}
		}
	}
	h.ok = code == 1<<16
	return h
}

func (h *vhHuf) get(r *vhBits) int {
	if h.single >= 0 {
		return h.single
	}
	code := 0
	for l := 1; l <= 16; l++ {
		code = code<<1 | r.get(1)
		if k := code - h.first[l]; k >= 0 && k < h.count[l] {
			return h.syms[h.start[l]+k]
		}
	}
	return -1
}

// vhRefSt1: -lh4- to -lh7-. ok is false where the stream breaks the format.
func vhRefSt1(packed []byte, orig int, method int) (out []byte, ok bool, used int) {
	r := &vhBits{b: packed}
	pbit, np := 4, 14
	if method == 6 {
		pbit, np = 5, 16
	} else if method == 7 {
		pbit, np = 5, 17
	}
	dic := map[int]int{4: 4096, 5: 8192, 6: 32768, 7: 65536}[method]
	if dic == 0 {
		panic("method")
	}
	readPt := func(nn, nbit, special int) *vhHuf {
		n := r.get(nbit)
		if n == 0 {
			c := r.get(nbit)
			if c >= nn {
				return nil
			}
			return vhSingle(c)
		}
		if n > nn {
			return nil
		}
		lens := make([]int, nn)
		for i := 0; i < n; {
			l := r.get(3)
			if l == 7 {
				for r.get(1) == 1 {
					l++
					if l > 16 {
						return nil
					}
				}
			}
			lens[i] = vrt.Conc(l)
			i++
			if i == special {
				i += vrt.Conc(r.get(2))
			}
		}
		return vhCanon(lens)
	}
	var ct, pt *vhHuf
	left := 0
	for len(out) < orig {
		if left == 0 {
			left = vrt.Conc(r.get(16))
			if left == 0 {
				return out, false, 0
			}
			tt := readPt(19, 5, 3)
			if tt == nil || !tt.ok {
				return out, false, 0
			}
			n := vrt.Conc(r.get(9))
			if n == 0 {
				c := r.get(9)
				if c >= 510 {
					return out, false, 0
				}
				ct = vhSingle(c)
			} else {
				if n > 510 {
					return out, false, 0
				}
				lens := make([]int, 510)
				for i := 0; i < n; {
					c := vrt.Conc(tt.get(r))
					switch c {
					case 0:
						i++
					case 1:
						i += vrt.Conc(r.get(4)) + 3
					case 2:
						i += vrt.Conc(r.get(9)) + 20
					default:
						lens[i] = c - 2
						i++
					}
					if i > n {
						return out, false, 0
					}
				}
				ct = vhCanon(lens)
			}
			if !ct.ok {
				return out, false, 0
			}
			pt = readPt(np, pbit, -1)
			if pt == nil || !pt.ok {
				return out, false, 0
			}
		}
		left--
		c := ct.get(r)
		if c < 256 {
			out = append(out, byte(c))
			continue
		}
		l := vrt.Conc(c) - 253
		p := vrt.Conc(pt.get(r))
		d := p
		if p > 0 {
			d = 1<<uint(p-1) + r.get(p-1)
		}
		d++
		if d > dic || len(out)+l > orig {
			return out, false, 0
		}
		out = vhCopy(out, vrt.Conc(d), l)
	}
	return out, true, (r.pos + 7) / 8
}

// vhCopy appends l bytes from distance d; the window starts as spaces.
func vhCopy(out []byte, d, l int) []byte {
	for ; l > 0; l-- {
		c := byte(' ')
		if d <= len(out) {
			c = out[len(out)-d]
		}
		out = append(out, c)
	}
	return out
}

// vhLzhufTree is the tree of LZHUF: 2n-1 nodes in rising order of frequency.
type vhLzhufTree struct {
	n    int // symbols
	freq []int
	prnt []int // also, from t on, the place of each leaf
	son  []int
}

func vhNewLzhuf(n int) *vhLzhufTree {
	t := 2*n - 1
	z := &vhLzhufTree{n: n, freq: make([]int, t+1), prnt: make([]int, t+n), son: make([]int, t)}
	for i := 0; i < n; i++ {
		z.freq[i] = 1
		z.son[i] = i + t
		z.prnt[i+t] = i
	}
	i := 0
	for j := n; j < t; j++ {
		z.freq[j] = z.freq[i] + z.freq[i+1]
		z.son[j] = i
		z.prnt[i] = j
		z.prnt[i+1] = j
		i += 2
	}
	z.freq[t] = 1 << 30
	z.prnt[t-1] = 0
	return z
}

func (z *vhLzhufTree) reconst() {
	t := 2*z.n - 1
	j := 0
	for i := 0; i < t; i++ {
		if z.son[i] >= t {
			z.freq[j] = (z.freq[i] + 1) / 2
			z.son[j] = z.son[i]
			j++
		}
	}
	i := 0
	for j = z.n; j < t; j++ {
		f := z.freq[i] + z.freq[i+1]
		k := j
		for k > 0 && f < z.freq[k-1] {
			k--
		}
		copy(z.freq[k+1:j+1], z.freq[k:j])
		copy(z.son[k+1:j+1], z.son[k:j])
		z.freq[k] = f
		z.son[k] = i
		i += 2
	}
	for i := 0; i < t; i++ {
		k := z.son[i]
		z.prnt[k] = i
		if k < t {
			z.prnt[k+1] = i
		}
	}
}

func (z *vhLzhufTree) update(c int) {
	t := 2*z.n - 1
	root := t - 1
	if z.freq[root] == 0x8000 {
		z.reconst()
	}
	c = z.prnt[c+t]
	for {
		z.freq[c]++
		k := z.freq[c]
		if k > z.freq[c+1] {
			l := c + 1
			for k > z.freq[l+1] {
				l++
			}
			z.freq[c] = z.freq[l]
			z.freq[l] = k
			i := z.son[c]
			z.prnt[i] = l
			if i < t {
				z.prnt[i+1] = l
			}
			j := z.son[l]
			z.son[l] = i
			z.prnt[j] = c
			if j < t {
				z.prnt[j+1] = c
			}
			z.son[c] = j
			c = l
		}
		if c == root {
			break
		}
		c = z.prnt[c]
	}
}

func (z *vhLzhufTree) get(r *vhBits) int {
	t := 2*z.n - 1
	c := z.son[t-1]
	for c < t {
		c = z.son[c+vrt.Conc(r.get(1))]
	}
	z.update(c - t)
	return c - t
}

// put writes the code of a symbol.
func (z *vhLzhufTree) put(w *vhPut, c int) {
	t := 2*z.n - 1
	code, n := 0, 0
	for i := z.prnt[c+t]; i != t-1; i = z.prnt[i] {
		code |= (i - z.son[z.prnt[i]]) << uint(n)
		n++
	}
	w.put(n, code)
	z.update(c)
}

// vhRefLh1: -lh1-, LZHUF with a fixed code for the upper 6 position bits.
func vhRefLh1(packed []byte, orig int) ([]byte, bool, int) {
	r := &vhBits{b: packed}
	z := vhNewLzhuf(314)
	var lens []int
	for i, n := range []int{1, 3, 8, 12, 24, 16} {
		for ; n > 0; n-- {
			lens = append(lens, i+3)
		}
	}
	pos := vhCanon(lens)
	var out []byte
	for len(out) < orig {
		c := z.get(r)
		if c < 256 {
			out = append(out, byte(c))
			continue
		}
		d := vrt.Conc(pos.get(r))<<6 + vrt.Conc(r.get(6)) + 1
		if len(out)+c-253 > orig {
			return out, false, 0
		}
		out = vhCopy(out, d, c-253)
	}
	return out, true, (r.pos + 7) / 8
}

// vhPosTree is the growing position tree of -lh2-: nodes in falling order of
// frequency, the two sons of a node next to each other.
type vhPosTree struct {
	leaf []int // symbol, -1: inner node
	son  []int // higher of the two sons
	par  []int
	freq []int

	total int // counted since the start, halved with the frequencies
}

// reconst halves the frequencies and builds the tree anew.
func (z *vhPosTree) reconst() {
	var leaf, freq []int // rising
	for i := len(z.leaf) - 1; i >= 0; i-- {
		if z.leaf[i] >= 0 {
			leaf = append(leaf, z.leaf[i])
			freq = append(freq, (z.freq[i]+1)/2)
		}
	}
	son := make([]int, len(leaf))
	for i := 0; i+1 < len(leaf); i += 2 {
		f := freq[i] + freq[i+1]
		k := len(leaf)
		for k > 0 && f < freq[k-1] {
			k--
		}
		leaf = append(leaf[:k], append([]int{-1}, leaf[k:]...)...)
		freq = append(freq[:k], append([]int{f}, freq[k:]...)...)
		son = append(son[:k], append([]int{i}, son[k:]...)...)
	}
	n := len(leaf) - 1
	for i := range leaf {
		z.leaf[n-i], z.freq[n-i], z.son[n-i] = leaf[i], freq[i], 0
		if leaf[i] < 0 {
			z.son[n-i] = n - son[i]
			z.par[n-son[i]] = n - i
			z.par[n-son[i]-1] = n - i
		}
	}
	z.total = z.freq[0]
}

// count prepares for one more symbol.
func (z *vhPosTree) count() {
	if z.total == 0x8000 {
		z.reconst()
	}
	z.total++
}

func vhNewPosTree() *vhPosTree {
	return &vhPosTree{leaf: []int{0}, son: []int{0}, par: []int{-1}, freq: []int{1}}
}

// bump adds one to the frequency of every node from i up to below the root.
func (z *vhPosTree) bump(i int) {
	for i != 0 {
		q := i
		for q > 1 && z.freq[q-1] == z.freq[i] {
			q--
		}
		if q != i {
			z.leaf[i], z.leaf[q] = z.leaf[q], z.leaf[i]
			z.son[i], z.son[q] = z.son[q], z.son[i]
			for _, n := range []int{i, q} {
				if z.leaf[n] < 0 {
					z.par[z.son[n]] = n
					z.par[z.son[n]-1] = n
				}
			}
			i = q
		}
		z.freq[i]++
		i = z.par[i]
	}
}

func (z *vhPosTree) add(sym int) {
	m := len(z.leaf) - 1
	z.leaf = append(z.leaf, z.leaf[m], sym)
	z.son = append(z.son, z.son[m], 0)
	z.par = append(z.par, m, m)
	z.freq = append(z.freq, z.freq[m], 0)
	z.leaf[m], z.son[m] = -1, m+2
	z.count()
	z.bump(z.find(sym))
}

func (z *vhPosTree) find(sym int) int {
	i := 0
	for z.leaf[i] != sym {
		i++
	}
	return i
}

// put writes the code of a symbol.
func (z *vhPosTree) put(w *vhPut, sym int) {
	i := z.find(sym)
	code, n := 0, 0
	for ; i != 0; i = z.par[i] {
		code |= (z.son[z.par[i]] - i) << uint(n)
		n++
	}
	w.put(n, code)
	z.count()
	z.bump(z.find(sym))
}

func (z *vhPosTree) get(r *vhBits) int {
	i := 0
	for z.leaf[i] < 0 {
		i = z.son[i] - vrt.Conc(r.get(1))
	}
	c := z.leaf[i]
	z.count()
	z.bump(z.find(c))
	return c
}

// vhRefLh2: -lh2-, adaptive trees for the letters and the upper position bits.
func vhRefLh2(packed []byte, orig int) ([]byte, bool, int) {
	r := &vhBits{b: packed}
	z := vhNewLzhuf(286)
	pt := vhNewPosTree()
	next := 64
	var out []byte
	for len(out) < orig {
		c := z.get(r)
		if c == 285 {
			c += vrt.Conc(r.get(8))
		}
		if c < 256 {
			out = append(out, byte(c))
			continue
		}
		for len(out) > next && next < 8192 {
			pt.add(next / 64)
			next += 64
		}
		d := pt.get(r)<<6 + vrt.Conc(r.get(6)) + 1
		if len(out)+c-253 > orig {
			return out, false, 0
		}
		out = vhCopy(out, d, c-253)
	}
	return out, r.pos <= 8*len(packed), (r.pos + 7) / 8
}

// vhRefLh3: -lh3-, blocks with static trees.
func vhRefLh3(packed []byte, orig int) ([]byte, bool, int) {
	r := &vhBits{b: packed}
	var out []byte
	var ct, pt *vhHuf
	left := 0
	for len(out) < orig {
		if left == 0 {
			left = vrt.Conc(r.get(16))
			if left == 0 {
				left = 65536
			}
			lens := make([]int, 286)
			ct = nil
			for i := 0; i < 286; i++ {
				if vrt.Conc(r.get(1)) == 1 {
					lens[i] = vrt.Conc(r.get(4)) + 1
				}
				if i == 2 && lens[0] == 1 && lens[1] == 1 && lens[2] == 1 {
					c := vrt.Conc(r.get(9))
					if c >= 286 {
						return out, false, 0
					}
					ct = vhSingle(c)
					break
				}
			}
			if ct == nil {
				ct = vhCanon(lens)
			}
			pt = nil
			pl := make([]int, 128)
			if vrt.Conc(r.get(1)) == 1 {
				for i := 0; i < 128; i++ {
					pl[i] = vrt.Conc(r.get(4))
					if i == 2 && pl[0] == 1 && pl[1] == 1 && pl[2] == 1 {
						pt = vhSingle(vrt.Conc(r.get(7)))
						break
					}
				}
			} else {
				i := 0
				// how many codes of 2, 3, ... 9 bits
				for k, n := range []int{1, 0, 2, 3, 7, 18, 47, 50} {
					for ; n > 0; n-- {
						pl[i] = k + 2
						i++
					}
				}
			}
			if pt == nil {
				pt = vhCanon(pl)
			}
			if ct == nil || pt == nil || !ct.ok || !pt.ok {
				return out, false, 0
			}
		}
		left--
		c := vrt.Conc(ct.get(r))
		if c < 0 {
			return out, false, 0
		}
		if c == 285 {
			c += vrt.Conc(r.get(8))
		}
		if c < 256 {
			out = append(out, byte(c))
			continue
		}
		d := vrt.Conc(pt.get(r))
		if d < 0 {
			return out, false, 0
		}
		d = d<<6 + vrt.Conc(r.get(6)) + 1
		if len(out)+c-253 > orig {
			return out, false, 0
		}
		out = vhCopy(out, d, c-253)
	}
	return out, r.pos <= 8*len(packed), (r.pos + 7) / 8
}

// vhRefLzs and vhRefLz5: LArc, ring buffers with absolute positions.
func vhRefLzs(packed []byte, orig int) ([]byte, bool, int) {
	r := &vhBits{b: packed}
	var ring [2048]byte
	for i := range ring {
		ring[i] = ' '
	}
	at := 2048 - 17
	var out []byte
	emit := func(c byte) {
		ring[at] = c
		at = (at + 1) & 2047
		out = append(out, c)
	}
	for len(out) < orig {
		if vrt.Conc(r.get(1)) == 1 {
			emit(byte(r.get(8)))
			continue
		}
		p := vrt.Conc(r.get(11))
		n := vrt.Conc(r.get(4)) + 2
		if len(out)+n > orig {
			return out, false, 0
		}
		for ; n > 0; n-- {
			emit(ring[p&2047])
			p++
		}
	}
	return out, true, (r.pos + 7) / 8
}

func vhRefLz5(packed []byte, orig int) ([]byte, bool, int) {
	var ring [4096]byte
	k := 0
	fill := func(c byte, n int) {
		for ; n > 0; n-- {
			ring[k] = c
			k++
		}
	}
	for i := 0; i < 256; i++ {
		fill(byte(i), 13)
	}
	for i := 0; i < 256; i++ {
		fill(byte(i), 1)
	}
	for i := 0; i < 256; i++ {
		fill(byte(255-i), 1)
	}
	fill(0, 128)
	fill(' ', 128)
	at := 4096 - 18
	var out []byte
	i := 0
	next := func() int {
		c := 0
		if i < len(packed) {
			c = int(packed[i])
		}
		i++
		return c
	}
	emit := func(c byte) {
		ring[at] = c
		at = (at + 1) & 4095
		out = append(out, c)
	}
	flags, bits := 0, 0
	for len(out) < orig {
		if bits == 0 {
			flags, bits = next(), 8
		}
		lit := vrt.Conc(flags & 1)
		flags >>= 1
		bits--
		a := next()
		if lit == 1 {
			emit(byte(a))
			continue
		}
		b := next()
		p := vrt.Conc(a + b>>4<<8)
		n := vrt.Conc(b&15) + 3
		if len(out)+n > orig {
			return out, false, 0
		}
		for ; n > 0; n-- {
			emit(ring[p&4095])
			p++
		}
	}
	return out, i <= len(packed), i
}

// vhRefPm2: -pm2-, history list kept as an array, codes by their lengths.
func vhRefPm2(packed []byte, orig int) ([]byte, bool, int) {
	r := &vhBits{b: packed}
	var hist []byte // most recent first
	for _, g := range [][2]int{{0x20, 0x7f}, {0, 0x1f}, {0xa0, 0xdf}, {0x80, 0x9f}, {0xe0, 0xff}} {
		for c := g[0]; c <= g[1]; c++ {
			hist = append(hist, byte(c))
		}
	}
	var out []byte
	emit := func(c byte) {
		i := 0
		for hist[i] != c {
			i++
		}
		copy(hist[1:i+1], hist[:i])
		hist[0] = c
		out = append(out, c)
	}
	var codes, offs *vhHuf
	ncodes, min := 0, 0
	bad := false
	readCodes := func() {
		ncodes = vrt.Conc(r.get(5))
		min = vrt.Conc(r.get(3))
		if min == 0 {
			codes = vhSingle(ncodes - 1)
			bad = bad || ncodes == 0 || ncodes > 29
			return
		}
		bits := vrt.Conc(r.get(3))
		lens := make([]int, 32)
		for i := 0; i < ncodes; i++ {
			x := vrt.Conc(r.get(bits))
			if x > 0 {
				lens[i] = min + x - 1
				if lens[i] > 16 || i >= 29 {
					bad = true
					return
				}
			}
		}
		codes = vhCanon(lens)
		bad = bad || !codes.ok
	}
	readOffs := func(n int) {
		if ncodes < 10 || ncodes == 29 && min == 0 {
			return
		}
		lens := make([]int, 8)
		used, last := 0, 0
		for i := 0; i < n; i++ {
			lens[i] = vrt.Conc(r.get(3))
			if lens[i] > 0 {
				used++
				last = i
			}
		}
		if used == 1 {
			offs = vhSingle(last)
		} else if used > 1 {
			offs = vhCanon(lens)
			bad = bad || !offs.ok
		}
	}
	r.get(1)
	next := 0
	for len(out) < orig && !bad {
		if len(out) >= next {
			switch {
			case next == 0:
				readCodes()
				readOffs(5)
				next = 1024
			case next == 1024:
				readOffs(6)
				next = 2048
			case next == 2048:
				readOffs(7)
				next = 4096
			case next == 4096:
				if vrt.Conc(r.get(1)) == 1 {
					readCodes()
				}
				readOffs(8)
				next = 8192
			default:
				if vrt.Conc(r.get(1)) == 1 {
					readCodes()
					readOffs(8)
				}
				next += 4096
			}
			if bad {
				break
			}
		}
		c := vrt.Conc(codes.get(r))
		if c < 8 {
			hb := []int{3, 3, 4, 5, 5, 5, 6, 6}
			base := []int{0, 8, 16, 32, 64, 96, 128, 192}
			emit(hist[base[c]+vrt.Conc(r.get(hb[c]))])
			continue
		}
		n := c - 6
		if c >= 23 {
			rb := []int{3, 3, 5, 6, 7, 0}
			base := []int{17, 25, 33, 65, 129, 256}
			n = base[c-23] + vrt.Conc(r.get(rb[c-23]))
		}
		d := 0
		if c == 8 {
			d = vrt.Conc(r.get(6))
		} else if c < 28 {
			if offs == nil {
				return out, false, 0
			}
			o := vrt.Conc(offs.get(r))
			if o == 0 {
				d = vrt.Conc(r.get(6))
			} else {
				d = 1<<uint(o+5) + vrt.Conc(r.get(o+5))
			}
		}
		d++
		if len(out)+n > orig {
			return out, false, 0
		}
		for ; n > 0; n-- {
			c := byte(' ')
			if d <= len(out) {
				c = out[len(out)-d]
			}
			emit(c)
		}
	}
	return out, !bad, (r.pos + 7) / 8
}

// vhRef decodes by the reference decoder of a method number of the library.
func vhRef(method int, packed []byte, orig int) ([]byte, bool, int) {
	switch method {
	case 0:
		if len(packed) < orig {
			return nil, false, 0
		}
		return packed[:orig], true, orig
	case 1:
		return vhRefLh1(packed, orig)
	case 2:
		return vhRefLh2(packed, orig)
	case 3:
		return vhRefLh3(packed, orig)
	case 4, 5, 6, 7:
		return vhRefSt1(packed, orig, method)
	case LarcMethodNum:
		return vhRefLzs(packed, orig)
	case Larc5MethodNum:
		return vhRefLz5(packed, orig)
	case Pmarc2MethodNum:
		return vhRefPm2(packed, orig)
	}
	panic("method")
}

// vhRefCheck: the packed stream is one of the format.
func vhRefCheck(method int, packed, data []byte) {
	out, ok, used := vhRef(method, packed, len(data))
	vrt.Assert(ok, "the packed stream follows the format")
	vrt.Assert(vrt.EqBytes(out, data), "other decoders of the format return the original bytes")
	vrt.Assert(used <= len(packed) && len(packed) <= used+1, "the packed stream ends where its last code ends")
	vrt.Reach("reference")
}
