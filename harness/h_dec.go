package lha

import "MODULE/zzverif/vrt"

// vhCodes assigns canonical codes to the lengths.
func vhCodes(lens []int) []int {
	codes := make([]int, len(lens))
	code := 0
	for l := 1; l <= 16; l++ {
		code <<= 1
		for s, x := range lens {
			if x == l {
				codes[s] = code
				code++
			}
		}
	}
	return codes
}

// vhPutPt writes a table of the three bit kind; n is the number of entries.
func vhPutPt(w *vhPut, lens []int, nbit, special int) {
	n := len(lens)
	for n > 0 && lens[n-1] == 0 {
		n--
	}
	w.put(nbit, n)
	for i := 0; i < n; {
		l := lens[i]
		i++
		if l < 7 {
			w.put(3, l)
		} else {
			w.put(3, 7)
			for k := 7; k < l; k++ {
				w.put(1, 1)
			}
			w.put(1, 0)
		}
		if i == special {
			k := 0
			for k < 3 && i < n && lens[i] == 0 {
				k++
				i++
			}
			w.put(2, k)
		}
	}
}

// vhDeep: lengths 1, 2, ... n-1, n-1 at symbols from, from+step, ...
func vhDeep(size, from, step, n int, down bool) []int {
	lens := make([]int, size)
	for i := 0; i < n; i++ {
		l := i + 1
		if down {
			l = n - i
		}
		if l == n {
			l = n - 1
		}
		lens[from+i*step] = l
	}
	return lens
}

// vhFlat: the first symbols have b-1 bits, the others b, so that all count
// symbols make a complete code.
func vhFlat(size, count int) []int {
	b := 0
	for 1<<uint(b) < count {
		b++
	}
	short := 1<<uint(b) - count
	lens := make([]int, size)
	for i := 0; i < count; i++ {
		lens[i] = b
		if i < short {
			lens[i] = b - 1
		}
	}
	return lens
}

// vhPair: two of the first three symbols, with codes of one bit.
func vhPair(size, k int) []int {
	l := make([]int, size)
	l[0], l[1], l[2] = 1, 1, 1
	l[2-k] = 0
	return l
}

// vhLens: the letter code (which = 0) or position code (1) of a table shape.
func vhLens(which, shape, size int) []int {
	if which == 0 {
		switch shape {
		case 0: // long codes, letters and matches
			return vhDeep(size, 250, 1, 17, false)
		case 1: // every symbol
			return vhFlat(size, size)
		case 2: // short codes far apart, short zero runs between them
			return vhDeep(size, 5, 19, 14, true)
		case 3: // 8 bit letters and no match but one
			l := vhFlat(size, 256)
			l[255], l[256] = 9, 9
			return l
		case 4: // long codes, matches of all lengths
			return vhDeep(size, size-17, 1, 17, true)
		case 5: // two letters, zero runs of 19 and 20
			l := make([]int, size)
			l[20], l[40], l[61], l[256], l[257] = 2, 2, 3, 3, 2
			return l
		case 6: // long codes at small distances
			return vhDeep(size, 3, 16, 17, false)
		case 7, 8, 9: // two of the first three symbols
			return vhPair(size, shape-7)
		}
	}
	switch shape {
	case 0:
		return vhDeep(size, 0, 1, size, false)
	case 1:
		return vhFlat(size, size)
	case 2: // long codes, the large positions are short
		return vhDeep(size, 0, 1, size, true)
	case 3:
		l := make([]int, size)
		l[0], l[3], l[5] = 1, 2, 2
		return l
	case 7, 8, 9:
		return vhPair(size, shape-7)
	}
	l := vhDeep(size, 2, 1, 12, false)
	return l
}

// vhStreamSt1 writes the head of a block of -lh4- to -lh7-: size symbols; the
// tables are of the given shapes, -1-c is the single symbol c.
func vhStreamSt1(w *vhPut, method, size, cs, ps int) {
	pbit, np := 4, 14
	if method == 6 {
		pbit, np = 5, 16
	} else if method == 7 {
		pbit, np = 5, 17
	}
	w.put(16, size)
	if cs < 0 {
		w.put(5, 0)
		w.put(5, 0)
		w.put(9, 0)
		w.put(9, -1-cs)
	} else {
		cl := vhLens(0, cs, 510)
		t := make([]int, 19)
		for i := range t {
			t[i] = 4
			if i >= 13 {
				t[i] = 5
			}
		}
		if vrt.Param("tdeep", 0) == 1 { // codes of up to 16 bits
			t = vhDeep(19, 0, 1, 17, true)
			t[17], t[18] = 0, 0
			if cs == 0 || cs == 4 || cs == 6 {
				// 16 bit lengths need symbol 18
				t = vhDeep(19, 2, 1, 17, false)
			}
		}
		tc := vhCodes(t)
		vhPutPt(w, t, 5, 3)
		n := 510
		for n > 0 && cl[n-1] == 0 {
			n--
		}
		w.put(9, n)
		for i := 0; i < n; {
			l := cl[i]
			i++
			if l > 0 {
				w.put(t[l+2], tc[l+2])
				continue
			}
			z := 1
			for i < n && cl[i] == 0 {
				z++
				i++
			}
			for z > 0 {
				switch {
				case z >= 20 && t[2] > 0:
					w.put(t[2], tc[2])
					w.put(9, z-20)
					z = 0
				case z >= 3 && t[1] > 0:
					k := z
					if k > 18 {
						k = 18
					}
					w.put(t[1], tc[1])
					w.put(4, k-3)
					z -= k
				default:
					w.put(t[0], tc[0])
					z--
				}
			}
		}
	}
	if ps < 0 {
		w.put(pbit, 0)
		w.put(pbit, -1-ps)
	} else {
		vhPutPt(w, vhLens(1, ps, np), pbit, -1)
	}
}

// vhStreamSt0 writes the head of a block of -lh3-.
func vhStreamSt0(w *vhPut, size, cs, ps int) {
	w.put(16, size)
	if cs < 0 {
		for i := 0; i < 3; i++ {
			w.put(5, 16)
		}
		w.put(9, -1-cs)
	} else {
		for _, l := range vhLens(0, cs, 286) {
			if l == 0 {
				w.put(1, 0)
			} else {
				w.put(5, 16+l-1)
			}
		}
	}
	switch {
	case ps < 0:
		w.put(1, 1)
		for i := 0; i < 3; i++ {
			w.put(4, 1)
		}
		w.put(7, -1-ps)
	case ps == 9: // the built-in table
		w.put(1, 0)
	default:
		w.put(1, 1)
		lens := vhFlat(128, 128)
		if ps == 0 {
			lens = vhDeep(128, 0, 1, 16, false)
		} else if ps == 2 {
			lens = vhDeep(128, 20, 5, 16, true)
		} else if ps >= 10 {
			lens = vhPair(128, ps-10)
		}
		for _, l := range lens {
			w.put(4, l)
		}
	}
}

// vhStream builds the concrete part of a packed stream; body is the place of
// the first bit after the tables.
func vhStream(method, n int) (b []byte, body int) {
	w := &vhPut{}
	seed := uint32(vrt.Param("seed", 1))
	cs, ps := vrt.Param("c", 0), vrt.Param("p", 0)
	size := vrt.Param("size", 1000)
	switch method {
	case 3:
		vhStreamSt0(w, size, cs, ps)
	case 4, 5, 6, 7:
		vhStreamSt1(w, method, size, cs, ps)
	}
	body = w.n
	for _, x := range vhNoise(nil, seed, n, 0, 256) {
		w.put(8, int(x))
	}
	if vrt.Param("second", 0) == 1 { // room for a second block
		w.put(16, size)
	}
	return w.b, body
}

// vhStreamPm2 writes a stream of -pm2- of about orig bytes; the symbol after
// out bytes and its extra bits are the given ones.
func vhStreamPm2(orig, out, sym, extra int) []byte {
	w := &vhPut{}
	cs, ps := vrt.Param("c", 0), vrt.Param("p", 0)
	var lens, codes, olens, ocodes []int
	r := uint32(vrt.Param("seed", 1))
	rnd := func(n int) int {
		r = r*1664525 + 1013904223
		return int(r>>12) % n
	}
	again := 0
	putCodes := func() {
		shape := cs
		if again > 0 {
			shape = vrt.Param("c2", cs)
		}
		again++
		n, min, bits := 29, 4, 2
		lens = vhFlat(29, 29)
		switch shape {
		case 1: // long codes
			lens = vhDeep(29, 0, 1, 16, false)
			n, min, bits = 16, 1, 4
		case 2: // long codes for the letters, all lengths
			lens = vhDeep(29, 0, 2, 14, true)
			n, min, bits = 27, 1, 4
		case 3: // letters only
			lens = vhFlat(29, 8)
			n, min, bits = 8, 3, 1
		case 4: // letters and matches of length 2
			lens = vhFlat(29, 9)
			n, min, bits = 9, 3, 2
		case 5: // a single symbol
			lens = make([]int, 29)
			n, min = vrt.Param("single", 1)+1, 0
		}
		w.put(5, n)
		w.put(3, min)
		if min > 0 {
			w.put(3, bits)
			for i := 0; i < n; i++ {
				x := 0
				if lens[i] > 0 {
					x = lens[i] - min + 1
				}
				w.put(bits, x)
			}
		}
		codes = vhCodes(lens)
	}
	putOffs := func(n int) {
		if cs == 3 || cs == 4 || cs == 5 && (vrt.Param("single", 1) < 9 || vrt.Param("single", 1) == 28) {
			return
		}
		olens = vhFlat(8, n)
		if ps == 1 {
			olens = vhDeep(8, 0, 1, n, true)
		} else if ps == 2 { // a single one
			olens = make([]int, 8)
			olens[3] = 1
		}
		for i := 0; i < n; i++ {
			w.put(3, olens[i])
		}
		if ps == 2 {
			olens[3] = 0
		}
		ocodes = vhCodes(olens)
	}
	w.put(1, 0)
	cnt, next := 0, 0
	used := false
	for cnt < orig {
		if cnt >= next {
			switch next {
			case 0:
				putCodes()
				putOffs(5)
				next = 1024
			case 1024:
				putOffs(6)
				next = 2048
			case 2048:
				putOffs(7)
				next = 4096
			case 4096:
				w.put(1, vrt.Param("renew", 1))
				if vrt.Param("renew", 1) == 1 {
					putCodes()
				}
				putOffs(8)
				next = 8192
			default:
				w.put(1, vrt.Param("renew", 1))
				if vrt.Param("renew", 1) == 1 {
					putCodes()
					putOffs(8)
				}
				next += 4096
			}
		}
		c := rnd(29)
		for cs != 5 && lens[c] == 0 {
			c = rnd(29)
		}
		if cs == 5 {
			c = vrt.Param("single", 1)
		}
		e := rnd(1 << 13)
		if !used && cnt >= out {
			used = true
			e = extra
			if cs != 5 && lens[sym] > 0 {
				c = sym
			}
		}
		w.put(lens[c], codes[c])
		if c < 8 {
			hb := []int{3, 3, 4, 5, 5, 5, 6, 6}
			w.put(hb[c], e&(1<<uint(hb[c])-1))
			cnt++
			continue
		}
		n := c - 6
		if c >= 23 {
			rb := []int{3, 3, 5, 6, 7, 0}[c-23]
			w.put(rb, e&(1<<uint(rb)-1))
			n = []int{17, 25, 33, 65, 129, 256}[c-23] + e&(1<<uint(rb)-1)
		}
		if c == 8 {
			w.put(6, e>>2&63)
		} else if c < 28 {
			o := e % 8
			for ps != 2 && olens[o] == 0 {
				o = (o + 1) % 8
			}
			if ps == 2 {
				o = 3
			} else {
				w.put(olens[o], ocodes[o])
			}
			if o == 0 {
				w.put(6, e>>3&63)
			} else {
				w.put(o+5, e&(1<<uint(o+5)-1))
			}
		}
		cnt += n
	}
	w.put(16, 0)
	w.put(16, 0)
	return w.b
}

// VH_pm2: streams of -pm2- with any symbol at some place.
func VH_pm2() {
	MakeCrcTable()
	Quiet = true
	orig := vrt.Param("orig", 300)
	sym := vrt.Conc(vrt.Int("sym", 0, 28))
	extra := vrt.Conc(vrt.Int("extra", 0, vrt.Param("extra", 7))) * vrt.Param("step", 37)
	at := vrt.Conc(vrt.Int("at", vrt.Param("lo", 0), vrt.Param("hi", 0)))
	vhAgree(Pmarc2MethodNum, vhStreamPm2(orig, at, sym, extra), orig, false)
}

// VH_decRef: streams of the format are decoded as the format defines.
func VH_decRef() {
	MakeCrcTable()
	Quiet = true
	method := vrt.Param("method", 5)
	b, body := vhStream(method, vrt.Param("n", 30))
	at := vrt.Conc(vrt.Int("at", vrt.Param("lo", 0), vrt.Param("hi", 0)))
	at += (body + 7) / 8
	for i := 0; i < vrt.Param("w", 1); i++ {
		v := vrt.Byte("value")
		if vrt.Param("few", 0) == 1 { // the values that flip few bits
			vrt.Assume(vrt.Or(v < 4, vrt.Or(v > 251, vrt.Or(v == 0x55, v == 0x80))))
		}
		b[at+i] = vhSplit(v)
	}
	vhAgree(method, b, vrt.Param("orig", 100), false)
}

// vhAgree decodes b with the library and the reference decoder.
func vhAgree(method int, b []byte, orig int, damaged bool) {
	want, ok, _ := vhRef(method, b, orig)
	if !ok && !damaged {
		orig = len(want) // up to the match that runs past the end
	}
	l := NewLha("a")
	got, crc, read := vhDecode(l, method, b, orig)
	vrt.Assert(read >= 0 && read <= len(b), "no more than the packed data is read")
	if damaged && !ok {
		if l.codeErr == nil {
			vrt.Assert(len(got) == orig, "success means that all data is there")
		} else {
			vrt.Assert(len(got) <= orig+256, "not much more than the stated size is written")
		}
		vrt.Reach("damaged")
		return
	}
	if m := vrt.Param("least", 0); m > 0 {
		vrt.Assert(len(got) >= m, "the stream is a long one")
	}
	vrt.Assert(l.codeErr == nil, "a stream of the format is decoded without an error")
	vrt.Assert(vrt.EqBytes(got, want), "a stream is decoded as the format defines")
	vrt.Assert(uint(crc) == vhCrc(want), "the CRC is that of the data")
	vrt.Reach("agree")
}

// VH_pm2Any: the same for streams of -pm2-.
func VH_pm2Any() {
	MakeCrcTable()
	Quiet = true
	orig := vrt.Param("orig", 60)
	step := vrt.Param("every", 1)
	b := vhStreamPm2(orig, 5, vrt.Conc(vrt.Int("sym", 0, 28/step))*step, 3)
	hi := vrt.Param("hi", 1000)
	if hi > len(b)-1 {
		hi = len(b) - 1
	}
	at := vrt.Conc(vrt.Int("at", 0, hi))
	if vrt.Param("cut", 0) == 1 {
		b = b[:at]
	} else if vrt.Param("few", 0) == 1 {
		b[at] ^= []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x0f, 0xf0, 0x55}[vrt.Conc(vrt.Int("pat", 0, 11))]
	} else {
		b[at] = byte(vrt.Conc(int(vrt.Byte("value"))))
	}
	vhRobust(Pmarc2MethodNum, b, orig)
}

// VH_decAny: whatever byte of a stream is replaced by whatever value, and
// wherever it is cut, the decoder ends without a crash and writes no more than
// asked for.
func VH_decAny() {
	MakeCrcTable()
	Quiet = true
	method := vrt.Param("method", 5)
	b, _ := vhStream(method, vrt.Param("n", 30))
	lo, hi := vrt.Param("lo", 0), vrt.Param("hi", 1000)
	if hi > len(b)-1 {
		hi = len(b) - 1
	}
	at := vrt.Conc(vrt.Int("at", lo, hi))
	if vrt.Param("cut", 0) == 1 {
		b = b[:at]
	} else {
		for i := 0; i < vrt.Param("w", 1) && at+i < len(b); i++ {
			v := vrt.Byte("value")
			if vrt.Param("few", 0) == 1 {
				v = b[at+i] ^ []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x0f, 0xf0, 0x55}[vrt.Conc(int(v)%12)]
			}
			b[at+i] = vhSplit(v)
		}
	}
	vhRobust(method, b, vrt.Param("orig", 60))
}

func vhRobust(method int, b []byte, orig int) {
	l := NewLha("a")
	got, _, read := vhDecode(l, method, b, orig)
	vrt.Assert(read >= 0 && read <= len(b), "no more than the packed data is read")
	if l.codeErr == nil {
		vrt.Reach("decoded")
		vrt.Assert(len(got) == orig, "success means that all data is there")
	} else {
		vrt.Reach("refused")
		vrt.Assert(len(got) <= orig, "no more than the stated size is written")
	}
}

// vhLh2 encodes letters and matches for -lh2-.
type vhLh2 struct {
	w    vhPut
	z    *vhLzhufTree
	pt   *vhPosTree
	next int
	out  []byte

	matches int
}

func (e *vhLh2) letter(c byte) {
	e.z.put(&e.w, int(c))
	e.out = append(e.out, c)
}

func (e *vhLh2) match(length, dist int) {
	e.matches++
	c := length + 253
	if c >= 285 {
		e.z.put(&e.w, 285)
		e.w.put(8, c-285)
	} else {
		e.z.put(&e.w, c)
	}
	for len(e.out) > e.next && e.next < 8192 {
		e.pt.add(e.next / 64)
		e.next += 64
	}
	e.pt.put(&e.w, (dist-1)>>6)
	e.w.put(6, (dist-1)&63)
	e.out = vhCopy(e.out, dist, length)
}

// VH_lh2: long streams of -lh2-, with the longest codes and past the points at
// which the trees are built anew.
func VH_lh2() {
	MakeCrcTable()
	Quiet = true
	lo, hi := vrt.Param("lo", 0), vrt.Param("hi", 0)
	k := vrt.Conc(vrt.Int("k", lo, hi))
	e := &vhLh2{z: vhNewLzhuf(286), pt: vhNewPosTree(), next: 64}
	for i := 0; i < 70; i++ {
		e.letter(byte(i * 51))
	}
	for len(e.out) < vrt.Param("grow", 1300) {
		e.match(3+len(e.out)%290%254, 1+len(e.out)*7%64)
	}
	// position codes of which each is as frequent as all the rarer ones but
	// one together
	rest := e.matches + e.next>>6
	a, b := rest+1, rest+2
	for i := 0; i < k; i++ {
		for j := 0; j < a; j++ {
			e.match(3+(i+j)%3, 65+i*64+(i*j)&63)
		}
		a, b = b, a+b+2
	}
	r := uint32(5)
	for i := 0; i < vrt.Param("more", 0); i++ {
		r = r*1664525 + 1013904223
		max := len(e.out) >> 6 << 6
		if max > 8192 {
			max = 8192
		}
		if next := e.next >> 6 << 6; max > next {
			max = next
		}
		e.match(3+int(r>>12)&1, 1+int(r>>14)%max)
	}
	for i := 0; i < 40; i++ {
		e.letter(byte(i))
		e.match(3+i*6, 1+i*30)
	}
	m := NewLha("a")
	plain, crc, read := vhDecode(m, 2, e.w.b, len(e.out))
	vrt.Assert(vrt.EqBytes(plain, e.out), "the stream is decoded as the format defines")
	vrt.Assert(uint(crc) == vhCrc(e.out), "the CRC is that of the data")
	vrt.Assert(m.codeErr == nil && read == len(e.w.b), "no error is reported and the packed data is consumed")
	vrt.Reach("done")
}

// VH_larcDict: matches that lie anywhere in the initial dictionary, which the
// format defines, before and after the ring wraps around.
func VH_larcDict() {
	MakeCrcTable()
	Quiet = true
	method := vrt.Param("method", Larc5MethodNum)
	ring, shortest := 4096, 3
	if method == LarcMethodNum {
		ring, shortest = 2048, 2
	}
	p := vrt.Conc(vrt.Int("pos", 0, (ring-1)/vrt.Param("step", 16))) * vrt.Param("step", 16)
	n := vrt.Conc(vrt.Int("len", shortest+vrt.Param("shorter", 15), shortest+15))
	pre := vrt.Conc(vrt.Int("pre", 0, 1)) * vrt.Param("pre", 20)
	var b []byte
	w := &vhPut{}
	orig := 0
	flags, count := 0, 0
	var group []byte
	flush := func() {
		b = append(append(b, byte(flags)), group...)
		flags, count, group = 0, 0, nil
	}
	letter := func(c byte) {
		orig++
		if method == LarcMethodNum {
			w.put(1, 1)
			w.put(8, int(c))
			return
		}
		flags |= 1 << count
		group = append(group, c)
		if count++; count == 8 {
			flush()
		}
	}
	match := func(p, n int) {
		orig += n
		if method == LarcMethodNum {
			w.put(1, 0)
			w.put(11, p)
			w.put(4, n-2)
			return
		}
		group = append(group, byte(p), byte(p>>8<<4|n-3))
		if count++; count == 8 {
			flush()
		}
	}
	for i := 0; i < pre; i++ {
		letter(byte('A' + i))
	}
	match(p, n)
	letter('z')
	match(p, n)
	if method == LarcMethodNum {
		b = w.b
	} else if count > 0 {
		flush()
	}
	vhAgree(method, b, orig, false)
}
