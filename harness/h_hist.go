package lha

import (
	"errors"
	"io"

	"MODULE/zzverif/vrt"
)

// vhFlaky delivers its data in pieces and may fail after some of it.
type vhFlaky struct {
	b     []byte
	r     int
	sizes []int // sizes of the pieces, the last one repeats
	k     int
	fail  int // byte at which reading fails, -1: never
	eof   bool
}

func (v *vhFlaky) Read(p []byte) (int, error) {
	if v.fail >= 0 && v.r >= v.fail {
		return 0, vhErrIO
	}
	if v.r >= len(v.b) {
		return 0, io.EOF
	}
	n := v.sizes[v.k]
	if v.k+1 < len(v.sizes) {
		v.k++
	}
	if n > len(p) {
		n = len(p)
	}
	if v.fail > v.r && n > v.fail-v.r {
		n = v.fail - v.r
	}
	n = copy(p[:n], v.b[v.r:])
	v.r += n
	if v.eof && v.r == len(v.b) {
		return n, io.EOF // as a reader may
	}
	return n, nil
}

// vhLimited fails once it has got so many bytes.
type vhLimited struct {
	b   []byte
	cap int
}

func (v *vhLimited) Write(p []byte) (int, error) {
	if len(v.b)+len(p) > v.cap {
		n := v.cap - len(v.b)
		v.b = append(v.b, p[:n]...)
		return n, errors.New("no space left")
	}
	v.b = append(v.b, p...)
	return len(p), nil
}

var vhEncs = []int{1, 5, 6, 7, 0}
var vhDecs = []int{1, 2, 3, 4, 5, 6, 7, LarcMethodNum, Larc5MethodNum, Pmarc2MethodNum}

func vhHistText(v int) []byte {
	var b []byte
	switch v {
	case 0:
		b = vhNoise(b, 5, 70, 'a', 3)
	case 1:
		b = vhNoise(b, 6, 200, 0, 256)
	case 2:
		for i := 0; i < 40; i++ {
			b = append(b, "xyzzy"...)
		}
		b = vhNoise(b, 9, 30, 0, 256)
	}
	return b
}

// vhHistEnc: one encoding; how: 0 a good one, 1 not packable, 2 the reader
// fails, 3 the writer fails.
func vhHistEnc(l *Lha, method, text, how int) ([]byte, uint) {
	data := vhHistText(text)
	size := 4*len(data) + 1000
	src := &vhFlaky{b: data, sizes: []int{1 << 20}, fail: -1}
	out := &vhLimited{cap: 1 << 30}
	switch how {
	case 1:
		size = len(data) / 2
	case 2:
		src.fail = len(data) / 2
	case 3:
		out.cap = 10
	}
	var r io.Reader = src
	var w io.Writer = out
	l.CompressMethod = method
	var osz, psz int
	crc, _ := l.EncodeLzhuf(&r, &w, size, &osz, &psz, []byte("n"), make([]byte, 5))
	return out.b, crc
}

// vhHistDec: one decoding; how: 0 a good stream, 1 a stream that is cut, 2 one
// of other data, 3 the writer fails, 4 a longer one.
func vhHistDec(l *Lha, method, how int) ([]byte, uint) {
	n, orig := 60, 90
	if how == 4 {
		n, orig = 400, 500
	}
	var b []byte
	if method == Pmarc2MethodNum {
		b = vhStreamPm2(orig, 5, 9+how, 3)
	} else {
		b, _ = vhStream(method, n)
	}
	out := &vhLimited{cap: 1 << 30}
	switch how {
	case 1:
		b = b[:len(b)/2]
		orig = 3000
	case 2:
		for i := range b {
			b[i] ^= byte(i*37 + 11)
		}
	case 3:
		out.cap = 3
	}
	var read int
	crc := l.DecodeLzhuf(&vhSrc{b: b}, out, orig, len(b), "n", method, &read)
	return out.b, uint(crc)
}

func vhHistOp(l *Lha, name string, good bool) ([]byte, uint) {
	how := 0
	if vrt.Choice(name+"enc", 2) == 1 {
		m := vhEncs[vrt.Choice(name+"method", len(vhEncs))]
		t := vrt.Choice(name+"text", vrt.Param("texts", 3))
		if !good {
			how = vrt.Choice(name+"how", 4)
		}
		return vhHistEnc(l, m, t, how)
	}
	m := vhDecs[vrt.Choice(name+"method", len(vhDecs))]
	if !good {
		how = vrt.Choice(name+"how", 5)
	}
	return vhHistDec(l, m, how)
}

// VH_history: what an operation yields does not depend on what was done
// before, be it finished, failed or given up.
func VH_history() {
	MakeCrcTable()
	Quiet = true
	seed := [2]int{}
	_ = seed
	l := NewLha("a")
	// the same operation twice, with another one in between
	enc := vrt.Choice("benc", 2) == 1
	var m, t int
	if enc {
		m = vhEncs[vrt.Choice("bmethod", len(vhEncs))]
		t = vrt.Choice("btext", vrt.Param("texts", 3))
	} else {
		m = vhDecs[vrt.Choice("bmethod", len(vhDecs))]
	}
	run := func(l *Lha) ([]byte, uint) {
		if enc {
			return vhHistEnc(l, m, t, 0)
		}
		return vhHistDec(l, m, 0)
	}
	want, crc := run(NewLha("a"))
	for i := 0; i < vrt.Param("steps", 1); i++ {
		vhHistOp(l, "a", false)
	}
	if vrt.Choice("same", 2) == 0 {
		l = NewLha("a")
	}
	got, crc2 := run(l)
	vrt.Assert(vrt.EqBytes(got, want), "an earlier operation does not change the result of a later one")
	vrt.Assert(crc == crc2, "an earlier operation does not change the CRC of a later one")
	vrt.Reach("done")
}

// VH_crowd: nor does it depend on how crowded the dictionary of an earlier
// encoding was.
func VH_crowd() {
	MakeCrcTable()
	Quiet = true
	m1 := vhEncs[vrt.Choice("amethod", 2)]
	m2 := vhEncs[vrt.Choice("bmethod", 4)]
	data := []byte("abc1abc2 abc3abcde abcd")
	data = append(data, "e1z"[vrt.Choice("x", 3)])
	data = append(data, "abc4"...)
	l := NewLha("a")
	want, _, crc, _, err := vhEncode(l, m2, data, 1000)
	vrt.Assert(err == nil, "encoding reports no error")
	var crowd []byte
	for i := 0; i < 300; i++ {
		crowd = append(crowd, 'a', 'b', 'c', byte(i), byte(i>>8)+'0')
	}
	_, _, _, _, err = vhEncode(l, m1, crowd, 10000)
	vrt.Assert(err == nil, "encoding reports no error")
	got, _, crc2, _, err := vhEncode(l, m2, data, 1000)
	vrt.Assert(err == nil, "encoding reports no error")
	vrt.Assert(vrt.EqBytes(got, want), "a crowded dictionary does not change a later result")
	vrt.Assert(crc == crc2, "a crowded dictionary does not change the CRC of a later one")
	vrt.Reach("done")
}

// VH_chunks: the result does not depend on the pieces in which a reader hands
// out the data, and an error of a reader or writer is reported.
func VH_chunks() {
	MakeCrcTable()
	Quiet = true
	method := vrt.Param("method", 5)
	data := vhNoise(nil, 5, vrt.Param("len", 60), 'a', 3)
	l := NewLha("a")
	want, _, crc, _, err := vhEncode(l, method, data, 4*len(data)+1000)
	vrt.Assert(err == nil, "encoding reports no error")
	max := vrt.Param("max", 3)
	k := vrt.Param("pieces", 3)
	src := &vhFlaky{b: data, fail: -1, eof: vrt.Choice("eof", 2) == 1}
	for i := 0; i < k; i++ {
		src.sizes = append(src.sizes, vrt.Conc(vrt.Int("size", 1, max)))
	}
	var r io.Reader = src
	out := &vhSink{}
	var w io.Writer = out
	var osz, psz int
	if vrt.Param("dec", 0) == 1 {
		src.b = want
		d := NewLha("a")
		var read int
		c2 := d.DecodeLzhuf(r, w, len(data), len(want), "n", method, &read)
		vrt.Assert(vrt.EqBytes(out.b, data), "decoding does not depend on the pieces")
		vrt.Assert(uint(c2) == crc, "the CRC does not depend on the pieces")
		vrt.Reach("done")
		return
	}
	e := NewLha("a")
	e.CompressMethod = method
	c2, err := e.EncodeLzhuf(&r, &w, 4*len(data)+1000, &osz, &psz, []byte("n"), make([]byte, 5))
	vrt.Assert(err == nil, "encoding in pieces reports no error")
	vrt.Assert(osz == len(data), "encoding in pieces reads everything")
	vrt.Assert(vrt.EqBytes(out.b, want), "encoding does not depend on the pieces")
	vrt.Assert(c2 == crc, "the CRC does not depend on the pieces")
	vrt.Reach("done")
}

// VH_ioError: an error of a reader or writer at any byte is reported.
func VH_ioError() {
	MakeCrcTable()
	Quiet = true
	method := vrt.Param("method", 5)
	data := vhNoise(nil, 5, vrt.Param("len", 60), 'a', 3)
	good, _, _, _, err := vhEncode(NewLha("a"), method, data, 4*len(data)+1000)
	vrt.Assert(err == nil, "encoding reports no error")
	src := &vhFlaky{b: data, sizes: []int{1 << 20}, fail: -1}
	out := &vhLimited{cap: 1 << 30}
	dec := vrt.Param("dec", 0) == 1
	in, res := data, good
	if dec {
		in, res = good, data
		src.b = good
	}
	where := func(n int) int {
		if vrt.Param("places", 0) == 1 { // around the sizes of buffers, and the ends
			k := []int{0, 2047, 2048, 4095, 4096, 4097, 8192, 8448, 12288, n / 2, n - 2, n - 1}[vrt.Choice("place", 12)]
			if k >= n {
				k = n - 1
			}
			return k
		}
		return vrt.Conc(vrt.Int("at", 0, n-1))
	}
	if vrt.Choice("side", 2) == 0 {
		src.fail = where(len(in))
		src.sizes = []int{src.fail + 1}
		if src.fail > 0 {
			src.sizes[0] = src.fail
		}
	} else {
		out.cap = where(len(res))
	}
	var r io.Reader = src
	var w io.Writer = out
	var osz, psz int
	l := NewLha("a")
	if dec {
		l.DecodeLzhuf(r, w, len(data), len(good), "n", method, &psz)
		vrt.Assert(l.codeErr != nil, "a failed read or write of the decoder is reported")
	} else {
		l.CompressMethod = method
		_, err = l.EncodeLzhuf(&r, &w, 4*len(data)+1000, &osz, &psz, []byte("n"), make([]byte, 5))
		vrt.Assert(err != nil, "a failed read or write of the encoder is reported")
	}
	vrt.Reach("reported")
}
