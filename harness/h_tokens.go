package lha

import (
	"io"

	"MODULE/zzverif/vrt"
)

// vhTokens feeds letters and matches to the coder itself, past the search for
// matches, and computes the text that they stand for.
type vhTokens struct {
	l      *Lha
	method int
	out    vhSink
	text   []byte
}

func vhNewTokens(method int) *vhTokens {
	t := &vhTokens{l: NewLha("a"), method: method}
	_, err := encodeAlloc(method)
	vrt.Assert(err == nil, "the method is known")
	t.l.outfile = io.Writer(&t.out)
	t.l.origsize = 1 << 30
	t.l.compsize = 0
	t.l.unpackable = false
	t.l.codeErr = nil
	t.l.encodeStart(method)
	return t
}

func (t *vhTokens) letter(c byte) {
	t.text = append(t.text, c)
	t.l.encodeOuput(t.method, uint16(c), 0)
}

func (t *vhTokens) match(length, dist int) {
	for i := 0; i < length; i++ {
		c := byte(' ')
		if dist <= len(t.text) {
			c = t.text[len(t.text)-dist]
		}
		t.text = append(t.text, c)
	}
	t.l.encodeOuput(t.method, uint16(length+253), uint16(dist-1))
}

func (t *vhTokens) check() {
	t.l.encodeEnd(t.method)
	vrt.Assert(t.l.codeErr == nil && !t.l.unpackable, "encoding reports no error")
	packed := t.out.b
	m := NewLha("a")
	plain, crc, read := vhDecode(m, t.method, packed, len(t.text))
	vrt.Assert(vrt.EqBytes(plain, t.text), "decoding returns the original bytes")
	vrt.Assert(uint(crc) == vhCrc(t.text), "decoder returns the CRC of the data")
	vrt.Assert(read == len(packed), "decoder consumes exactly the packed bytes")
	if vrt.Param("ref", 1) == 1 {
		vhRefCheck(t.method, packed, t.text)
	}
	vrt.Reach("done")
}

// vhChain: k frequencies with which a Huffman tree is a chain, above symbols
// whose frequencies add up to rest.
func vhChain(rest, k int) []int {
	var f []int
	a, b := 1, 1
	if rest > 0 {
		a, b = rest+1, rest+2
	}
	for i := 0; i < k; i++ {
		f = append(f, a)
		if rest > 0 {
			a, b = b, a+b+2
		} else {
			a, b = b, a+b
		}
	}
	return f
}

// VH_tokens: whatever sequence of letters and matches the encoder decides on,
// the decoder gets it back.
func VH_tokens() {
	MakeCrcTable()
	Quiet = true
	method := vrt.Param("method", 5)
	lo, hi := vrt.Param("lo", 0), vrt.Param("hi", 0)
	k := vrt.Conc(vrt.Int("k", lo, hi))
	t := vhNewTokens(method)
	switch vrt.Param("shape", 1) {
	case 1:
		// k symbols of which each is as frequent as all the rarer ones but
		// one together: the longest codes; some are match lengths
		f := vhChain(vrt.Param("rest", 0), k)
		for i, n := range f {
			for j := 0; j < n; j++ {
				if i%3 == 2 && i < 12 {
					t.match(3+i*4, 1+(j&7))
				} else {
					t.letter(byte(i * 7))
				}
			}
		}
		if vrt.Param("rest", 0) > 0 { // and the rarest ones
			for i := 0; i < 40; i++ {
				t.letter(byte(200 + i))
			}
		}
	case 2:
		// k letters, then matches: the last codes of a block
		for i := 0; i < k; i++ {
			t.letter(byte(i * 31 >> 3))
		}
		for i := 0; i < 20; i++ {
			t.match(3+i, 1+i*i)
		}
	case 3:
		// every match length, at distances of every size
		max := 256
		dmax := map[int]int{1: 4096, 5: 8192, 6: 32768, 7: 65536}[method]
		if method == 1 {
			max = 60
		}
		for i := 0; i < 40; i++ {
			t.letter(byte(i * 77))
		}
		d := 1
		for i := 3; i <= max; i++ {
			t.match(i, d)
			d = (d*3 + k) % dmax
			if d == 0 {
				d = dmax
			}
		}
		t.match(max, dmax)
	}
	t.check()
}
