package lha

import (
	"io"

	"MODULE/zzverif/vrt"
)

// vhData builds a plain text of n bytes. alpha is the number of distinct
// symbolic values a byte may take (0: all 256).
func vhSymBytes(name string, n, alpha int) []byte {
	b := vrt.Bytes(name, n)
	if alpha > 0 {
		for i := range b {
			vrt.Assume(b[i] >= 'a' && b[i] < byte('a'+alpha))
			b[i] = vhSplit(b[i])
		}
	}
	return b
}

func vhEncode(l *Lha, method int, data []byte, size int) (packed []byte, orig int, crc uint, hm []byte, err error) {
	var out vhSink
	var r io.Reader = &vhSrc{b: data}
	var w io.Writer = &out
	l.CompressMethod = method
	hm = make([]byte, 5)
	var osz, psz int
	crc, err = l.EncodeLzhuf(&r, &w, size, &osz, &psz, []byte("n"), hm)
	if err == nil {
		vrt.Assert(psz == len(out.b), "packed size reported by the encoder equals the bytes it wrote")
	}
	return out.b, osz, crc, hm, err
}

func vhDecode(l *Lha, method int, packed []byte, orig int) (plain []byte, crc int, read int) {
	var out vhSink
	crc = l.DecodeLzhuf(&vhSrc{b: packed}, &out, orig, len(packed), "n", method, &read)
	return out.b, crc, read
}

// VH_codec: decode(encode(x)) == x for every x, for one method.
func VH_codec() {
	MakeCrcTable()
	Quiet = true
	method := vrt.Param("method", 5)
	n := vrt.Param("n", 4)
	data := vhSymBytes("data", n, vrt.Param("alpha", 0))
	vhRoundTrip(method, data)
}

func vhRoundTrip(method int, data []byte) {
	l := NewLha("a")
	// The size announced to the encoder is larger than the data, so that it
	// never gives up on short inputs (it does when the packed data would not
	// be smaller than the announced size).
	packed, osz, crc, _, err := vhEncode(l, method, data, 4*len(data)+1000)
	vrt.Assert(err == nil, "encoding reports no error")
	vrt.Reach("packed")
	vrt.Assert(osz == len(data), "encoder consumes the whole input")
	m := NewLha("a")
	plain, crc2, read := vhDecode(m, method, packed, osz)
	vrt.Assert(vrt.EqBytes(plain, data), "decoding returns the original bytes")
	vrt.Assert(crc == vhCrc(data), "encoder returns the CRC of the data")
	vrt.Assert(uint(crc2) == vhCrc(plain), "decoder returns the CRC of the data")
	vrt.Assert(read == len(packed), "decoder consumes exactly the packed bytes")
	if vrt.Param("ref", 0) == 1 {
		vhRefCheck(method, packed, data)
	}
}
