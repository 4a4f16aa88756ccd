package lha

import (
	"MODULE/zzverif/vrt"
)

// CRC of n symbolic bytes, chunked at a symbolic point.
func VH_t0() {
	n := vrt.Param("n", 4)
	MakeCrcTable()
	b := vrt.Bytes("b", n)
	k := vrt.Choice("k", n+1)
	var c1, c2 uint
	c1 = calcCrc(0, &b, 0, uint(n))
	c2 = calcCrc(0, &b, 0, uint(k))
	c2 = calcCrc(c2, &b, uint(k), uint(n-k))
	vrt.Assert(c1 == c2, "chunk")
	vrt.Assert(c1 <= 0xffff, "16bit")
}

func VH_bits() {
	n := vrt.Param("n", 3)
	var buf vhBuf
	l := NewLha("x")
	l.outfile = &buf
	l.compsize = 0
	l.origsize = 1000
	l.initPutbits()
	var w []int
	var v []uint16
	for i := 0; i < n; i++ {
		k := vrt.Choice("w", 16) + 1
		x := vrt.U16("x")
		x &= uint16(1<<uint(k) - 1)
		w = append(w, k)
		v = append(v, x)
		_ = l.putbits(byte(k), x)
	}
	_ = l.putcode(7, 0)
	m := NewLha("y")
	m.infile = &buf
	m.compsize = len(buf.b)
	_ = m.initGetbits()
	for i := 0; i < n; i++ {
		vrt.Assert(m.getbits(byte(w[i])) == v[i], "bits")
	}
}

type vhBuf struct {
	b []byte
	r int
}

func (v *vhBuf) Write(p []byte) (int, error) {
	v.b = append(v.b, p...)
	return len(p), nil
}

func (v *vhBuf) Read(p []byte) (int, error) {
	n := copy(p, v.b[v.r:])
	v.r += n
	return n, nil
}
