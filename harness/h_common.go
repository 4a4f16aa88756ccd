package lha

import (
	"errors"
	"io"

	"MODULE/zzverif/vrt"
)

var _ = vrt.Param

// vhSink is an in-memory io.Writer.
type vhSink struct{ b []byte }

func (v *vhSink) Write(p []byte) (int, error) {
	v.b = append(v.b, p...)
	return len(p), nil
}

// vhSrc is an in-memory io.Reader.
type vhSrc struct {
	b []byte
	r int
}

func (v *vhSrc) Read(p []byte) (int, error) {
	if v.r >= len(v.b) {
		return 0, io.EOF
	}
	n := copy(p, v.b[v.r:])
	v.r += n
	return n, nil
}

var vhTab [256]uint

// vhCrc is CRC-16/ARC by definition: polynomial 0x8005 reflected, initial
// value 0. The table is built from the polynomial here.
func vhCrc(b []byte) uint {
	if vhTab[1] == 0 {
		for i := range vhTab {
			r := uint(i)
			for j := 0; j < 8; j++ {
				if r&1 != 0 {
					r = r>>1 ^ 0xa001
				} else {
					r >>= 1
				}
			}
			vhTab[i] = r
		}
	}
	c := uint(0)
	for i := 0; i < len(b); i++ {
		c = vhTab[(c^uint(b[i]))&0xff] ^ c>>8
	}
	return c
}

var vhErrIO = errors.New("input/output error")

// vhSplit leaves a byte symbolic, or has its values taken one by one.
func vhSplit(c byte) byte {
	if vrt.Param("split", 0) == 1 {
		return byte(vrt.Conc(int(c)))
	}
	return c
}

// vhNoise appends k pseudo random bytes out of lo..lo+m-1.
func vhNoise(b []byte, seed uint32, k, lo, m int) []byte {
	r := seed
	for ; k > 0; k-- {
		r = r*1664525 + 1013904223
		b = append(b, byte(lo+int(r>>16)%m))
	}
	return b
}
