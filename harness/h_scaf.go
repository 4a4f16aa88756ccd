package lha

import "MODULE/zzverif/vrt"

// vhScaf builds a long text from concrete parts, whose lengths and letters
// are chosen symbolically within lo..hi, and n symbolic bytes.
func vhScaf() []byte {
	lo, hi := vrt.Param("lo", 0), vrt.Param("hi", 0)
	k := vrt.Conc(vrt.Int("k", lo, hi))
	sym := vhSymBytes("data", vrt.Param("n", 0), vrt.Param("alpha", 0))
	var b []byte
	switch vrt.Param("shape", 1) {
	case 1:
		// a string of len bytes recurs at distance k
		l := vrt.Param("len", 3)
		p := vrt.Param("pre", 20)
		b = vhNoise(b, 3, p, 0, 256)
		b = vhNoise(b, 1, l, 'A', 26)
		b = vhNoise(b, 2, k-l, 0, 256)
		b = append(b, b[p:p+l]...)
		b = append(b, sym...)
	case 2:
		// a run of k equal letters
		for i := 0; i < k; i++ {
			b = append(b, 'a')
		}
		b = append(b, sym...)
		b = vhNoise(b, 1, vrt.Param("tail", 0), 'a', 2)
	case 3:
		// two letters k apart
		b = append(b, sym...)
		for _, c := range []byte("0010111001") {
			b = append(b, byte(vrt.Param("base", 50)+int(c-'0')*k))
		}
	case 4:
		// noise of k bytes over m letters
		b = vhNoise(b, uint32(vrt.Param("seed", 1)), k, vrt.Param("base", 0), vrt.Param("m", 256))
		b = append(b, sym...)
	case 5:
		// k copies of parts of what came before, of many lengths and distances
		b = vhNoise(b, uint32(vrt.Param("seed", 1)), vrt.Param("first", 300), 0, 256)
		b = append(b, sym...)
		r := uint32(vrt.Param("seed", 1))
		for i := 0; i < k; i++ {
			r = r*1664525 + 1013904223
			le := 2 + int(r>>20)%vrt.Param("maxlen", 256)
			r = r*1664525 + 1013904223
			at := int(r>>8) % (len(b) - le + 1)
			if at < 0 {
				at = 0
			}
			for j := 0; j < le; j++ {
				b = append(b, b[at+j])
			}
		}
		b = append(b, sym...)
	case 6:
		// a text of k noise bytes and a copy of its first len bytes at its end
		b = vhNoise(b, 5, k, 0, 256)
		b = append(b, b[:vrt.Param("len", 3)]...)
		b = append(b, sym...)
	case 7:
		// two strings that differ in byte k only, a run between them
		x := vhNoise(nil, 7, vrt.Param("len", 300), 0, 256)
		b = append(b, x...)
		b = append(b, sym...)
		for i := 0; i < vrt.Param("gap", 10); i++ {
			b = append(b, 'z')
		}
		x[k] ^= 1
		b = append(b, x...)
	case 8:
		// a string occurs at p, at dic+k and at p+dic+d: where the window slides
		dic := map[int]int{1: 4096, 5: 8192, 6: 32768, 7: 65536}[vrt.Param("method", 5)]
		p, le := vrt.Param("pre", 100), vrt.Param("len", 6)
		d := vrt.Conc(vrt.Int("d", vrt.Param("dlo", 0), vrt.Param("dhi", 0)))
		b = vhNoise(b, 1, dic*vrt.Param("slides", 1)+p+d+le+20, 0, 256)
		x := vhNoise(nil, 9, le, 'A', 26)
		at := dic * (vrt.Param("slides", 1) - 1)
		copy(b[at+p:], x)
		copy(b[at+dic+k:], x)
		copy(b[at+p+dic+d:], x)
		b = append(b, sym...)
	case 9:
		// more occurrences of a string than the search follows, then once
		// more at the end, k bytes of something that lies beyond the end
		for i := 0; i < vrt.Param("many", 300); i++ {
			b = append(b, "xyz"...)
			b = vhNoise(b, uint32(i*77), 2, 'A', 50)
		}
		b = append(b, "xyz      "...)
		b = vhNoise(b, 5, 20, 0, 256)
		b = append(b, "xyz      "[:3+k]...)
	}
	return b
}

// VH_scaf: the codec round trip on long texts.
func VH_scaf() {
	MakeCrcTable()
	Quiet = true
	vhRoundTrip(vrt.Param("method", 5), vhScaf())
}
