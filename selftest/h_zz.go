package lha

import "MODULE/zzverif/vrt"

func VH_zz() {
	c := vrt.Conc(vrt.Int("case", vrt.Param("lo", 0), vrt.Param("hi", 31)))
	ZZ(c, vrt.Byte("b"), func(x bool) { vrt.Assert(x, "zz") })
	vrt.Reach("case")
}
