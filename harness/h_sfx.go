package lha

import (
	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

// VH_sfx: the archive inside a self-extracting file is found.
func VH_sfx() {
	vhStart()
	level, level2 := vrt.Param("level", 0), vrt.Param("level2", 1)
	last := vrt.Bytes("last", vrt.Param("n", 2))
	es := []*vhEnt{vhStored(level, "first", []byte("abc")), vhStored(level2, "last", last)}
	arc := vhArchive(es...)
	k := vrt.Conc(vrt.Int("stub", vrt.Param("lo", 0), vrt.Param("hi", 30)))
	stub := vhNoise(nil, 7, k, 0, 256)
	switch vrt.Param("lead", 0) {
	case 1: // looks like a header, but its checksum is wrong
		h := append([]byte{}, vhHeader(vhStored(0, "not", nil))...)
		h[1] ^= byte(1 + vrt.Choice("sum", 255))
		stub = append(stub, h...)
	case 2: // the name of a method
		stub = append(stub, "usage: -lh5- or -lh0- -lzs-"...)
	}
	name := "/work/a" + []string{".exe", ".COM", ".Exe", ".x"}[vrt.Choice("ext", 4)]
	file := append(append([]byte{}, stub...), arc...)
	vos.Put(name, file)
	vos.Events = nil
	hs, err := NewLha(name).Headers()
	vrt.Assert(err == nil, "the archive is read without an error")
	vrt.Assert(len(hs) == 2, "every entry is listed")
	vrt.Assert(string(vhStr(hs[0].Name)) == "first" && string(vhStr(hs[1].Name)) == "last", "entries are listed in order")
	vrt.Assert(CommandList(name, NewLha(name)) == nil, "listing reports no error")
	out, err := NewLha(name).DecompresBytes(hs[1])
	vrt.Assert(err == nil && vrt.EqBytes(out, last), "an entry has its own contents")
	vrt.Assert(len(vos.Events) == 0, "reading changes nothing")
	l := NewLha(name)
	l.ExtractDirectory = "/work/out"
	if vrt.Choice("api", 2) == 1 {
		vrt.Assert(l.Decompress(hs[1]) == nil, "extracting an entry reports no error")
	} else {
		vrt.Assert(CommandExtract(name, l) == nil, "extracting everything reports no error")
		f, ok := vos.Get("/work/out/first")
		vrt.Assert(ok && string(f) == "abc", "every entry is extracted")
	}
	f, ok := vos.Get("/work/out/last")
	vrt.Assert(ok && vrt.EqBytes(f, last), "an extracted entry has its own contents")
	f, _ = vos.Get(name)
	vrt.Assert(vrt.EqBytes(f, file), "reading leaves the file alone")
	vrt.Reach("done")
}

// VH_sfxLast: also a single entry, of any method, right at the end of the file.
func VH_sfxLast() {
	vhStart()
	level := vrt.Param("level", 0)
	body := []byte{}
	if vrt.Choice("body", 2) == 1 {
		body = vrt.Bytes("body", 1)
	}
	e := vhStored(level, "n", body)
	ms := []string{"-lh0-", "-lz4-", "-pm0-", "-lhd-"}
	e.method = ms[vrt.Choice("method", len(ms))]
	if e.method == "-lhd-" {
		e.attr = 0x10
		vrt.Assume(len(body) == 0)
	}
	arc := vhArchive(e)
	if vrt.Choice("mark", 2) == 0 { // no end mark
		arc = arc[:len(arc)-1]
	}
	stub := vhNoise(nil, 7, vrt.Conc(vrt.Int("stub", vrt.Param("lo", 0), vrt.Param("hi", 3))), 1, 30)
	name := "/work/a.exe"
	vos.Put(name, append(append([]byte{}, stub...), arc...))
	hs, err := NewLha(name).Headers()
	vrt.Assert(err == nil, "the archive is read without an error")
	vrt.Assert(len(hs) == 1, "the entry is listed")
	vrt.Assert(string(hs[0].Method) == e.method && string(vhStr(hs[0].Name)) == "n", "the entry is listed as it is")
	if e.method != "-lhd-" {
		out, err := NewLha(name).DecompresBytes(hs[0])
		vrt.Assert(err == nil && vrt.EqBytes(out, body), "the entry has its own contents")
	}
	// without the archive there is an error
	vos.Put(name, append([]byte{'M'}, stub...))
	_, err = NewLha(name).Headers()
	vrt.Assert(err != nil, "a file without an archive is reported")
	vrt.Reach("done")
}

// VH_sfxAny: a file without an archive, or with arbitrary bytes, is no reason
// to crash.
func VH_sfxAny() {
	vhStart()
	name := "/work/a.exe"
	b := vrt.Bytes("b", vrt.Param("n", 4))
	if vrt.Param("split", 1) == 1 {
		for i := range b {
			b[i] = vhSplit(b[i])
		}
	}
	pre := vhNoise(nil, 3, vrt.Param("pre", 0), 0, 256)
	file := append(append(pre, b...), "-lh0-\x03\x00\x00\x00\x03\x00\x00\x00\x00\x00\x00\x00 "...)
	file = append(file, byte(vrt.Choice("level", 4)))
	file = append(file, vhNoise(nil, 9, vrt.Conc(vrt.Int("tail", 0, 30)), 0, 256)...)
	vos.Put(name, file)
	vos.Events = nil
	_, _ = NewLha(name).Headers()
	_ = CommandList(name, NewLha(name))
	h := NewLzHeader()
	copy(h.Name, "x")
	_, _ = NewLha(name).DecompresBytes(h)
	vrt.Assert(len(vos.Events) == 0, "reading changes nothing")
	vrt.Reach("done")
}
