package lha

import (
	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

const vhArc = "/work/a.lzh"

func vhStart() {
	vos.Reset()
	MakeCrcTable() // as the command does first of all
	Quiet = true
}

// vhText is a plain text with a compressible concrete part and symbolic
// bytes: shape selects the part, n and alpha the symbolic bytes.
func vhText(shape, n, alpha int) []byte {
	var b []byte
	rep := func(s string, k int) {
		for ; k > 0; k-- {
			b = append(b, s...)
		}
	}
	sym := vhSymBytes("data", n, alpha)
	switch shape {
	case 1:
		rep("abcab", 20)
		b = append(b, sym...)
	case 2:
		b = append(b, sym...)
		rep("ab", 60)
	case 3:
		rep("abacab", 12)
		b = append(b, sym...)
		rep("bcab", 12)
	case 4:
		rep("a", 300)
		b = append(b, sym...)
		rep("a", 5)
	case 5: // noise and a run: packing it gains a little, or nothing
		k := vrt.Conc(vrt.Int("noise", vrt.Param("nlo", 0), vrt.Param("nhi", 0)))
		b = vhNoise(b, uint32(vrt.Param("seed", 1)), k, 0, vrt.Param("m", 256))
		rep("a", vrt.Conc(vrt.Int("run", vrt.Param("rlo", 0), vrt.Param("rhi", 0))))
		b = append(b, sym...)
	default:
		b = append(b, sym...)
	}
	return b
}

// VH_archRound: what is put into a new archive comes out of it.
func VH_archRound() {
	vhStart()
	method := vrt.Param("method", 5)
	level := vrt.Param("level", 0)
	data := vhText(vrt.Param("shape", 0), vrt.Param("n", 3), vrt.Param("alpha", 0))
	src := append([]byte{}, data...)
	viaFile := vrt.Param("file", 0) == 1
	l := NewLha(vhArc)
	var err error
	if viaFile {
		vos.Put("/work/in.txt", src)
		err = l.Compress("/work/in.txt", method, level)
	} else {
		err = l.CompressBytes("in.txt", src, method, level)
	}
	vrt.Assert(err == nil, "compressing reports no error")
	vrt.Assert(vrt.EqBytes(src, data), "the input is left alone")
	raw, ok := vos.Get(vhArc)
	vrt.Assert(ok, "the archive exists")
	// by the book
	p := vhParse(raw)
	vrt.Assert(p.ok, "the header follows the format")
	vrt.Assert(p.level == level, "the header has the level asked for")
	vrt.Assert(p.orig == len(data), "the header states the size")
	vrt.Assert(p.size+p.packed+1 == len(raw) && raw[len(raw)-1] == 0, "the archive is one entry and the end mark")
	vrt.Assert(uint(p.crc) == vhCrc(data), "the header states the CRC")
	vrt.Assert(vrt.EqBytes(p.name, []byte("in.txt")), "the header states the name")
	vrt.Assert(p.packed <= len(data), "packing never makes a file larger")
	if p.method == "-lh0-" {
		vrt.Reach("stored")
		vrt.Assert(vrt.EqBytes(raw[p.size:p.size+p.packed], data), "stored data is verbatim")
	} else {
		vrt.Reach("packed")
		vrt.Assert(p.method == "-lh"+string(rune('0'+method))+"-", "the header states the method")
		vrt.Assert(p.packed < len(data), "packed data is smaller")
		if vrt.Param("ref", 1) == 1 {
			vhRefCheck(method, raw[p.size:p.size+p.packed], data)
		}
	}
	// through the library
	r := NewLha(vhArc)
	hs, err := r.Headers()
	vrt.Assert(err == nil, "the archive is read without an error")
	vrt.Assert(len(hs) == 1, "the archive has one entry")
	vrt.Assert(vrt.EqBytes(vhStr(hs[0].Name), []byte("in.txt")), "the entry has its name")
	vrt.Assert(hs[0].OriginalSize == len(data), "the entry has its size")
	out, err := NewLha(vhArc).DecompresBytes(hs[0])
	vrt.Assert(err == nil, "decompressing to memory reports no error")
	vrt.Assert(vrt.EqBytes(out, data), "decompressing to memory returns the original bytes")
	x := NewLha(vhArc)
	x.ExtractDirectory = "/work/out"
	err = x.Decompress(hs[0])
	vrt.Assert(err == nil, "extracting reports no error")
	f, ok := vos.Get("/work/out/in.txt")
	vrt.Assert(ok && vrt.EqBytes(f, data), "extracting writes the original bytes")
	vrt.Reach("done")
}

// vhSelf hands out entries of an archive built by the reference builder.
func vhMix(k int, bodies [][]byte) []*vhEnt {
	// k: which levels the entries have
	lv := [][]int{{0, 1, 2}, {2, 0, 1}, {1, 2, 3}, {3, 0, 0}, {2, 2, 2}}[k]
	names := []string{"one", "two.txt", "three"}
	var es []*vhEnt
	for i, b := range bodies {
		es = append(es, vhStored(lv[i], names[i], b))
	}
	return es
}

func vhBodies(name string, n, k int) [][]byte {
	var out [][]byte
	if vrt.Param("big", 0) > 0 { // sizes around those of buffers and of fields
		sizes := []int{2047, 2048, 2049, 4096, 65534, 65535, 65536, 70000}
		if vrt.Param("big", 0) == 2 {
			sizes = []int{1<<20 - 1, 1<<20 + 1}
		}
		size := sizes[vrt.Choice(name+"size", len(sizes))]
		for i := 0; i < k; i++ {
			out = append(out, vhNoise(nil, uint32(i), size+i, 0, 256))
		}
		return out
	}
	for i := 0; i < k; i++ {
		b := vrt.Bytes(name, n)
		m := vrt.Conc(vrt.Int(name+"len", 0, n))
		out = append(out, b[:m])
	}
	return out
}

// VH_multi: every entry of an archive is found once, in order, with its own
// contents, and an entry can be picked by name.
func VH_multi() {
	vhStart()
	bodies := vhBodies("body", vrt.Param("n", 2), 3)
	es := vhMix(vrt.Param("mix", 0), bodies)
	vos.Put(vhArc, vhArchive(es...))
	names := []string{"one", "two.txt", "three"}
	hs, err := NewLha(vhArc).Headers()
	vrt.Assert(err == nil, "the archive is read without an error")
	vrt.Assert(len(hs) == len(es), "every entry is listed")
	for i, h := range hs {
		vrt.Assert(vrt.EqBytes(vhStr(h.Name), []byte(names[i])), "entries are listed in order")
		vrt.Assert(h.OriginalSize == len(bodies[i]) && h.PackedSize == len(bodies[i]), "entries have their own size")
		vrt.Assert(h.Crc == es[i].crc, "entries have their own CRC")
	}
	k := vrt.Conc(vrt.Int("pick", 0, 2))
	out, err := NewLha(vhArc).DecompresBytes(hs[k])
	vrt.Assert(err == nil, "picking an entry reports no error")
	vrt.Assert(vrt.EqBytes(out, bodies[k]), "a picked entry has its own contents")
	x := NewLha(vhArc)
	x.ExtractDirectory = "/work/out"
	vrt.Assert(x.Decompress(hs[k]) == nil, "extracting an entry reports no error")
	for i := range es {
		f, ok := vos.Get("/work/out/" + names[i])
		vrt.Assert(ok == (i == k), "only the picked entry is extracted")
		if ok {
			vrt.Assert(vrt.EqBytes(f, bodies[i]), "an extracted entry has its own contents")
		}
	}
	y := NewLha(vhArc)
	y.ExtractDirectory = "/work/all"
	vrt.Assert(CommandExtract(vhArc, y) == nil, "extracting everything reports no error")
	for i := range es {
		f, ok := vos.Get("/work/all/" + names[i])
		vrt.Assert(ok && vrt.EqBytes(f, bodies[i]), "everything is extracted")
	}
	vrt.Reach("done")
}

// VH_absent: an entry that is not there is an error and writes nothing.
func VH_absent() {
	vhStart()
	es := vhMix(vrt.Param("mix", 0), [][]byte{{1, 2}, {3}, {}})
	vos.Put(vhArc, vhArchive(es...))
	n := vrt.Param("n", 3)
	name := vrt.Bytes("name", n)
	for i := range name {
		vrt.Assume(name[i] != 0)
	}
	vrt.Assume(!vrt.EqBytes(name, []byte("one")))
	h := NewLzHeader()
	copy(h.Name, name)
	vos.Events = nil
	_, err := NewLha(vhArc).DecompresBytes(h)
	vrt.Assert(err != nil, "an absent entry is an error")
	err = NewLha(vhArc).Decompress(h)
	vrt.Assert(err != nil, "extracting an absent entry is an error")
	vrt.Assert(!vhMutated(), "an absent entry writes nothing")
	vrt.Reach("done")
}

// vhMutated tells whether the file system was changed.
func vhMutated() bool {
	for _, e := range vos.Events {
		switch e.Op {
		case "open", "read", "stat", "lstat", "readdir", "close", "seek", "readlink":
		default:
			return true
		}
	}
	return false
}

// VH_kinds: an entry of any kind is followed by a file, which is found and has
// its own contents whatever becomes of the first one.
func VH_kinds() {
	vhStart()
	level := vrt.Param("level", 1)
	text := []byte("abcabcabcabcabcabcabcabcabcabcabcabc")
	last := vrt.Bytes("last", vrt.Param("n", 2))
	kind := vrt.Choice("kind", 8)
	var e *vhEnt
	want := text
	switch kind {
	case 0, 1: // a stored file; 1: it exists and is kept
		e = vhStored(level, "first", text)
	case 2, 3, 4: // a packed file; 3: bytes follow the packed data; 4: kept
		packed, _, _, _, err := vhEncode(NewLha("a"), 5, text, 1000)
		vrt.Assert(err == nil, "encoding reports no error")
		if kind == 3 {
			packed = append(packed, 1, 2, 3, 4, 5)
		}
		e = vhEntry(level, "-lh5-", "first", packed, text)
	case 5: // a directory with data nobody asks for
		e = vhStored(level, "first", []byte("12"))
		e.method, e.mode, e.orig = "-lhd-", 0o040755, 0
		want = nil
		for i := range e.ext {
			if e.ext[i].typ == 0x50 {
				e.ext[i].data = []byte{0xed, 0x41}
			}
		}
	case 6: // an empty file
		want = nil
		e = vhStored(level, "first", nil)
	case 7: // a packed empty file with data nobody asks for
		want = nil
		e = vhEntry(level, "-lh5-", "first", []byte{9, 8, 7}, nil)
	}
	vos.Put(vhArc, vhArchive(e, vhStored(vrt.Param("level2", 0), "last", last)))
	if kind == 1 || kind == 4 {
		vos.Put("/work/all/first", []byte("kept"))
		want = []byte("kept")
	}
	hs, err := NewLha(vhArc).Headers()
	vrt.Assert(err == nil, "the archive is read without an error")
	vrt.Assert(len(hs) == 2, "every entry is listed")
	vrt.Assert(vrt.EqBytes(vhStr(hs[1].Name), []byte("last")), "the second entry is listed")
	vrt.Assert(hs[1].OriginalSize == len(last), "the second entry has its own size")
	out, err := NewLha(vhArc).DecompresBytes(hs[1])
	vrt.Assert(err == nil && vrt.EqBytes(out, last), "the second entry has its own contents")
	if kind != 5 {
		out, err = NewLha(vhArc).DecompresBytes(hs[0])
		vrt.Assert(err == nil, "the first entry is read")
	}
	y := NewLha(vhArc)
	y.ExtractDirectory = "/work/all"
	vos.SetStdin([]byte("n\n"))
	vrt.Assert(CommandExtract(vhArc, y) == nil, "extracting everything reports no error")
	f, ok := vos.Get("/work/all/last")
	vrt.Assert(ok && vrt.EqBytes(f, last), "the second entry is extracted")
	if kind != 5 {
		f, ok = vos.Get("/work/all/first")
		vrt.Assert(ok && vrt.EqBytes(f, want), "the first entry is extracted or kept")
	}
	vrt.Reach("done")
}

// VH_hdrInArc: a damaged or cut header of any entry is reported, whatever is
// done with the archive.
func VH_hdrInArc() {
	vhStart()
	bodies := [][]byte{{1, 2}, {3}, {}}
	es := vhMix(vrt.Param("mix", 0), bodies)
	at := vrt.Choice("entry", 3)
	var arc []byte
	start, end := 0, 0
	for i, e := range es {
		h := vhHeader(e)
		if i == at {
			start, end = len(arc), len(arc)+len(h)
		}
		arc = append(append(arc, h...), e.body...)
	}
	arc = append(arc, 0)
	if vrt.Param("cut", 0) == 1 {
		arc = arc[:vrt.Conc(vrt.Int("cut", start+1, end-1))]
	} else {
		x := vrt.Byte("xor")
		vrt.Assume(x != 0)
		k := start + 1 // the checksum
		if es[at].level >= 2 {
			k = start + 21 + vrt.Choice("crc", 2) // the CRC of the data is part of the header
		}
		arc[k] ^= x
	}
	vos.Put(vhArc, arc)
	vos.Events = nil
	l := NewLha(vhArc)
	var err error
	switch vrt.Choice("op", 6) {
	case 0:
		_, err = l.Headers()
	case 1:
		err = CommandList(vhArc, l)
	case 2:
		l.ExtractDirectory = "/work/out"
		err = CommandExtract(vhArc, l)
	case 3:
		h := NewLzHeader()
		copy(h.Name, []byte("three"))
		_, err = l.DecompresBytes(h)
	case 4:
		VerifyMode = true
		err = CommandExtract(vhArc, l)
		VerifyMode = false
	case 5:
		err = l.CompressBytes("new", []byte("x"), 0, 1)
		f, _ := vos.Get(vhArc)
		vrt.Assert(vrt.EqBytes(f, arc), "a damaged archive is left alone")
	}
	vrt.Assert(err != nil, "a damaged header of any entry is reported")
	vrt.Reach("reported")
}
