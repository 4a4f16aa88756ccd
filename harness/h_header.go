package lha

import (
	"io"

	"MODULE/zzverif/vrt"
)

// names as the library hands them out are NUL terminated
func vhStr(b []byte) []byte {
	for i := 0; i < len(b); i++ {
		if b[i] == 0 {
			return b[:i]
		}
	}
	return b
}

// vhNameBytes: symbolic name bytes which level 0, 1 and 2 headers can carry:
// no NUL, no 0xff (the separator of the archive format), no backslash (the
// separator of level 0 and of broken archives).
func vhNameBytes(name string, n int, slash bool) []byte {
	b := vrt.Bytes(name, n)
	for i := range b {
		vrt.Assume(vrt.And(b[i] != 0, vrt.And(b[i] != 0xff, b[i] != '\\')))
		if !slash {
			vrt.Assume(b[i] != '/')
		}
	}
	return b
}

// VH_hdrRound: what WriteHeader writes, GetHeader and the reference parser
// read back.
func VH_hdrRound() {
	MakeCrcTable()
	level := vrt.Param("level", 0)
	n := vrt.Param("n", 3)
	dirn := vrt.Param("dir", -1) // index of the last slash, -1: none
	h := NewLzHeader()
	h.HeaderLevel = byte(level)
	ms := []string{Lzhuff0Method, Lzhuff1Method, Lzhuff5Method, Lzhuff6Method, Lzhuff7Method, LzhdirsMethod}
	copy(h.Method, ms[vrt.Choice("method", len(ms))])
	h.PackedSize = int(vrt.U32("packed"))
	h.OriginalSize = int(vrt.U32("orig"))
	vrt.Assume(h.PackedSize < 1<<31)
	h.Attribute = 0x20
	h.Crc = uint(vrt.U16("crc"))
	h.HasCrc = true
	h.ExtendType = ExtendUnix
	h.UnixLastModifiedStamp = 1500000000
	if tb := vrt.Param("tbits", 0); tb > 0 {
		t := vrt.U32("mtime")
		vrt.Assume(t < 1<<uint(tb))
		h.UnixLastModifiedStamp = int64(vrt.Param("tbase", 1500000000)) + int64(t)
	}
	h.UnixMode = uint16(UnixFileRegular) | vrt.U16("mode")&0o7777
	h.UnixUID = vrt.U16("uid")
	h.UnixGid = vrt.U16("gid")
	if vrt.Param("few", 0) == 1 { // concrete fields: lengths matter here
		h.PackedSize, h.OriginalSize, h.Crc = 0x1234567, 0x7654321, 0xa1b2
		h.UnixMode, h.UnixUID, h.UnixGid = 0o100751, 1234, 4321
	}
	name := vhNameBytes("name", n, false)
	if dirn >= 0 {
		name[dirn] = '/'
		if vrt.Param("deep", 0) == 1 && dirn >= 2 {
			name[dirn-2] = '/'
		}
	}
	if df := vrt.Param("dfill", 0); df > 0 && dirn >= 0 { // a long directory
		var x []byte
		for i := 0; i < df; i++ {
			x = append(x, byte('A'+i%26))
		}
		name = append(x, name...)
		dirn += df
	}
	pre := vrt.Param("fill", 0) // long concrete part of the file name
	if hi := vrt.Param("fillhi", 0); hi > 0 {
		pre = vrt.Conc(vrt.Int("fill", pre, hi))
	}
	for i := 0; i < pre; i++ {
		name = append(name, byte('a'+i%26))
	}
	copy(h.Name, name)
	var user, group []byte
	if un := vrt.Param("user", 0); un > 0 {
		user = vhNameBytes("user", un, true)
	}
	if gn := vrt.Param("group", vrt.Param("user", 0)); gn > 0 {
		group = vhNameBytes("group", gn, true)
	}
	if user != nil || group != nil {
		copy(h.User, user)
		copy(h.Group, group)
	}
	var out vhSink
	var w io.Writer = &out
	generic := vrt.Param("generic", 0) == 1
	GenericFormat = generic
	err := WriteHeader(&w, h)
	GenericFormat = false
	vrt.Assert(err == nil, "a header is written without an error")
	if generic { // without the unix attributes
		h.UnixMode, h.UnixUID, h.UnixGid, h.ExtendType = 0o100666, 0, 0, 0
		user, group = nil, nil
	}
	hb := append([]byte{}, out.b...)
	body := []byte{0x55, 0xaa, 0x11}
	src := &vhSrc{b: append(append([]byte{}, hb...), body...)}
	var r io.Reader = src
	g := NewLzHeader()
	gerr, ok := g.GetHeader(&r)
	vrt.Assert(gerr == nil && ok, "a written header is read back")
	vrt.Reach("read")
	vrt.Assert(src.r == len(hb), "reading stops at the end of the header")
	vrt.Assert(g.HeaderSize == len(hb), "header size")
	vrt.Assert(int(g.HeaderLevel) == level, "level survives")
	vrt.Assert(vrt.EqStr(string(g.Method), string(h.Method)), "method survives")
	vrt.Assert(g.PackedSize == h.PackedSize, "packed size survives")
	vrt.Assert(g.OriginalSize == h.OriginalSize, "original size survives")
	vrt.Assert(g.HasCrc && g.Crc == h.Crc, "CRC survives")
	vrt.Assert(g.UnixMode == h.UnixMode, "mode survives")
	vrt.Assert(g.UnixUID == h.UnixUID, "uid survives")
	vrt.Assert(g.UnixGid == h.UnixGid, "gid survives")
	vrt.Assert(g.UnixLastModifiedStamp == h.UnixLastModifiedStamp, "time stamp survives")
	vrt.Assert(g.ExtendType == h.ExtendType, "OS survives")
	vrt.Assert(vrt.EqBytes(vhStr(g.Name), name), "name survives")
	if level > 0 {
		vrt.Assert(vrt.EqBytes(vhStr(g.User), user), "user name survives")
		vrt.Assert(vrt.EqBytes(vhStr(g.Group), group), "group name survives")
	}
	// the layout other implementations rely on
	p := vhParse(hb)
	vrt.Assert(p.ok, "the header follows the format")
	vrt.Assert(p.size == len(hb), "the header states its size")
	vrt.Assert(p.level == level, "level field")
	vrt.Assert(vrt.EqStr(p.method, string(h.Method)), "method field")
	vrt.Assert(p.packed == h.PackedSize, "packed size field")
	vrt.Assert(p.orig == h.OriginalSize, "original size field")
	vrt.Assert(p.hasCrc && uint(p.crc) == h.Crc, "CRC field")
	if generic {
		vrt.Assert(p.os == 0, "OS field")
		vrt.Assert(!p.hasMode && !p.hasID && !p.hasTime, "no unix attributes")
	} else {
		vrt.Assert(p.os == 'U', "OS field")
		vrt.Assert(p.hasMode && p.mode == int(h.UnixMode), "mode field")
		vrt.Assert(p.hasID && p.uid == int(h.UnixUID), "uid field")
		vrt.Assert(p.gid == int(h.UnixGid), "gid field")
	}
	if level < 2 {
		vrt.Assert(generic || p.hasTime && p.utime == int(h.UnixLastModifiedStamp), "unix time field")
		if vrt.Param("tbits", 0) == 0 {
			vrt.Assert(p.stamp == 0x4aee1500, "MS-DOS time field")
		}
	} else {
		vrt.Assert(p.stamp == int(h.UnixLastModifiedStamp), "unix time field")
	}
	want := append([]byte{}, name...)
	sep := byte(0xff)
	if level == 0 {
		sep = '\\'
	}
	last := -1
	for i := range want {
		if i == dirn || dirn >= 2 && vrt.Param("deep", 0) == 1 && i == dirn-2 {
			want[i] = sep
			last = i
		}
	}
	if level == 0 {
		vrt.Assert(vrt.EqBytes(p.name, want), "path name field")
	} else {
		vrt.Assert(vrt.EqBytes(p.name, want[last+1:]), "file name field")
		vrt.Assert(vrt.EqBytes(p.dir, want[:last+1]), "directory field")
	}
}

// VH_hdrLink: a symbolic link keeps its name and target.
func VH_hdrLink() {
	MakeCrcTable()
	level := vrt.Param("level", 0)
	h := NewLzHeader()
	h.HeaderLevel = byte(level)
	copy(h.Method, LzhdirsMethod)
	h.Attribute = 0x10
	h.ExtendType = ExtendUnix
	h.UnixLastModifiedStamp = 1500000000
	h.UnixMode = uint16(UnixFileSymlink) | vrt.U16("mode")&0o777
	name := vhNameBytes("name", vrt.Param("n", 3), false)
	want := append([]byte{}, name...)
	for i := range name { // the separator of name and target
		want[i] = byte(vrt.Select(name[i] == '|', '_', int(name[i])))
	}
	target := vhNameBytes("target", vrt.Param("t", 3), false)
	if k := vrt.Param("slash", -1); k >= 0 {
		target[k] = '/'
	}
	copy(h.Name, name)
	copy(h.Realname, target)
	var out vhSink
	var w io.Writer = &out
	vrt.Assert(WriteHeader(&w, h) == nil, "a header is written without an error")
	src := &vhSrc{b: append(append([]byte{}, out.b...), 1, 2, 3)}
	var r io.Reader = src
	g := NewLzHeader()
	gerr, ok := g.GetHeader(&r)
	vrt.Assert(gerr == nil && ok, "a written header is read back")
	vrt.Reach("read")
	vrt.Assert(src.r == len(out.b), "reading stops at the end of the header")
	vrt.Assert(vrt.EqBytes(vhStr(g.Name), want), "name of the link survives")
	vrt.Assert(vrt.EqBytes(vhStr(g.Realname), target), "target of the link survives")
	vrt.Assert(g.UnixMode == h.UnixMode, "mode of the link survives")
	vrt.Assert(g.PackedSize == 0 && g.OriginalSize == 0, "a link has no data")
}

// vhSymEnt: an entry with symbolic field contents. variant selects the
// extended headers and the operating system.
func vhSymEnt(level, variant int) *vhEnt {
	e := &vhEnt{level: level, method: "-lh5-", packed: int(vrt.U32("packed")), orig: int(vrt.U32("orig")),
		attr: 0x20, crc: uint(vrt.U16("crc")), os: 'U', unix: true, stamp: 1500000000}
	vrt.Assume(e.packed < 1<<31)
	if level < 2 {
		e.stamp = 0
	} else {
		e.stamp = int(vrt.U32("stamp"))
	}
	e.utime = int(vrt.U32("utime"))
	e.mode = 0o100000 | int(vrt.U16("mode"))&0o7777
	e.uid = int(vrt.U16("uid"))
	e.gid = int(vrt.U16("gid"))
	return e
}

func vhExpect(g *LzHeader, e *vhEnt, name []byte) {
	vrt.Assert(int(g.HeaderLevel) == e.level, "level is parsed")
	vrt.Assert(vrt.EqStr(string(g.Method), e.method), "method is parsed")
	vrt.Assert(g.PackedSize == e.packed, "packed size is parsed")
	vrt.Assert(g.OriginalSize == e.orig, "original size is parsed")
	vrt.Assert(vrt.EqBytes(vhStr(g.Name), name), "name is parsed")
}

func vhRead(b []byte) (g *LzHeader, used int, err error, ok bool) {
	src := &vhSrc{b: b}
	var r io.Reader = src
	g = NewLzHeader()
	// left over from an earlier header: must not survive
	g.UnixMode = 0xffff
	g.HeaderCrc = 0x1234
	copy(g.Name, "stale name of an earlier entry")
	copy(g.User, "stale")
	copy(g.Group, "stale")
	err, ok = g.GetHeader(&r)
	return g, src.r, err, ok
}

// name1 is a byte that can be in a name.
func name1(b byte) byte {
	vrt.Assume(vrt.And(vrt.And(b != 0, b != 0xff), vrt.And(b != '\\', b != '/')))
	return b
}

// VH_hdrParse0: level 0 headers of the reference builder are parsed as meant.
func VH_hdrParse0() {
	MakeCrcTable()
	e := vhSymEnt(0, 0)
	n := vrt.Param("n", 3)
	raw := vrt.Bytes("name", n)
	want := make([]byte, n)
	for i := range raw {
		vrt.Assume(raw[i] != 0)
		// the separator is the backslash or 0xff
		want[i] = byte(vrt.Select(vrt.Or(raw[i] == 0xff, raw[i] == 92), '/', int(raw[i])))
	}
	if hi := vrt.Param("fillhi", 0); hi > 0 { // long names
		k := vrt.Conc(vrt.Int("fill", vrt.Param("fill", 0), hi))
		for i := 0; i < k; i++ {
			raw = append(raw, byte('a'+i%26))
			want = append(want, byte('a'+i%26))
		}
	}
	e.name = raw
	variant := vrt.Param("variant", 0)
	e.unix = variant == 0
	b := vhHeader(e)
	switch variant {
	case 2: // no CRC field
		b = b[:len(b)-2]
		b[0] = byte(len(b) - 2)
		b[1] = vhSum(b[2:])
	case 3: // extension of another system
		b = append(b, 'M', vrt.Byte("x"), vrt.Byte("x"))
		b[0] = byte(len(b) - 2)
		b[1] = vhSum(b[2:])
	case 4: // unix extension with more bytes after it
		e.unix = true
		b = append(vhHeader(e), vrt.Byte("x"), vrt.Byte("x"))
		b[0] = byte(len(b) - 2)
		b[1] = vhSum(b[2:])
	case 5: // unix extension which is too short to be one
		b = append(b, 'U', vrt.Byte("x"), vrt.Byte("x"))
		b[0] = byte(len(b) - 2)
		b[1] = vhSum(b[2:])
	}
	g, used, err, ok := vhRead(append(append([]byte{}, b...), 9, 9))
	vrt.Assert(err == nil && ok, "a well formed level 0 header is accepted")
	vrt.Reach("parsed")
	vrt.Assert(used == len(b), "reading stops at the end of the header")
	vhExpect(g, e, want)
	vrt.Assert(g.HasCrc == (variant != 2), "presence of the CRC is known")
	if variant != 2 {
		vrt.Assert(g.Crc == e.crc, "CRC is parsed")
	}
	if e.unix {
		vrt.Assert(g.ExtendType == 'U', "OS is parsed")
		vrt.Assert(g.UnixLastModifiedStamp == int64(e.utime), "unix time is parsed")
		vrt.Assert(int(g.UnixMode) == e.mode, "mode is parsed")
		vrt.Assert(int(g.UnixUID) == e.uid, "uid is parsed")
		vrt.Assert(int(g.UnixGid) == e.gid, "gid is parsed")
	} else {
		vrt.Assert(g.UnixMode == 0o100666, "default mode")
		vrt.Assert(g.UnixUID == 0 && g.UnixGid == 0, "default owner")
		vrt.Assert(vhStr(g.User) == nil || len(vhStr(g.User)) == 0, "no user name")
	}
}

// VH_hdrParse: level 1, 2 and 3 headers with extended headers.
func VH_hdrParse() {
	MakeCrcTable()
	level := vrt.Param("level", 1)
	variant := vrt.Param("variant", 0)
	e := vhSymEnt(level, variant)
	n := vrt.Param("n", 3)
	name := vhNameBytes("name", n, false)
	var dir, user, group, wantDir []byte
	w2 := func(v int) []byte { return []byte{byte(v), byte(v >> 8)} }
	w4 := func(v int) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	hcrc := vhExt{0, []byte{0, 0}}
	if variant == 6 {
		hcrc = vhExt{0, []byte{0, 0, 7, 8, 9}}
	}
	nm := vhExt{1, name}
	mkDir := func() vhExt {
		dir = vhNameBytes("dir", 4, false)
		dir[1], dir[3] = 0xff, 0xff
		wantDir = append([]byte{}, dir...)
		wantDir[1], wantDir[3] = '/', '/'
		return vhExt{2, dir}
	}
	perm := vhExt{0x50, w2(e.mode)}
	ids := vhExt{0x51, append(w2(e.gid), w2(e.uid)...)}
	tm := vhExt{0x54, w4(e.utime)}
	hasMode, hasID := false, false
	switch variant {
	case 0:
		user, group = vhNameBytes("user", 2, true), vhNameBytes("group", 2, true)
		e.ext = []vhExt{hcrc, nm, mkDir(), perm, ids, {0x52, group}, {0x53, user}, tm}
		hasMode, hasID = true, true
	case 1: // other order, comment first
		user, group = vhNameBytes("user", 3, true), vhNameBytes("group", 1, true)
		e.ext = []vhExt{{0x3f, vrt.Bytes("comment", 4)}, {0x53, user}, tm, ids, perm, mkDir(), {0x52, group}, nm, hcrc}
		hasMode, hasID = true, true
	case 2: // MS-DOS and Windows
		e.os = 'M'
		e.ext = []vhExt{hcrc, mkDir(), {0x40, []byte{vrt.Byte("attr"), 0}}, {0x42, vrt.Bytes("big", 16)}, nm}
	case 3: // an unknown extended header of any type
		t := vrt.Byte("type")
		known := []byte{0, 1, 2, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54}
		for _, k := range known {
			vrt.Assume(t != k)
		}
		e.ext = []vhExt{hcrc, {t, vrt.Bytes("any", 6)}, nm, perm, {t, nil}}
		hasMode = true
	case 4: // known types which are too short for their field
		short := func(t byte, max int) vhExt {
			k := vrt.Conc(vrt.Int("short", 0, max))
			return vhExt{t, []byte("abcdefghijklmnopqrstuvwx")[:k]}
		}
		switch vrt.Choice("which", 3) {
		case 0:
			e.ext = []vhExt{hcrc, short(0x50, 1), short(0x51, 3), nm, short(0x54, 3), short(0x40, 1)}
		case 1:
			e.ext = []vhExt{hcrc, {0x50, []byte{1}}, nm, short(0x41, 23)}
		case 2:
			e.ext = []vhExt{hcrc, short(0x42, 15), nm, {0x40, nil}}
		}
	case 5: // generic OS, nothing but the name
		e.os = 0
		e.ext = []vhExt{hcrc, nm}
	case 7: // Windows time stamps: they count at level 1 only
		e.os = 'w'
		if tb := vrt.Param("tbits", 0); tb > 0 {
			e.utime = vrt.Param("tbase", 1500000000) + e.utime&(1<<uint(tb)-1)
		}
		var ft []byte
		for i := 0; i < 24; i++ {
			ft = append(ft, vrt.Byte("ft"))
		}
		// 100 ns units since 1601 of the modification time, after 1970 and
		// before 2106
		v := (int64(e.utime) + 11644473600) * 10000000
		for i := uint(0); i < 8; i++ {
			ft[8+i] = byte(v >> (8 * i))
		}
		e.ext = []vhExt{hcrc, {0x41, ft}, nm, {0x40, []byte{vrt.Byte("attr"), 0}}}
	case 8: // long names and comments
		long := func(name string, a ...int) []byte {
			k := a[vrt.Choice(name, len(a))]
			x := make([]byte, k)
			for i := range x {
				x[i] = byte('a' + i*7%26)
			}
			if level == 1 {
				x[k-1] = name1(vrt.Byte(name))
			}
			return x
		}
		user, group = []byte("u"), []byte("g")
		e.packed, e.orig, e.crc, e.utime = 0x123456, 0x654321, 0xabcd, 1500000001
		if level >= 2 {
			e.stamp = 1500000002
		}
		copy(name, "nam")
		tm.data = w4(e.utime)
		switch vrt.Choice("which", 3) {
		case 0:
			dir = append(long("dir", 1, 254, 255, 256, 257, 500, 700), 0xff)
			wantDir = append([]byte{}, dir...)
			wantDir[len(dir)-1] = '/'
			name = long("name", 1, 255, 256, 300)
		case 1:
			user, group = long("user", 255, 256, 1000), long("group", 256, 300)
		case 2:
			e.ext = []vhExt{{0x3f, long("comment", 253, 254, 255, 256, 2000, 4000)}}
		}
		nm.data = name
		e.ext = append(e.ext, hcrc, nm, vhExt{0x52, group}, vhExt{0x53, user}, tm)
		if dir != nil {
			e.ext = append(e.ext, vhExt{2, dir})
		}
	case 9: // many extended headers
		for k := []int{9, 20, 70, 300}[vrt.Choice("count", 4)]; k > 0; k-- {
			e.ext = append(e.ext, vhExt{0x3f, []byte{byte(k)}[:k%2]})
		}
		user, group = vhNameBytes("user", 2, true), vhNameBytes("group", 2, true)
		e.ext = append(e.ext, mkDir(), hcrc, nm, perm, ids, vhExt{0x52, group}, vhExt{0x53, user}, tm)
		hasMode, hasID = true, true
	case 6: // header CRC with more bytes after it
		e.ext = []vhExt{nm, hcrc, ids}
		hasID = true
	}
	if level == 1 {
		// the CRC extended header carries nothing to check here
		if vrt.Param("inline", 0) == 1 {
			// the file name in the base header, none in the extended ones
			var x []vhExt
			for _, y := range e.ext {
				if y.typ != 1 {
					x = append(x, y)
				}
			}
			e.ext = x
			e.name = name
		}
		if vrt.Param("old", 0) == 1 {
			e.old = vrt.Bytes("old", 3)
		}
	}
	if level == 2 && vrt.Param("pad", 0) == 1 {
		e.pad = true
	}
	b := vhHeader(e)
	g, used, err, ok := vhRead(append(append([]byte{}, b...), 9, 9))
	vrt.Assert(err == nil && ok, "a well formed header is accepted")
	vrt.Reach("parsed")
	vrt.Assert(used == len(b), "reading stops at the end of the header")
	vrt.Assert(g.HeaderSize == len(b), "header size is parsed")
	vhExpect(g, e, append(append([]byte{}, wantDir...), name...))
	vrt.Assert(g.HasCrc && g.Crc == e.crc, "CRC is parsed")
	vrt.Assert(g.ExtendType == e.os, "OS is parsed")
	attr := e.attr
	for _, x := range e.ext {
		if x.typ == 0x40 && len(x.data) == 2 {
			attr = x.data[0]
		}
	}
	vrt.Assert(g.Attribute == attr, "attribute is parsed")
	if hasMode {
		vrt.Assert(int(g.UnixMode) == e.mode, "mode is parsed")
	} else {
		vrt.Assert(g.UnixMode == 0o100666, "default mode")
	}
	if hasID {
		vrt.Assert(int(g.UnixUID) == e.uid, "uid is parsed")
		vrt.Assert(int(g.UnixGid) == e.gid, "gid is parsed")
	} else {
		vrt.Assert(g.UnixUID == 0 && g.UnixGid == 0, "default owner")
	}
	vrt.Assert(vrt.EqBytes(vhStr(g.User), user), "user name is parsed")
	vrt.Assert(vrt.EqBytes(vhStr(g.Group), group), "group name is parsed")
	if variant <= 1 || variant >= 8 || variant == 7 && level == 1 {
		vrt.Assert(g.UnixLastModifiedStamp == int64(e.utime), "unix time is parsed")
	} else if level >= 2 {
		vrt.Assert(g.UnixLastModifiedStamp == int64(e.stamp), "time is parsed")
	} else {
		vrt.Assert(g.UnixLastModifiedStamp == 0, "no time is given")
	}
}

// VH_hdrSys: names and methods of archives of every operating system.
func VH_hdrSys() {
	MakeCrcTable()
	level := vrt.Param("level", 1)
	e := &vhEnt{level: level, packed: 0x123456, orig: 0x654321, attr: 0x20, crc: 0xabcd}
	ms := []string{"-lh0-", "-lh5-", "-lhd-", "-lz5-", "-pm0-"}
	e.method = ms[vrt.Choice("method", len(ms))]
	list := []byte{0, 'U', 'M', 'm', '9', '2', 'K', '3', 'H', 'C', 'F', 'R', 'A', 'T', 'X', 'J'}
	if k := vrt.Choice("os", len(list)+1); k < len(list) {
		e.os = list[k]
	} else {
		e.os = vrt.Byte("os")
		for _, x := range list {
			vrt.Assume(e.os != x)
		}
	}
	n := vrt.Param("n", 2)
	raw := append(vrt.Bytes("name", n), 'Q')
	if vrt.Choice("sep", 2) == 1 { // ends in a separator
		raw = append(raw, 0xff)
	}
	ConvertCase = vrt.Choice("case", 2) == 1
	fold := false // to lower case, unless there are lower case letters
	if ConvertCase {
		switch e.os {
		case 'H', 'K', 'X', 'U', 'J', 'm', 'A':
		default:
			fold = true
		}
	}
	for _, c := range raw {
		vrt.Assume(c != 0)
		fold = vrt.And(fold, !vrt.And(c >= 'a', c <= 'z'))
	}
	var want []byte
	for _, c := range raw {
		w := vrt.Select(vrt.Or(c == 0xff, c == 92), '/', int(c))
		if e.os == 'm' {
			w = vrt.Select(c == '/', ':', vrt.Select(c == ':', '/', w))
		}
		w = vrt.Select(vrt.And(fold, vrt.And(c >= 'A', c <= 'Z')), int(c)+32, w)
		want = append(want, byte(w))
	}
	var b []byte
	if level == 0 {
		e.name = raw
		b = vhHeader(e)
		if e.os == 'U' { // takes the whole extension
			b = append(b, 'U', 0, 1, 2, 3, 4, 0xa4, 0x81, 0, 0, 0, 0)
		} else {
			b = append(b, e.os)
		}
		b[0] = byte(len(b) - 2)
		b[1] = vhSum(b[2:])
	} else {
		e.ext = []vhExt{{0, []byte{0, 0}}, {1, raw}}
		b = vhHeader(e)
	}
	g, used, err, ok := vhRead(append(append([]byte{}, b...), 9, 9))
	ConvertCase = false
	vrt.Assert(err == nil && ok, "a well formed header is accepted")
	vrt.Assert(used == len(b), "reading stops at the end of the header")
	if e.os == 'A' && raw[len(raw)-1] == 0xff && e.method == "-lh0-" {
		e.method = "-lhd-" // how an Amiga writes a directory
	}
	vhExpect(g, e, want)
	vrt.Assert(g.ExtendType == e.os, "OS is parsed")
	vrt.Assert(g.HasCrc && g.Crc == e.crc, "CRC is parsed")
	vrt.Reach("parsed")
}

// VH_hdrOver: a name that is too long for a level is cut; the header is well
// formed all the same.
func VH_hdrOver() {
	MakeCrcTable()
	h := NewLzHeader()
	level := vrt.Param("level", 0)
	h.HeaderLevel = byte(level)
	copy(h.Method, Lzhuff5Method)
	h.PackedSize, h.OriginalSize, h.Crc, h.HasCrc = int(vrt.U16("packed")), 5, uint(vrt.U16("crc")), true
	h.Attribute = 0x20
	h.ExtendType = ExtendUnix
	h.UnixMode = uint16(UnixFileRegular) | 0o644
	h.UnixLastModifiedStamp = 1500000000
	k := vrt.Conc(vrt.Int("len", vrt.Param("lo", 200), vrt.Param("hi", 300)))
	name := make([]byte, k)
	for i := range name {
		name[i] = byte('a' + i*7%26)
	}
	name[0] = vhNameBytes("first", 1, false)[0]
	h.Name = append(append([]byte{}, name...), 0)
	var out vhSink
	var w io.Writer = &out
	GenericFormat = vrt.Param("generic", 0) == 1
	err := WriteHeader(&w, h)
	GenericFormat = false
	if err != nil {
		vrt.Reach("refused")
		return
	}
	src := &vhSrc{b: append(append([]byte{}, out.b...), 1, 2, 3)}
	var r io.Reader = src
	g := NewLzHeader()
	gerr, ok := g.GetHeader(&r)
	vrt.Assert(gerr == nil && ok, "a written header is read back")
	vrt.Assert(src.r == len(out.b), "reading stops at the end of the header")
	vrt.Assert(g.PackedSize == h.PackedSize && g.OriginalSize == 5, "sizes survive")
	vrt.Assert(g.HasCrc && g.Crc == h.Crc, "CRC survives")
	vrt.Assert(g.UnixLastModifiedStamp == h.UnixLastModifiedStamp, "time stamp survives")
	got := vhStr(g.Name)
	vrt.Assert(len(got) <= len(name) && vrt.EqBytes(got, name[:len(got)]), "the name is cut at its end")
	vrt.Assert(len(got) == len(name) || len(got) >= vrt.Param("most", 221), "no more than necessary is cut")
	p := vhParse(out.b)
	vrt.Assert(p.ok && p.size == len(out.b), "the header follows the format")
	vrt.Reach("read")
}

// VH_hdrTrunc: a header cut short anywhere is not accepted.
func VH_hdrTrunc() {
	MakeCrcTable()
	level := vrt.Param("level", 0)
	e := vhEntry(level, "-lh5-", "name", nil, nil)
	e.packed = int(vrt.U16("packed"))
	e.crc = uint(vrt.U16("crc"))
	if level > 0 {
		e.ext = append(e.ext, vhExt{2, []byte{'d', 0xff}}, vhExt{0x3f, vrt.Bytes("comment", 3)})
	}
	b := vhHeader(e)
	cut := vrt.Int("cut", 0, len(b)-1)
	cut = vrt.Conc(cut)
	_, _, err, ok := vhRead(b[:cut])
	vrt.Assert(!ok, "a truncated header is not accepted")
	vrt.Assert(err != nil, "a truncated header is an error")
	vrt.Reach("rejected")
}

// VH_hdrDamage: whatever byte of a header is replaced by whatever value, a
// header that is still accepted satisfies the checksum or CRC of its level.
func VH_hdrDamage() {
	MakeCrcTable()
	level := vrt.Param("level", 0)
	e := vhEntry(level, "-lh5-", "nam", nil, nil)
	e.packed = 0x1234
	e.crc = 0x4321
	if level > 0 {
		e.ext = append(e.ext, vhExt{2, []byte{'d', 0xff}})
	}
	if level == 1 {
		e.ext = e.ext[1:]
	}
	b := vhHeader(e)
	lo := vrt.Param("lo", 0)
	hi := vrt.Param("hi", 1000)
	if hi > len(b)-1 {
		hi = len(b) - 1
	}
	at := vrt.Conc(vrt.Int("at", lo, hi))
	x := vrt.Byte("value")
	vrt.Assume(x != b[at])
	b[at] = x
	tailb := make([]byte, vrt.Param("tail", 40))
	full := append(append([]byte{}, b...), tailb...)
	g, _, err, ok := vhRead(full)
	if ok && err == nil {
		vrt.Reach("accepted")
		p := vhAccept(full)
		vrt.Assert(p, "an accepted header satisfies its checksum")
		if level == 2 || level == 3 {
			// CRC-16 detects every change of one byte that keeps the layout
			vrt.Assert(at < 2 || at == 20 || g.HeaderSize != len(b), "a changed byte under the header CRC is detected")
		}
	} else {
		vrt.Reach("rejected")
		vrt.Assert(vrt.Or(err != nil, at == 0), "a rejected header is an error")
	}
}

// VH_hdrField: the checksum or CRC field of a header has any value but the
// right one, and one byte that does not carry a length has any value.
func VH_hdrField() {
	MakeCrcTable()
	level := vrt.Param("level", 0)
	e := vhEntry(level, "-lh5-", "nam", nil, nil)
	e.packed = 0x1234
	e.crc = 0x4321
	if level > 0 {
		e.ext = append(e.ext, vhExt{2, []byte{'d', 0xff}})
	}
	b := vhHeader(e)
	at := []int{2, 6, 9, 12, 16, 19, 21, 22, 23}[vrt.Choice("at", 9)]
	if level < 2 && at == 21 {
		at = 24
	}
	b[at] = vrt.Byte("value")
	good := false
	if level < 2 {
		n := int(b[0])
		b[1] = vrt.Byte("sum")
		good = b[1] == vhSum(b[2:n+2])
	} else {
		k := 24 + 2 + 1
		if level == 3 {
			k = 28 + 4 + 1
		}
		b[k], b[k+1] = 0, 0
		c := vhCrc(b)
		b[k], b[k+1] = vrt.Byte("crc"), vrt.Byte("crc")
		good = vrt.And(b[k] == byte(c), b[k+1] == byte(c>>8))
	}
	vrt.Assume(!good)
	_, _, err, ok := vhRead(append(append([]byte{}, b...), 1, 2, 3))
	vrt.Assert(!ok, "a header whose checksum or CRC does not match is not accepted")
	vrt.Assert(err != nil, "a header whose checksum or CRC does not match is an error")
	vrt.Reach("rejected")
}

// vhAccept: the integrity check of the level, evaluated on the raw bytes.
func vhAccept(b []byte) bool {
	switch b[20] {
	case 0, 1:
		n := int(b[0])
		return n+2 <= len(b) && vhSum(b[2:n+2]) == b[1]
	}
	p := vhParse(b)
	return p.ok
}

// VH_hdrAny: any bytes at all; the parser neither crashes nor accepts a
// header without its integrity check.
func VH_hdrAny() {
	MakeCrcTable()
	n := vrt.Param("n", 30)
	level := vrt.Param("level", 0)
	b := vrt.Bytes("b", n)
	if n > 20 {
		if level >= 0 {
			b[20] = byte(level)
		} else {
			vrt.Assume(b[20] > 3)
		}
	}
	if hs := vrt.Param("hs", -1); hs >= 0 {
		b[0] = byte(hs)
		if level == 2 {
			b[1] = byte(hs >> 8)
		}
	}
	if nl := vrt.Param("nl", -1); nl >= 0 && n > 21 {
		b[21] = byte(nl)
	}
	if lim := vrt.Param("hsmax", 0); lim > 0 { // every header size up to lim
		vrt.Assume(vrt.And(int(b[0]) >= vrt.Param("hsmin", 0), int(b[0]) <= lim))
		b[0] = byte(vrt.Conc(int(b[0])))
	}
	if lim := vrt.Param("nlmax", 0); lim > 0 { // every name length up to lim
		vrt.Assume(int(b[21]) <= lim)
		b[21] = byte(vrt.Conc(int(b[21])))
	}
	if vrt.Param("date", 0) == 0 && level >= 0 && level < 2 && n > 18 {
		b[15], b[16], b[17], b[18] = 0, 0x15, 0xee, 0x4a
	}
	if vrt.Param("base", 1) == 0 { // a plain base header, only its extensions are arbitrary
		copy(b[2:], "-lh5-")
		copy(b[7:20], []byte{1, 2, 0, 0, 3, 4, 0, 0, 0, 0x15, 0xee, 0x4a, 0x20})
		if level >= 2 {
			copy(b[21:], []byte{0x12, 0x34, 'U'})
		}
	}
	// the chain of extended headers: every size up to xmax, some large ones
	xat := vrt.Param("xat", 0)
	if xat < 0 { // the last two bytes of the base header
		xat = int(b[0])
	}
	for at := xat; at > 0 && at+1 < n; {
		x := int(b[at]) | int(b[at+1])<<8
		vrt.Assume(vrt.Or(x <= vrt.Param("xmax", 6), vrt.Or(x == 4096, vrt.Or(x == 4097, x == 0xffff))))
		x = vrt.Conc(x)
		b[at], b[at+1] = byte(x), byte(x>>8)
		if level == 3 && at+3 < n && x != 0xffff {
			b[at+2], b[at+3] = 0, 0
		}
		if x == 0 {
			break
		}
		at += x
	}
	vrt.MergeInts(true)
	src := &vhSrc{b: b}
	var r io.Reader = src
	g := NewLzHeader()
	err, ok := g.GetHeader(&r)
	vrt.Assert(src.r <= n, "no more bytes than there are")
	if ok {
		vrt.Reach("accepted")
		vrt.Assert(err == nil, "accepted without error")
		vrt.Assert(int(g.HeaderLevel) == level, "only known levels are accepted")
		if level < 2 {
			hs := int(b[0])
			vrt.Assert(hs+2 <= n, "the header fits")
			vrt.Assert(b[1] == vhSum(b[2:hs+2]), "the checksum matches")
		}
		vrt.Assert(g.PackedSize >= 0 && g.OriginalSize >= 0, "sizes are not negative")
		vrt.Assert(len(g.Name) > 0 && g.Name[len(g.Name)-1] == 0, "names end with NUL")
	} else {
		vrt.Reach("rejected")
	}
}
