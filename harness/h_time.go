package lha

import (
	"io"

	"MODULE/zzverif/vrt"
)

// vhDays counts the days from 1970-01-01 to a date of the Gregorian calendar.
func vhDays(y, m, d int) int {
	n := 0
	leap := func(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	for i := 1970; i < y; i++ {
		n += 365
		if leap(i) {
			n++
		}
	}
	ml := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	for i := 1; i < m; i++ {
		n += ml[i-1]
		if i == 2 && leap(y) {
			n++
		}
	}
	return n + d - 1
}

// vhDate picks a date; its parts are case splits.
func vhDate() (y, m, d int) {
	ys := []int{1980, 1999, 2000, 2001, 2004, 2024, 2037, 2099, 2100, 2105}
	if vrt.Param("year", 0) > 0 {
		y = vrt.Param("year", 0)
	} else {
		y = ys[vrt.Choice("year", len(ys))]
	}
	m = 1 + vrt.Choice("month", 12)
	ds := []int{1, 2, 15, 28, 29, 30, 31}
	d = ds[vrt.Choice("day", len(ds))]
	ml := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && y%4 == 0 && y != 2100 {
		ml++
	}
	if d > ml {
		d = ml
	}
	return
}

// VH_dosRead: the MS-DOS time stamp of a header without a unix one is the time
// of the entry.
func VH_dosRead() {
	MakeCrcTable()
	level := vrt.Param("level", 0)
	y, m, d := vhDate()
	var h, mi, s int
	if vrt.Param("split", 1) == 1 {
		h = []int{0, 1, 12, 23}[vrt.Choice("hour", 4)]
		mi = []int{0, 1, 31, 59}[vrt.Choice("minute", 4)]
		s = []int{0, 1, 29}[vrt.Choice("second", 3)]
	} else {
		h, mi, s = int(vrt.Byte("hour")), int(vrt.Byte("minute")), int(vrt.Byte("second"))
		vrt.Assume(vrt.And(h < 24, vrt.And(mi < 60, s < 30)))
	}
	e := &vhEnt{level: level, method: "-lh5-", packed: 1, orig: 2, attr: 0x20, crc: 3, os: 'M', name: []byte("n")}
	e.stamp = (y-1980)<<25 | m<<21 | d<<16 | h<<11 | mi<<5 | s
	if level >= 2 { // in seconds
		e.stamp = vhDays(y, m, d)*86400 + h*3600 + mi*60 + 2*s
		e.name, e.ext = nil, []vhExt{{0, []byte{0, 0}}, {1, []byte("n")}}
	}
	b := vhHeader(e)
	g, _, err, ok := vhRead(append(append([]byte{}, b...), 9, 9))
	vrt.Assert(err == nil && ok, "a well formed header is accepted")
	want := int64(vhDays(y, m, d))*86400 + int64(h*3600+mi*60+2*s)
	vrt.Assert(g.UnixLastModifiedStamp == want, "the MS-DOS time is the time of the entry")
	vrt.Reach("read")
}

// VH_dosWrite: the MS-DOS time stamp that is written is the time of the file.
func VH_dosWrite() {
	MakeCrcTable()
	level := vrt.Param("level", 0)
	y, m, d := vhDate()
	var sec int
	if vrt.Param("split", 1) == 1 {
		sec = []int{0, 1, 59, 60, 3599, 3600, 43199, 43200, 86398, 86399}[vrt.Choice("second", 10)]
	} else {
		sec = int(vrt.U32("second"))
		vrt.Assume(sec < 86400)
	}
	h := NewLzHeader()
	h.HeaderLevel = byte(level)
	copy(h.Method, Lzhuff5Method)
	copy(h.Name, "n")
	h.UnixMode = uint16(UnixFileRegular)
	h.UnixLastModifiedStamp = int64(vhDays(y, m, d))*86400 + int64(sec)
	var out vhSink
	var w io.Writer = &out
	GenericFormat = vrt.Param("generic", 0) == 1
	vrt.Assert(WriteHeader(&w, h) == nil, "a header is written without an error")
	GenericFormat = false
	p := vhParse(out.b)
	vrt.Assert(p.ok, "the header follows the format")
	if level == 2 {
		vrt.Assert(p.stamp == int(h.UnixLastModifiedStamp), "level 2 has the unix time")
	} else {
		vrt.Assert(p.stamp>>25 == y-1980, "year of the MS-DOS time")
		vrt.Assert(p.stamp>>21&15 == m, "month of the MS-DOS time")
		vrt.Assert(p.stamp>>16&31 == d, "day of the MS-DOS time")
		vrt.Assert((p.stamp>>11&31)*3600+(p.stamp>>5&63)*60+(p.stamp&31)*2 == sec&^1, "time of day of the MS-DOS time")
		vrt.Assert(p.stamp>>5&63 < 60 && p.stamp&31 < 30, "minutes and seconds are in range")
	}
	vrt.Reach("written")
	// and back
	var r io.Reader = &vhSrc{b: append(append([]byte{}, out.b...), 9, 9)}
	g := NewLzHeader()
	err, ok := g.GetHeader(&r)
	vrt.Assert(err == nil && ok, "a written header is read back")
	back := h.UnixLastModifiedStamp
	if vrt.Param("generic", 0) == 1 && level < 2 {
		back &^= 1
	}
	vrt.Assert(g.UnixLastModifiedStamp == back, "the time survives")
}
