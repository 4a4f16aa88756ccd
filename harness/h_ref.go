package lha

// Reference model of the archive format, written from the LHA header
// specification and independent of the code under test.

type vhExt struct {
	typ  byte
	data []byte
}

// vhEnt is one archive entry as the format describes it.
type vhEnt struct {
	level  int
	method string
	packed int
	orig   int
	stamp  int // level 0, 1: MS-DOS date and time; level 2, 3: unix time
	attr   byte
	name   []byte // level 0: path; level 1: file name
	crc    uint
	os     byte
	unix   bool // level 0: has the unix extension
	utime  int
	mode   int
	uid    int
	gid    int
	ext    []vhExt // level 1, 2, 3
	old    []byte  // level 1: area after the OS identifier
	pad    bool    // level 2: padding byte
	body   []byte
}

func vhLe16(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }
func vhLe32(b []byte, v int) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func vhSum(b []byte) byte {
	s := byte(0)
	for i := 0; i < len(b); i++ {
		s += b[i]
	}
	return s
}

// vhHeader builds the bytes of the header of e.
func vhHeader(e *vhEnt) []byte {
	var b []byte
	b = append(b, 0, 0)
	b = append(b, e.method...)
	extlen := 0
	for _, x := range e.ext {
		extlen += 3 + len(x.data)
	}
	if e.level == 1 {
		b = vhLe32(b, e.packed+extlen)
	} else {
		b = vhLe32(b, e.packed)
	}
	b = vhLe32(b, e.orig)
	b = vhLe32(b, e.stamp)
	b = append(b, e.attr, byte(e.level))
	switch e.level {
	case 0, 1:
		b = append(b, byte(len(e.name)))
		b = append(b, e.name...)
		b = vhLe16(b, int(e.crc))
		if e.level == 0 {
			if e.unix {
				b = append(b, 'U', 0)
				b = vhLe32(b, e.utime)
				b = vhLe16(b, e.mode)
				b = vhLe16(b, e.uid)
				b = vhLe16(b, e.gid)
			}
			b[0] = byte(len(b) - 2)
			b[1] = vhSum(b[2:])
			return b
		}
		b = append(b, e.os)
		b = append(b, e.old...)
		n := len(b)
		for _, x := range e.ext {
			b = vhLe16(b, 3+len(x.data))
			b = append(b, x.typ)
			b = append(b, x.data...)
		}
		b = vhLe16(b, 0)
		b[0] = byte(n)
		b[1] = vhSum(b[2 : n+2])
		return b
	}
	b = vhLe16(b, int(e.crc))
	b = append(b, e.os)
	w := 2
	if e.level == 3 {
		w = 4
		b[0] = 4
		b = vhLe32(b, 0)
	}
	at := -1
	for _, x := range e.ext {
		if w == 2 {
			b = vhLe16(b, 3+len(x.data))
		} else {
			b = vhLe32(b, 5+len(x.data))
		}
		b = append(b, x.typ)
		if x.typ == 0 {
			at = len(b)
		}
		b = append(b, x.data...)
	}
	if w == 2 {
		b = vhLe16(b, 0)
		if e.pad || len(b)&0xff == 0 {
			b = append(b, 0)
		}
		b[0], b[1] = byte(len(b)), byte(len(b)>>8)
	} else {
		b = vhLe32(b, 0)
		b[24], b[25] = byte(len(b)), byte(len(b)>>8)
	}
	if at >= 0 {
		b[at], b[at+1] = 0, 0
		c := vhCrc(b)
		b[at], b[at+1] = byte(c), byte(c>>8)
	}
	return b
}

// vhArchive builds an archive of the entries, end mark included.
func vhArchive(es ...*vhEnt) []byte {
	var b []byte
	for _, e := range es {
		b = append(b, vhHeader(e)...)
		b = append(b, e.body...)
	}
	return append(b, 0)
}

// vhStored is an entry of stored data with the given level.
func vhStored(level int, name string, body []byte) *vhEnt {
	return vhEntry(level, "-lh0-", name, body, body)
}

// vhEntry is a regular file; the name must not contain a slash.
func vhEntry(level int, method, name string, packed, plain []byte) *vhEnt {
	e := &vhEnt{level: level, method: method, packed: len(packed), orig: len(plain), attr: 0x20,
		crc: vhCrc(plain), body: packed, os: 'U', unix: true, utime: 1500000000, mode: 0o100644, stamp: 0x4af32a00}
	switch level {
	case 0:
		e.name = []byte(name)
	case 1:
		e.name = []byte(name)
		e.ext = []vhExt{{0x50, []byte{0xa4, 0x81}}, {0x54, []byte{0x00, 0x2f, 0x68, 0x59}}}
	default:
		e.stamp = 1500000000
		e.ext = []vhExt{{0, []byte{0, 0}}, {1, []byte(name)}, {0x50, []byte{0xa4, 0x81}}}
	}
	return e
}

// vhParsed is what the reference parser reads from a header.
type vhParsed struct {
	ok      bool
	size    int // header bytes, extended headers included
	level   int
	method  string
	packed  int // bytes of data after the header
	orig    int
	stamp   int
	attr    byte
	name    []byte
	dir     []byte
	crc     int
	hasCrc  bool
	os      byte
	mode    int
	hasMode bool
	uid     int
	gid     int
	hasID   bool
	utime   int
	hasTime bool
	user    []byte
	group   []byte
}

func vhWord(b []byte, i int) int { return int(b[i]) | int(b[i+1])<<8 }
func vhLong(b []byte, i int) int {
	return int(b[i]) | int(b[i+1])<<8 | int(b[i+2])<<16 | int(b[i+3])<<24
}

// vhParse reads a header by the book. The layout bytes (sizes, types) must be
// concrete, the field contents may be symbolic.
func vhParse(b []byte) (p vhParsed) {
	if len(b) < 22 {
		return
	}
	p.level = int(b[20])
	p.method = string(b[2:7])
	p.packed = vhLong(b, 7)
	p.orig = vhLong(b, 11)
	p.stamp = vhLong(b, 15)
	p.attr = b[19]
	i, w := 0, 2
	switch p.level {
	case 0, 1:
		n := int(b[0]) + 2
		if n > len(b) || b[1] != vhSum(b[2:n]) {
			return
		}
		x := int(b[21])
		if 24+x > n {
			return
		}
		p.name = b[22 : 22+x]
		p.crc = vhWord(b, 22+x)
		p.hasCrc = true
		p.size = n
		if p.level == 0 {
			if n == 24+x {
				p.ok = true
				return
			}
			p.os = b[24+x]
			if p.os == 'U' && n >= 36+x {
				p.utime = vhLong(b, 26+x)
				p.mode = vhWord(b, 30+x)
				p.uid = vhWord(b, 32+x)
				p.gid = vhWord(b, 34+x)
				p.hasTime, p.hasMode, p.hasID = true, true, true
			}
			p.ok = true
			return
		}
		p.os = b[24+x]
		i = n - 2
	case 2:
		p.crc = vhWord(b, 21)
		p.hasCrc = true
		p.os = b[23]
		p.size = vhWord(b, 0)
		i = 24
	case 3:
		if vhWord(b, 0) != 4 {
			return
		}
		p.crc = vhWord(b, 21)
		p.hasCrc = true
		p.os = b[23]
		p.size = vhLong(b, 24)
		w = 4
		i = 28
	default:
		return
	}
	crcAt := -1
	for {
		if i+w > len(b) {
			return
		}
		n := vhWord(b, i)
		if w == 4 {
			n = vhLong(b, i)
		}
		i += w
		if n == 0 {
			break
		}
		if n < w+1 || i+n > len(b) {
			return
		}
		d := b[i+1 : i+n-w]
		switch b[i] {
		case 0:
			crcAt = i + 1
		case 1:
			p.name = d
		case 2:
			p.dir = d
		case 0x50:
			p.mode = vhWord(d, 0)
			p.hasMode = true
		case 0x51:
			p.gid = vhWord(d, 0)
			p.uid = vhWord(d, 2)
			p.hasID = true
		case 0x52:
			p.group = d
		case 0x53:
			p.user = d
		case 0x54:
			p.utime = vhLong(d, 0)
			p.hasTime = true
		}
		i += n - w
	}
	if p.level == 1 {
		p.packed -= i - p.size
		p.size = i
		p.ok = true
		return
	}
	if p.size != i && !(p.level == 2 && p.size == i+1) || p.size > len(b) || p.size&0xff == 0 && p.level == 2 {
		return
	}
	if crcAt < 0 {
		return
	}
	c := append([]byte{}, b[:p.size]...)
	c[crcAt], c[crcAt+1] = 0, 0
	p.ok = int(vhCrc(c)) == vhWord(b, crcAt)
	return
}
