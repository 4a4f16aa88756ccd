package lha

import (
	"MODULE/zzverif/vfmt"
	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

// vhFields splits what was printed into lines and words; NULs do not count.
func vhFields(out []byte) (lines [][]string) {
	var line []string
	var word []byte
	end := func() {
		if len(word) > 0 {
			line = append(line, string(word))
		}
		word = nil
	}
	for _, c := range out {
		switch c {
		case 0:
		case ' ':
			end()
		case '\n':
			end()
			lines = append(lines, line)
			line = nil
		default:
			word = append(word, c)
		}
	}
	return lines
}

func vhDec(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return vhDec(n/10) + string(rune('0'+n%10))
}

// vhRatio is packed/orig in per cent with one decimal.
func vhRatio(packed, orig int) string {
	if orig == 0 {
		return "******"
	}
	t := (packed*2000 + orig) / (2 * orig)
	return vhDec(t/10) + "." + vhDec(t%10) + "%"
}

func vhHex4(v uint) string {
	const d = "0123456789abcdef"
	return string([]byte{d[v>>12&15], d[v>>8&15], d[v>>4&15], d[v&15]})
}

// VH_list: the listing has one line for each entry asked for, in order, with
// what its header says, and the right totals.
func VH_list() {
	vhStart()
	level := vrt.Param("level", 1)
	modes := []int{0o100644, 0o100755, 0o104711, 0o102070, 0o101777, 0o040755, 0o120777, 0o100001}
	perms := []string{"-rw-r--r--", "-rwxr-xr-x", "-rws--x--x", "----rws---", "-rwxrwxrwt", "drwxr-xr-x", "lrwxrwxrwx", "---------x"}
	ids := [][2]int{{0, 0}, {501, 20}, {65535, 65534}}
	names := []string{"first", "second.txt", "z"}
	origs := []int{0, 7, 123457}
	k := vrt.Choice("mode", len(modes))
	id := ids[vrt.Choice("id", len(ids))]
	es := make([]*vhEnt, 3)
	for i, n := range names {
		body := []byte("abcdefghijklm")[:i*4]
		e := vhEntry((level+i)%3, "-lh5-", n, body, body)
		e.os, e.attr = 'U', 0x20
		e.mode, e.uid, e.gid, e.orig = modes[0], 7, 8, 1000
		e.crc = 0x00ab
		if i == 1 {
			e.mode, e.uid, e.gid = modes[k], id[0], id[1]
			e.orig = origs[vrt.Choice("orig", 3)]
			e.crc = uint(0xbeef)
			if k == 5 || k == 6 {
				e.method = "-lhd-"
				e.orig = 0
			}
		}
		if e.level > 0 {
			var x []vhExt
			for _, y := range e.ext {
				if y.typ != 0x50 {
					x = append(x, y)
				}
			}
			e.ext = append(x, vhExt{0x50, []byte{byte(e.mode), byte(e.mode >> 8)}},
				vhExt{0x51, []byte{byte(e.gid), byte(e.gid >> 8), byte(e.uid), byte(e.uid >> 8)}})
		}
		es[i] = e
	}
	show := []string{names[0], names[1], names[2]}
	if k == 6 { // a link to "to"
		set := func(b []byte) {
			if es[1].level < 2 {
				es[1].name = b
				return
			}
			for i := range es[1].ext {
				if es[1].ext[i].typ == 1 {
					es[1].ext[i].data = b
				}
			}
		}
		set([]byte("second.txt|to"))
	}
	user := vrt.Param("user", 0) == 1 && es[1].level > 0
	if user {
		es[1].ext = append(es[1].ext, vhExt{0x53, []byte("me")}, vhExt{0x52, []byte("us")})
	}
	vos.Put(vhArc, vhArchive(es...))
	l := NewLha(vhArc)
	l.VerboseListing = vrt.Choice("verboselisting", 2) == 1
	l.Verbose = vrt.Choice("verbose", 2) == 1
	pick := vrt.Choice("pick", 4) // 3: everything
	if pick < 3 {
		l.CmdFilev, l.CmdFilec = []string{names[pick]}, 1
	}
	Quiet = vrt.Choice("quiet", 2) == 1
	vos.Events, vos.Out = nil, nil
	vfmt.Capture = true
	err := CommandList(vhArc, l)
	vfmt.Capture = false
	vrt.Assume(!vfmt.Bad)
	vrt.Assert(err == nil, "listing reports no error")
	vrt.Assert(len(vos.Events) == 0, "listing changes nothing")
	lines := vhFields(vos.Out)
	at := 0
	next := func() []string {
		vrt.Assert(at < len(lines), "the listing has a line for everything")
		at++
		return lines[at-1]
	}
	if !Quiet {
		next()
		next()
	}
	files, packed, orig := 0, 0, 0
	for i, e := range es {
		if pick < 3 && pick != i {
			continue
		}
		files++
		packed += e.packed
		orig += e.orig
		var want []string
		name := []string{show[i]}
		if i == 1 && k == 6 {
			name = append(name, "->", "to")
		}
		if l.Verbose {
			vrt.Assert(vhSame(next(), name), "the line before an entry has its name")
		}
		m := 0
		if i == 1 {
			m = k
		}
		owner := vhDec(e.uid) + "/" + vhDec(e.gid)
		if i == 1 && user {
			owner = "me/us"
		}
		want = append(want, perms[m], owner)
		if l.VerboseListing {
			want = append(want, vhDec(e.packed))
		}
		want = append(want, vhDec(e.orig), vhRatio(e.packed, e.orig))
		if l.VerboseListing {
			want = append(want, e.method, vhHex4(e.crc))
		}
		if l.Verbose {
			want = append(want, "["+vhDec(e.level)+"]")
		} else {
			want = append(want, name...)
		}
		vrt.Assert(vhSame(next(), want), "the line of an entry has what its header says")
	}
	if !Quiet {
		next()
		want := []string{"Total", vhDec(files), "files"}
		if files == 1 {
			want[2] = "file"
		}
		if l.VerboseListing {
			want = append(want, vhDec(packed))
		}
		want = append(want, vhDec(orig), vhRatio(packed, orig))
		vrt.Assert(vhSame(next(), want), "the totals are right")
	}
	vrt.Assert(at == len(lines), "nothing else is listed")
	vrt.Reach("done")
}

func vhSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// VH_listCut: an archive that is cut inside an entry is reported as such,
// after the entries before the cut were listed.
func VH_listCut() {
	vhStart()
	es := vhMix(vrt.Param("mix", 0), [][]byte{{1, 2, 3}, vrt.Bytes("body", 2), {5, 6}})
	arc := vhArchive(es...)
	cut := vrt.Conc(vrt.Int("cut", 1, len(arc)-1))
	at, whole, boundary := 0, 0, false
	for _, e := range es {
		at += len(vhHeader(e)) + len(e.body)
		if at <= cut {
			whole++
		}
		if at == cut {
			boundary = true
		}
	}
	vos.Put(vhArc, arc[:cut])
	vos.Events, vos.Out = nil, nil
	l := NewLha(vhArc)
	var err error
	switch vrt.Choice("op", 3) {
	case 0:
		Quiet = true
		vfmt.Capture = true
		err = CommandList(vhArc, l)
		vfmt.Capture = false
		vrt.Assume(!vfmt.Bad)
		lines := vhFields(vos.Out)
		vrt.Assert(len(lines) >= whole, "the entries before the cut are listed")
	case 1:
		var hs []*LzHeader
		hs, err = l.Headers()
		vrt.Assert(len(hs) >= whole, "the entries before the cut are listed")
	case 2:
		VerifyMode = true
		err = CommandExtract(vhArc, l)
		VerifyMode = false
	}
	vrt.Assert(boundary || err != nil, "an archive that is cut inside an entry is reported")
	vrt.Assert(len(vos.Events) == 0, "listing changes nothing")
	vrt.Reach("done")
}

// VH_listKinds: entries of other systems and entries without a CRC.
func VH_listKinds() {
	vhStart()
	systems := []struct {
		id   byte
		name string
	}{{0, "[generic]"}, {'M', "[MS-DOS]"}, {'m', "[Mac OS]"}, {'9', "[OS-9]"}, {'2', "[OS/2]"}, {'3', "[OS-386]"},
		{'H', "[Human68K]"}, {'C', "[CP/M]"}, {'F', "[FLEX]"}, {'R', "[Runser]"}, {'T', "[TownsOS]"}, {'J', "[JAVA]"},
		{'w', "[unknown]"}, {'?', "[unknown]"}, {'K', ""}, {'X', ""}, {'U', ""}, {1, "no crc"}}
	// the last three: permissions of OS-9/68000 (two systems), unix, no CRC
	n := len(systems) - 4
	pick := vrt.Choice("entry", n+256+256+10+1)
	sys, m := systems[min(pick, n)], 0
	switch {
	case pick < n:
	case pick < n+256:
		m = pick - n
	case pick < n+512:
		sys, m = systems[n+1], pick-n-256
	case pick < n+522:
		sys, m = systems[n+2], []int{0o750, 0o027, 0o4644, 0o2644, 0o1644, 0o4755, 0o2755, 0o1777, 0o7000, 0}[pick-n-512]
	default:
		sys = systems[n+3]
	}
	level := vrt.Param("level", 1)
	body := []byte("abc")
	e := vhEntry(level, "-lh5-", "name", body, body)
	e.os, e.orig, e.crc = sys.id, 1000, 0x12ef
	first := sys.name
	owner := ""
	crc := "12ef"
	switch {
	case sys.id == 1: // only headers of level 0 can be without
		e = vhEntry(0, "-lh5-", "name", body, body)
		e.orig, e.unix, e.level = 1000, false, 0
		first, crc = "[generic]", "****"
	case sys.id == 'U':
		first = vhPerm(m)
		owner = "501/20"
		for i := range e.ext {
			if e.ext[i].typ == 0x50 {
				e.ext[i].data = []byte{byte(m), byte(m>>8 | 0x80)}
			}
		}
		e.ext = append(e.ext, vhExt{0x51, []byte{20, 0, 0xf5, 1}})
	case first == "": // permissions of OS-9/68000
		b := []byte("dsewrewr")
		for i := range b {
			if m>>(7-i)&1 == 0 {
				b[i] = '-'
			}
		}
		first = string(b)
		owner = "501/20"
		for i := range e.ext {
			if e.ext[i].typ == 0x50 {
				e.ext[i].data = []byte{byte(m), 0}
			}
		}
		e.ext = append(e.ext, vhExt{0x51, []byte{20, 0, 0xf5, 1}})
	}
	if owner != "" && (m == 0 || m == 0o750) && level > 0 { // names instead of numbers
		who := vrt.Choice("owner", 4)
		u, g := "501", "20"
		if who&1 == 1 {
			u = "joe"
			e.ext = append(e.ext, vhExt{0x53, []byte(u)})
		}
		if who&2 == 2 {
			g = "staff"
			e.ext = append(e.ext, vhExt{0x52, []byte(g)})
		}
		owner = u + "/" + g
	}
	h := vhHeader(e)
	if sys.id == 1 {
		h = h[:len(h)-2]
		h[0] = byte(len(h) - 2)
		h[1] = vhSum(h[2:])
	}
	arc := append(append(h, body...), 0)
	vos.Put(vhArc, arc)
	l := NewLha(vhArc)
	l.VerboseListing = vrt.Choice("verboselisting", 2) == 1
	Quiet = true
	vos.Events, vos.Out = nil, nil
	vfmt.Capture = true
	err := CommandList(vhArc, l)
	vfmt.Capture = false
	vrt.Assume(!vfmt.Bad)
	vrt.Assert(err == nil, "listing reports no error")
	lines := vhFields(vos.Out)
	vrt.Assert(len(lines) == 1, "the entry has a line")
	want := vhFields([]byte(first + "\n"))[0]
	if owner != "" {
		want = append(want, owner)
	}
	if l.VerboseListing {
		want = append(want, "3")
	}
	want = append(want, "1000", "0.3%")
	if l.VerboseListing {
		want = append(want, "-lh5-", crc)
	}
	want = append(want, "name")
	// a name of a system may reach up to the next column
	got := lines[0]
	if owner == "" {
		got = vhJoin(got)
		want = vhJoin(want)
	}
	vrt.Assert(vhSame(got, want), "the line of an entry has what its header says")
	vrt.Reach("done")
}

func vhJoin(a []string) []string {
	s := ""
	for _, x := range a {
		s += x
	}
	return []string{s}
}

// vhPerm is a mode in letters.
func vhPerm(m int) string {
	b := []byte("-rwxrwxrwx")
	for i := 1; i < 10; i++ {
		if m>>(9-i)&1 == 0 {
			b[i] = '-'
		}
	}
	for i, c := range "sst" {
		if m>>(11-i)&1 == 1 {
			b[3+3*i] = byte(c)
		}
	}
	return string(b)
}
