package lha

import (
	"time"

	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

func vhUnder(path, dir string) bool {
	return len(path) > len(dir)+1 && path[:len(dir)] == dir && path[len(dir)] == '/' || path == dir
}

// vhContained checks every change of the file system made so far.
func vhContained(dir string) {
	for _, e := range vos.Events {
		vrt.Assert(vhUnder(e.Path, dir), "only the extraction directory is changed")
		if e.Op == "rename" {
			vrt.Assert(vhUnder(e.Arg, dir), "only the extraction directory is changed")
		}
	}
}

// vhHostile: an entry whose name bytes are given, in the way of each level.
func vhHostile(level int, name, dir, body []byte, mode int, method string) *vhEnt {
	e := vhEntry(level, method, "x", body, body)
	m := []byte{byte(mode), byte(mode >> 8)}
	e.mode = mode
	switch level {
	case 0:
		e.name = append(append([]byte{}, dir...), name...)
	case 1:
		e.name = name
		e.ext = []vhExt{{0x50, m}}
	default:
		e.ext = []vhExt{{0, []byte{0, 0}}, {1, name}, {0x50, m}}
	}
	if level > 0 && dir != nil {
		e.ext = append(e.ext, vhExt{2, dir})
	}
	return e
}

// VH_contain: whatever the name of an entry, extraction changes nothing
// outside the extraction directory, also when links are in the way.
func VH_contain() {
	vhStart()
	level := vrt.Param("level", 0)
	n := vrt.Param("n", 3)
	name := vrt.Bytes("name", n)
	if vrt.Param("alpha", 0) == 2 { // dots and slashes
		for i := range name {
			c := name[i]
			vrt.Assume(vrt.Or(c == '.', vrt.Or(c == '/', c == 'a')))
			name[i] = vhSplit(c)
		}
	} else if vrt.Param("alpha", 0) == 1 { // the characters that matter
		for i := range name {
			c := name[i]
			vrt.Assume(vrt.Or(c == '.', vrt.Or(c == '/', vrt.Or(c == 0xff, vrt.Or(c == '\\', vrt.Or(c == 'a', c == 'l'))))))
			name[i] = vhSplit(c)
		}
	} else {
		for i := range name {
			vrt.Assume(name[i] != 0)
		}
	}
	var dir []byte
	if dn := vrt.Param("dir", 0); dn > 0 {
		dir = vrt.Bytes("dir", dn)
		for i := range dir {
			c := dir[i]
			vrt.Assume(vrt.Or(c == '.', vrt.Or(c == '/', vrt.Or(c == 0xff, vrt.Or(c == 'd', c == 0)))))
			dir[i] = vhSplit(c)
		}
	}
	mode, method := 0o100644, "-lh0-"
	body := []byte("x")
	switch vrt.Param("kind", 0) {
	case 1: // directory
		mode, method, body = 0o040755, "-lhd-", nil
	case 2: // link to somewhere else
		mode, method, body = 0o120777, "-lhd-", nil
		name = append(append([]byte{}, name...), "|/etc/passwd"...)
	case 3: // directory mode with a data method
		mode = 0o040755
	case 4: // neither file nor directory nor link
		mode = 0o010644
	case 5: // a file by its mode, a directory by its method
		method, body = "-lhd-", nil
	}
	e := vhHostile(level, name, dir, body, mode, method)
	e.os = vhOS()
	es := []*vhEnt{e}
	if vrt.Param("twice", 0) == 1 { // first a link, then a file through it
		l := vhHostile(level, []byte("l|/etc"), nil, nil, 0o120777, "-lhd-")
		es = []*vhEnt{l, e}
	}
	vos.Put("/etc/passwd", []byte("root"))
	vos.Put("/work/out/keep", []byte("k"))
	out := "/work/out"
	if vrt.Param("links", 0) == 1 { // links that lead out are already there
		_ = vos.Symlink("/etc", "/work/out/a")
		_ = vos.Symlink("/etc/passwd", "/work/out/l")
	}
	if vrt.Param("links", 0) == 2 { // and to what does not exist
		_ = vos.Symlink("/etc/none", "/work/out/a")
		_ = vos.Symlink("../none", "/work/out/l")
	}
	vos.Put("/arc/a.lzh", vhArchive(es...))
	vos.Events = nil
	vos.SetStdin([]byte("yyyyyyyyyy\nyyy\n"))
	l := NewLha("/arc/a.lzh")
	if vrt.Param("cwd", 0) == 1 {
		vos.Cwd = out
	} else {
		l.ExtractDirectory = out
	}
	l.IgnoreDirectory = vrt.Param("flat", 0) == 1
	l.Force = vrt.Param("force", 1) == 1
	err := CommandExtract("/arc/a.lzh", l)
	vhContained(out)
	if err == nil {
		vrt.Reach("extracted")
	} else {
		vrt.Reach("refused")
	}
	b, ok := vos.Get("/etc/passwd")
	vrt.Assert(ok && string(b) == "root", "a file outside is left alone")
	a, ok := vos.Get("/arc/a.lzh")
	vrt.Assert(ok && len(a) > 0, "the archive is left alone")
}

func vhOS() byte {
	o := vrt.Param("os", 'U')
	return byte(o)
}

// VH_containApi: the same through Decompress.
func VH_containApi() {
	vhStart()
	level := vrt.Param("level", 0)
	name := vrt.Bytes("name", vrt.Param("n", 3))
	for i := range name {
		c := name[i]
		vrt.Assume(vrt.Or(c == '.', vrt.Or(c == '/', vrt.Or(c == 0xff, vrt.Or(c == '\\', c == 'a')))))
		name[i] = vhSplit(c)
	}
	vos.Put("/work/out/keep", []byte("k"))
	vos.Put("/arc/a.lzh", vhArchive(vhHostile(level, name, nil, []byte("x"), 0o100644, "-lh0-")))
	hs, err := NewLha("/arc/a.lzh").Headers()
	if err != nil || len(hs) != 1 {
		vrt.Reach("refused")
		return
	}
	vos.Events = nil
	l := NewLha("/arc/a.lzh")
	l.ExtractDirectory = "/work/out"
	_ = l.Decompress(hs[0])
	vhContained("/work/out")
	vrt.Reach("extracted")
}

// VH_consent: an existing file changes only when the answer says so.
func VH_consent() {
	vhStart()
	k := vrt.Param("files", 2)
	names := []string{"f", "g", "h"}
	exists := make([]bool, k)
	var es []*vhEnt
	kinds := vrt.Param("kind", 0)
	for i := 0; i < k; i++ {
		if kinds == 1 && i == k-1 { // a link entry
			es = append(es, vhHostile(0, []byte(names[i]+"|t"), nil, nil, 0o120777, "-lhd-"))
		} else {
			es = append(es, vhStored(vrt.Param("level", 1), names[i], []byte("new"+names[i])))
		}
		exists[i] = vrt.Conc(vrt.Int("exists", 0, 1)) == 1
		if exists[i] && i == 0 && vrt.Param("link", 0) > 0 { // the name of a link
			target := "gone"
			if vrt.Param("link", 0) == 2 {
				target = "target"
				vos.Put("/work/target", []byte("oldf"))
			}
			_ = vos.Symlink(target, "/work/"+names[i])
		} else if exists[i] {
			vos.Put("/work/"+names[i], []byte("old"+names[i]))
		}
	}
	vos.Put(vhArc, vhArchive(es...))
	in := vrt.Bytes("stdin", vrt.Param("n", 3))
	for i := range in {
		c := in[i]
		if i == 0 && vrt.Param("any", 0) == 1 { // any character
			continue
		}
		vrt.Assume(vrt.Or(c == 'y', vrt.Or(c == 'Y', vrt.Or(c == 'n', vrt.Or(c == 'N', vrt.Or(c == 'a', vrt.Or(c == 'A', vrt.Or(c == 's', vrt.Or(c == 'S', vrt.Or(c == '\n', c == 'x'))))))))))
		in[i] = vhSplit(c)
	}
	if vrt.Param("long", 0) == 1 { // a long first answer
		fill := make([]byte, []int{1, 31, 79, 80, 127, 255, 256, 1023, 4096}[vrt.Choice("length", 9)])
		for i := range fill {
			fill[i] = "ynasYNAS"[i%8]
		}
		in = append(append(append([]byte{}, in[0]), fill...), in[1:]...)
	}
	vos.SetStdin(in)
	l := NewLha(vhArc)
	force := vrt.Param("force", 0) == 1
	l.Force = force
	err := CommandExtract(vhArc, l)
	if err != nil && vrt.Param("link", 0) > 0 && exists[0] && !force { // that may be refused
		n := vos.Lookup("/work/f")
		vrt.Assert(n != nil && n.Link, "a link is replaced only with consent")
		t, ok := vos.Get("/work/target")
		vrt.Assert(!ok && vrt.Param("link", 0) == 1 || string(t) == "oldf", "what the link leads to is left alone")
		vrt.Assert(vos.Lookup("/work/gone") == nil, "nothing is written through the link")
		for i := 1; i < k; i++ {
			n := vos.Lookup("/work/" + names[i])
			vrt.Assert(n == nil || !exists[i] || string(n.Data) == "old"+names[i], "the other files are not touched")
		}
		vrt.Reach("refused")
		return
	}
	vrt.Assert(err == nil, "extracting reports no error")
	// what the answers say
	pos := 0
	ask := func() byte {
		for {
			if pos >= len(in) {
				return 'n'
			}
			c := in[pos]
			for pos < len(in) && in[pos] != '\n' {
				pos++
			}
			pos++
			switch c {
			case 'y', 'Y':
				return 'y'
			case 'n', 'N', '\n':
				return 'n'
			case 'a', 'A':
				return 'a'
			case 's', 'S':
				return 's'
			}
		}
	}
	all, skip := force, false
	for i := 0; i < k; i++ {
		write := true
		if exists[i] && !all {
			if skip {
				write = false
			} else {
				switch ask() {
				case 'n':
					write = false
				case 'a':
					all = true
				case 's':
					skip = true
					write = false
				}
			}
		}
		n := vos.Lookup("/work/" + names[i])
		vrt.Assert(n != nil, "a file is never just removed")
		if kinds == 1 && i == k-1 {
			vrt.Assert(n.Link == write, "a link replaces an existing file only with consent")
			if !write {
				vrt.Assert(string(n.Data) == "old"+names[i], "an existing file is kept without consent")
			}
			continue
		}
		if i == 0 && exists[0] && vrt.Param("link", 0) > 0 {
			vrt.Assert(n.Link == !write, "a link is replaced only with consent")
			t, ok := vos.Get("/work/target")
			vrt.Assert(!ok && vrt.Param("link", 0) == 1 || string(t) == "oldf", "what the link leads to is left alone")
			vrt.Assert(vos.Lookup("/work/gone") == nil, "nothing is written through the link")
			if !write {
				vrt.Reach("kept")
				continue
			}
		}
		if write {
			vrt.Reach("written")
			vrt.Assert(string(n.Data) == "new"+names[i], "a file is written when nothing stands against it")
		} else {
			vrt.Reach("kept")
			vrt.Assert(string(n.Data) == "old"+names[i], "an existing file is kept without consent")
		}
	}
}

// VH_corrupt: what is handed out as extracted has the size and the CRC of its
// header, whatever the data.
func VH_corrupt() {
	vhStart()
	level := vrt.Param("level", 1)
	n := vrt.Param("n", 3)
	method := []string{"-lh0-", "-lzs-", "-lz5-", "-lh5-", "-lh4-", "-lh1-", "-lz4-", "-pm0-", "-lh7-"}[vrt.Param("method", 0)]
	body := vrt.Bytes("body", n)
	e := vhEntry(level, method, "f", body, nil)
	e.crc = uint(vrt.U16("crc"))
	e.orig = n
	if o := vrt.Param("orig", -1); o >= 0 {
		e.orig = o
	}
	arc := vhArchive(e)
	crcOf := func(b []byte) uint { return vhCrc(b) }
	if vrt.Param("nocrc", 0) == 1 { // a header of level 0 without a CRC
		e.unix = false
		hb := vhHeader(e)
		hb = hb[:len(hb)-2]
		hb[0] = byte(len(hb) - 2)
		hb[1] = vhSum(hb[2:])
		arc = append(append(append([]byte{}, hb...), body...), 0)
		crcOf = func([]byte) uint { return e.crc }
	}
	if vrt.Param("short", 0) > 0 { // the archive ends within the data
		arc = arc[:len(arc)-1-vrt.Conc(vrt.Int("cut", 1, vrt.Param("short", 0)))]
	}
	vos.Put(vhArc, arc)
	h := NewLzHeader()
	copy(h.Name, "f")
	switch vrt.Param("api", 0) {
	case 0:
		out, err := NewLha(vhArc).DecompresBytes(h)
		if err == nil {
			vrt.Reach("accepted")
			vrt.Assert(len(out) == e.orig, "data handed out has the stated size")
			vrt.Assert(crcOf(out) == e.crc, "data handed out has the stated CRC")
		} else {
			vrt.Reach("refused")
		}
	case 1, 2:
		l := NewLha(vhArc)
		var err error
		if vrt.Param("api", 0) == 1 {
			err = l.Decompress(h)
		} else {
			err = CommandExtract(vhArc, l)
		}
		if err == nil {
			vrt.Reach("accepted")
			out, ok := vos.Get("/work/f")
			vrt.Assert(ok, "an extracted file is there")
			vrt.Assert(len(out) == e.orig, "an extracted file has the stated size")
			vrt.Assert(crcOf(out) == e.crc, "an extracted file has the stated CRC")
		} else {
			vrt.Reach("refused")
		}
	case 3:
		_, err := NewLha(vhArc).Headers()
		if err == nil {
			vrt.Reach("accepted")
			if method == "-lh0-" {
				vrt.Assert(len(body) >= e.orig && crcOf(body[:e.orig]) == e.crc, "a verified archive has the stated CRC")
			}
		} else {
			vrt.Reach("refused")
		}
	}
}

// VH_flip: one byte of a good archive is replaced.
func VH_flip() {
	vhStart()
	method := vrt.Param("method", 5)
	plain := vhText(vrt.Param("shape", 1), 0, 0)
	l := NewLha(vhArc)
	vrt.Assert(l.CompressBytes("f", append([]byte{}, plain...), method, vrt.Param("level", 1)) == nil, "compressing reports no error")
	arc, _ := vos.Get(vhArc)
	p := vhParse(arc)
	lo, hi := p.size, p.size+p.packed-1
	if x := vrt.Param("span", 0); x > 0 {
		lo += vrt.Param("from", 0)
		if lo+x-1 < hi {
			hi = lo + x - 1
		}
	}
	at := vrt.Conc(vrt.Int("at", lo, hi))
	v := vrt.Byte("value")
	if vrt.Param("conc", 1) == 1 {
		// one bit, several at once or the whole byte
		v = arc[at] ^ []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x0f, 0x55}[vrt.Conc(int(v)%11)]
	}
	vrt.Assume(v != arc[at])
	bad := append([]byte{}, arc...)
	bad[at] = v
	vos.Put(vhArc, bad)
	h := NewLzHeader()
	copy(h.Name, "f")
	out, err := NewLha(vhArc).DecompresBytes(h)
	if err == nil {
		vrt.Reach("accepted")
		vrt.Assert(len(out) == len(plain), "damaged data is not handed out with another size")
		vrt.Assert(vhCrc(out) == vhCrc(plain), "damaged data is not handed out with another CRC")
	} else {
		vrt.Reach("refused")
	}
	_, err2 := NewLha(vhArc).Headers()
	vrt.Assert((err == nil) == (err2 == nil), "verifying and extracting agree")
}

// VH_damageLong: damage anywhere in a long entry is noticed.
func VH_damageLong() {
	vhStart()
	method := vrt.Param("method", 5)
	plain := vhNoise(nil, 5, vrt.Param("len", 20000), 'a', vrt.Param("alpha", 3))
	mk := NewLha(vhArc)
	vrt.Assert(mk.CompressBytes("f", append([]byte{}, plain...), method, vrt.Param("level", 1)) == nil, "compressing reports no error")
	vrt.Assert(mk.CompressBytes("g", []byte("after"), 0, 1) == nil, "compressing reports no error")
	arc, _ := vos.Get(vhArc)
	p := vhParse(arc)
	places := []int{0, 1, 2047, 2048, p.packed / 2, p.packed - 2049, p.packed - 2, p.packed - 1}
	at := p.size + places[vrt.Conc(vrt.Int("at", 0, 7))]
	bad := append([]byte{}, arc...)
	if x := vrt.Conc(vrt.Int("xor", 0, 3)); x < 3 {
		bad[at] ^= []byte{1, 0x80, 0x3c}[x]
	} else {
		bad = bad[:at]
	}
	vos.Put(vhArc, bad)
	h := NewLzHeader()
	copy(h.Name, "f")
	l := NewLha(vhArc)
	l.ExtractDirectory = "/work/out"
	var err error
	var out []byte
	switch vrt.Param("api", 0) {
	case 0:
		out, err = l.DecompresBytes(h)
	case 1:
		err = l.Decompress(h)
		out, _ = vos.Get("/work/out/f")
	case 2:
		err = CommandExtract(vhArc, l)
		out, _ = vos.Get("/work/out/f")
	case 3:
		_, err = l.Headers()
		out = plain
	}
	if err != nil {
		vrt.Reach("refused")
		return
	}
	vrt.Assert(method != 0, "damage is noticed")
	vrt.Assert(len(out) == len(plain), "damaged data is not handed out with another size")
	vrt.Assert(vhCrc(out) == vhCrc(plain), "damaged data is not handed out with another CRC")
}

// VH_readonly: listing and verifying change nothing and print no contents.
func VH_readonly() {
	vhStart()
	Quiet = vrt.Param("quiet", 0) == 1
	method := vrt.Param("method", 0)
	marker := "QZJXVKQZJXVKQZJXVKQZJXVKQZJXVKQZJXVK"
	mk := NewLha(vhArc)
	vrt.Assert(mk.CompressBytes("one", []byte(marker), method, vrt.Param("level", 1)) == nil, "compressing reports no error")
	vrt.Assert(mk.CompressBytes("two", []byte("w"+marker), method, 0) == nil, "compressing reports no error")
	arc, _ := vos.Get(vhArc)
	damaged := append([]byte{}, arc...)
	if vrt.Param("damage", 0) == 1 { // any one byte of the archive is wrong
		at := vrt.Conc(vrt.Int("at", 0, len(damaged)-1))
		x := vrt.Byte("xor")
		if vrt.Param("any", 0) == 0 {
			x = []byte{1, 0x80, 0xff, 0x10}[vrt.Conc(vrt.Int("bit", 0, 3))]
		}
		damaged[at] ^= x
		vos.Put(vhArc, damaged)
	}
	vos.Put("/work/one", []byte("mine"))
	vos.Events = nil
	vos.Out = nil
	l := NewLha(vhArc)
	l.Verbose = vrt.Param("any", 0) == 1 || vrt.Conc(vrt.Int("verbose", 0, 1)) == 1
	l.VerboseListing = l.Verbose
	switch vrt.Conc(vrt.Int("op", 0, 3)) {
	case 3:
		VerifyMode = true
		_ = CommandExtract(vhArc, l)
		VerifyMode = false
	case 0:
		_, _ = l.Headers()
	case 1:
		_ = CommandList(vhArc, l)
	case 2:
		h := NewLzHeader()
		copy(h.Name, "one")
		_, _ = l.DecompresBytes(h)
	}
	vrt.Assert(len(vos.Events) == 0, "reading an archive changes no file")
	b, _ := vos.Get(vhArc)
	vrt.Assert(vrt.EqBytes(b, damaged), "reading an archive leaves it alone")
	for i := 0; i+6 <= len(vos.Out); i++ {
		vrt.Assert(string(vos.Out[i:i+6]) != "QZJXVK", "reading an archive prints no contents")
	}
	vrt.Assert(!VerifyMode, "verifying ends with the call")
	vrt.Reach("done")
}

// VH_extractFault: one file system operation of an extraction fails.
func VH_extractFault() {
	vhStart()
	method := vrt.Param("method", 0)
	mk := NewLha(vhArc)
	plain := [][]byte{vhText(vrt.Param("shape", 0), 2, 2), vhText(vrt.Param("shape", 0), 1, 2)}
	if k := vrt.Param("big", 0); k > 0 {
		plain[0] = append(vhNoise(nil, 5, k, 0, vrt.Param("alpha", 256)), plain[0]...)
	}
	for i, b := range plain {
		vrt.Assert(mk.CompressBytes(vhN[i], append([]byte{}, b...), method, 1) == nil, "compressing reports no error")
	}
	link := vrt.Param("link", 0) // 1: a link as well, 2: whose name is taken by a directory
	if link > 0 {
		_ = vos.Symlink("target", "/work/ln")
		vrt.Assert(mk.Compress("/work/ln", method, 1) == nil, "compressing reports no error")
	}
	if link == 2 {
		vos.Put("/work/out/ln/f", []byte("x"))
	}
	arc, _ := vos.Get(vhArc)
	arc = append([]byte{}, arc...)
	if vrt.Param("over", 0) == 1 {
		vos.Put("/work/out/one", []byte("old"))
		if link == 1 {
			_ = vos.Symlink("elsewhere", "/work/out/ln")
		}
	}
	at := vrt.Conc(vrt.Int("at", 0, vrt.Param("ops", 30)))
	n, hit := 0, ""
	vos.Fault = func(op, path string) error {
		if op == "read" && vrt.Param("reads", 1) == 0 {
			return nil
		}
		n++
		if n-1 == at {
			hit = op
			return vhErrIO
		}
		return nil
	}
	l := NewLha(vhArc)
	l.ExtractDirectory = "/work/out"
	l.Force = vrt.Param("force", 1) == 1
	vos.SetStdin([]byte("yyy\nyyy\n"))
	var err error
	api := vrt.Param("api", 0)
	switch api {
	case 0:
		err = CommandExtract(vhArc, l)
	case 1:
		h := NewLzHeader()
		copy(h.Name, vhN[0])
		err = l.Decompress(h)
	case 2:
		h := NewLzHeader()
		copy(h.Name, vhN[1])
		var b []byte
		b, err = l.DecompresBytes(h)
		if err == nil {
			vrt.Assert(vrt.EqBytes(b, plain[1]), "data handed out is complete")
		}
	}
	vos.Fault = nil
	if err == nil {
		vrt.Reach("success")
		for i, b := range plain {
			if api == 2 || api == 1 && i > 0 {
				continue
			}
			f, ok := vos.Get("/work/out/" + vhN[i])
			vrt.Assert(ok && vrt.EqBytes(f, b), "success means the files are complete")
		}
		if link > 0 && api == 0 {
			n := vos.Lookup("/work/out/ln")
			vrt.Assert(n != nil && n.Link && n.Target == "target", "success means the links are there")
		}
	} else {
		vrt.Reach("error")
		vrt.Assert(hit != "" || link == 2, "without a fault extraction succeeds")
	}
	b, _ := vos.Get(vhArc)
	vrt.Assert(vrt.EqBytes(b, arc), "the archive is left alone")
	_ = hit
}

var vhN = []string{"one", "two"}

// VH_attrs: permissions and time stamps survive.
func VH_attrs() {
	vhStart()
	level := vrt.Param("level", 0)
	nd := vos.Put("/work/src/f", []byte("data"))
	perm := vrt.U16("perm") & 0o777
	vrt.Assume(perm&0o400 != 0)
	nd.Mode = vos.FileMode(perm)
	t := int64(vrt.Param("base", 1500000000)) + int64(vrt.U16("t"))
	nd.Mtime = time.Unix(t, 0)
	if vrt.Param("dirent", 0) == 1 {
		nd = vos.Lookup("/work/src")
		nd.Mode = vos.FileMode(perm) | vos.ModeDir
		nd.Mtime = time.Unix(t, 0)
	}
	l := NewLha(vhArc)
	src := "/work/src/f"
	if vrt.Param("dirent", 0) == 1 {
		src = "/work/src"
	}
	vrt.Assert(l.Compress(src, 0, level) == nil, "adding reports no error")
	vrt.Assert(vos.Lookup("/work/src/f") != nil, "the file is still there")
	hs, err := NewLha(vhArc).Headers()
	vrt.Assert(err == nil && len(hs) == 1, "the archive is read without an error")
	vrt.Assert(hs[0].UnixMode&0o777 == perm, "the header has the permissions")
	vrt.Assert(hs[0].UnixLastModifiedStamp == t, "the header has the time stamp")
	x := NewLha(vhArc)
	x.ExtractDirectory = "/work/out"
	vrt.Assert(CommandExtract(vhArc, x) == nil, "extracting reports no error")
	o := vos.Lookup("/work/out/f")
	if vrt.Param("dirent", 0) == 1 {
		o = vos.Lookup("/work/out/src")
	}
	vrt.Assert(o != nil, "the file is extracted")
	vrt.Assert(uint16(o.Mode.Perm()) == perm, "the extracted file has the permissions")
	vrt.Assert(o.Mtime.Unix() == t, "the extracted file has the time stamp")
	vrt.Assert(o.Dir == (vrt.Param("dirent", 0) == 1), "the kind of file survives")
	vrt.Reach("done")
}

// VH_dirs: all the directories of an archive get their permissions and time
// stamps, whatever their number and order and whatever is written into them.
func VH_dirs() {
	vhStart()
	level := vrt.Param("level", 1)
	dirs := []string{"d/", "d/e/", "g/", "d/e/f/", "a/"}
	if vrt.Param("set", 0) == 1 {
		dirs = []string{"b/", "a/", "c/", "bb/"}
	}
	n := len(dirs)
	k := vrt.Choice("shift", n)
	order := append(append([]string{}, dirs[k:]...), dirs[:k]...)
	if vrt.Choice("reverse", 2) == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	entry := func(dir, file string, t, mode int, body []byte) *vhEnt {
		method := "-lh0-"
		if file == "" {
			method = "-lhd-"
		}
		var e *vhEnt
		if level == 0 {
			e = vhHostile(0, []byte(dir+file), nil, body, mode, method)
			e.utime = t
			return e
		}
		e = vhHostile(level, []byte(file), []byte(dir), body, mode, method)
		if level == 1 {
			e.ext = append(e.ext, vhExt{0x54, []byte{byte(t), byte(t >> 8), byte(t >> 16), byte(t >> 24)}})
		} else {
			e.stamp = t
		}
		return e
	}
	var es []*vhEnt
	perms := make([]int, n)
	for i, d := range order {
		perms[i] = 0o700 | int(vrt.Byte("perm"))&0o77
		es = append(es, entry(d, "", 1500000000+i, 0o040000|perms[i], nil))
		if vrt.Param("files", 0) == 1 {
			es = append(es, entry(d, "x", 1400000000+i, 0o100644, []byte("contents")))
		}
	}
	if vrt.Param("files", 0) == 1 {
		es = append(es, entry(order[0], "y", 1400000000, 0o100644, []byte("contents")))
	}
	vos.Put(vhArc, vhArchive(es...))
	l := NewLha(vhArc)
	l.ExtractDirectory = "/work/out"
	vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
	for i, d := range order {
		o := vos.Lookup("/work/out/" + d[:len(d)-1])
		vrt.Assert(o != nil && o.Dir, "the directory is extracted")
		vrt.Assert(int(o.Mode.Perm()) == perms[i], "every directory has its permissions")
		vrt.Assert(o.Mtime.Unix() == int64(1500000000+i), "every directory has its time stamp")
		if vrt.Param("files", 0) == 1 {
			f := vos.Lookup("/work/out/" + d + "x")
			vrt.Assert(f != nil && f.Mtime.Unix() == int64(1400000000+i), "the files in it as well")
		}
	}
	vrt.Reach("done")
}

// VH_linkAttrs: a symbolic link survives.
func VH_link() {
	vhStart()
	level := vrt.Param("level", 0)
	target := vhNameBytes("target", vrt.Param("n", 3), true)
	for i := range target {
		target[i] = byte(vrt.Conc(int(target[i])&3) + 'a')
	}
	if vrt.Param("slash", 0) == 1 {
		target[1] = '/'
	}
	vos.Put("/work/src/t", []byte("data"))
	_ = vos.Symlink(string(target), "/work/src/ln")
	vrt.Assert(NewLha(vhArc).Compress("/work/src/ln", vrt.Param("method", 5), level) == nil, "adding reports no error")
	x := NewLha(vhArc)
	x.ExtractDirectory = "/work/out"
	vrt.Assert(CommandExtract(vhArc, x) == nil, "extracting reports no error")
	o := vos.Lookup("/work/out/ln")
	vrt.Assert(o != nil && o.Link, "a link is extracted as a link")
	vrt.Assert(o.Target == string(target), "a link keeps its target")
	vrt.Reach("done")
}

// VH_select: only the files asked for are extracted; the others stay.
func VH_select() {
	vhStart()
	names := []string{"aa", "ab", "b"}
	var es []*vhEnt
	for i, n := range names {
		es = append(es, vhStored(i%3, n, []byte("body of "+n)))
	}
	vos.Put(vhArc, vhArchive(es...))
	n := vrt.Param("n", 2)
	pick := vrt.Bytes("pick", n)
	for i := range pick {
		vrt.Assume(vrt.Or(pick[i] == 'a', pick[i] == 'b'))
		pick[i] = vhSplit(pick[i])
	}
	sel := []string{string(pick)}
	if vrt.Param("two", 0) == 1 {
		sel = append(sel, "b")
	}
	if vrt.Param("many", 0) == 1 { // at any place among names of which some are not there
		others := []string{"no", "b", "none", "a"}
		k := vrt.Choice("place", len(others)+1)
		sel = append(append(append([]string{}, others[:k]...), sel...), others[k:]...)
	}
	l := NewLha(vhArc)
	l.ExtractDirectory = "/work/out"
	l.CmdFilev, l.CmdFilec = sel, len(sel)
	vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
	for _, nm := range names {
		want := false
		for _, s := range sel {
			if s == nm {
				want = true
			}
		}
		f, ok := vos.Get("/work/out/" + nm)
		vrt.Assert(ok == want, "exactly the files asked for are extracted")
		if ok {
			vrt.Assert(string(f) == "body of "+nm, "a selected file has its own contents")
		}
	}
	vrt.Reach("done")
}

// VH_exclude: files named by ExcludeFiles are not added, whatever their case.
func VH_exclude() {
	vhStart()
	recursive := vrt.Param("rec", 0) == 1
	names := []string{"Ab", "b.c", "d"}
	for _, n := range names {
		vos.Put("/work/src/"+n, []byte("x"+n))
	}
	ex := vrt.Bytes("ex", vrt.Param("n", 2))
	for i := range ex {
		c := ex[i]
		vrt.Assume(vrt.Or(c == 'a', vrt.Or(c == 'A', vrt.Or(c == 'b', vrt.Or(c == 'B', vrt.Or(c == 'd', c == 'D'))))))
		ex[i] = vhSplit(c)
	}
	l := NewLha(vhArc)
	l.ExcludeFiles = []string{string(ex)}
	if vrt.Param("many", 0) == 1 { // at any place of a longer list
		others := []string{"zz", "B.C", "Abc", ""}
		k := vrt.Choice("place", len(others)+1)
		l.ExcludeFiles = append(append(append([]string{}, others[:k]...), string(ex)), others[k:]...)
	}
	lower := func(s string) string {
		b := []byte(s)
		for i := range b {
			if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
		return string(b)
	}
	if recursive {
		l.RecursiveArchiving = true
		vrt.Assert(l.Compress("/work/src", 0, 1) == nil, "adding reports no error")
	} else {
		for _, n := range names {
			vrt.Assert(l.Compress("/work/src/"+n, 0, 1) == nil, "adding reports no error")
		}
	}
	hs, err := NewLha(vhArc).Headers()
	vrt.Assert(err == nil, "the archive is read without an error")
	for _, n := range names {
		k := 0
		for _, h := range hs {
			if string(vhStr(h.Name)) == n || recursive && string(vhStr(h.Name)) == "src/"+n {
				k++
			}
		}
		hit := false
		for _, x := range l.ExcludeFiles {
			if lower(n) == lower(x) {
				hit = true
			}
		}
		if hit {
			vrt.Reach("excluded")
			vrt.Assert(k == 0, "an excluded file is not added")
		} else {
			vrt.Assert(k == 1, "the other files are added")
		}
	}
	vrt.Reach("done")
}

// VH_archAny: an archive of two entries in which one byte has any value, or
// which is cut anywhere, is listed, read and extracted without a crash.
func VH_archAny() {
	vhStart()
	level := vrt.Param("level", 1)
	method := vrt.Param("method", 0)
	mk := NewLha(vhArc)
	vrt.Assert(mk.CompressBytes("one", []byte("ababababababababababab"), method, level) == nil, "compressing reports no error")
	vrt.Assert(mk.CompressBytes("two", []byte("w"), 0, vrt.Param("level2", 0)) == nil, "compressing reports no error")
	arc, _ := vos.Get(vhArc)
	b := append([]byte{}, arc...)
	lo, hi := vrt.Param("lo", 0), vrt.Param("hi", 1000)
	if hi > len(b)-1 {
		hi = len(b) - 1
	}
	at := vrt.Conc(vrt.Int("at", lo, hi))
	if vrt.Param("cut", 0) == 1 {
		b = b[:at]
	} else if vrt.Param("few", 0) == 1 {
		b[at] ^= []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x0f, 0xf0, 0x55}[vrt.Conc(vrt.Int("pat", 0, 11))]
	} else {
		b[at] = vhSplit(vrt.Byte("value"))
	}
	vos.Put(vhArc, b)
	l := NewLha(vhArc)
	l.ExtractDirectory = "/work/out"
	l.Force = true
	switch vrt.Conc(vrt.Int("op", 0, 3)) {
	case 0:
		hs, _ := l.Headers()
		for _, h := range hs {
			vrt.Assert(h != nil, "the entries are there")
			vrt.Assert(h.PackedSize >= 0 && h.OriginalSize >= 0, "sizes are not negative")
		}
	case 1:
		_ = CommandList(vhArc, l)
	case 2:
		h := NewLzHeader()
		copy(h.Name, "two")
		_, _ = l.DecompresBytes(h)
	case 3:
		_ = CommandExtract(vhArc, l)
	}
	vrt.Reach("done")
}

// vhAt is an entry of a path: the directory is in the extended header from
// level 1 on.
func vhAt(level int, path string, body []byte, mode int, target string) *vhEnt {
	method := "-lh0-"
	if mode&0o170000 != 0o100000 {
		method, body = "-lhd-", nil
	}
	b := []byte(path)
	cut := 0
	sep := byte(0xff)
	if level == 0 {
		sep = 92
	}
	for i := range b {
		if b[i] == '/' {
			b[i] = sep
			cut = i + 1
		}
	}
	if target != "" {
		b = append(append(b, '|'), target...)
	}
	if level == 0 {
		return vhHostile(0, b, nil, body, mode, method)
	}
	var dir []byte
	if cut > 0 {
		dir = b[:cut]
	}
	return vhHostile(level, b[cut:], dir, body, mode, method)
}

// VH_containSeq: several entries in a row, of any kind, whose names go through
// each other and out of the extraction directory.
func VH_containSeq() {
	vhStart()
	names := []string{"l", "l/x", "l/m", "l/m/x", "d", "d/l", "d/l/x", "../x", "d/../../x", "/etc/x", "l/../x", "d/.."}
	if k := vrt.Param("pool", 0); k > 0 {
		names = names[:k]
	}
	n := vrt.Param("n", 2)
	level := vrt.Param("level", 1)
	var es []*vhEnt
	for i := 0; i < n; i++ {
		name := names[vrt.Choice("name", len(names))]
		switch vrt.Choice("kind", 5) {
		case 0:
			es = append(es, vhAt(level, name, []byte("evil"), 0o100644, ""))
		case 1:
			es = append(es, vhAt(level, name+"/", nil, 0o040711, ""))
		case 2:
			es = append(es, vhAt(level, name, nil, 0o120777, "/etc"))
		case 3:
			es = append(es, vhAt(level, name, nil, 0o120777, ".."))
		case 4:
			es = append(es, vhAt(level, name, nil, 0o120777, "/etc/x"))
		}
	}
	vos.Put("/etc/x", []byte("theirs"))
	vos.Put("/etc/m/x", []byte("theirs"))
	vos.Put("/work/x", []byte("theirs"))
	vos.Put("/work/out/keep", []byte("k"))
	switch vrt.Param("there", 0) { // what is there before
	case 1:
		_ = vos.Symlink("/etc", "/work/out/l")
		_ = vos.Symlink("..", "/work/out/d")
	case 2:
		_ = vos.Mkdir("/work/out/l", 0o755)
		_ = vos.Symlink("/etc", "/work/out/l/m")
		_ = vos.Mkdir("/work/out/d", 0o755)
		_ = vos.Symlink("../..", "/work/out/d/l")
	}
	vos.Put("/arc/a.lzh", vhArchive(es...))
	vos.Events = nil
	vos.SetStdin([]byte("y\ny\ny\ny\ny\n"))
	l := NewLha("/arc/a.lzh")
	l.ExtractDirectory = "/work/out"
	l.Force = vrt.Param("force", 1) == 1
	var err error
	if vrt.Param("cwd", 0) == 1 {
		vos.Cwd = "/work/out"
		l.ExtractDirectory = ""
	}
	err = CommandExtract("/arc/a.lzh", l)
	vhContained("/work/out")
	for _, p := range []string{"/etc/x", "/etc/m/x", "/work/x"} {
		b, ok := vos.Get(p)
		vrt.Assert(ok && string(b) == "theirs", "a file outside is left alone")
	}
	if err == nil {
		vrt.Reach("extracted")
	} else {
		vrt.Reach("refused")
	}
}

// VH_paths: entries of the same file name in several directories are kept
// apart.
func VH_paths() {
	vhStart()
	names := []string{"f", "a/f", "b/f", "a/b/f", "a/g"}
	if vrt.Param("set", 0) == 1 {
		names = []string{"a/b/f", "a/f", "ab/f", "f", "b/a/f"}
	}
	lv := [][]int{{0, 1, 2, 3, 0}, {1, 2, 0, 1, 2}, {2, 0, 3, 0, 1}}[vrt.Param("mix", 0)]
	var es []*vhEnt
	var bodies []string
	for i, n := range names {
		b := []byte{vrt.Byte("body"), byte('0' + i)}
		bodies = append(bodies, string(b))
		es = append(es, vhAt(lv[i], n, b, 0o100640, ""))
	}
	vos.Put(vhArc, vhArchive(es...))
	hs, err := NewLha(vhArc).Headers()
	vrt.Assert(err == nil && len(hs) == len(names), "every entry is listed")
	for i, h := range hs {
		vrt.Assert(string(vhStr(h.Name)) == names[i], "entries are listed with their path")
	}
	l := NewLha(vhArc)
	l.ExtractDirectory = "/work/out"
	pick := vrt.Choice("pick", len(names)+1)
	flat := vrt.Choice("flat", 2) == 1
	l.IgnoreDirectory = flat
	l.Force = true
	if pick < len(names) {
		out, err := NewLha(vhArc).DecompresBytes(hs[pick])
		vrt.Assert(err == nil && vrt.EqStr(string(out), bodies[pick]), "an entry is read by its path")
		if vrt.Choice("api", 2) == 1 {
			err = l.Decompress(hs[pick])
		} else {
			l.CmdFilev, l.CmdFilec = []string{names[pick]}, 1
			err = CommandExtract(vhArc, l)
		}
		vrt.Assert(err == nil, "extracting reports no error")
	} else {
		vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
	}
	n := 0
	for i, name := range names {
		if flat {
			cut := 0
			for k := range name {
				if name[k] == '/' {
					cut = k + 1
				}
			}
			name = name[cut:]
		}
		f, ok := vos.Get("/work/out/" + name)
		if flat {
			if i == pick {
				vrt.Assert(ok && vrt.EqStr(string(f), bodies[i]), "without directories the file is there by its name")
			} else if pick == len(names) {
				vrt.Assert(ok, "without directories every name is there")
			}
			continue
		}
		want := pick == i || pick == len(names)
		vrt.Assert(ok == want, "exactly the entries asked for are extracted")
		if ok {
			n++
			vrt.Assert(vrt.EqStr(string(f), bodies[i]), "every file has its own contents")
			vrt.Assert(vos.Lookup("/work/out/"+name).Mode.Perm() == 0o640, "and permissions")
		}
	}
	if flat {
		for _, k := range vos.Lookup("/work/out").Kids {
			vrt.Assert(!k.Dir, "no directory is made")
		}
	}
	_ = n
	vrt.Reach("done")
}

// VH_consentAny: without an answer an existing file keeps its contents and
// attributes, whatever the kind of the entry that carries its name.
func VH_consentAny() {
	vhStart()
	mode := int(vrt.Byte("mode")) | int(vrt.Byte("modeHigh"))<<8
	method := []string{"-lh0-", "-lhd-"}[vrt.Choice("method", 2)]
	var body []byte
	if method == "-lh0-" {
		body = []byte("new")
	}
	lv := vrt.Choice("level", 3)
	name := []byte("f")
	if vrt.Choice("link", 2) == 1 {
		name = []byte("f|t")
	}
	vos.Put("/work/f", []byte("old"))
	vos.Put(vhArc, vhArchive(vhHostile(lv, name, nil, body, mode, method)))
	old := *vos.Lookup("/work/f")
	vos.SetStdin([]byte{'n', '\n'})
	l := NewLha(vhArc)
	l.IgnoreDirectory = vrt.Choice("flat", 2) == 1
	err := CommandExtract(vhArc, l)
	n := vos.Lookup("/work/f")
	vrt.Assert(n != nil && !n.Dir && !n.Link && string(n.Data) == "old", "an existing file is kept without consent")
	vrt.Assert(n.Mode == old.Mode && n.Mtime.Equal(old.Mtime), "and so are its permissions and time stamp")
	vrt.Assert(n.Uid == old.Uid && n.Gid == old.Gid, "and its owner")
	if err == nil {
		vrt.Reach("kept")
	} else {
		vrt.Reach("refused")
	}
}

// VH_containAny: whatever the mode and the method of an entry that carries the
// name of a link, below it or not, and whatever the options.
func VH_containAny() {
	vhStart()
	method := []string{"-lh0-", "-lhd-"}[vrt.Choice("method", 2)]
	var body []byte
	if method == "-lh0-" {
		body = []byte("new")
	}
	lv := vrt.Param("level", 0)
	name := [][]byte{[]byte("l"), []byte("l|/etc/x"), []byte("d/x"), []byte("d/"), []byte("d/x|y")}[vrt.Choice("name", 5)]
	mode := int(vrt.Byte("mode")) | int(vrt.Byte("modeHigh"))<<8
	vos.Put("/etc/x", []byte("theirs"))
	vos.Put("/work/out/keep", []byte("k"))
	target := []string{"/etc/x", "/etc", "/etc/none"}[vrt.Choice("target", 3)]
	_ = vos.Symlink(target, "/work/out/l")
	_ = vos.Symlink("/etc", "/work/out/d")
	e := vhHostile(lv, name, nil, body, mode, method)
	if vrt.Param("os", 'U') != 'U' {
		e.os = vhOS()
	}
	vos.Put("/arc/a.lzh", vhArchive(e))
	vos.Events = nil
	vos.SetStdin([]byte("y\ny\n"))
	l := NewLha("/arc/a.lzh")
	l.ExtractDirectory = "/work/out"
	l.IgnoreDirectory = vrt.Choice("flat", 2) == 1
	l.Force = vrt.Choice("force", 2) == 1
	err := CommandExtract("/arc/a.lzh", l)
	vhContained("/work/out")
	b, ok := vos.Get("/etc/x")
	vrt.Assert(ok && string(b) == "theirs", "a file outside is left alone")
	if err == nil {
		vrt.Reach("extracted")
	} else {
		vrt.Reach("refused")
	}
}

// VH_quietAny: listing, verifying, printing, reading to memory and dry runs
// change nothing, whatever the mode and the method of the entry, the options
// and what is there.
func VH_quietAny() {
	vhStart()
	method := []string{"-lh0-", "-lhd-"}[vrt.Choice("method", 2)]
	var body []byte
	if method == "-lh0-" {
		body = []byte("\x01\x02\x03\x04")
	}
	name := [][]byte{[]byte("f"), []byte("f|g"), []byte("d/f"), []byte("d/")}[vrt.Choice("name", 4)]
	mode := int(vrt.Byte("mode")) | int(vrt.Byte("modeHigh"))<<8
	vos.Put(vhArc, vhArchive(vhHostile(vrt.Param("level", 0), name, nil, body, mode, method)))
	switch vrt.Choice("there", 3) {
	case 1:
		vos.Put("/work/f", []byte("old"))
		vos.Put("/work/d/f", []byte("old"))
	case 2:
		vos.Put("/etc/x", []byte("theirs"))
		_ = vos.Symlink("/etc/x", "/work/f")
		_ = vos.Symlink("/etc", "/work/d")
	}
	l := NewLha(vhArc)
	l.IgnoreDirectory = vrt.Choice("flat", 2) == 1
	l.Force = vrt.Choice("force", 2) == 1
	vos.SetStdin([]byte("y\ny\n"))
	vos.Events, vos.Out = nil, nil
	op := vrt.Param("op", 0)
	var err error
	switch op {
	case 0:
		VerifyMode = true
		err = CommandExtract(vhArc, l)
		VerifyMode = false
	case 1:
		l.OutputToStdout = true
		err = CommandExtract(vhArc, l)
	case 2:
		l.Noexec = true
		err = CommandExtract(vhArc, l)
	case 3:
		err = CommandList(vhArc, l)
	default:
		hs, e := l.Headers()
		err = e
		if len(hs) == 1 {
			_, err = l.DecompresBytes(hs[0])
		}
	}
	vrt.Assert(len(vos.Events) == 0, "nothing is changed")
	if op != 1 {
		for _, c := range vos.Out {
			vrt.Assert(c < 1 || c > 4, "no contents are printed")
		}
	}
	if err == nil {
		vrt.Reach("done")
	} else {
		vrt.Reach("refused")
	}
}
