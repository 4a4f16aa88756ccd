package lha

import (
	"time"

	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

// vhWalk splits an archive into its entries by the book.
type vhPart struct {
	p    vhParsed
	raw  []byte
	body []byte
}

func vhWalk(b []byte) (parts []vhPart, ok bool) {
	i := 0
	for {
		if i >= len(b) {
			return parts, false
		}
		if b[i] == 0 {
			return parts, i+1 == len(b)
		}
		p := vhParse(b[i:])
		if !p.ok || i+p.size+p.packed > len(b) {
			return parts, false
		}
		n := p.size + p.packed
		parts = append(parts, vhPart{p, b[i : i+n], b[i+p.size : i+n]})
		i += n
	}
}

var vhNames = []string{"one", "two.txt", "three"}

// VH_update: adding a file to an archive keeps the other entries byte for
// byte, and replaces the entry of the same name.
func VH_update() {
	vhStart()
	bodies := vhBodies("body", vrt.Param("n", 1), 3)
	es := vhMix(vrt.Param("mix", 0), bodies)
	vos.Put(vhArc, vhArchive(es...))
	which := vrt.Conc(vrt.Int("which", 0, 3)) // 3: a new name
	name := "new"
	if which < 3 {
		name = vhNames[which]
	}
	method, level := vrt.Param("method", 0), vrt.Param("level", 0)
	data := vhText(vrt.Param("shape", 0), vrt.Param("m", 2), vrt.Param("alpha", 0))
	l := NewLha(vhArc)
	var err error
	if vrt.Param("file", 0) == 1 {
		vos.Put("/work/src/"+name, data)
		err = l.Compress("/work/src/"+name, method, level)
	} else {
		err = l.CompressBytes(name, append([]byte{}, data...), method, level)
	}
	vrt.Assert(err == nil, "adding reports no error")
	raw, ok := vos.Get(vhArc)
	vrt.Assert(ok, "the archive exists")
	parts, ok := vhWalk(raw)
	vrt.Assert(ok, "the archive is well formed")
	found := 0
	var rest []vhPart
	for _, q := range parts {
		if string(q.p.name) == name {
			found++
			vrt.Assert(q.p.orig == len(data), "the added entry states its size")
			vrt.Assert(uint(q.p.crc) == vhCrc(data), "the added entry states its CRC")
			vrt.Assert(q.p.level == level, "the added entry has the level asked for")
		} else {
			rest = append(rest, q)
		}
	}
	vrt.Assert(found == 1, "the added file is there exactly once")
	k := 0
	for i, e := range es {
		if i == which {
			continue
		}
		vrt.Assert(k < len(rest), "no other entry is lost")
		want := append(vhHeader(e), e.body...)
		vrt.Assert(vrt.EqBytes(rest[k].raw, want), "the other entries are kept byte for byte and in order")
		k++
	}
	vrt.Assert(k == len(rest), "no entry appears from nowhere")
	h := NewLzHeader()
	copy(h.Name, name)
	out, err := NewLha(vhArc).DecompresBytes(h)
	vrt.Assert(err == nil && vrt.EqBytes(out, data), "the added file comes out again")
	// nothing but the archive is left behind
	for _, kid := range vos.Lookup("/work").Kids {
		vrt.Assert(kid.Name == "a.lzh" || kid.Name == "src", "no other file is left behind")
	}
	vrt.Reach("done")
}

// VH_sequence: several additions in a row.
func VH_sequence() {
	vhStart()
	steps := vrt.Param("steps", 3)
	var names []string
	var want [][]byte
	l := NewLha(vhArc)
	fresh := vrt.Param("fresh", 1) == 1
	for s := 0; s < steps; s++ {
		if fresh {
			l = NewLha(vhArc)
		}
		name := vhNames[vrt.Conc(vrt.Int("name", 0, 1))]
		data := vhText(vrt.Param("shape", 0), vrt.Param("n", 1), vrt.Param("alpha", 0))
		ms := []int{Lzhuff0MethodNum, Lzhuff5MethodNum}
		if vrt.Param("meth", -1) >= 0 {
			ms = []int{vrt.Param("meth", 0)}
		}
		m := ms[vrt.Conc(vrt.Int("method", 0, len(ms)-1))]
		lv := vrt.Conc(vrt.Int("level", 0, vrt.Param("levels", 2)))
		if vrt.Param("file", 0) == 1 && vrt.Choice("file", 2) == 1 {
			vos.Put("/work/src/"+name, append([]byte{}, data...))
			vrt.Assert(l.Compress("/work/src/"+name, m, lv) == nil, "adding a file reports no error")
		} else {
			vrt.Assert(l.CompressBytes(name, append([]byte{}, data...), m, lv) == nil, "adding reports no error")
		}
		var n2 []string
		var w2 [][]byte
		for i := range names {
			if names[i] != name {
				n2 = append(n2, names[i])
				w2 = append(w2, want[i])
			}
		}
		names, want = append(n2, name), append(w2, data)
	}
	hs, err := NewLha(vhArc).Headers()
	vrt.Assert(err == nil, "the archive is read without an error")
	vrt.Assert(len(hs) == len(names), "one entry per name")
	for i, name := range names {
		h := NewLzHeader()
		copy(h.Name, name)
		out, err := NewLha(vhArc).DecompresBytes(h)
		vrt.Assert(err == nil, "an entry is read without an error")
		vrt.Assert(vrt.EqBytes(out, want[i]), "every entry has the contents added last")
	}
	vrt.Reach("done")
}

func vhTmp() int {
	n := 0
	for _, kid := range vos.Lookup("/work").Kids {
		if kid.Name != "a.lzh" && kid.Name != "src" && kid.Name != "a.lzh.bak" && kid.Name != "out" {
			n++
		}
	}
	return n
}

// VH_updateFault: one file system operation of an update fails.
func VH_updateFault() {
	vhStart()
	have := vrt.Param("old", 1) == 1
	var old []byte
	if have {
		es := vhMix(vrt.Param("mix", 0), [][]byte{vrt.Bytes("b", 2), vrt.Bytes("b", 1), {7}})
		if k := vrt.Param("big", 0); k > 0 { // copied in several pieces
			es[0] = vhStored(1, "one", append(vhNoise(nil, 3, k, 0, 256), vrt.Bytes("b", 1)...))
		}
		old = vhArchive(es...)
		vos.Put(vhArc, append([]byte{}, old...))
	}
	viaFile := vrt.Param("file", 0) == 1
	name := []string{"new", "two.txt"}[vrt.Conc(vrt.Int("same", 0, 1))]
	data := vhText(vrt.Param("shape", 0), vrt.Param("m", 1), 2)
	if k := vrt.Param("big", 0); k > 0 {
		data = append(vhNoise(nil, 4, k, 0, 256), data...)
	}
	if viaFile {
		vos.Put("/work/src/"+name, data).Mtime = time.Unix(1900000000, 0)
	}
	method, level := vrt.Param("method", 0), vrt.Param("level", 1)
	l := NewLha(vhArc)
	l.BackupOldArchive = vrt.Param("backup", 0) == 1
	l.DeleteAfterAppend = vrt.Param("move", 0) == 1
	l.SortContents = vrt.Param("sort", 0) == 1
	l.UpdateIfNewer = vrt.Param("newer", 0) == 1
	at := vrt.Conc(vrt.Int("at", 0, vrt.Param("ops", 40)))
	crash := vrt.Param("crash", 0) == 1
	n, hit := 0, ""
	vos.Fault = func(op, path string) error {
		if op == "read" && vrt.Param("reads", 1) == 0 {
			return nil
		}
		n++
		if n-1 == at {
			hit = op
			if crash {
				panic("crash")
			}
			return vhErrIO
		}
		return nil
	}
	var err error
	crashed := vhGuard(func() {
		if viaFile {
			err = l.Compress("/work/src/"+name, method, level)
		} else {
			err = l.CompressBytes(name, append([]byte{}, data...), method, level)
		}
	})
	vos.Fault = nil
	raw, exists := vos.Get(vhArc)
	complete := false
	if exists {
		parts, ok := vhWalk(raw)
		if ok {
			for _, q := range parts {
				if string(q.p.name) == name && q.p.orig == len(data) {
					complete = vrt.EqBytes(q.body, data)
					if q.p.method != "-lh0-" {
						h := NewLzHeader()
						copy(h.Name, name)
						got, e := NewLha(vhArc).DecompresBytes(h)
						complete = e == nil && vrt.EqBytes(got, data)
					}
				}
			}
			if complete && have {
				complete = len(parts) == 4 || name == "two.txt" && len(parts) == 3
			}
		}
	}
	same := have == exists && (!have || vrt.EqBytes(raw, old))
	if have && l.BackupOldArchive && !crashed && err == nil {
		b, ok := vos.Get(vhArc + ".bak")
		vrt.Assert(ok && vrt.EqBytes(b, old), "an update that reports success has kept the old archive when asked to")
	}
	if have && !exists && l.BackupOldArchive {
		b, ok := vos.Get(vhArc + ".bak")
		same = ok && vrt.EqBytes(b, old)
	}
	if hit == "" {
		vrt.Reach("no fault")
		vrt.Assert(!crashed && err == nil && complete, "without a fault the update succeeds")
		return
	}
	if crash {
		vrt.Reach("crash")
		vrt.Assert(same || complete, "after a crash the archive is the old one or the complete new one")
		return
	}
	vrt.Assert(!crashed, "a fault does not crash the update")
	if err == nil {
		vrt.Reach("survived")
		vrt.Assert(complete, "an update that reports success is complete")
		if l.DeleteAfterAppend && viaFile {
			return
		}
	} else {
		vrt.Reach("failed")
		vrt.Assert(same || complete, "a failed update leaves the old archive alone")
		if hit != "remove" {
			vrt.Assert(vhTmp() == 0, "a failed update leaves no temporary file")
		}
		if viaFile {
			f, ok := vos.Get("/work/src/" + name)
			vrt.Assert(complete || ok && vrt.EqBytes(f, data), "a failed update does not remove the file")
		}
	}
	if viaFile && !complete {
		_, ok := vos.Get("/work/src/" + name)
		vrt.Assert(ok, "the file is removed only when it is in the archive")
	}
}

// VH_updateBad: the archive that is to be updated is cut short somewhere, or a
// byte of a header in it is wrong.
func VH_updateBad() {
	vhStart()
	es := vhMix(vrt.Param("mix", 0), [][]byte{vrt.Bytes("b", 2), vrt.Bytes("b", 1), {7, 8}})
	old := vhArchive(es...)
	ends := []int{0}
	for _, e := range es {
		ends = append(ends, ends[len(ends)-1]+len(vhHeader(e))+len(e.body))
	}
	whole := false // cut between two entries: only the end mark is missing
	if vrt.Param("cut", 1) == 1 {
		cut := vrt.Conc(vrt.Int("cut", vrt.Param("lo", 1), len(old)-1))
		for _, x := range ends {
			if cut == x {
				whole = true
			}
		}
		old = old[:cut]
	} else {
		// the checksum or CRC of one of the headers
		k := vrt.Choice("entry", 3)
		at := ends[k] + 1
		if es[k].level >= 2 {
			at = ends[k] + 24 + 2 + 1
			if es[k].level == 3 {
				at = ends[k] + 28 + 4 + 1
			}
		}
		old[at] ^= 1 << uint(vrt.Choice("bit", 8))
	}
	vos.Put(vhArc, append([]byte{}, old...))
	name := []string{"new", "two.txt", "one", "three"}[vrt.Choice("name", 4)]
	l := NewLha(vhArc)
	l.SortContents = vrt.Choice("sort", 2) == 1
	l.UpdateIfNewer = vrt.Choice("newer", 2) == 1
	l.DeleteAfterAppend = true
	viaFile := vrt.Param("file", 0) == 1
	var err error
	data := []byte("contents")
	if viaFile {
		vos.Put("/work/src/"+name, data)
		err = l.Compress("/work/src/"+name, vrt.Param("method", 0), vrt.Param("level", 1))
	} else {
		err = l.CompressBytes(name, data, vrt.Param("method", 0), vrt.Param("level", 1))
	}
	raw, ok := vos.Get(vhArc)
	vrt.Assert(ok, "the archive is still there")
	vrt.Assert(vhTmp() == 0, "no temporary file is left behind")
	if err != nil || !whole {
		vrt.Assert(err != nil, "a truncated or damaged archive is reported")
		vrt.Assert(vrt.EqBytes(raw, old), "a truncated or damaged archive is left alone")
		if viaFile {
			_, ok := vos.Get("/work/src/" + name)
			vrt.Assert(ok, "the file is removed only when it is in the archive")
		}
		vrt.Reach("refused")
		return
	}
	parts, ok := vhWalk(raw)
	vrt.Assert(ok, "the archive is well formed")
	n := 0
	for _, q := range parts {
		if string(q.p.name) == name {
			n++
		}
	}
	vrt.Assert(n == 1, "the added file is there exactly once")
	vrt.Reach("updated")
}

// vhGuard runs f and tells whether it ended in a panic of the harness.
func vhGuard(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if r == "crash" {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

// vhNear is an entry with any short name, also one of a directory, that may or
// may not be the name given.
func vhNear(level int, body []byte) (e *vhEnt, name []byte) {
	n := vrt.Conc(vrt.Int("len", 1, vrt.Param("n", 3)))
	name = make([]byte, n)
	for i := range name {
		name[i] = vrt.Byte("name")
		c := name[i]
		vrt.Assume(vrt.And(c >= 0x20, vrt.And(c < 0x7f, vrt.And(c != '/', vrt.And(c != '\\', c != '|')))))
	}
	e = vhEntry(level, "-lh0-", "x", body, body)
	full := name
	if vrt.Choice("dir", 2) == 1 {
		full = append([]byte("d/"), name...)
	}
	raw := append([]byte{}, full...)
	switch level {
	case 0, 1:
		if len(full) > n {
			raw[1] = '\\'
			if level == 1 {
				raw = name
				e.ext = append(e.ext, vhExt{2, []byte{'d', 0xff}})
			}
		}
		e.name = raw
	default:
		for i := range e.ext {
			if e.ext[i].typ == 1 {
				e.ext[i].data = name
			}
		}
		if len(full) > n {
			e.ext = append(e.ext, vhExt{2, []byte{'d', 0xff}})
		}
	}
	return e, full
}

// VH_near: an entry is replaced by its namesake only, and picked by its own
// name only.
func VH_near() {
	vhStart()
	mine := []string{"aB", "aB.c", "a"}[vrt.Choice("mine", 3)]
	e, name := vhNear(vrt.Param("level", 0), []byte("old"))
	same := len(name) == len(mine) && vrt.EqStr(string(name), mine)
	if vrt.Param("pick", 0) == 1 {
		vrt.Assume(!same)
		f := vhEntry(0, "-lh0-", mine, []byte("mine"), []byte("mine"))
		vos.Put(vhArc, vhArchive(e, f))
		l := NewLha(vhArc)
		l.ExtractDirectory = "/work/out"
		_ = vos.Mkdir("/work/out", 0o755)
		h := NewLzHeader()
		copy(h.Name, mine)
		switch vrt.Choice("api", 3) {
		case 0:
			l.CmdFilev, l.CmdFilec = []string{mine}, 1
			vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
		case 1:
			vrt.Assert(l.Decompress(h) == nil, "extracting reports no error")
		case 2:
			out, err := l.DecompresBytes(h)
			vrt.Assert(err == nil && string(out) == "mine", "the entry is read by its own name")
			vrt.Reach("read")
			return
		}
		kids := vos.Lookup("/work/out").Kids
		vrt.Assert(len(kids) == 1 && kids[0].Name == mine && string(kids[0].Data) == "mine", "only the entry of the name is extracted")
		vrt.Reach("picked")
		return
	}
	old := vhArchive(e)
	vos.Put(vhArc, old)
	l := NewLha(vhArc)
	if vrt.Param("file", 0) == 1 {
		vos.Put("/work/src/"+mine, []byte("mine"))
		vrt.Assert(l.Compress("/work/src/"+mine, Lzhuff0MethodNum, vrt.Param("newlevel", 1)) == nil, "adding reports no error")
	} else {
		vrt.Assert(l.CompressBytes(mine, []byte("mine"), Lzhuff0MethodNum, vrt.Param("newlevel", 1)) == nil, "adding reports no error")
	}
	raw, _ := vos.Get(vhArc)
	kept := len(raw) >= len(old)-1 && vrt.EqBytes(raw[:len(old)-1], old[:len(old)-1])
	if same {
		parts, ok := vhWalk(raw)
		vrt.Assert(ok && len(parts) == 1 && string(parts[0].body) == "mine", "the namesake is replaced")
		vrt.Reach("replaced")
	} else {
		vrt.Assert(kept, "the entry of another name is kept byte for byte")
		parts, ok := vhWalk(raw[len(old)-1:])
		vrt.Assert(ok && len(parts) == 1 && string(parts[0].body) == "mine", "the file is added")
		vrt.Reach("kept")
	}
}
