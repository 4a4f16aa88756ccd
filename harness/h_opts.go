package lha

import (
	"time"

	"MODULE/zzverif/vfmt"
	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

// VH_stdout: printing entries to the standard output writes exactly their
// contents there and no file.
func VH_stdout() {
	vhStart()
	bodies := vhBodies("body", vrt.Param("n", 2), 3)
	es := vhMix(vrt.Param("mix", 0), bodies)
	if vrt.Param("packed", 0) == 1 {
		bodies[1] = []byte("abcabcabcabcabcabcabcabcabcabcabcabc")
		p, _, _, _, err := vhEncode(NewLha("a"), 5, bodies[1], 1000)
		vrt.Assert(err == nil, "encoding reports no error")
		es[1] = vhEntry(vrt.Param("level", 1), "-lh5-", "two.txt", p, bodies[1])
	}
	if vrt.Param("dir", 0) == 1 { // a directory has nothing to print
		es[0].method, es[0].mode, es[0].orig, es[0].packed, es[0].body = "-lhd-", 0o040755, 0, 0, nil
		for i := range es[0].ext {
			if es[0].ext[i].typ == 0x50 {
				es[0].ext[i].data = []byte{0xed, 0x41}
			}
		}
		bodies[0] = nil
	}
	vos.Put(vhArc, vhArchive(es...))
	vos.Put("/work/one", []byte("mine")) // an existing file is not asked about
	vos.SetStdin([]byte("y\ny\ny\n"))
	vos.Events, vos.Out = nil, nil
	l := NewLha(vhArc)
	l.OutputToStdout = true
	l.Force = vrt.Choice("force", 2) == 1
	Quiet = vrt.Choice("quiet", 2) == 1
	quiet := Quiet
	if vrt.Param("before", 0) == 1 { // after other operations
		switch vrt.Choice("before", 2) {
		case 0:
			VerifyMode = true
			vrt.Assert(CommandExtract(vhArc, NewLha(vhArc)) == nil, "verifying reports no error")
			VerifyMode = false
		case 1:
			h := NewLzHeader()
			copy(h.Name, vhNames3[1])
			_, err := NewLha(vhArc).DecompresBytes(h)
			vrt.Assert(err == nil, "decompressing to memory reports no error")
		}
		vos.Events, vos.Out = nil, nil
	}
	vfmt.Capture = true
	pick := vrt.Choice("pick", 4) // 3: everything
	if pick < 3 {
		l.CmdFilev, l.CmdFilec = []string{vhNames3[pick]}, 1
	}
	api := vrt.Choice("api", 2)
	var err error
	if api == 1 && pick < 3 {
		h := NewLzHeader()
		copy(h.Name, vhNames3[pick])
		err = l.Decompress(h)
	} else {
		err = CommandExtract(vhArc, l)
	}
	vfmt.Capture = false
	vrt.Assume(!vfmt.Bad)
	vrt.Assert(err == nil, "printing reports no error")
	var want []byte
	for i, e := range es {
		if pick < 3 && i != pick || e.method == "-lhd-" {
			continue
		}
		if !quiet {
			want = append(want, "::::::::\n"+vhNames3[i]+"\n::::::::\n"...)
		}
		want = append(want, bodies[i]...)
	}
	vrt.Assert(len(vos.Out) == len(want), "the output is the contents, nothing more or less")
	vrt.Assert(vrt.EqBytes(vos.Out, want), "the output is the contents")
	vrt.Assert(!vhMutated(), "printing changes no file")
	vrt.Assert(vos.StdinRd == 0, "printing asks nothing")
	vrt.Assert(Quiet == quiet, "the quiet option stays as it was")
	vrt.Reach("done")
}

var vhNames3 = []string{"one", "two.txt", "three"}

// VH_noexec: a dry run changes nothing.
func VH_noexec() {
	vhStart()
	es := vhMix(vrt.Param("mix", 0), [][]byte{{1, 2}, {3}, {}})
	switch vrt.Choice("kind", 3) {
	case 1:
		es[0].method, es[0].mode, es[0].orig, es[0].packed, es[0].body = "-lhd-", 0o040755, 0, 0, nil
		for i := range es[0].ext {
			if es[0].ext[i].typ == 0x50 {
				es[0].ext[i].data = []byte{0xed, 0x41}
			}
		}
	case 2:
		e := vhStored(1, "one|tgt", nil)
		e.method, e.mode = "-lhd-", 0o120777
		for i := range e.ext {
			if e.ext[i].typ == 0x50 {
				e.ext[i].data = []byte{0xff, 0xa1}
			}
		}
		es[0] = e
	}
	op := vrt.Choice("op", 5)
	old := op < 2 || vrt.Choice("old", 2) == 1
	if old {
		vos.Put(vhArc, vhArchive(es...))
	}
	vos.Put("/work/src/two.txt", []byte("data"))
	vos.Put("/work/src/sub/x", []byte("more"))
	if vrt.Choice("exists", 2) == 1 {
		vos.Put("/work/out/one", []byte("mine"))
		vos.Put("/work/out/three", []byte("mine"))
	}
	vos.SetStdin([]byte("y\ny\ny\ny\n"))
	vos.Events = nil
	l := NewLha(vhArc)
	l.Noexec = true
	l.ExtractDirectory = "/work/out"
	Quiet = vrt.Choice("quiet", 2) == 1
	switch op {
	case 0:
		l.Force = vrt.Choice("force", 2) == 1
		_ = CommandExtract(vhArc, l)
	case 1:
		l.Force = vrt.Choice("force", 2) == 1
		l.OutputToStdout = vrt.Choice("print", 2) == 1
		h := NewLzHeader()
		copy(h.Name, vhNames3[vrt.Choice("pick", 3)])
		_ = l.Decompress(h)
		vrt.Assert(len(vos.Out) == 0, "a dry run prints no contents")
	case 2, 3, 4:
		l.DeleteAfterAppend = vrt.Choice("move", 2) == 1
		l.BackupOldArchive = vrt.Choice("backup", 2) == 1
		l.SortContents = vrt.Choice("sort", 2) == 1
		l.UpdateIfNewer = vrt.Choice("newer", 2) == 1
		switch op {
		case 2:
			vrt.Assert(l.Compress("/work/src/two.txt", 5, 1) == nil, "a dry run reports no error")
		case 3:
			l.RecursiveArchiving = true
			vrt.Assert(l.Compress("/work/src", 5, 1) == nil, "a dry run reports no error")
		case 4:
			vrt.Assert(l.CompressBytes("two.txt", []byte("data"), 5, 1) == nil, "a dry run reports no error")
		}
	}
	vrt.Assert(len(vos.Events) == 0, "a dry run changes nothing")
	vrt.Reach("done")
}

// VH_newer: with UpdateIfNewer an entry is replaced only by a newer file.
func VH_newer() {
	vhStart()
	bodies := [][]byte{{1, 2}, {3}, {4, 5, 6}}
	es := vhMix(vrt.Param("mix", 0), bodies)
	base := 1500000000
	for i, e := range es {
		vhStamp(e, base+10*i)
	}
	vos.Put(vhArc, vhArchive(es...))
	l := NewLha(vhArc)
	l.UpdateIfNewer = true
	l.SortContents = vrt.Param("sort", 0) == 1
	var newer, there [3]bool
	auto := vrt.Param("auto", 0) == 1 // no names given: the files of the archive
	which := -1
	if !auto {
		which = vrt.Choice("which", 4) // 3: a name which is not in the archive
	}
	name := "fresh"
	if which >= 0 && which < 3 {
		name = vhNames3[which]
	}
	put := func(i int, nm string) {
		d := int(vrt.Byte("t"))
		nd := vos.Put("/work/"+nm, []byte("new "+nm))
		t := base + d - 100
		nd.Mtime = time.Unix(int64(t), 0)
		if i < 3 {
			there[i] = true
			newer[i] = t > base+10*i
		}
	}
	if auto {
		for i := range es {
			if vrt.Choice("there", 2) == 1 {
				put(i, vhNames3[i])
			}
		}
	} else {
		put(which, name)
	}
	move := vrt.Param("move", 0) == 1
	l.DeleteAfterAppend = move
	level := vrt.Param("newlevel", 1)
	var err error
	if auto {
		l.HeaderLevel = level
		l.CompressMethod = 0
		err = CommandAdd(vhArc, l)
	} else {
		err = l.Compress(name, 0, level)
	}
	vrt.Assert(err == nil, "updating reports no error")
	raw, ok := vos.Get(vhArc)
	vrt.Assert(ok, "the archive exists")
	parts, ok := vhWalk(raw)
	vrt.Assert(ok, "the archive is well formed")
	total := 3
	if which == 3 {
		total = 4
	}
	vrt.Assert(len(parts) == total, "every name is there exactly once")
	for i, e := range es {
		k := -1
		for j := range parts {
			if string(parts[j].p.name) == vhNames3[i] {
				k = j
			}
		}
		vrt.Assert(k >= 0, "no entry is lost")
		if newer[i] {
			vrt.Reach("replaced")
			vrt.Assert(string(parts[k].body) == "new "+vhNames3[i], "a newer file replaces its entry")
			vrt.Assert((vos.Lookup("/work/"+vhNames3[i]) == nil) == move, "a moved file is removed")
		} else {
			vrt.Reach("kept")
			vrt.Assert(vrt.EqBytes(parts[k].raw, append(vhHeader(e), e.body...)), "an entry which is not older than the file stays as it is")
			if there[i] && move {
				vrt.Assert(vos.Lookup("/work/"+vhNames3[i]) != nil, "a file which was not added is not removed")
			}
		}
	}
	if which == 3 {
		ok := false
		for j := range parts {
			if string(parts[j].p.name) == name {
				ok = string(parts[j].body) == "new fresh"
			}
		}
		vrt.Assert(ok, "a file which is not in the archive is added")
	}
	vrt.Reach("done")
}

// vhStamp sets the time of an entry.
func vhStamp(e *vhEnt, t int) {
	if e.level >= 2 {
		e.stamp = t
		return
	}
	if e.level == 0 {
		e.unix, e.utime, e.mode = true, t, 0o100644
		return
	}
	for i := range e.ext {
		if e.ext[i].typ == 0x54 {
			e.ext[i].data = []byte{byte(t), byte(t >> 8), byte(t >> 16), byte(t >> 24)}
			return
		}
	}
	e.ext = append(e.ext, vhExt{0x54, []byte{byte(t), byte(t >> 8), byte(t >> 16), byte(t >> 24)}})
}

// VH_sorted: with SortContents a sorted archive stays sorted.
func VH_sorted() {
	vhStart()
	names := []string{"b", "bd", "d"}
	letters := "abcde"
	if vrt.Param("letters", 0) == 1 { // of both cases, digits and signs
		names = []string{"0.b", "B", "a-c"}
		letters = "-.09ABabc~"
	}
	var es []*vhEnt
	for i, n := range names {
		es = append(es, vhStored([]int{0, 1, 2}[(i+vrt.Param("mix", 0))%3], n, []byte{byte(i)}))
	}
	vos.Put(vhArc, vhArchive(es...))
	steps := vrt.Param("steps", 1)
	have := append([]string{}, names...)
	var added []string
	for s := 0; s < steps; s++ {
		nb := make([]byte, 1+vrt.Choice("len", vrt.Param("n", 2)))
		for i := range nb {
			nb[i] = letters[vrt.Choice("letter", len(letters))]
		}
		name := string(nb)
		l := NewLha(vhArc)
		l.SortContents = true
		vrt.Assert(l.CompressBytes(name, []byte("new"), 0, vrt.Param("level", 1)) == nil, "adding reports no error")
		added = append(added, name)
		k := 0
		for k < len(have) && have[k] < name {
			k++
		}
		if k == len(have) || have[k] != name {
			have = append(have[:k], append([]string{name}, have[k:]...)...)
		}
	}
	raw, _ := vos.Get(vhArc)
	parts, ok := vhWalk(raw)
	vrt.Assert(ok, "the archive is well formed")
	vrt.Assert(len(parts) == len(have), "every name is there exactly once")
	for i := range parts {
		vrt.Assert(string(parts[i].p.name) == have[i], "the archive stays sorted")
		isNew := false
		for _, a := range added {
			isNew = isNew || a == have[i]
		}
		if isNew {
			vrt.Assert(string(parts[i].body) == "new", "the added file is in the archive")
			continue
		}
		for j, n := range names {
			if n == have[i] {
				vrt.Assert(vrt.EqBytes(parts[i].raw, append(vhHeader(es[j]), es[j].body...)), "the other entries are kept byte for byte")
			}
		}
	}
	vrt.Reach("done")
}

// vhPath is the path of an entry with slashes.
func vhPath(p vhParsed) string {
	b := append(append([]byte{}, p.dir...), p.name...)
	for i := range b {
		if b[i] == 0xff || b[i] == 92 {
			b[i] = '/'
		}
	}
	return string(b)
}

// VH_tree: recursive archiving adds everything below a directory, once.
func VH_tree() {
	vhStart()
	// a tree whose shape is chosen: each of the places may hold a file
	places := []string{"/work/src/f", "/work/src/sub/f", "/work/src/sub/deep/f", "/work/src/other/f", "/work/src/g"}
	var want []string
	for i, p := range places {
		if vrt.Choice("there", 2) == 1 {
			vos.Put(p, []byte{byte('0' + i)})
			want = append(want, p)
		}
	}
	if vos.Lookup("/work/src") == nil {
		_ = vos.MkdirAll("/work/src", 0o755)
	}
	if vrt.Choice("empty", 2) == 1 {
		_ = vos.MkdirAll("/work/src/void", 0o755)
	}
	if vrt.Choice("link", 2) == 1 { // a link to a directory is a link, not a directory
		_ = vos.Symlink("sub", "/work/src/ln")
	}
	old := vrt.Choice("old", 2) == 1
	var oe *vhEnt
	if old {
		oe = vhStored(1, "oldone", []byte("kept"))
		vos.Put(vhArc, vhArchive(oe))
	}
	l := NewLha(vhArc)
	l.RecursiveArchiving = vrt.Param("rec", 1) == 1
	move := vrt.Param("move", 0) == 1
	l.DeleteAfterAppend = move
	vrt.Assert(l.Compress("/work/src", 0, vrt.Param("level", 1)) == nil, "adding reports no error")
	raw, _ := vos.Get(vhArc)
	parts, ok := vhWalk(raw)
	vrt.Assert(ok, "the archive is well formed")
	n := 0
	for i, p := range places {
		k := 0
		for _, q := range parts {
			if vhPath(q.p) == p[len("/work/"):] {
				k++
				vrt.Assert(len(q.body) == 1 && q.body[0] == byte('0'+i), "a file has its own contents")
			}
		}
		is := false
		for _, w := range want {
			is = is || w == p
		}
		if is && l.RecursiveArchiving {
			vrt.Assert(k == 1, "every file below the directory is added once")
			n++
		} else {
			vrt.Assert(k == 0, "no file appears from nowhere")
		}
	}
	if old {
		vrt.Assert(vrt.EqBytes(parts[0].raw, append(vhHeader(oe), oe.body...)) || vrt.EqBytes(parts[len(parts)-1].raw, append(vhHeader(oe), oe.body...)), "the old entry is kept")
	}
	for _, q := range parts {
		if q.p.method != "-lhd-" {
			n--
		}
	}
	if old {
		n++
	}
	vrt.Assert(n == 0, "nothing else is added")
	// and the tree comes out again
	x := NewLha(vhArc)
	x.ExtractDirectory = "/work/out"
	vrt.Assert(CommandExtract(vhArc, x) == nil, "extracting reports no error")
	for i, p := range places {
		f, ok := vos.Get("/work/out" + p[len("/work"):])
		is := false
		for _, w := range want {
			is = is || w == p
		}
		vrt.Assert(ok == (is && l.RecursiveArchiving), "the tree comes out again")
		vrt.Assert(!ok || string(f) == string(rune('0'+i)), "a file comes out with its own contents")
	}
	vrt.Reach("done")
}

// VH_autoKinds: an automatic update of an archive of files in directories, a
// directory and a link; each is older, as old or newer than its entry.
func VH_autoKinds() {
	vhStart()
	level := vrt.Param("level", 1)
	vos.Put("/work/top", []byte("old top"))
	vos.Put("/work/d/in", []byte("old in"))
	vos.Put("/work/d/e/in", []byte("old deep"))
	_ = vos.Symlink("nowhere", "/work/ln")
	base := int64(1500000000)
	for _, p := range []string{"/work/top", "/work/d/in", "/work/d/e/in", "/work/d/e", "/work/d", "/work/ln"} {
		vos.Lookup(p).Mtime = time.Unix(base, 0)
	}
	l := NewLha(vhArc)
	l.RecursiveArchiving = true
	l.HeaderLevel, l.CompressMethod = level, 0
	l.CmdFilev, l.CmdFilec = []string{"d", "ln", "top"}, 3
	vrt.Assert(CommandAdd(vhArc, l) == nil, "adding reports no error")
	raw, _ := vos.Get(vhArc)
	old, ok := vhWalk(raw)
	vrt.Assert(ok && len(old) == 6, "the archive is well formed")
	// now everything is different, and maybe newer
	set := func(p string, data string) int {
		n := vos.Lookup(p)
		d := vrt.Choice("age", 3)
		n.Mtime = time.Unix(base-1+int64(d), 0)
		if !n.Dir && !n.Link {
			n.Data = []byte(data)
		}
		return d
	}
	ages := []int{set("/work/d", ""), set("/work/d/e", ""), set("/work/d/e/in", "new deep"), set("/work/d/in", "new in"), 0, set("/work/top", "new top")}
	vos.Lookup("/work/d").Mode = vos.ModeDir | 0o700
	vos.Lookup("/work/ln").Target = "somewhere"
	ages[4] = set("/work/ln", "")
	names := []string{"d/", "d/e/", "d/e/in", "d/in", "ln|nowhere", "top"}
	bodies := []string{"", "", "new deep", "new in", "", "new top"}
	vos.Put("/work/d/fresh", []byte("not in the archive"))
	vos.Put("/work/in", []byte("of the same name"))
	u := NewLha(vhArc)
	u.UpdateIfNewer = true
	u.HeaderLevel, u.CompressMethod = level, 0
	vrt.Assert(CommandAdd(vhArc, u) == nil, "updating reports no error")
	raw, _ = vos.Get(vhArc)
	parts, ok := vhWalk(raw)
	vrt.Assert(ok, "the archive is well formed")
	vrt.Assert(len(parts) == 6, "nothing is lost and nothing added")
	for i, name := range names {
		was, is := -1, -1
		for j := range old {
			if vhPath(old[j].p) == name {
				was = j
			}
		}
		vrt.Assert(was >= 0, "every file has its entry")
		if i == 4 && ages[i] == 2 {
			name = "ln|somewhere"
		}
		for j := range parts {
			if vhPath(parts[j].p) == name {
				is = j
			}
		}
		vrt.Assert(is >= 0, "every file still has its entry")
		if ages[i] == 2 {
			vrt.Reach("replaced")
			vrt.Assert(string(parts[is].body) == bodies[i], "a newer file replaces its entry")
			vrt.Assert(i != 0 || parts[is].p.mode == 0o040700, "a newer directory replaces its entry")
		} else {
			vrt.Reach("kept")
			vrt.Assert(vrt.EqBytes(parts[is].raw, old[was].raw), "an entry which is not older than the file stays as it is")
		}
	}
	vrt.Reach("done")
}

// VH_twice: names that are given more than once.
func VH_twice() {
	vhStart()
	vos.Put("/work/a/f", []byte("f of a"))
	vos.Put("/work/b/f", []byte("f of b"))
	vos.Put("/work/g", []byte("g"))
	var es []*vhEnt
	if vrt.Choice("old", 2) == 1 {
		es = append(es, vhStored(vrt.Param("oldlevel", 1), "f", []byte("old")), vhStored(0, "k", []byte("kept")))
		vos.Put(vhArc, vhArchive(es...))
	}
	pool := []string{"a/f", "b/f", "g", "a"}
	l := NewLha(vhArc)
	n := vrt.Param("n", 3)
	for i := 0; i < n; i++ {
		l.CmdFilev = append(l.CmdFilev, pool[vrt.Choice("name", len(pool))])
	}
	l.CmdFilec = n
	l.RecursiveArchiving = true
	l.HeaderLevel, l.CompressMethod = vrt.Param("level", 1), 0
	given := append([]string{}, l.CmdFilev...)
	vrt.Assert(CommandAdd(vhArc, l) == nil, "adding reports no error")
	raw, _ := vos.Get(vhArc)
	parts, ok := vhWalk(raw)
	vrt.Assert(ok, "the archive is well formed")
	want := map[string]string{}
	if len(es) > 0 {
		want["f"], want["k"] = "old", "kept"
	}
	for _, g := range given {
		switch g {
		case "a":
			want["a/"], want["a/f"] = "", "f of a"
		case "g":
			want["g"] = "g"
		default:
			want["f"] = "f of " + g[:1]
		}
	}
	vrt.Assert(len(parts) == len(want), "every name is there exactly once")
	for _, q := range parts {
		w, ok := want[vhPath(q.p)]
		vrt.Assert(ok && string(q.body) == w, "every name has the contents added last")
	}
	vrt.Reach("done")
}
