package lha

import (
	"time"

	"MODULE/zzverif/vfmt"
	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

func vhNum(i int) string {
	return string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
}

// VH_many: archives of many entries, long lists of names, deep directories.
func VH_many() {
	vhStart()
	n := vrt.Param("n", 300)
	j := []int{0, 1, 7, n / 2, n - 2, n - 1}[vrt.Choice("which", 6)]
	name := func(i int) string { return "a-rather-long-name-" + vhNum(i) }
	body := func(i int) []byte { return []byte{byte(i), byte(i >> 8)} }
	mine := vrt.Bytes("body", 2)
	entries := func() (es []*vhEnt) {
		for i := 0; i < n; i++ {
			b := body(i)
			if i == j {
				b = mine
			}
			es = append(es, vhStored(i%3, name(i), b))
		}
		return es
	}
	l := NewLha(vhArc)
	l.ExtractDirectory = "/work/out"
	switch vrt.Param("op", 0) {
	case 0: // listing
		vos.Put(vhArc, vhArchive(entries()...))
		hs, err := l.Headers()
		vrt.Assert(err == nil && len(hs) == n, "every entry is found")
		for i, h := range hs {
			vrt.Assert(string(vhStr(h.Name)) == name(i), "in order")
		}
		out, err := NewLha(vhArc).DecompresBytes(hs[j])
		vrt.Assert(err == nil && vrt.EqBytes(out, mine), "with its own contents")
		vos.Out = nil
		vfmt.Capture = true
		err = CommandList(vhArc, NewLha(vhArc))
		vfmt.Capture = false
		vrt.Assert(err == nil, "listing reports no error")
		lines := 0
		for _, c := range vos.Out {
			if c == '\n' {
				lines++
			}
		}
		vrt.Assert(vfmt.Bad || lines == n, "every entry is listed")
	case 1: // extracting everything
		vos.Put(vhArc, vhArchive(entries()...))
		vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
		for i := 0; i < n; i++ {
			want := body(i)
			if i == j {
				want = mine
			}
			f, ok := vos.Get("/work/out/" + name(i))
			vrt.Assert(ok && vrt.EqBytes(f, want), "every file is there with its own contents")
		}
	case 2: // many names given
		vos.Put(vhArc, vhArchive(entries()...))
		at := []int{0, 9, 40, 79}[vrt.Choice("at", 4)]
		for i := 0; i < 80; i++ {
			if i == at {
				l.CmdFilev = append(l.CmdFilev, name(j))
			} else {
				l.CmdFilev = append(l.CmdFilev, "none"+vhNum(i))
			}
		}
		l.CmdFilec = len(l.CmdFilev)
		vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
		kids := vos.Lookup("/work/out").Kids
		vrt.Assert(len(kids) == 1 && kids[0].Name == name(j) && vrt.EqBytes(kids[0].Data, mine), "exactly the file asked for is extracted")
	case 3: // replacing one
		es := entries()
		vos.Put(vhArc, vhArchive(es...))
		l.SortContents = vrt.Choice("sort", 2) == 1
		vrt.Assert(l.CompressBytes(name(j), []byte("new"), 0, 1) == nil, "adding reports no error")
		raw, _ := vos.Get(vhArc)
		parts, ok := vhWalk(raw)
		vrt.Assert(ok && len(parts) == n, "no entry is lost or doubled")
		k := 0
		for i, e := range es {
			if i == j {
				if l.SortContents {
					vrt.Assert(string(parts[k].body) == "new", "the entry is replaced in its place")
					k++
				}
				continue
			}
			vrt.Assert(vrt.EqBytes(parts[k].raw, append(vhHeader(e), e.body...)), "the other entries are kept byte for byte")
			k++
		}
		vrt.Assert(l.SortContents || string(parts[n-1].body) == "new", "the entry is replaced")
	case 4: // a directory of many files, many of them excluded
		direct := vrt.Param("direct", 0) == 1
		dir := "/work/src/"
		if direct { // named one by one
			dir = "/work/"
		}
		for i := 0; i < n; i++ {
			vos.Put(dir+name(i), body(i))
			l.CmdFilev = append(l.CmdFilev, name(i))
		}
		vos.Put(dir+name(j), append([]byte{}, mine...))
		for i := 0; i < n/2; i++ {
			l.ExcludeFiles = append(l.ExcludeFiles, name(2*i))
		}
		if direct {
			l.CmdFilec = n
			l.CompressMethod, l.HeaderLevel = 0, 1
			vrt.Assert(CommandAdd(vhArc, l) == nil, "adding reports no error")
		} else {
			l.CmdFilev = nil
			l.RecursiveArchiving = true
			vrt.Assert(l.Compress("/work/src", 0, 1) == nil, "adding reports no error")
		}
		raw, _ := vos.Get(vhArc)
		parts, ok := vhWalk(raw)
		vrt.Assert(ok, "the archive is well formed")
		files := 0
		for _, p := range parts {
			if p.p.method == "-lhd-" {
				continue
			}
			i := 2*files + 1
			want := body(i)
			if i == j {
				want = mine
			}
			vrt.Assert(string(p.p.name) == name(i) && vrt.EqBytes(p.body, want), "the files that are not excluded are added, each with its own contents")
			files++
		}
		vrt.Assert(files == n/2, "all of them")
	case 5: // deep directories
		path := "/work/src"
		for i := 0; i < n; i++ {
			vos.Put(path+"/f", body(i))
			if i == j {
				vos.Put(path+"/f", append([]byte{}, mine...))
			}
			path += "/d"
		}
		l.RecursiveArchiving = true
		vrt.Assert(l.Compress("/work/src", 0, vrt.Param("level", 2)) == nil, "adding reports no error")
		l2 := NewLha(vhArc)
		l2.ExtractDirectory = "/work/out"
		vrt.Assert(CommandExtract(vhArc, l2) == nil, "extracting reports no error")
		path = "/work/out/src"
		for i := 0; i < n; i++ {
			want := body(i)
			if i == j {
				want = mine
			}
			f, ok := vos.Get(path + "/f")
			vrt.Assert(ok && vrt.EqBytes(f, want), "every file comes out at its depth")
			path += "/d"
		}
	case 6: // updating what is newer among many
		es := entries()
		for i := range es {
			nd := vos.Put("/work/"+name(i), body(i))
			nd.Mtime = time.Unix(1000000000, 0)
		}
		vos.Put(vhArc, vhArchive(es...))
		nd := vos.Put("/work/"+name(j), []byte("new"))
		nd.Mtime = time.Unix(1900000000, 0)
		l.UpdateIfNewer = true
		l.CompressMethod, l.HeaderLevel = 0, 1
		vrt.Assert(CommandAdd(vhArc, l) == nil, "updating reports no error")
		raw, _ := vos.Get(vhArc)
		parts, ok := vhWalk(raw)
		vrt.Assert(ok && len(parts) == n, "no entry is lost or doubled")
		k := 0
		for i, e := range es {
			if i == j {
				continue
			}
			vrt.Assert(vrt.EqBytes(parts[k].raw, append(vhHeader(e), e.body...)), "what is not newer is kept byte for byte")
			k++
		}
		vrt.Assert(string(parts[k].body) == "new", "what is newer is replaced")
	case 7: // many directories with attributes
		var es []*vhEnt
		for i := 0; i < n; i++ {
			mode := 0o040700 + i%8
			if i == j {
				mode = 0o040751
			}
			es = append(es, vhAt(i%3, name(i)+"/", nil, mode, ""), vhAt((i+1)%3, name(i)+"/f", mine, 0o100644, ""))
		}
		vos.Put(vhArc, vhArchive(es...))
		vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
		for i := 0; i < n; i++ {
			mode := vos.FileMode(0o700 + i%8)
			if i == j {
				mode = 0o751
			}
			d := vos.Lookup("/work/out/" + name(i))
			vrt.Assert(d != nil && d.Dir && d.Mode.Perm() == mode, "every directory has its permissions")
			f, ok := vos.Get("/work/out/" + name(i) + "/f")
			vrt.Assert(ok && vrt.EqBytes(f, mine), "and its file")
		}
	}
	vrt.Reach("done")
}
