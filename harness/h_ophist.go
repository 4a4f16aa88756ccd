package lha

import (
	"errors"

	"MODULE/zzverif/vfmt"
	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

// VH_opHist: what an operation on an archive does is not changed by any other
// that came before, with the same or another Lha, successful or not.
func VH_opHist() {
	vhStart()
	text := []byte("abcabcabcabcabcabcabcabcabcabcabcabc")
	packed, _, _, _, err := vhEncode(NewLha("a"), 5, text, 1000)
	vrt.Assert(err == nil, "encoding reports no error")
	body := vrt.Bytes("body", 1)
	lv := []int{0, 1, 2}
	es := []*vhEnt{vhStored(lv[0], "one", body), vhEntry(lv[1], "-lh5-", "two.txt", packed, text), vhStored(lv[2], "three", []byte("333"))}
	arc := vhArchive(es...)
	bad := append([]byte{}, arc...)
	for i := range bad {
		if i+len(packed) <= len(bad) && vrt.EqBytes(bad[i:i+len(packed)], packed) {
			bad[i+len(packed)-2] ^= 0x55
			bad[i+2] ^= 0x33
			break
		}
	}
	vos.Put(vhArc, append([]byte{}, arc...))
	vos.Put("/work/bad/a.lzh", bad)
	vos.Put("/work/bad/c.lzh", arc[:len(arc)-10])
	vos.Put("/work/src/f", []byte("fff"))
	h2 := func(name string) *LzHeader {
		h := NewLzHeader()
		copy(h.Name, name)
		return h
	}
	l := NewLha(vhArc)
	if vrt.Param("fault", 0) == 1 {
		Quiet = false
	} else if vrt.Choice("same", 2) == 0 {
		l = nil
	}
	on := func(name string) *Lha { // the Lha of the earlier operation
		x := l
		if x == nil || name != vhArc {
			x = NewLha(name)
		}
		x.ExtractDirectory = "/work/src/o1"
		return x
	}
	op := func(k int, l *Lha) (out []byte) {
		l.ExtractDirectory = "/work/out"
		switch k {
		case 0, 4:
			hs, err := l.Headers()
			vrt.Assert(err == nil, "reading the headers reports no error")
			for _, h := range hs {
				out = append(append(out, vhStr(h.Name)...), '\n')
			}
			if k == 4 {
				vos.Out = nil
				vfmt.Capture = true
				err := CommandList(vhArc, l)
				vfmt.Capture = false
				vrt.Assert(err == nil, "listing reports no error")
				out = append(out, vos.Out...)
				vos.Out = nil
			}
		case 1:
			b, err := l.DecompresBytes(h2("two.txt"))
			vrt.Assert(err == nil, "decompressing to memory reports no error")
			b2, err := l.DecompresBytes(h2("one"))
			vrt.Assert(err == nil, "decompressing to memory reports no error")
			return append(append([]byte{}, b...), b2...)
		case 2:
			vrt.Assert(l.Decompress(h2("three")) == nil, "extracting an entry reports no error")
		case 3:
			vrt.Assert(CommandExtract(vhArc, l) == nil, "extracting reports no error")
		case 5:
			vrt.Assert(l.CompressBytes("new", []byte("n"), 0, 1) == nil, "adding reports no error")
		case 6:
			vrt.Assert(l.Compress("/work/src/f", 5, 2) == nil, "adding reports no error")
		}
		for _, n := range []string{"one", "two.txt", "three"} {
			if f, ok := vos.Get("/work/out/" + n); ok {
				out = append(append(append(out, n...), ':'), f...)
				_ = vos.Remove("/work/out/" + n)
			}
		}
		a, _ := vos.Get(vhArc)
		parts, ok := vhWalk(a)
		vrt.Assert(ok, "the archive is well formed")
		for _, p := range parts {
			out = append(append(append(out, p.p.name...), '|'), p.body...)
		}
		vos.Put(vhArc, append([]byte{}, arc...))
		return out
	}
	k := vrt.Param("op", 7)
	if k == 7 {
		k = vrt.Choice("op", 7)
	}
	want := op(k, NewLha(vhArc))
	fails := true // the earlier operation
	before := 0
	faulty := vrt.Param("fault", 0) == 1 // a file system operation of it fails
	if faulty {
		before = []int{7, 10, 13, 14, 15, 16}[vrt.Choice("before", 6)]
		at, n := vrt.Choice("at", vrt.Param("ops", 60)), 0
		vos.Fault = func(string, string) error {
			n++
			if n-1 == at {
				return vhErrIO
			}
			return nil
		}
	} else {
		before = vrt.Choice("before", 14)
	}
	switch before {
	case 14:
		err = on(vhArc).Compress("/work/src/f", 0, 1)
	case 15:
		err = CommandExtract(vhArc, on(vhArc))
	case 16:
		err = CommandList(vhArc, on(vhArc))
	case 0:
		_, err = NewLha("/work/none.lzh").Headers()
	case 1:
		_, err = NewLha("/work/bad/a.lzh").Headers()
	case 2:
		_, err = NewLha("/work/bad/c.lzh").Headers()
	case 3:
		_, err = on(vhArc).DecompresBytes(h2("absent"))
	case 4:
		err = on(vhArc).Decompress(h2("absent"))
	case 5:
		vos.Put(vhArc, append([]byte{}, bad...))
		err = CommandExtract(vhArc, on(vhArc))
	case 6:
		vos.Put(vhArc, append([]byte{}, arc[:len(arc)-10]...))
		err = CommandList(vhArc, on(vhArc))
	case 7:
		fails = false
		err = on(vhArc).CompressBytes("x", []byte("xyz"), 5, 0)
	case 8:
		err = on(vhArc).Compress("/work/src/nofile", 5, 0)
		err = errAny(err) // skipping it is fine
	case 9:
		fails = false
		err = on(vhArc).Compress("/work/src/f", 7, 0)
	case 10:
		fails = false
		x := NewLha(vhArc)
		x.OutputToStdout = true
		err = CommandExtract(vhArc, x)
	case 11:
		VerifyMode = true
		vos.Put(vhArc, append([]byte{}, bad...))
		err = CommandExtract(vhArc, on(vhArc))
		VerifyMode = false
	case 12:
		vos.Put(vhArc, append([]byte{}, bad...))
		_, err = on(vhArc).DecompresBytes(h2("two.txt"))
	case 13:
		fails = false
		_, err = on(vhArc).Headers()
	}
	vos.Fault = nil
	vrt.Assert(faulty || (err != nil) == fails, "the earlier operation ends as it should")
	vos.Put(vhArc, append([]byte{}, arc...))
	for _, n := range []string{"one", "two.txt", "three"} {
		_ = vos.Remove("/work/src/o1/" + n)
	}
	vos.Put("/work/src/f", []byte("fff"))
	vos.Out = nil
	if l == nil {
		l = NewLha(vhArc)
	}
	got := op(k, l)
	vrt.Assert(vrt.EqBytes(got, want), "an operation does the same after another one")
	vrt.Reach("done")
}

func errAny(err error) error {
	if err == nil {
		return errors.New("skipped")
	}
	return err
}
