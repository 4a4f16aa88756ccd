package lha

import (
	"time"

	"MODULE/zzverif/vflag"
	"MODULE/zzverif/vfmt"
	"MODULE/zzverif/vos"
	"MODULE/zzverif/vrt"
)

// VhCliMain is the main function of the command.
var VhCliMain func()

// vhCliCase is one command line and the situation it is run in.
type vhCliCase struct {
	op       int
	file     string
	n, f, v  bool
	x        string
	o, h, g  int // 0, 2 and 5: not given
	arc      int // 0: an archive, 1: none, 2: a damaged one
	newer    bool
	answer   string
	body     []byte
	sfx      bool
	explicit bool // options that have their default value are given as well
}

func (c *vhCliCase) arcName() string {
	if c.sfx {
		return "/work/a.exe"
	}
	return vhArc
}

// vhCliWorld sets the file system up.
func (c *vhCliCase) world() {
	vhStart()
	Quiet = false
	es := vhMix(vrt.Param("mix", 0), [][]byte{c.body, []byte("abc"), {}})
	if c.arc != 1 {
		a := vhArchive(es...)
		if c.arc == 2 {
			a[len(a)-2-len(vhHeader(es[2]))] ^= 1 // the last byte of the second entry
		}
		if c.sfx {
			a = append(vhNoise(nil, 7, 300, 'A', 20), a...)
		}
		vos.Put(c.arcName(), a)
	}
	at := int64(1400000000)
	if c.newer {
		at = 1600000000
	}
	vos.Put("/work/one", []byte("mine")).Mtime = time.Unix(at, 0)
	vos.Put("/work/two.txt", []byte("a new text, a new text, a new text, a new text, a new text")).Mtime = time.Unix(at, 0)
	vos.Put("/work/d/x", []byte("in a directory")).Mode = 0o640
	vos.Put("/work/d/two.txt", []byte("another"))
	if err := vos.Symlink("one", "/work/link"); err != nil {
		panic(err)
	}
	vos.SetStdin([]byte(c.answer))
	vos.Out, vos.ErrOut, vos.Events = nil, nil, nil
	GenericFormat, VerifyMode = false, false
}

// vhCliSnap describes the whole file system.
func vhCliSnap(b []byte, n *vos.Node) []byte {
	b = append(b, n.Name...)
	b = append(b, '\n')
	b = append(b, n.Target...)
	m := uint32(n.Mode)
	t := n.Mtime.Unix()
	b = append(b, byte(m), byte(m>>8), byte(m>>24), byte(t), byte(t>>8), byte(t>>16), byte(t>>24), byte(len(n.Kids)), byte(len(n.Data)), byte(len(n.Data)>>8))
	b = append(b, n.Data...)
	for _, k := range n.Kids {
		b = vhCliSnap(b, k)
	}
	return b
}

// library does with the library what the command line asks for.
func (c *vhCliCase) library() error {
	l := NewLha(c.arcName())
	l.Noexec, l.Force, l.Verbose = c.n, c.f, c.v
	l.SortContents, l.RecursiveArchiving = true, true
	l.CompressMethod = Lzhuff5MethodNum
	switch c.o {
	case 6:
		l.CompressMethod = Lzhuff6MethodNum
	case 7:
		l.CompressMethod = Lzhuff7MethodNum
	}
	l.HeaderLevel = 2
	if c.g != 5 {
		GenericFormat = true
		l.HeaderLevel = c.g
	}
	if c.h != 2 {
		l.HeaderLevel = c.h
	}
	switch c.x {
	case "":
	case "x":
		l.ExcludeFiles = []string{"x"}
	case "foo,TWO.txt":
		l.ExcludeFiles = []string{"foo", "TWO.txt"}
	case "foo,X,TWO.txt":
		l.ExcludeFiles = []string{"foo", "X", "TWO.txt"}
	}
	switch c.op {
	case 0:
		return CommandList(c.arcName(), l)
	case 1:
		l.VerboseListing = true
		return CommandList(c.arcName(), l)
	case 2:
		return CommandExtract(c.arcName(), l)
	case 3:
		l.OutputToStdout = true
		return CommandExtract(c.arcName(), l)
	case 4:
		VerifyMode = true
		return CommandExtract(c.arcName(), l)
	}
	if c.op != 7 {
		l.CmdFilev, l.CmdFilec = []string{c.file}, 1
	}
	if c.op == 6 || c.op == 10 { // a new archive
		_ = vos.Remove(c.arcName())
	}
	if c.op == 7 || c.op == 8 || c.op == 11 {
		l.UpdateIfNewer = true
	}
	if c.op >= 9 {
		l.DeleteAfterAppend = true
	}
	return CommandAdd(c.arcName(), l)
}

func (c *vhCliCase) flags() {
	g := []vflag.Set1{{Name: "archive", S: c.arcName()}}
	switch c.op {
	case 0:
		g = append(g, vflag.Set1{Name: "l", B: true})
	case 1:
		g = append(g, vflag.Set1{Name: "lv", B: true})
	case 2:
		g = append(g, vflag.Set1{Name: "e", B: true})
	case 3:
		g = append(g, vflag.Set1{Name: "p", B: true})
	case 4:
		g = append(g, vflag.Set1{Name: "t", B: true})
	case 5, 8, 9, 11:
		g = append(g, vflag.Set1{Name: "a", S: c.file})
	case 6, 10:
		g = append(g, vflag.Set1{Name: "c", S: c.file})
	}
	if c.op == 7 || c.op == 8 || c.op == 11 {
		g = append(g, vflag.Set1{Name: "u", B: true})
	}
	if c.op >= 9 {
		g = append(g, vflag.Set1{Name: "m", B: true})
	}
	g = append(g, vflag.Set1{Name: "n", B: c.n}, vflag.Set1{Name: "f", B: c.f}, vflag.Set1{Name: "v", B: c.v})
	if c.x != "" {
		g = append(g, vflag.Set1{Name: "x", S: c.x})
	}
	if c.o != 0 {
		g = append(g, vflag.Set1{Name: "o", I: c.o})
	}
	if c.h != 2 || c.explicit {
		g = append(g, vflag.Set1{Name: "h", I: c.h})
	}
	if c.g != 5 {
		g = append(g, vflag.Set1{Name: "g", I: c.g})
	}
	vflag.Given = g
}

// vhCliRun runs the command; the result is its exit status.
func vhCliRun() (status int) {
	defer func() {
		if r := recover(); r != nil {
			if !vos.IsExit(r) {
				panic(r)
			}
			status = vos.Status
		}
	}()
	VhCliMain()
	return 0
}

// VH_cli: the command does what the library does with the same options.
func VH_cli() {
	c := &vhCliCase{h: 2, g: 5}
	lo, hi := vrt.Param("lo", 0), vrt.Param("hi", 10)
	c.op = lo + vrt.Choice("op", hi-lo+1)
	c.n = vrt.Choice("n", 2) == 1
	if vrt.Param("vary", 0) == 0 {
		c.f = vrt.Choice("f", 2) == 1
		c.newer = vrt.Choice("newer", 2) == 1
		c.arc = vrt.Choice("arc", 3)
	} else {
		c.arc = vrt.Choice("arc", 2)
	}
	c.sfx = vrt.Param("sfx", 0) == 1
	c.body = []byte{vrt.Byte("body")}
	if c.op < 5 {
		c.v = vrt.Choice("v", 2) == 1
	}
	if c.op == 2 {
		c.answer = []string{"y\ny\n", "n\ny\n", "a\n", "s\n"}[vrt.Choice("answer", 4)]
	}
	if c.op >= 5 {
		files := []string{"two.txt", "d", "missing", "link"}
		if vrt.Param("vary", 0) > 0 {
			files = files[:2]
		}
		c.file = files[vrt.Choice("file", len(files))]
		switch vrt.Param("vary", 0) {
		case 1:
			c.x = []string{"", "x", "foo,TWO.txt", "foo,X,TWO.txt"}[vrt.Choice("x", 4)]
			c.o = []int{0, 5, 6, 7}[vrt.Choice("o", 4)]
			c.explicit = vrt.Choice("explicit", 2) == 1
		case 2:
			c.h = vrt.Choice("h", 3)
			c.g = []int{5, 0, 1, 2}[vrt.Choice("g", 4)]
			c.o = []int{0, 6}[vrt.Choice("o", 2)]
			c.explicit = true
		}
	}
	vfmt.Capture = true
	c.world()
	err := c.library()
	want, out := vhCliSnap(nil, vos.Root), vos.Out
	c.world()
	before := vhCliSnap(nil, vos.Root)
	c.flags()
	status := vhCliRun()
	got, outC := vhCliSnap(nil, vos.Root), vos.Out
	vfmt.Capture = false
	vrt.Assume(!vfmt.Bad)
	vrt.Assert(!vflag.Unknown, "the flags exist")
	vrt.Assert((status == 0) == (err == nil), "the exit status tells whether the command succeeded")
	if c.n && c.op >= 5 || c.op != 2 && c.op < 5 {
		vrt.Assert(vrt.EqBytes(got, before), "a command that only looks, or is not to be carried out, changes nothing")
		vrt.Reach("nothing changed")
	} else {
		vrt.Assert(vrt.EqBytes(got, want), "the command does what its options say")
		vrt.Reach("changed")
	}
	vrt.Assert(vrt.EqBytes(outC, out), "the command prints what it should")
	vrt.Reach("done")
}
