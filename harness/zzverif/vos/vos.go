// Package vos stands in for os: an in-memory POSIX-like file system with a
// log of effects and a fault hook. Nothing here touches the real machine.
package vos

import (
	"io"
	"io/fs"
	"time"
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

type LinkError struct {
	Op  string
	Old string
	New string
	Err error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New }
func (e *LinkError) Unwrap() error { return e.Err }

type sysErr struct{ s string }

func (e *sysErr) Error() string { return e.s }

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	errNotDir     error = &sysErr{"not a directory"}
	errIsDir      error = &sysErr{"is a directory"}
	errNotEmpty   error = &sysErr{"directory not empty"}
	errLoop       error = &sysErr{"too many levels of symbolic links"}
	errBadFd      error = &sysErr{"bad file descriptor"}
	ErrNoSpace    error = &sysErr{"no space left on device"}
	ErrIO         error = &sysErr{"input/output error"}
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_TRUNC  = 0x200
	O_APPEND = 0x400
	O_SYNC   = 0x101000

	ModeDir        = fs.ModeDir
	ModeSymlink    = fs.ModeSymlink
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeDevice     = fs.ModeDevice
	ModeCharDevice = fs.ModeCharDevice
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeSticky     = fs.ModeSticky

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

// Node is a file, directory or symbolic link.
type Node struct {
	Name   string
	Dir    bool
	Link   bool
	Target string
	Data   []byte
	Mode   FileMode
	Mtime  time.Time
	Uid    int
	Gid    int
	Parent *Node
	Kids   []*Node
}

// Event is one effect on the file system; Path is the resolved location.
type Event struct {
	Op   string
	Path string
	Arg  string
}

var (
	Root    *Node
	Cwd     = "/work"
	Events  []Event
	Fault   func(op, path string) error
	After   func(op, path string)
	stdin   []byte
	StdinRd int
	Out     []byte
	ErrOut  []byte
	tmpSeq  int
	Args    = []string{"lha"}
	Exited  bool
	Status  int // what Exit was given
	Now     = time.Unix(1700000000, 0)
	NoLog   bool

	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

func init() { Reset() }

// Reset installs an empty file system with /work and /tmp.
func Reset() {
	Root = &Node{Dir: true, Mode: 0o755 | fs.ModeDir}
	Root.add(&Node{Name: "work", Dir: true, Mode: 0o755 | fs.ModeDir})
	Root.add(&Node{Name: "tmp", Dir: true, Mode: 0o777 | fs.ModeDir})
	Cwd = "/work"
	Events = nil
	Fault = nil
	After = nil
	stdin = nil
	StdinRd = 0
	Out = nil
	ErrOut = nil
	tmpSeq = 0
	Exited = false
	Status = 0
}

func SetStdin(b []byte) { stdin = b; StdinRd = 0 }

func (n *Node) add(k *Node) *Node {
	k.Parent = n
	n.Kids = append(n.Kids, k)
	return k
}

func (n *Node) child(name string) *Node {
	for _, k := range n.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

func (n *Node) remove() {
	p := n.Parent
	if p == nil {
		return
	}
	var out []*Node
	for _, k := range p.Kids {
		if k != n {
			out = append(out, k)
		}
	}
	p.Kids = out
	n.Parent = nil
}

// Path gives the absolute location of a node.
func (n *Node) Path() string {
	if n.Parent == nil {
		if n == Root {
			return "/"
		}
		return n.Name // unlinked
	}
	p := n.Parent.Path()
	if p == "/" {
		return "/" + n.Name
	}
	return p + "/" + n.Name
}

func split(p string) []string {
	var out []string
	s := 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			if i > s {
				out = append(out, p[s:i])
			}
			s = i + 1
		}
	}
	return out
}

// hasNul: a path with a NUL byte is invalid.
func hasNul(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return true
		}
	}
	return false
}

var errInval error = &sysErr{"invalid argument"}

// walk resolves p. It returns the node (nil if the last component does not
// exist), its parent directory and the last component.
func walk(p string, follow bool, depth int) (n *Node, dir *Node, last string, err error) {
	if depth > 20 {
		return nil, nil, "", errLoop
	}
	if p == "" {
		return nil, nil, "", ErrNotExist
	}
	if hasNul(p) {
		return nil, nil, "", errInval
	}
	cur := Root
	if p[0] != '/' {
		cw, _, _, err := walk(Cwd, true, depth+1)
		if err != nil || cw == nil {
			return nil, nil, "", ErrNotExist
		}
		cur = cw
	}
	trail := p[len(p)-1] == '/'
	cs := split(p)
	for i, c := range cs {
		if !cur.Dir {
			return nil, nil, "", errNotDir
		}
		if c == "." {
			continue
		}
		if c == ".." {
			if cur.Parent != nil {
				cur = cur.Parent
			}
			continue
		}
		k := cur.child(c)
		if k == nil {
			if i == len(cs)-1 {
				return nil, cur, c, nil
			}
			return nil, nil, "", ErrNotExist
		}
		if k.Link && (i < len(cs)-1 || follow || trail) {
			t := k.Target
			if t == "" {
				return nil, nil, "", ErrNotExist
			}
			if t[0] != '/' {
				t = cur.Path() + "/" + t
			}
			n, d, l, err := walk(t, true, depth+1)
			if err != nil {
				return nil, nil, "", err
			}
			if n == nil {
				if i == len(cs)-1 {
					return nil, d, l, nil
				}
				return nil, nil, "", ErrNotExist
			}
			k = n
		}
		cur = k
	}
	if trail && !cur.Dir {
		return nil, nil, "", errNotDir
	}
	return cur, cur.Parent, cur.Name, nil
}

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

func fault(op, path string) error {
	if Fault != nil {
		return Fault(op, path)
	}
	return nil
}

func event(op, path, arg string) {
	if !NoLog {
		Events = append(Events, Event{op, path, arg})
	}
	if After != nil {
		After(op, path)
	}
}

func dirPath(d *Node, last string) string {
	p := d.Path()
	if p == "/" {
		return "/" + last
	}
	return p + "/" + last
}

// File -----------------------------------------------------------------------

type File struct {
	std    int
	name   string
	n      *Node
	path   string
	pos    int
	wr     bool
	rd     bool
	app    bool
	closed bool
	dirty  bool // written to and not synced
}

func (f *File) IsStd() bool { return f != nil && f.std != 0 }

func NewFile(fd uintptr, name string) *File { return nil }

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	n, d, last, err := walk(name, flag&O_EXCL == 0, 0)
	if err != nil {
		return nil, perr("open", name, err)
	}
	wr := flag&3 != O_RDONLY
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		if d == nil {
			return nil, perr("open", name, ErrNotExist)
		}
		path := dirPath(d, last)
		if err := fault("create", path); err != nil {
			return nil, perr("open", name, err)
		}
		n = d.add(&Node{Name: last, Mode: perm &^ 0o022, Mtime: Now})
		event("create", path, "")
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, ErrExist)
		}
		if n.Dir && wr {
			return nil, perr("open", name, errIsDir)
		}
		path := n.Path()
		if err := fault("open", path); err != nil {
			return nil, perr("open", name, err)
		}
		if flag&O_TRUNC != 0 && wr {
			if err := fault("truncate", path); err != nil {
				return nil, perr("open", name, err)
			}
			n.Data = nil
			n.Mtime = Now
			event("truncate", path, "")
		}
	}
	return &File{name: name, n: n, path: n.Path(), wr: wr, rd: flag&3 != O_WRONLY, app: flag&O_APPEND != 0}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	for {
		tmpSeq++
		p := dir + "/" + pre + itoa(100000+tmpSeq) + suf
		f, err := OpenFile(p, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if err != nil && IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpSeq++
	p := dir + "/" + pattern + itoa(100000+tmpSeq)
	return p, Mkdir(p, 0o700)
}

func itoa(n int) string {
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	return string(b)
}

func (f *File) chk(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(b []byte) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if f.std == 1 {
		if len(b) == 0 {
			return 0, nil
		}
		if StdinRd >= len(stdin) {
			return 0, io.EOF
		}
		// line-buffered terminal
		n := 0
		for n < len(b) && StdinRd < len(stdin) {
			b[n] = stdin[StdinRd]
			n++
			StdinRd++
			if b[n-1] == '\n' {
				break
			}
		}
		return n, nil
	}
	if f.std != 0 || !f.rd {
		return 0, perr("read", f.name, errBadFd)
	}
	if f.n.Dir {
		return 0, perr("read", f.name, errIsDir)
	}
	if err := fault("read", f.path); err != nil {
		return 0, perr("read", f.name, err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if int(off) >= len(f.n.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	switch f.std {
	case 2:
		Out = append(Out, b...)
		return len(b), nil
	case 3:
		ErrOut = append(ErrOut, b...)
		return len(b), nil
	}
	if !f.wr {
		return 0, perr("write", f.name, errBadFd)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := fault("write", f.path); err != nil {
		return 0, perr("write", f.name, err)
	}
	if f.app {
		f.pos = len(f.n.Data)
	}
	for len(f.n.Data) < f.pos {
		f.n.Data = append(f.n.Data, 0)
	}
	k := copy(f.n.Data[f.pos:], b)
	f.n.Data = append(f.n.Data, b[k:]...)
	f.pos += len(b)
	f.dirty = true
	f.n.Mtime = Now
	event("write", f.path, "")
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	p := f.pos
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = p
	return n, err
}

func (f *File) Seek(off int64, wh int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, perr("seek", f.name, ErrInvalid)
	}
	if err := fault("seek", f.path); err != nil {
		return 0, perr("seek", f.name, err)
	}
	p := int(off)
	switch wh {
	case 1:
		p += f.pos
	case 2:
		p += len(f.n.Data)
	}
	if p < 0 {
		return 0, perr("seek", f.name, ErrInvalid)
	}
	f.pos = p
	return int64(p), nil
}

func (f *File) Truncate(n int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	if !f.wr || n < 0 {
		return perr("truncate", f.name, ErrInvalid)
	}
	if err := fault("truncate", f.path); err != nil {
		return perr("truncate", f.name, err)
	}
	for len(f.n.Data) < int(n) {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = f.n.Data[:n]
	event("truncate", f.path, "")
	return nil
}

func (f *File) Sync() error {
	if err := f.chk("sync"); err != nil {
		return err
	}
	if err := fault("sync", f.path); err != nil {
		return perr("sync", f.name, err)
	}
	f.dirty = false
	return nil
}

func (f *File) Close() error {
	if err := f.chk("close"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	f.closed = true
	if f.wr {
		if err := fault("close", f.path); err != nil {
			// what was written last did not get there
			if f.dirty && len(f.n.Data) > 0 {
				f.n.Data = f.n.Data[:len(f.n.Data)-1]
			}
			return perr("close", f.name, err)
		}
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return &stat{name: f.name, mode: fs.ModeCharDevice | 0o600}, nil
	}
	return mkStat(f.n), nil
}

func (f *File) Chmod(m FileMode) error {
	if err := f.chk("chmod"); err != nil {
		return err
	}
	f.n.Mode = f.n.Mode&^0o777 | m&0o777
	event("chmod", f.path, "")
	return nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.name) }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	var out []FileInfo
	for _, k := range f.n.Kids {
		out = append(out, mkStat(k))
	}
	return out, nil
}
func (f *File) Readdirnames(n int) ([]string, error) {
	var out []string
	for _, k := range f.n.Kids {
		out = append(out, k.Name)
	}
	return out, nil
}

type stat struct {
	name  string
	size  int64
	mode  FileMode
	mtime time.Time
	n     *Node
}

func mkStat(n *Node) *stat {
	s := &stat{name: n.Name, mode: n.Mode, mtime: n.Mtime, size: int64(len(n.Data)), n: n}
	if n.Dir {
		s.mode |= fs.ModeDir
	}
	if n.Link {
		s.mode |= fs.ModeSymlink
		s.size = int64(len(n.Target))
	}
	return s
}

func (s *stat) Name() string       { return s.name }
func (s *stat) Size() int64        { return s.size }
func (s *stat) Mode() FileMode     { return s.mode }
func (s *stat) ModTime() time.Time { return s.mtime }
func (s *stat) IsDir() bool        { return s.mode&fs.ModeDir != 0 }
func (s *stat) Sys() any           { return nil }

func (s *stat) Type() FileMode          { return s.mode & fs.ModeType }
func (s *stat) Info() (FileInfo, error) { return s, nil }
func (s *stat) String() string          { return s.name }

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*stat)
	y, ok2 := b.(*stat)
	return ok1 && ok2 && x.n == y.n
}

func statOp(op, name string, follow bool) (FileInfo, error) {
	n, _, _, err := walk(name, follow, 0)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err != nil {
		return nil, perr(op, name, err)
	}
	if err := fault(op, n.Path()); err != nil {
		return nil, perr(op, name, err)
	}
	return mkStat(n), nil
}

func Stat(name string) (FileInfo, error)  { return statOp("stat", name, true) }
func Lstat(name string) (FileInfo, error) { return statOp("lstat", name, false) }

func Mkdir(name string, perm FileMode) error {
	n, d, last, err := walk(name, false, 0)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if n != nil {
		return perr("mkdir", name, ErrExist)
	}
	path := dirPath(d, last)
	if err := fault("mkdir", path); err != nil {
		return perr("mkdir", name, err)
	}
	d.add(&Node{Name: last, Dir: true, Mode: perm&0o777 | fs.ModeDir, Mtime: Now})
	event("mkdir", path, "")
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	if n, _, _, err := walk(name, true, 0); err == nil && n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, errNotDir)
	}
	i := len(name)
	for i > 0 && name[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && name[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(name[:j-1], perm); err != nil {
			return err
		}
	}
	err := Mkdir(name[:i], perm)
	if err != nil {
		if fi, e2 := Lstat(name); e2 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	n, _, _, err := walk(name, false, 0)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err != nil {
		return perr("remove", name, err)
	}
	if n.Dir && len(n.Kids) > 0 {
		return perr("remove", name, errNotEmpty)
	}
	path := n.Path()
	if err := fault("remove", path); err != nil {
		return perr("remove", name, err)
	}
	n.remove()
	event("remove", path, "")
	return nil
}

func RemoveAll(name string) error {
	n, _, _, err := walk(name, false, 0)
	if err != nil || n == nil {
		return nil
	}
	path := n.Path()
	n.remove()
	event("remove", path, "")
	return nil
}

func Rename(from, to string) error {
	a, _, _, err := walk(from, false, 0)
	if err == nil && a == nil {
		err = ErrNotExist
	}
	if err != nil {
		return &LinkError{"rename", from, to, err}
	}
	b, d, last, err := walk(to, false, 0)
	if err != nil {
		return &LinkError{"rename", from, to, err}
	}
	path := ""
	if b != nil {
		if b == a {
			return nil
		}
		if b.Dir != a.Dir || (b.Dir && len(b.Kids) > 0) {
			return &LinkError{"rename", from, to, ErrExist}
		}
		path = b.Path()
		d, last = b.Parent, b.Name
	} else {
		path = dirPath(d, last)
	}
	src := a.Path()
	if err := fault("rename", path); err != nil {
		return &LinkError{"rename", from, to, err}
	}
	if b != nil {
		b.remove()
	}
	a.remove()
	a.Name = last
	d.add(a)
	event("rename", path, src)
	return nil
}

func Symlink(target, name string) error {
	n, d, last, err := walk(name, false, 0)
	if err != nil {
		return &LinkError{"symlink", target, name, err}
	}
	if n != nil {
		return &LinkError{"symlink", target, name, ErrExist}
	}
	path := dirPath(d, last)
	if err := fault("symlink", path); err != nil {
		return &LinkError{"symlink", target, name, err}
	}
	d.add(&Node{Name: last, Link: true, Target: target, Mode: 0o777 | fs.ModeSymlink, Mtime: Now})
	event("symlink", path, target)
	return nil
}

func Link(from, to string) error { return &LinkError{"link", from, to, ErrPermission} }

func Readlink(name string) (string, error) {
	n, _, _, err := walk(name, false, 0)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err == nil && !n.Link {
		err = ErrInvalid
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.Target, nil
}

func node(op, name string, follow bool) (*Node, error) {
	n, _, _, err := walk(name, follow, 0)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err != nil {
		return nil, perr(op, name, err)
	}
	if err := fault(op, n.Path()); err != nil {
		return nil, perr(op, name, err)
	}
	return n, nil
}

func Chmod(name string, m FileMode) error {
	n, err := node("chmod", name, true)
	if err != nil {
		return err
	}
	n.Mode = n.Mode&fs.ModeType | m&^fs.ModeType
	event("chmod", n.Path(), "")
	return nil
}

func Chown(name string, uid, gid int) error {
	n, err := node("chown", name, true)
	if err != nil {
		return err
	}
	n.Uid, n.Gid = uid, gid
	event("chown", n.Path(), "")
	return nil
}

func Lchown(name string, uid, gid int) error {
	n, err := node("chown", name, false)
	if err != nil {
		return err
	}
	n.Uid, n.Gid = uid, gid
	event("chown", n.Path(), "")
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	n, err := node("chtimes", name, true)
	if err != nil {
		return err
	}
	n.Mtime = m
	event("chtimes", n.Path(), "")
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func ReadDir(name string) ([]DirEntry, error) {
	n, err := node("open", name, true)
	if err != nil {
		return nil, err
	}
	if !n.Dir {
		return nil, perr("readdir", name, errNotDir)
	}
	var out []DirEntry
	for _, k := range n.Kids {
		e := mkStat(k)
		i := len(out)
		out = append(out, e)
		for i > 0 && out[i-1].Name() > e.name {
			out[i] = out[i-1]
			i--
		}
		out[i] = e
	}
	return out, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	b := make([]byte, len(f.n.Data))
	copy(b, f.n.Data)
	return b, nil
}

func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func EvalSymlinks(p string) (string, error) {
	n, _, _, err := walk(p, true, 0)
	if err == nil && n == nil {
		err = ErrNotExist
	}
	if err != nil {
		return "", perr("lstat", p, err)
	}
	q := n.Path()
	if p[0] != '/' {
		c := Cwd + "/"
		if len(q) > len(c) && q[:len(c)] == c {
			return q[len(c):], nil
		}
	}
	return q, nil
}

func underlying(err error) error {
	switch e := err.(type) {
	case *PathError:
		return e.Err
	case *LinkError:
		return e.Err
	}
	return err
}

func IsExist(err error) bool {
	e := underlying(err)
	return e == ErrExist || e == errNotEmpty
}
func IsNotExist(err error) bool    { return underlying(err) == ErrNotExist }
func IsPermission(err error) bool  { return underlying(err) == ErrPermission }
func IsPathSeparator(c uint8) bool { return c == '/' }

type exitPanic struct{ Code int }

func Exit(code int) {
	Exited = true
	Status = code
	panic(exitPanic{code})
}

// IsExit tells whether a recovered panic value came from Exit.
func IsExit(r any) bool {
	_, ok := r.(exitPanic)
	return ok
}

func Getuid() int                       { return 0 }
func Geteuid() int                      { return 0 }
func Getgid() int                       { return 0 }
func Getegid() int                      { return 0 }
func Getpid() int                       { return 42 }
func Getwd() (string, error)            { return Cwd, nil }
func TempDir() string                   { return "/tmp" }
func Getenv(k string) string            { return "" }
func LookupEnv(k string) (string, bool) { return "", false }
func Chdir(p string) error              { Cwd = p; return nil }
func Hostname() (string, error)         { return "host", nil }
func UserHomeDir() (string, error)      { return "/root", nil }

// helpers for harnesses ---------------------------------------------------------

// Put creates (or replaces) a file, making parent directories, without logging.
func Put(p string, data []byte) *Node {
	s := NoLog
	f, a := Fault, After
	Fault, After = nil, nil
	NoLog = true
	i := len(p) - 1
	for i > 0 && p[i] != '/' {
		i--
	}
	if i > 0 {
		_ = MkdirAll(p[:i], 0o755)
	}
	_ = WriteFile(p, data, 0o644)
	n, _, _, _ := walk(p, true, 0)
	NoLog = s
	Fault, After = f, a
	return n
}

// Get returns the contents of a file, nil and false when it does not exist.
func Get(p string) ([]byte, bool) {
	n, _, _, err := walk(p, true, 0)
	if err != nil || n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Lookup returns the node at p without following a final link, or nil.
func Lookup(p string) *Node {
	n, _, _, err := walk(p, false, 0)
	if err != nil {
		return nil
	}
	return n
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(onlyWriter{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, onlyReader{f})
}

type onlyWriter struct{ f *File }

func (w onlyWriter) Write(b []byte) (int, error) { return w.f.Write(b) }

type onlyReader struct{ f *File }

func (r onlyReader) Read(b []byte) (int, error) { return r.f.Read(b) }

func (f *File) Chown(uid, gid int) error { return Chown(f.name, uid, gid) }

type SyscallError struct {
	Syscall string
	Err     error
}

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }

func NewSyscallError(s string, err error) error {
	if err == nil {
		return nil
	}
	return &SyscallError{s, err}
}

func Getppid() int                { return 1 }
func Getpagesize() int            { return 4096 }
func Environ() []string           { return nil }
func Clearenv()                   {}
func ExpandEnv(s string) string   { return s }
func Executable() (string, error) { return "/bin/lha", nil }
func IsTimeout(err error) bool    { return false }
