// Package vfilepath stands in for path/filepath (Unix semantics).
package vfilepath

import (
	"io/fs"
	"path"
	"strings"

	"MODULE/zzverif/vos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

type WalkFunc func(path string, info fs.FileInfo, err error) error

var SkipDir = fs.SkipDir
var SkipAll = fs.SkipAll

func Base(p string) string                     { return path.Base(p) }
func Dir(p string) string                      { return path.Dir(p) }
func Ext(p string) string                      { return path.Ext(p) }
func Clean(p string) string                    { return path.Clean(p) }
func Join(e ...string) string                  { return path.Join(e...) }
func IsAbs(p string) bool                      { return strings.HasPrefix(p, "/") }
func Split(p string) (string, string)          { return path.Split(p) }
func ToSlash(p string) string                  { return p }
func FromSlash(p string) string                { return p }
func VolumeName(p string) string               { return "" }
func Match(pattern, name string) (bool, error) { return path.Match(pattern, name) }

func IsLocal(p string) bool {
	if IsAbs(p) || p == "" {
		return false
	}
	has := false
	q := p
	for q != "" {
		var part string
		i := strings.IndexByte(q, '/')
		if i < 0 {
			part, q = q, ""
		} else {
			part, q = q[:i], q[i+1:]
		}
		if part == "." || part == ".." {
			has = true
			break
		}
	}
	if has {
		p = Clean(p)
	}
	if p == ".." || strings.HasPrefix(p, "../") {
		return false
	}
	return true
}

func Rel(base, targ string) (string, error) {
	b, t := Clean(base), Clean(targ)
	if b == t {
		return ".", nil
	}
	if b == "." {
		b = ""
	} else {
		b += "/"
	}
	if strings.HasPrefix(t, b) && (b != "" || !IsAbs(t)) {
		return t[len(b):], nil
	}
	n := 0
	bb := strings.Split(Clean(base), "/")
	tt := strings.Split(t, "/")
	if IsAbs(base) != IsAbs(targ) {
		return "", vos.ErrInvalid
	}
	for n < len(bb) && n < len(tt) && bb[n] == tt[n] {
		n++
	}
	out := ""
	for i := n; i < len(bb); i++ {
		if out != "" {
			out += "/"
		}
		out += ".."
	}
	for i := n; i < len(tt); i++ {
		if out != "" {
			out += "/"
		}
		out += tt[i]
	}
	return out, nil
}

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := vos.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) { return vos.EvalSymlinks(p) }

func Walk(root string, fn WalkFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	es, err := vos.ReadDir(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		q := Join(p, e.Name())
		fi, err := vos.Lstat(q)
		if err != nil {
			if err := fn(q, fi, err); err != nil && err != SkipDir {
				return err
			}
		} else {
			err = walk(q, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

var ErrBadPattern = path.ErrBadPattern

func HasPrefix(p, prefix string) bool { return strings.HasPrefix(p, prefix) }

func Localize(p string) (string, error) {
	if !fs.ValidPath(p) {
		return "", vos.ErrInvalid
	}
	return p, nil
}

func SplitList(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p, ":")
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := vos.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := vos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := path.Split(pattern)
	if dir == "" {
		dir = "."
	} else if len(dir) > 1 {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		d, err := Glob(dir)
		if err != nil {
			return nil, err
		}
		dirs = d
	}
	var out []string
	for _, d := range dirs {
		es, err := vos.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			ok, err := path.Match(file, e.Name())
			if err != nil {
				return out, err
			}
			if ok {
				out = append(out, Join(d, e.Name()))
			}
		}
	}
	return out, nil
}
