package vioutil

import (
	"io"
	"io/fs"

	"MODULE/zzverif/vos"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(p string) ([]byte, error)                 { return vos.ReadFile(p) }
func WriteFile(p string, b []byte, m fs.FileMode) error { return vos.WriteFile(p, b, m) }
func TempFile(dir, pat string) (*vos.File, error)       { return vos.CreateTemp(dir, pat) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }

func TempDir(dir, pat string) (string, error) { return vos.MkdirTemp(dir, pat) }

func ReadDir(p string) ([]fs.FileInfo, error) {
	es, err := vos.ReadDir(p)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
