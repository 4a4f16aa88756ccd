package main

// Scratch module: a copy of the repository's Go files with the environment
// packages redirected to models, plus the harness files.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var modPrefix string

var redirect = map[string]string{
	"os":            "zzverif/vos",
	"fmt":           "zzverif/vfmt",
	"path/filepath": "zzverif/vfilepath",
	"io/ioutil":     "zzverif/vioutil",
	"flag":          "zzverif/vflag",
}

var redirectName = map[string]string{"os": "os", "fmt": "fmt", "path/filepath": "filepath", "io/ioutil": "ioutil", "flag": "flag"}

func readModule(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			return f[1], nil
		}
	}
	return "", fmt.Errorf("no module line")
}

// rewrite redirects imports of one source file. It reports the edited text
// and rewrites "package main" of the command to an importable package.
func rewrite(name string, src []byte, mod string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly|parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		a, b int
		s    string
	}
	var eds []edit
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"")
		r, ok := redirect[p]
		if !ok {
			continue
		}
		nm := redirectName[p]
		a := fset.Position(im.Pos()).Offset
		b := fset.Position(im.End()).Offset
		if im.Name != nil {
			nm = im.Name.Name
		}
		eds = append(eds, edit{a, b, nm + " \"" + mod + "/" + r + "\""})
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].a > eds[j].a })
	out := string(src)
	for _, e := range eds {
		out = out[:e.a] + e.s + out[e.b:]
	}
	return []byte(out), nil
}

func copyFile(dst string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o644)
}

// makeScratch builds the scratch module in dir.
func makeScratch(dir, repo, hdir string, harness []string) (string, error) {
	mod, err := readModule(repo)
	if err != nil {
		return "", err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(repo, f)); err == nil {
			if err := copyFile(filepath.Join(dir, f), b); err != nil {
				return "", err
			}
		}
	}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if b := filepath.Base(p); rel != "." && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		nb, err := rewrite(p, b, mod)
		if err != nil {
			return err
		}
		return copyFile(filepath.Join(dir, rel), nb)
	})
	if err != nil {
		return "", err
	}
	// environment models and runtime
	zz := filepath.Join(hdir, "zzverif")
	err = filepath.Walk(zz, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(hdir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return copyFile(filepath.Join(dir, rel), []byte(strings.ReplaceAll(string(b), "MODULE/", mod+"/")))
	})
	if err != nil {
		return "", err
	}
	var names []string
	cli := false
	for _, h := range harness {
		b, err := os.ReadFile(filepath.Join(hdir, h))
		if err != nil {
			return "", err
		}
		txt := strings.ReplaceAll(string(b), "MODULE/", mod+"/")
		if strings.Contains(txt, "VhCliMain") {
			cli = true
		}
		if err := copyFile(filepath.Join(dir, "zz_"+filepath.Base(h)), []byte(txt)); err != nil {
			return "", err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, h, txt, 0)
		if err != nil {
			return "", err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "VH_") {
				names = append(names, fd.Name.Name)
			}
		}
	}
	var sb strings.Builder
	pkgName := "lha"
	// package name of the repository root
	if es, err := os.ReadDir(repo); err == nil {
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				fset := token.NewFileSet()
				if f, err := parser.ParseFile(fset, filepath.Join(repo, e.Name()), nil, parser.PackageClauseOnly); err == nil {
					pkgName = f.Name.Name
					break
				}
			}
		}
	}
	fmt.Fprintf(&sb, "package %s\n\nimport _ \"%s/zzverif/vstd\"\n\n// VRun runs a harness natively.\nfunc VRun(name string) bool {\n\tswitch name {\n", pkgName, mod)
	for _, n := range names {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s()\n", n, n)
	}
	sb.WriteString("\tdefault:\n\t\treturn false\n\t}\n\treturn true\n}\n")
	if err := copyFile(filepath.Join(dir, "zz_registry.go"), []byte(sb.String())); err != nil {
		return "", err
	}
	imp := ""
	if cli {
		if err := makeCli(dir, repo, mod, names); err != nil {
			return "", err
		}
		imp = "\t_ \"" + mod + "/zzcli\"\n"
	}
	m := "package main\n\nimport (\n\tlha \"" + mod + "\"\n\t\"" + mod + "/zzverif/vrt\"\n" + imp + ")\n\nfunc main() { vrt.Main(lha.VRun) }\n"
	if err := copyFile(filepath.Join(dir, "zzverif", "replay", "main.go"), []byte(m)); err != nil {
		return "", err
	}
	return mod, nil
}

// makeCli copies the command, as a package that can be imported, and hands
// its main function to the harness.
func makeCli(dir, repo, mod string, names []string) error {
	es, err := os.ReadDir(filepath.Join(repo, "cmd"))
	if err != nil {
		return err
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(repo, "cmd", e.Name()))
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, e.Name(), b, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		if f.Name.Name != "main" {
			continue
		}
		o := fset.Position(f.Name.Pos()).Offset
		b = append(append(append([]byte{}, b[:o]...), "zzcli"...), b[o+4:]...)
		if b, err = rewrite(e.Name(), b, mod); err != nil {
			return err
		}
		if err := copyFile(filepath.Join(dir, "zzcli", e.Name()), b); err != nil {
			return err
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package zzcli\n\nimport zzlha %q\n\nfunc init() { zzlha.VhCliMain = main }\n\n", mod)
	for _, n := range names {
		fmt.Fprintf(&sb, "func %s() { zzlha.%s() }\n", n, n)
	}
	return copyFile(filepath.Join(dir, "zzcli", "zz_registry.go"), []byte(sb.String()))
}

// packages whose initialisers are executed (concretely) before a harness.
var initOK = map[string]bool{
	"errors": false, "io": true, "io/fs": true, "internal/oserror": true, "strings": true, "bytes": true, "bufio": true,
	"unicode": true, "unicode/utf8": true, "strconv": true, "sort": true, "path": true, "time": true, "math/bits": true,
	"internal/bytealg": false, "slices": true, "cmp": true, "math": true, "encoding/binary": false, "internal/stringslite": true,
	"iter": true, "hash": true, "hash/crc32": false, "container/list": true, "internal/itoa": true, "unicode/utf16": true, "internal/strconv": true,
}

// zero-valued globals that may be read without initialisation.
var zeroOK = map[string]bool{"encoding/binary": true, "errors": true, "internal/bytealg": true, "internal/cpu": true, "internal/race": true}

func loadProg(dir, mod string, env []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		Env:        env,
		BuildFlags: []string{"-tags=verifsym"},
	}
	root := "."
	if _, err := os.Stat(filepath.Join(dir, "zzcli")); err == nil {
		root = "./zzcli"
	}
	pkgs, err := packages.Load(cfg, root)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 8)], "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	modPrefix = mod
	pr := &Prog{prog: prog, fset: prog.Fset, gids: map[*ssa.Global]uint32{}, repl: map[string]*ssa.Function{}, dir: dir, mod: mod}
	pr.main = ps[0]
	pr.rtErr = types.Typ[types.String]
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	id := uint32(1)
	for _, p := range all {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				pr.gids[g] = id
				pr.glist = append(pr.glist, g)
				id++
			}
		}
	}
	pr.pkgs = all
	// library replacements
	for _, p := range all {
		if strings.HasSuffix(p.Pkg.Path(), "/zzverif/vstd") {
			if t := p.Type("RuntimeError"); t != nil {
				pr.rtErr = t.Type()
			}
			for n, m := range p.Members {
				f, ok := m.(*ssa.Function)
				if !ok {
					continue
				}
				if t, ok := stdRepl[n]; ok {
					pr.repl[t] = f
				}
			}
		}
	}
	return pr, nil
}

var stdRepl = map[string]string{
	"IndexByte":       "internal/bytealg.IndexByte",
	"IndexByteString": "internal/bytealg.IndexByteString",
	"Count":           "internal/bytealg.Count",
	"CountString":     "internal/bytealg.CountString",
	"Compare":         "internal/bytealg.Compare",
	"CompareString":   "internal/bytealg.CompareString",
	"StringsIndex":    "strings.Index",
	"ErrorsIs":        "errors.Is",
	"SortStrings":     "sort.Strings",
	"TimeNow":         "time.Now",
	"ErrorsAs":        "errors.As",
	"SortSlice":       "sort.Slice",
	"SortSliceStable": "sort.SliceStable",
	"SliceIsSorted":   "sort.SliceIsSorted",
	"PoolGet":         "(*sync.Pool).Get",
	"Max":             "math.archMax",
	"Min":             "math.archMin",
	"Floor":           "math.archFloor",
	"Ceil":            "math.archCeil",
	"Trunc":           "math.archTrunc",
}

// initState allocates globals and runs the initialisers.
func (x *Exec) initState() *State {
	st := &State{owner: x.newOwner(), nobj: 1, model: Model{}, seq: map[string]int{}}
	st.chunks = []*chunk{{owner: st.owner}}
	for _, g := range x.pr.glist {
		t := deref(g.Type())
		elem, esz, n := t, x.pr.size(t), 1
		if a, ok := t.Underlying().(*types.Array); ok {
			elem, esz, n = a.Elem(), x.pr.size(a.Elem()), int(a.Len())
		}
		id := st.alloc(elem, esz, n)
		o := st.getObj(id)
		o.name = g.String()
		path := g.Pkg.Pkg.Path()
		if !initOK[path] && !strings.HasPrefix(path, x.pr.mod) && !zeroOK[path] {
			o.unin = true
		}
		if id != x.pr.gids[g] {
			panic("global numbering")
		}
	}
	x.initMode = true
	x.pushFrame(st, x.pr.fn(x.pr.main.Func("init")), nil, nil, noReg)
	rs := x.run(st, Stop{depth: 1, blk: -1})
	if len(rs) != 1 {
		msg := ""
		for k := range x.incon {
			msg += k + "; "
		}
		panic(unsupported{"package initialisers failed: " + msg})
	}
	st = rs[0]
	x.initMode = false
	st.frames = nil
	st.steps = 0
	return st
}
