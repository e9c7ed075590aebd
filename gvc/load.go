package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type pkgInfo struct {
	path  string
	pkg   *types.Package
	info  *types.Info
	files []*ast.File
	decls map[string]*ast.FuncDecl // by function key
	short string
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	Imports   []string
	ImportMap map[string]string
	Error     *struct{ Err string }
}

var fset = token.NewFileSet()

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
}

var clientDir string

func loadWorld(repo string) (*world, error) {
	w := newWorld()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Imports,ImportMap,Error", "./...")
	cmd.Dir = repo
	// the same settings as the repository's own build, so its cache is shared
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var ps []*listPkg
	exports := map[string]string{}
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, p)
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			w.modPath = p.Module.Path
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	imp := &worldImporter{w: w, gc: gc}
	var names map[string]*pkgNames
	if clientDir != "" {
		names = loadNames(filepath.Join(filepath.Dir(clientDir), "names.json"))
	}
	for _, p := range ps { // -deps lists dependencies first
		if p.Module == nil || !p.Module.Main {
			continue
		}
		pi := &pkgInfo{path: p.ImportPath, decls: map[string]*ast.FuncDecl{}}
		pi.short = strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, w.modPath), "/")
		pi.info = newInfo()
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pi.files = append(pi.files, af)
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.16", Sizes: types.SizesFor("gc", "amd64")}
		if pn := names[p.ImportPath]; pn != nil {
			w.renamed = append(w.renamed, canonNames(pn, p.ImportPath, pi.files, conf)...)
		}
		// client functions: compositions of the package's own functions whose
		// contracts state properties of more than one function
		if cf := filepath.Join(clientDir, strings.ReplaceAll(pi.short, "/", "_")+".go"); clientDir != "" {
			if _, err := os.Stat(cf); err == nil {
				if af, err := parser.ParseFile(fset, cf, nil, parser.ParseComments); err == nil {
					tc := types.Config{Importer: imp, GoVersion: "go1.16", Sizes: types.SizesFor("gc", "amd64")}
					if _, err := tc.Check(p.ImportPath, fset, append(append([]*ast.File{}, pi.files...), af), nil); err == nil {
						pi.files = append(pi.files, af)
					} else {
						w.clientErrs = append(w.clientErrs, err.Error())
					}
				}
			}
		}
		pkg, err := conf.Check(p.ImportPath, fset, pi.files, pi.info)
		if err != nil {
			return nil, err
		}
		pi.pkg = pkg
		for _, f := range pi.files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					if fn, ok := pi.info.Defs[fd.Name].(*types.Func); ok {
						pi.decls[funcKey(fn)] = fd
					}
				}
			}
		}
		w.pkgs[p.ImportPath] = pi
	}
	return w, nil
}

type worldImporter struct {
	w  *world
	gc types.Importer
}

func (i *worldImporter) Import(path string) (*types.Package, error) {
	if p, ok := i.w.pkgs[path]; ok {
		return p.pkg, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.gc.Import(path)
}

// funcKey is the name of a function inside its package: f or (T).m.
func funcKey(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok {
			return "(" + n.Obj().Name() + ")." + fn.Name()
		}
		return "(?)." + fn.Name()
	}
	return fn.Name()
}

// fullKey includes the package path.
func fullKey(fn *types.Func) string {
	if fn.Pkg() == nil {
		return "builtin." + funcKey(fn)
	}
	return fn.Pkg().Path() + "." + funcKey(fn)
}

func posOf(p token.Pos) string {
	ps := fset.Position(p)
	fn := ps.Filename
	if r, err := filepath.Rel(repoDir, fn); err == nil {
		fn = r
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

var repoDir = "/repo"
