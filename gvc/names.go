package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
)

// The contracts name functions, struct fields, parameters and local variables
// of the source. specs/names.json lists the names in the source the contracts
// were written against. When the current source has other names, and a plain
// renaming explains the difference, the contracts' names are put back in the
// syntax trees before anything is translated: an alpha-renaming, which is
// checked to be one (every identifier still denotes the same declaration).

type nameEntry struct {
	Name string `json:"n"`
	Type string `json:"t"`
}

type pkgNames struct {
	Funcs  map[string]string      `json:"funcs"`  // key -> receiver and signature
	Locals map[string][]nameEntry `json:"locals"` // function key -> variables in order
	Fields map[string][]nameEntry `json:"fields"` // type -> fields in order
}

func loadNames(file string) map[string]*pkgNames {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	m := map[string]*pkgNames{}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func sigStr(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	s := ""
	if r := sig.Recv(); r != nil {
		s = typeStr(r.Type()) + " "
	}
	tup := func(t *types.Tuple) string {
		o := "("
		for i := 0; i < t.Len(); i++ {
			o += typeStr(t.At(i).Type()) + ","
		}
		return o + ")"
	}
	s += tup(sig.Params()) + tup(sig.Results())
	if sig.Variadic() {
		s += "..."
	}
	return s
}

// localVars are the variables declared in a function, in source order.
func localVars(fd *ast.FuncDecl, info *types.Info) []*types.Var {
	var out []*types.Var
	ast.Inspect(fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name != "_" {
			if v, ok := info.Defs[id].(*types.Var); ok && !v.IsField() {
				out = append(out, v)
			}
		}
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func pkgFuncs(files []*ast.File, info *types.Info) (map[string]*types.Func, map[string]*ast.FuncDecl) {
	fns, ds := map[string]*types.Func{}, map[string]*ast.FuncDecl{}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				if fn, ok := info.Defs[fd.Name].(*types.Func); ok {
					fns[funcKey(fn)] = fn
					ds[funcKey(fn)] = fd
				}
			}
		}
	}
	return fns, ds
}

func structFields(pkg *types.Package) map[string][]*types.Var {
	out := map[string][]*types.Var{}
	for _, n := range pkg.Scope().Names() {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok && !tn.IsAlias() {
				for i := 0; i < st.NumFields(); i++ {
					out[n] = append(out[n], st.Field(i))
				}
			}
		}
	}
	return out
}

func collectNames(w *world) map[string]*pkgNames {
	out := map[string]*pkgNames{}
	for path, pi := range w.pkgs {
		pn := &pkgNames{Funcs: map[string]string{}, Locals: map[string][]nameEntry{}, Fields: map[string][]nameEntry{}}
		fns, ds := pkgFuncs(pi.files, pi.info)
		for k, fn := range fns {
			pn.Funcs[k] = sigStr(fn)
			for _, v := range localVars(ds[k], pi.info) {
				pn.Locals[k] = append(pn.Locals[k], nameEntry{v.Name(), typeStr(v.Type())})
			}
		}
		for t, fs := range structFields(pi.pkg) {
			for _, v := range fs {
				pn.Fields[t] = append(pn.Fields[t], nameEntry{v.Name(), typeStr(v.Type())})
			}
		}
		out[path] = pn
	}
	return out
}

// alignNames maps current variables to the names they had: those that match
// in name and type are kept in place (a longest common subsequence); what is
// left between two of them is paired by type where the numbers agree.
func alignNames(old []nameEntry, cur []*types.Var, out map[types.Object]string) {
	n, m := len(old), len(cur)
	same := func(i, j int) bool {
		return old[i].Name == cur[j].Name() && old[i].Type == typeStr(cur[j].Type())
	}
	l := make([][]int, n+1)
	for i := range l {
		l[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			switch {
			case same(i, j):
				l[i][j] = l[i+1][j+1] + 1
			case l[i+1][j] >= l[i][j+1]:
				l[i][j] = l[i+1][j]
			default:
				l[i][j] = l[i][j+1]
			}
		}
	}
	names := map[string]bool{}
	for _, v := range cur {
		names[v.Name()] = true
	}
	var go_, gc []int
	flush := func() {
		bt := map[string][]int{}
		for _, i := range go_ {
			if !names[old[i].Name] { // the name is gone
				bt[old[i].Type] = append(bt[old[i].Type], i)
			}
		}
		ct := map[string][]int{}
		known := map[string]bool{}
		for _, e := range old {
			known[e.Name] = true
		}
		for _, j := range gc {
			if !known[cur[j].Name()] { // the name is new
				t := typeStr(cur[j].Type())
				ct[t] = append(ct[t], j)
			}
		}
		for t, is := range bt {
			if js := ct[t]; len(js) == len(is) {
				for k := range is {
					out[cur[js[k]]] = old[is[k]].Name
				}
			}
		}
		go_, gc = nil, nil
	}
	i, j := 0, 0
	for i < n || j < m {
		switch {
		case i < n && j < m && same(i, j):
			flush()
			i++
			j++
		case j >= m || (i < n && l[i+1][j] >= l[i][j+1]):
			go_ = append(go_, i)
			i++
		default:
			gc = append(gc, j)
			j++
		}
	}
	flush()
}

// renamings proposes the alpha-renaming of a package.
func renamings(pn *pkgNames, files []*ast.File, info *types.Info, pkg *types.Package) map[types.Object]string {
	out := map[types.Object]string{}
	fns, ds := pkgFuncs(files, info)
	// functions that are gone, and new ones of the same signature
	was := map[string][]string{}
	for k, s := range pn.Funcs {
		if fns[k] == nil {
			was[s] = append(was[s], k)
		}
	}
	is := map[string][]string{}
	for k, fn := range fns {
		if _, ok := pn.Funcs[k]; !ok {
			is[sigStr(fn)] = append(is[sigStr(fn)], k)
		}
	}
	oldKey := map[string]string{}
	for s, ks := range was {
		if len(ks) == 1 && len(is[s]) == 1 {
			k := ks[0]
			name := k
			for i := len(k) - 1; i >= 0; i-- {
				if k[i] == '.' {
					name = k[i+1:]
					break
				}
			}
			fn := fns[is[s][0]]
			if !token.IsExported(name) && !token.IsExported(fn.Name()) {
				out[fn] = name
				oldKey[is[s][0]] = k
			}
		}
	}
	for k, fd := range ds {
		ok := k
		if o := oldKey[k]; o != "" {
			ok = o
		}
		if old := pn.Locals[ok]; old != nil {
			alignNames(old, localVars(fd, info), out)
		}
	}
	for t, fs := range structFields(pkg) {
		if old := pn.Fields[t]; old != nil {
			m := map[types.Object]string{}
			alignNames(old, fs, m)
			for o, n := range m {
				if !o.(*types.Var).Embedded() && !token.IsExported(n) && !token.IsExported(o.Name()) {
					out[o] = n
				}
			}
		}
	}
	return out
}

func newInfo() *types.Info {
	return &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
}

// canonNames renames in the syntax trees; it reports what it renamed.
func canonNames(pn *pkgNames, path string, files []*ast.File, conf types.Config) []string {
	info := newInfo()
	pkg, err := conf.Check(path, fset, files, info)
	if err != nil {
		return nil
	}
	ren := renamings(pn, files, info, pkg)
	if len(ren) == 0 {
		return nil
	}
	decl := map[*ast.Ident]token.Pos{}
	olds := map[*ast.Ident]string{}
	obj := func(inf *types.Info, id *ast.Ident) types.Object {
		if o := inf.Defs[id]; o != nil {
			return o
		}
		return inf.Uses[id]
	}
	var ids []*ast.Ident
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				ids = append(ids, id)
			}
			return true
		})
	}
	var notes []string
	for _, id := range ids {
		o := obj(info, id)
		if o == nil {
			continue
		}
		decl[id] = o.Pos()
		if nn, ok := ren[o]; ok {
			if id.Pos() == o.Pos() {
				notes = append(notes, posOf(id.Pos())+": "+id.Name+" is "+nn+" in the contracts")
			}
			olds[id] = id.Name
			id.Name = nn
		}
	}
	undo := func() {
		for id, n := range olds {
			id.Name = n
		}
	}
	inf2 := newInfo()
	conf.Error = func(error) {}
	if _, err := conf.Check(path, fset, files, inf2); err != nil {
		undo()
		return nil
	}
	for _, id := range ids {
		o := obj(inf2, id)
		p, ok := decl[id]
		if (o != nil) != ok || (o != nil && o.Pos() != p) {
			undo()
			return nil
		}
	}
	sort.Strings(notes)
	return notes
}
