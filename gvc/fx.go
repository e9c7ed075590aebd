package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type verifier struct {
	reveal  string // names of opaque specifications that are expanded
	lockUse map[*types.Func]int
	w       *world
	sp      *Specs
	qn      int
	pkgList []*types.Package
}

var heldVar = mkVar("held$", arrSort(SInt, SBool))

func bvResize(t *Term, bits uint, signed bool) *Term {
	var n uint
	fmt.Sscanf(string(t.Sort), "(_ BitVec %d)", &n)
	s := Sort(fmt.Sprintf("(_ BitVec %d)", bits))
	switch {
	case n == bits:
		return t
	case n > bits:
		return app(fmt.Sprintf("(_ extract %d 0)", bits-1), s, t)
	case signed:
		return app(fmt.Sprintf("(_ sign_extend %d)", bits-n), s, t)
	}
	return app(fmt.Sprintf("(_ zero_extend %d)", bits-n), s, t)
}

func (w *world) globalVar(o *types.Var) *Term {
	n := "G_" + o.Pkg().Path() + "." + o.Name()
	if g, ok := w.globals[n]; ok {
		return g
	}
	var g *Term
	if isAgg(o.Type()) {
		g = mkConst("addr_"+n, SInt)
		addAxiom("address of global "+n, mkAnd(mkLt(mkInt(0), g), mkEq(app("root", SInt, g), g)), "addr_"+n)
	} else if w.errConst(o) {
		// an error value made at initialisation that nothing assigns to
		g = mkConst("errv_"+n, SInt)
		addAxiom("error variable "+n+" is not nil", mkNot(mkEq(g, mkInt(0))), "errv_"+n)
	} else {
		g = w.heap(n, w.sortOf(o.Type()), o.Type())
	}
	w.globals[n] = g
	return g
}

// classAddr is the address of a package-level error class. Classes are only
// ever pointed at: the pointer stands for the class.
func (w *world) classAddr(o *types.Var) *Term {
	if o.Pkg() == nil || o.Parent() != o.Pkg().Scope() {
		return nil
	}
	nt, ok := o.Type().(*types.Named)
	if !ok || nt.Obj().Name() != "Class" || nt.Obj().Pkg() == nil || !strings.HasSuffix(nt.Obj().Pkg().Path(), "/errs") {
		return nil
	}
	n := "addr_G_" + o.Pkg().Path() + "." + o.Name()
	if g, ok := w.globals[n]; ok {
		return g
	}
	g := mkConst(n, SInt)
	addAxiom("address of error class "+n, mkAnd(mkLt(mkInt(0), g), mkEq(app("root", SInt, g), g), mkEq(app("classNo", SInt, g), mkInt(int64(len(w.globals))))), n)
	w.globals[n] = g
	return g
}

// errConst reports whether a package-level variable is an error that is made
// at initialisation and never assigned to or pointed at afterwards: an
// unexported use is all there can be for one of the module, and one of the
// standard library is taken to be left alone.
func (w *world) errConst(o *types.Var) bool {
	if !types.Identical(o.Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	pi := w.pkgs[o.Pkg().Path()]
	if pi == nil || pi.pkg != o.Pkg() {
		return !strings.Contains(strings.SplitN(o.Pkg().Path(), "/", 2)[0], ".")
	}
	made := false
	for _, f := range pi.files {
		ast.Inspect(f, func(n ast.Node) bool {
			vs, ok := n.(*ast.ValueSpec)
			if !ok || len(vs.Names) != len(vs.Values) {
				return true
			}
			for i, id := range vs.Names {
				if pi.info.Defs[id] != o {
					continue
				}
				call, ok := vs.Values[i].(*ast.CallExpr)
				if !ok {
					continue
				}
				if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
					if fn, ok := pi.info.Uses[sel.Sel].(*types.Func); ok && fn.Pkg() != nil {
						switch fn.Pkg().Path() + "." + fn.Name() {
						case "errors.New", "fmt.Errorf":
							made = true
						}
					}
				}
			}
			return true
		})
	}
	if !made {
		return false
	}
	if w.written == nil {
		w.written = map[types.Object]bool{}
		for _, pi := range w.pkgs {
			mark := func(e ast.Expr) {
				switch e := ast.Unparen(e).(type) {
				case *ast.Ident:
					w.written[pi.info.Uses[e]] = true
				case *ast.SelectorExpr:
					w.written[pi.info.Uses[e.Sel]] = true
				}
			}
			for _, f := range pi.files {
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							mark(l)
						}
					case *ast.RangeStmt:
						if n.Key != nil {
							mark(n.Key)
						}
						if n.Value != nil {
							mark(n.Value)
						}
					case *ast.UnaryExpr:
						if n.Op == token.AND {
							mark(n.X)
						}
					}
					return true
				})
			}
		}
	}
	return !w.written[o]
}

func (w *world) constTerm(ty types.Type, v constant.Value) *Term {
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return w.strConst(constant.StringVal(v))
	}
	if isFloat(ty) {
		r, ok := new(big.Rat).SetString(v.ExactString())
		if !ok {
			f, _ := constant.Float64Val(v)
			r = new(big.Rat).SetFloat64(f)
		} else if b, isb := ty.Underlying().(*types.Basic); isb && b.Kind() != types.UntypedFloat {
			f, _ := constant.Float64Val(v)
			if rr := new(big.Rat).SetFloat64(f); rr != nil {
				r = rr
			}
		}
		return w.floatConst(r)
	}
	iv := constant.ToInt(v)
	if iv.Kind() == constant.Int {
		n, _ := new(big.Int).SetString(iv.ExactString(), 10)
		return w.intTerm(ty, n)
	}
	panic(unsupported("constant " + v.String()))
}

type unsupported string

// a variable of the translated function
type lvar struct {
	v     *Term // IVL variable; holds a reference when boxed
	boxed bool
	ty    types.Type
	name  string
}

// what a function value is known to be
type fnval struct {
	lit   *ast.FuncLit
	fr    *frame
	trace string
	fn    *types.Func
	recv  *Term
	recvT types.Type
	val   *Term // the value itself, where it is called through a field or variable
	valT  types.Type
}

type deferSite struct {
	flag *Term
	run  func()
}

type frame struct {
	unwinding bool // running its deferred calls
	pkg       *pkgInfo
	fn        *types.Func
	sig       *types.Signature
	vars      map[types.Object]*lvar
	fnb       map[types.Object]*fnval
	results   []*lvar
	ret       *block
	defers    []*deferSite
	lex       *frame // lexical parent, for closures
	caller    *frame
	boxed     map[types.Object]bool
	name      string
	body      *ast.BlockStmt
	loops     []*loopCtx
	lit       bool
	recov     *block // where panics go when a deferred function recovers
	panicV    *Term
}

type loopCtx struct {
	label  string
	brk    *block
	cont   *block
	isLoop bool
	num    int // the number of the loop in its function plus one, where hooks apply
}

type modLoc struct {
	heap *Term
	ref  *Term // nil: all of it
	key  *Term
}

type trace struct {
	f    *fx
	name string
	n    *Term
	args map[int]*Term
	at   map[int]types.Type
	ress map[int]*Term
	rt   map[int]types.Type
	mems map[int]*Term
	mt   map[int]types.Type
	sig  *types.Signature
	recT types.Type // type of the receivers (position -1)
}

func (t *trace) arg(k int) *Term {
	if v, ok := t.args[k]; ok {
		return v
	}
	v := mkVar(fmt.Sprintf("tr$%s.arg%d", t.name, k), arrSort(SInt, t.f.w.sortOf(t.argT(k))))
	t.args[k] = v
	return v
}
func (t *trace) argT(k int) types.Type {
	if k == -1 {
		if t.recT != nil {
			return t.recT
		}
		if t.sig != nil && t.sig.Recv() != nil {
			return t.sig.Recv().Type()
		}
		if t.sig != nil {
			return t.sig // the function value called
		}
		panic(specErr(fmt.Sprintf("call trace %s has no receiver", t.name)))
	}
	if t.sig == nil || k >= t.sig.Params().Len() {
		if ty, ok := t.at[k]; ok {
			return ty
		}
		panic(specErr(fmt.Sprintf("call trace %s has no argument %d", t.name, k)))
	}
	return t.sig.Params().At(k).Type()
}
func (t *trace) res(k int) *Term {
	if v, ok := t.ress[k]; ok {
		return v
	}
	v := mkVar(fmt.Sprintf("tr$%s.res%d", t.name, k), arrSort(SInt, t.f.w.sortOf(t.resT(k))))
	t.ress[k] = v
	return v
}
func (t *trace) resT(k int) types.Type {
	if t.sig == nil || k >= t.sig.Results().Len() {
		panic(specErr(fmt.Sprintf("call trace %s has no result %d", t.name, k)))
	}
	return t.sig.Results().At(k).Type()
}

// mem is the content of a slice (or pointed-to struct) argument at the calls.
func (t *trace) mem(k int, _ string) (*Term, types.Type) {
	ty := t.argT(k)
	var et types.Type
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	default:
		panic(specErr("argmem needs a slice argument"))
	}
	if v, ok := t.mems[k]; ok {
		return v, et
	}
	v := mkVar(fmt.Sprintf("tr$%s.mem%d", t.name, k), arrSort(SInt, arrSort(SInt, t.f.w.sortOf(et))))
	t.mems[k] = v
	return v, et
}

// fx translates one function into a passive program.
type fx struct {
	hookAt  *Term // the index of the mutex a lock hook is about
	v       *verifier
	w       *world
	p       *proc
	c       *Contract
	top     *frame
	cur     *frame
	old     *snap
	varTy   map[*Term]types.Type
	traces  map[string]*trace
	nloop   int
	mods    []modLoc
	modAny  bool
	depth   int
	ncall   int
	ntmp    int
	lock    *snap
	assume  map[string]bool
	used    map[string]bool // contracts relied upon
	inlined map[string]bool
	off     map[string]bool // candidate invariants switched off
	cands   map[string]bool
	ghosts  map[string]*lvar
	inVals  map[string]SVal
	resVals map[string]SVal // results, at exit
	alloc0  *Term
	exitCtx *sctx
	specEnv []map[string]SVal // hidden names ($i, $visited) of enclosing loops
	notes   []string
	nonnil  map[*Term]int
	active  []*types.Func
	mons    []*monUse
	panicOK bool
	calls   map[string]int
}

type monUse struct {
	m   *Monitor
	ref *Term
}

func (f *fx) fail(n ast.Node, format string, a ...interface{}) {
	pos := ""
	if n != nil {
		pos = posOf(n.Pos()) + ": "
	}
	panic(unsupported(pos + fmt.Sprintf(format, a...)))
}

func (f *fx) oblig(kind, label string, pos token.Pos, t *Term) *Obligation {
	if f.p.cur == nil {
		return nil
	}
	ps := ""
	if pos.IsValid() {
		ps = posOf(pos)
	}
	o := &Obligation{Fn: f.c.Key, Kind: kind, Label: label, Pos: ps}
	f.p.obs = append(f.p.obs, o)
	f.p.emit(&cmd{kind: cAssert, e: t, ob: o})
	return o
}

func (f *fx) cover(label string, pos token.Pos) {
	if f.p.cur == nil {
		return
	}
	o := &Obligation{Fn: f.c.Key, Kind: "cover", Label: label, Pos: posOf(pos), noFact: true}
	f.p.covers = append(f.p.covers, o)
	f.p.emit(&cmd{kind: cAssert, e: tFalse, ob: o})
}

func (f *fx) check(kind string, pos token.Pos, t *Term) {
	if t == tTrue || f.p.cur == nil {
		return
	}
	if rf := f.recoverFrame(); rf != nil {
		// a failing check panics and the panic is recovered
		ok, bad := f.p.branch(t)
		f.p.start(bad)
		f.p.goTo(rf.recov)
		f.p.start(ok)
		return
	}
	f.oblig(kind, "", pos, t)
}

func (f *fx) recoverFrame() *frame {
	for fr := f.cur; fr != nil; fr = fr.caller {
		if fr.recov != nil && !fr.unwinding {
			return fr
		}
	}
	return nil
}

// tmp stores a value in a fresh variable, with its typing facts.
func (f *fx) tmp(ty types.Type, t *Term) *Term {
	switch t.Op {
	case "int", "true", "false", "const":
		return t
	}
	f.ntmp++
	v := mkVar(fmt.Sprintf("t%d", f.ntmp), t.Sort)
	f.regVar(v, ty)
	f.p.assign(v, t)
	return v
}

func (f *fx) loaded(ty types.Type, t *Term) *Term {
	v := f.tmp(ty, t)
	f.p.assume(f.typeInv(v, ty))
	return v
}

func (f *fx) regVar(v *Term, ty types.Type) {
	if ty == nil {
		return
	}
	f.varTy[v] = ty
	if k, ok := intKind(ty); ok && v.Sort == SInt {
		f.p.ranges[v] = k.rng()
	}
}

func (f *fx) havocVal(hint string, ty types.Type) *Term {
	f.ntmp++
	v := mkVar(fmt.Sprintf("%s%d", hint, f.ntmp), f.w.sortOf(ty))
	f.regVar(v, ty)
	f.p.havoc(v)
	f.p.assume(f.typeInv(v, ty))
	return v
}

// typeInv gives the facts that hold of every value of a type.
func (f *fx) typeInv(t *Term, ty types.Type) *Term { return f.v.typeInv(t, ty, allocVar) }

func (v *verifier) typeInv(t *Term, ty types.Type, alloc *Term) *Term {
	switch ty.(type) {
	case *arrType, *kmapType, *realType:
		return tTrue
	}
	if ty == tyMath {
		return tTrue
	}
	switch ty.Underlying().(type) {
	case *types.Basic:
		if k, ok := intKind(ty); ok && t.Sort == SInt {
			r := k.rng()
			return mkAnd(mkLe(mkBig(r.lo), t), mkLe(t, mkBig(r.hi)))
		}
		if t.Sort == SStr {
			return mkLe(slen(t), mkBig(maxLen))
		}
	case *types.Slice:
		a := sArr(t)
		return mkAnd(
			mkLe(mkInt(0), sOff(t)), mkLe(mkInt(0), sLen(t)), mkLe(sLen(t), sCap(t)), mkLe(sCap(t), mkBig(makeMax(ty.Underlying().(*types.Slice).Elem()))), mkLe(sOff(t), mkBig(maxLen)),
			mkLe(app("root", SInt, a), alloc),
			mkImp(mkEq(a, mkInt(0)), mkEq(t, nilSlice)))
	case *types.Pointer:
		return mkAnd(mkLe(app("root", SInt, t), alloc))
	case *types.Map, *types.Chan:
		return mkAnd(mkLe(mkInt(0), t), mkLe(t, alloc))
	case *types.Struct:
		si := v.w.structInfo(ty)
		var fs []*Term
		for i, fl := range si.flds {
			fs = append(fs, v.typeInv(si.get(t, i), fl.Type(), alloc))
		}
		return mkAnd(fs...)
	}
	return tTrue
}

// lemmaInv is what a lemma or axiom may take for granted of a parameter.
func (v *verifier) lemmaInv(t *Term, ty types.Type) *Term {
	if t.Sort != SInt {
		return tTrue
	}
	switch ty.(type) {
	case *arrType, *kmapType, *realType:
		return tTrue
	}
	if ty == tyMath {
		return tTrue
	}
	if k, ok := intKind(ty); ok {
		r := k.rng()
		return mkAnd(mkLe(mkBig(r.lo), t), mkLe(t, mkBig(r.hi)))
	}
	return tTrue
}

// heapValInv gives the typing facts of one entry of a heap.
func (f *fx) heapValInv(h, v *Term) *Term {
	ty := f.w.heapElem[h]
	switch {
	case strings.HasPrefix(h.Name, "ML_"):
		return mkAnd(mkLe(mkInt(0), v), mkLe(v, mkBig(maxLen)))
	case ty == nil:
		return tTrue
	case strings.HasPrefix(h.Name, "F_"), strings.HasPrefix(h.Name, "B_"):
		return f.typeInv(v, ty)
	case strings.HasPrefix(h.Name, "E_"), strings.HasPrefix(h.Name, "MV_"):
		ks, _ := arrParts(v.Sort)
		f.v.qn++
		k := mkBound("k?"+itoa(f.v.qn), ks)
		e := mkSel(v, k)
		t := f.typeInv(e, ty)
		if t == tTrue {
			return tTrue
		}
		return mkForall([]BVar{{k.Name, ks}}, t, []*Term{e})
	}
	return tTrue
}

// heapInv: everything stored in allocated memory is well typed.
func (f *fx) heapInv(h *Term) *Term {
	ty := f.w.heapElem[h]
	f.v.qn++
	r := mkBound("h?"+itoa(f.v.qn), SInt)
	e := mkSel(h, r)
	g := mkLe(app("root", SInt, r), allocVar)
	bv := []BVar{{r.Name, SInt}}
	var t *Term
	if strings.HasPrefix(h.Name, "E_") || strings.HasPrefix(h.Name, "MV_") {
		if ty == nil {
			return tTrue
		}
		ks, _ := arrParts(e.Sort)
		f.v.qn++
		k := mkBound("k?"+itoa(f.v.qn), ks)
		bv = append(bv, BVar{k.Name, ks})
		e = mkSel(e, k)
		t = f.typeInv(e, ty)
	} else {
		t = f.heapValInv(h, e)
	}
	if t == tTrue {
		return tTrue
	}
	if ty != nil && !hasRefs(ty) {
		g = tTrue // unallocated cells may be taken to hold any value of the type
	}
	return mkForall(bv, mkImp(g, t), []*Term{e})
}

// newHeapInv is heapInv after a call that may have allocated: the objects it
// made are well typed too.
func (f *fx) newHeapInv() []*Term {
	var out []*Term
	for _, t := range f.entryHeapInv() {
		if t.Op == "forall" && t.Args[0].Op == "=>" {
			out = append(out, t)
		}
	}
	return out
}

// entryHeapInv states heapInv for the heaps the function mentions.
func (f *fx) entryHeapInv() []*Term {
	seen := map[*Term]bool{}
	hs := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "var" && f.isHeapArr(t) {
			hs[t] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, b := range f.p.blocks {
		for _, c := range b.cmds {
			walk(c.e)
			walk(c.v)
			if c.ob != nil {
				walk(c.ob.Goal)
			}
			if c.snap != nil {
				for _, pr := range c.snap.pairs {
					_ = pr
				}
			}
		}
	}
	var vs []*Term
	for h := range hs {
		vs = append(vs, h)
	}
	sortTerms(vs)
	var out []*Term
	for _, h := range vs {
		if t := f.heapInv(h); t != tTrue {
			out = append(out, t)
		}
	}
	return out
}

// --- heap ------------------------------------------------------------------

func ident(t *Term) *Term { return t }

func (f *fx) canWrite(h, ref *Term) *Term {
	if f.modAny {
		return tTrue
	}
	ok := []*Term{mkLt(f.alloc0, app("root", SInt, ref))}
	if strings.HasPrefix(h.Name, "E_") {
		ok = append(ok, mkEq(ref, mkInt(0))) // the nil slice has no elements
	}
	for _, m := range f.mods {
		if m.heap == h {
			if m.ref == nil {
				return tTrue
			}
			ok = append(ok, mkEq(m.ref, ref))
		}
	}
	return mkOr(ok...)
}

func (f *fx) writeCheck(h, ref *Term, pos token.Pos) {
	if f.p.cur == nil {
		return
	}
	t := f.canWrite(h, ref)
	if t != tTrue {
		f.oblig("frame", h.Name, pos, t)
	}
}

func (f *fx) heapStore(h, ref, val *Term, pos token.Pos) {
	f.writeCheck(h, ref, pos)
	f.p.assign(h, mkSto(h, ref, val))
}

func (f *fx) newRef() *Term {
	f.ntmp++
	r := mkVar(fmt.Sprintf("ref%d", f.ntmp), SInt)
	f.p.assign(r, mkAdd(allocVar, mkInt(1)))
	f.p.assign(allocVar, r)
	f.p.assume(mkLt(mkInt(0), r))
	return r
}

// initAt stores a value in freshly allocated memory (no frame check).
func (f *fx) initAt(ty types.Type, ref, val *Term) {
	f.storeAt(ty, ref, val, token.NoPos, true)
}

func (f *fx) storeAt(ty types.Type, ref, val *Term, pos token.Pos, fresh bool) {
	w := f.w
	st := func(h, r, x *Term) {
		if fresh {
			f.p.assign(h, mkSto(h, r, x))
		} else {
			f.heapStore(h, r, x, pos)
		}
	}
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		si := w.structInfo(ty)
		for i, fl := range si.flds {
			x := si.get(val, i)
			if isAgg(fl.Type()) {
				f.storeAt(fl.Type(), w.subRef(ty, i, ref), x, pos, fresh)
			} else {
				st(w.fieldHeap(ty, i), ref, x)
			}
		}
	case *types.Array:
		st(w.elemHeap(u.Elem()), ref, val)
	default:
		st(w.boxHeap(ty), ref, val)
	}
}

func (f *fx) alloc(ty types.Type, val *Term) *Term {
	r := f.newRef()
	f.initAt(ty, r, val)
	return r
}

func (f *fx) nonNil(ref *Term, pos token.Pos) {
	if f.p.cur == nil || isInt(ref) && ref.Int.Sign() != 0 {
		return
	}
	if b, ok := f.nonnil[ref]; ok && b == f.p.cur.id {
		return
	}
	if strings.HasPrefix(ref.Op, "sub_") {
		return
	}
	f.check("nil dereference", pos, mkNot(mkEq(ref, mkInt(0))))
	if f.p.cur != nil {
		f.nonnil[ref] = f.p.cur.id
	}
}

// --- lvalues ---------------------------------------------------------------

type lval struct {
	ty  types.Type
	get func() *Term
	set func(*Term)
	ref *Term // address when it is an aggregate (or box) in the heap
	bx  bool  // ref is a box of a scalar
}

func (f *fx) refLval(ty types.Type, ref *Term, pos token.Pos) *lval {
	return &lval{ty: ty, ref: ref,
		get: func() *Term { return f.loaded(ty, f.w.loadAt(ty, ref, ident)) },
		set: func(x *Term) { f.storeAt(ty, ref, x, pos, false) }}
}

func (f *fx) fieldOf(b *lval, i int, pos token.Pos) *lval {
	w := f.w
	st := b.ty.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	if b.ref != nil && !b.bx {
		ref := b.ref
		if isAgg(ft) {
			return f.refLval(ft, w.subRef(b.ty, i, ref), pos)
		}
		h := w.fieldHeap(b.ty, i)
		f.guardCheck(b.ty, st.Field(i).Name(), ref, pos)
		return &lval{ty: ft,
			get: func() *Term { return f.loaded(ft, mkSel(h, ref)) },
			set: func(x *Term) { f.heapStore(h, ref, x, pos) }}
	}
	si := w.structInfo(b.ty)
	return &lval{ty: ft,
		get: func() *Term { return si.get(b.get(), i) },
		set: func(x *Term) { b.set(si.with(b.get(), i, x)) }}
}

func (f *fx) findVar(o types.Object) *lvar {
	for fr := f.cur; fr != nil; fr = fr.lex {
		if v, ok := fr.vars[o]; ok {
			return v
		}
	}
	return nil
}

func (f *fx) info() *types.Info { return f.cur.pkg.info }

func (f *fx) typ(e ast.Expr) types.Type {
	if tv, ok := f.info().Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.info().ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	f.fail(e, "no type for %s", types.ExprString(e))
	return nil
}

func (f *fx) varLval(v *lvar, pos token.Pos) *lval {
	if v.boxed {
		l := f.refLval(v.ty, v.v, pos)
		l.bx = !isAgg(v.ty)
		return l
	}
	return &lval{ty: v.ty, get: func() *Term { return v.v }, set: func(x *Term) { f.p.assign(v.v, x) }}
}

func (f *fx) lvalue(e ast.Expr) *lval {
	w := f.w
	switch e := e.(type) {
	case *ast.ParenExpr:
		return f.lvalue(e.X)
	case *ast.Ident:
		if e.Name == "_" {
			return &lval{ty: nil, set: func(*Term) {}, get: func() *Term { return nil }}
		}
		o := f.info().ObjectOf(e)
		if v := f.findVar(o); v != nil {
			return f.varLval(v, e.Pos())
		}
		if gv, ok := o.(*types.Var); ok && gv.Parent() == gv.Pkg().Scope() {
			g := w.globalVar(gv)
			if isAgg(gv.Type()) {
				return f.refLval(gv.Type(), g, e.Pos())
			}
			return &lval{ty: gv.Type(),
				get: func() *Term { return f.loaded(gv.Type(), g) },
				set: func(x *Term) {
					if f.canWrite(g, mkInt(0)) != tTrue {
						f.oblig("frame", g.Name, e.Pos(), tFalse)
					}
					f.p.assign(g, x)
				}}
		}
		f.fail(e, "unknown variable %s", e.Name)
	case *ast.StarExpr:
		r := f.expr(e.X)
		f.nonNil(r, e.Pos())
		ty := f.typ(e.X).Underlying().(*types.Pointer).Elem()
		l := f.refLval(ty, r, e.Pos())
		l.bx = !isAgg(ty)
		return l
	case *ast.SelectorExpr:
		sel := f.info().Selections[e]
		if sel == nil { // package-qualified
			o := f.info().Uses[e.Sel]
			if gv, ok := o.(*types.Var); ok {
				g := w.globalVar(gv)
				if isAgg(gv.Type()) {
					return f.refLval(gv.Type(), g, e.Pos())
				}
				return &lval{ty: gv.Type(), get: func() *Term { return f.loaded(gv.Type(), g) }, set: func(x *Term) { f.writeCheck(g, mkInt(0), e.Pos()); f.p.assign(g, x) }}
			}
			f.fail(e, "unsupported selector %s", types.ExprString(e))
		}
		return f.selPath(e.X, sel.Index(), e.Pos())
	case *ast.IndexExpr:
		xt := f.typ(e.X)
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			s := f.tmp(xt, f.expr(e.X))
			i := f.intExpr(e.Index)
			f.check("index out of range", e.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, sLen(s))))
			f.elemGuard(e, i)
			h := w.elemHeap(u.Elem())
			at := mkIdx(sOff(s), i)
			return &lval{ty: u.Elem(),
				get: func() *Term { return f.loaded(u.Elem(), mkSel(mkSel(h, sArr(s)), at)) },
				set: func(x *Term) {
					f.writeCheck(h, sArr(s), e.Pos())
					f.p.assign(h, mkSto(h, sArr(s), mkSto(mkSel(h, sArr(s)), at, x)))
				}}
		case *types.Array:
			b := f.lvalueOrTemp(e.X)
			i := f.intExpr(e.Index)
			f.check("index out of range", e.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(u.Len()))))
			return &lval{ty: u.Elem(),
				get: func() *Term { return f.loaded(u.Elem(), mkSel(b.get(), i)) },
				set: func(x *Term) { b.set(mkSto(b.get(), i, x)) }}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			r := f.expr(e.X)
			f.nonNil(r, e.Pos())
			b := f.refLval(u.Elem(), r, e.Pos())
			i := f.intExpr(e.Index)
			f.check("index out of range", e.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))))
			return &lval{ty: at.Elem(),
				get: func() *Term { return f.loaded(at.Elem(), mkSel(b.get(), i)) },
				set: func(x *Term) { b.set(mkSto(b.get(), i, x)) }}
		case *types.Map:
			m := f.tmp(xt, f.expr(e.X))
			k := f.tmp(u.Key(), f.exprAs(e.Index, u.Key()))
			return &lval{ty: u.Elem(),
				get: func() *Term { v, _ := f.mapGet(u, m, k); return v },
				set: func(x *Term) { f.mapSet(u, m, k, x, e.Pos()) }}
		}
	}
	f.fail(e, "unsupported lvalue %s", types.ExprString(e))
	return nil
}

func (f *fx) lvalueOrTemp(e ast.Expr) *lval {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.StarExpr, *ast.IndexExpr:
		if _, ok := x.(*ast.IndexExpr); ok {
			if isString(f.typ(x.(*ast.IndexExpr).X)) {
				break
			}
			if _, ok := f.typ(x.(*ast.IndexExpr).X).Underlying().(*types.Map); ok {
				break
			}
		}
		if id, ok := x.(*ast.Ident); ok {
			if _, isv := f.info().ObjectOf(id).(*types.Var); !isv {
				break
			}
		}
		return f.lvalue(e)
	case *ast.SelectorExpr:
		if sel := f.info().Selections[x]; sel == nil || sel.Kind() == types.FieldVal {
			if _, isv := f.info().ObjectOf(x.Sel).(*types.Var); isv {
				return f.lvalue(e)
			}
		}
	}
	ty := f.typ(e)
	t := f.tmp(ty, f.expr(e))
	return &lval{ty: ty, get: func() *Term { return t }, set: func(*Term) { f.fail(e, "assignment to a temporary") }}
}

// selPath follows field indices from an expression.
func (f *fx) selPath(x ast.Expr, path []int, pos token.Pos) *lval {
	xt := f.typ(x)
	var l *lval
	if p, ok := xt.Underlying().(*types.Pointer); ok {
		r := f.expr(x)
		f.nonNil(r, pos)
		l = f.refLval(p.Elem(), r, pos)
	} else {
		l = f.lvalueOrTemp(x)
	}
	return f.follow(l, path, pos)
}

func (f *fx) follow(l *lval, path []int, pos token.Pos) *lval {
	for _, i := range path {
		if p, ok := l.ty.Underlying().(*types.Pointer); ok {
			r := l.get()
			f.nonNil(r, pos)
			l = f.refLval(p.Elem(), r, pos)
		}
		l = f.fieldOf(l, i, pos)
	}
	return l
}

// --- maps --------------------------------------------------------------------

// mapKey makes equal floating point keys equal terms: Go compares them as
// numbers. A NaN key is out of reach.
func (f *fx) mapKey(k *Term, pos token.Pos) *Term {
	if k.Sort != SF64 {
		return k
	}
	z := f.w.floatConst(new(big.Rat))
	f.check("NaN as a map key (not supported)", pos, mkNot(app("fnan", SBool, k)))
	return mkIte(feq(k, z), z, k)
}

func (f *fx) mapGet(u *types.Map, m, k *Term) (v, ok *Term) {
	k = f.mapKey(k, token.NoPos)
	md, mv, _ := f.w.mapHeaps(u)
	okT := f.tmp(tyBool, mkAnd(mkNot(mkEq(m, mkInt(0))), mkSel(mkSel(md, m), k)))
	val := f.loaded(u.Elem(), mkIte(okT, mkSel(mkSel(mv, m), k), f.w.zero(u.Elem())))
	return val, okT
}

func (f *fx) mapSet(u *types.Map, m, k, x *Term, pos token.Pos) {
	k = f.mapKey(k, pos)
	md, mv, ml := f.w.mapHeaps(u)
	f.check("assignment to entry in nil map", pos, mkNot(mkEq(m, mkInt(0))))
	f.writeCheck(md, m, pos)
	had := mkSel(mkSel(md, m), k)
	f.p.assume(mkAnd(mkLe(mkInt(0), mkSel(ml, m)), mkLe(mkSel(ml, m), mkBig(maxLen))))
	f.p.assign(ml, mkSto(ml, m, mkIte(had, mkSel(ml, m), mkAdd(mkSel(ml, m), mkInt(1)))))
	f.p.assign(md, mkSto(md, m, mkSto(mkSel(md, m), k, tTrue)))
	f.p.assign(mv, mkSto(mv, m, mkSto(mkSel(mv, m), k, x)))
}

func (f *fx) mapDelete(u *types.Map, m, k *Term, pos token.Pos) {
	k = f.mapKey(k, pos)
	md, _, ml := f.w.mapHeaps(u)
	f.writeCheck(md, m, pos)
	had := mkSel(mkSel(md, m), k)
	f.p.assign(ml, mkSto(ml, m, mkIte(had, mkSub(mkSel(ml, m), mkInt(1)), mkSel(ml, m))))
	f.p.assign(md, mkSto(md, m, mkSto(mkSel(md, m), k, tFalse)))
}

func (f *fx) newMap(u *types.Map) *Term {
	r := f.newRef()
	md, mv, ml := f.w.mapHeaps(u)
	ks := f.w.sortOf(u.Key())
	f.p.assign(md, mkSto(md, r, mkConstArr(arrSort(ks, SBool), tFalse)))
	f.p.assign(mv, mkSto(mv, r, mkConstArr(arrSort(ks, f.w.sortOf(u.Elem())), f.w.zero(u.Elem()))))
	f.p.assign(ml, mkSto(ml, r, mkInt(0)))
	return r
}
