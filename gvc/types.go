package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// mathematical types usable in specifications only
type arrType struct{ elem types.Type } // total map int -> elem

func (a *arrType) Underlying() types.Type { return a }
func (a *arrType) String() string         { return "arr[" + a.elem.String() + "]" }

type kmapType struct{ key, elem types.Type } // total map key -> elem

func (a *kmapType) Underlying() types.Type { return a }
func (a *kmapType) String() string         { return "kmap[" + a.key.String() + "]" + a.elem.String() }

type realType struct{}

func (a *realType) Underlying() types.Type { return a }
func (a *realType) String() string         { return "real" }

var (
	tyInt    = types.Typ[types.Int]
	tyMath   = types.Typ[types.UntypedInt]
	tyBool   = types.Typ[types.Bool]
	tyString = types.Typ[types.String]
	tyByte   = types.Typ[types.Uint8]
	tyF64    = types.Typ[types.Float64]
	tyReal   = &realType{}
)

// world holds global tables of the verification run.
type world struct {
	pkgs       map[string]*pkgInfo
	modPath    string
	clientErrs []string
	renamed    []string
	structs    map[string]*structInfo // by sort name
	heaps      map[string]*Term       // heap variables by name
	heapElem   map[*Term]types.Type   // element type (for typing invariants)
	tids       map[string]int
	anon       map[string]string
	strs       map[string]*Term
	globals    map[string]*Term
	written    map[types.Object]bool // variables assigned to or pointed at
	bv         bool                  // bit-vector mode for the current function
	fkeys      map[string]bool
}

type structInfo struct {
	sort  Sort
	name  string
	flds  []*types.Var
	sorts []Sort
}

func newWorld() *world {
	return &world{pkgs: map[string]*pkgInfo{}, structs: map[string]*structInfo{}, heaps: map[string]*Term{},
		heapElem: map[*Term]types.Type{}, tids: map[string]int{}, anon: map[string]string{}, strs: map[string]*Term{},
		globals: map[string]*Term{}, fkeys: map[string]bool{}}
}

func intKind(t types.Type) (ikind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return ikind{64, true}, true
	case types.Int8:
		return ikind{8, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int32:
		return ikind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false}, true
	case types.Uint8:
		return ikind{8, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	}
	return ikind{}, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// allFields gives the heaps of field i of every object of a type.
func (w *world) allFields(ty types.Type, i int) []modLoc {
	ft := ty.Underlying().(*types.Struct).Field(i).Type()
	if st, ok := ft.Underlying().(*types.Struct); ok {
		var out []modLoc
		for k := 0; k < st.NumFields(); k++ {
			out = append(out, w.allFields(ft, k)...)
		}
		return out
	}
	return []modLoc{{heap: w.fieldHeap(ty, i)}}
}

// noNames drops the parameter names of a function type.
func noNames(t types.Type) types.Type {
	s, ok := t.(*types.Signature)
	if !ok {
		return t
	}
	tup := func(x *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < x.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", noNames(x.At(i).Type())))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tup(s.Params()), tup(s.Results()), s.Variadic())
}

// typeName gives a short unique name for a type.
func (w *world) typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Alias:
		return w.typeName(types.Unalias(t))
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		n := strings.TrimPrefix(o.Pkg().Path(), w.modPath)
		n = strings.TrimPrefix(n, "/")
		n = strings.ReplaceAll(n, "/", "_")
		if n == "" {
			n = "root"
		}
		// local types get a position suffix
		if o.Parent() != nil && o.Parent() != o.Pkg().Scope() {
			return n + "_" + o.Name() + fmt.Sprintf("_%d", o.Pos())
		}
		return n + "_" + o.Name()
	case *types.Basic:
		return t.Name()
	case *types.Pointer:
		return "p_" + w.typeName(t.Elem())
	case *types.Slice:
		return "s_" + w.typeName(t.Elem())
	case *types.Map:
		return "m_" + w.typeName(t.Key()) + "_" + w.typeName(t.Elem())
	case *types.Array:
		return fmt.Sprintf("a%d_%s", t.Len(), w.typeName(t.Elem()))
	case *types.Chan:
		return "c_" + w.typeName(t.Elem())
	}
	k := noNames(t).String()
	if n, ok := w.anon[k]; ok {
		return n
	}
	n := fmt.Sprintf("anon%d", len(w.anon)+1)
	switch t.Underlying().(type) {
	case *types.Struct:
		n = fmt.Sprintf("struct%d", len(w.anon)+1)
	case *types.Signature:
		n = fmt.Sprintf("func%d", len(w.anon)+1)
	case *types.Interface:
		n = fmt.Sprintf("iface%d", len(w.anon)+1)
		if t.String() == "interface{}" || t.String() == "any" {
			n = "any"
		}
	}
	w.anon[k] = n
	return n
}

func (w *world) sortOf(t types.Type) Sort {
	switch t := t.(type) {
	case *arrType:
		return arrSort(SInt, w.sortOf(t.elem))
	case *kmapType:
		return arrSort(w.sortOf(t.key), w.sortOf(t.elem))
	case *realType:
		return SReal
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SF64
		case u.Info()&types.IsInteger != 0:
			if w.bv {
				if k, ok := intKind(t); ok {
					return Sort(fmt.Sprintf("(_ BitVec %d)", k.bits))
				}
			}
			return SInt
		}
		return SInt
	case *types.Struct:
		return w.structInfo(t).sort
	case *types.Slice:
		return SSlc
	case *types.Array:
		return arrSort(SInt, w.sortOf(u.Elem()))
	}
	return SInt // pointers, maps, channels, functions, interfaces
}

func (w *world) structInfo(t types.Type) *structInfo {
	st := t.Underlying().(*types.Struct)
	name := w.typeName(types.Unalias(t))
	key := name
	if w.bv {
		key += "_bv"
	}
	if si, ok := w.structs[key]; ok {
		return si
	}
	si := &structInfo{sort: Sort("S_" + key), name: key}
	w.structs[key] = si
	var sb strings.Builder
	ctor := "mk_" + key
	fmt.Fprintf(&sb, "(declare-datatypes ((S_%s 0)) (((%s", key, ctor)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s := w.sortOf(f.Type())
		si.flds = append(si.flds, f)
		si.sorts = append(si.sorts, s)
		sel := si.sel(i)
		fmt.Fprintf(&sb, " (%s %s)", sel, s)
		selectors[sel] = selInfo{ctor, i}
		dtOps[sel] = true
	}
	sb.WriteString("))))")
	dtDecls = append(dtDecls, sb.String())
	dtOps[ctor] = true
	dtSorts[string(si.sort)] = 1
	return si
}

func (si *structInfo) sel(i int) string {
	n := si.flds[i].Name()
	if n == "_" {
		n = fmt.Sprintf("blank%d", i)
	}
	return "g_" + si.name + "." + n
}
func (si *structInfo) ctor() string { return "mk_" + si.name }

func (si *structInfo) index(name string) int {
	for i, f := range si.flds {
		if f.Name() == name {
			return i
		}
	}
	return -1
}

func (si *structInfo) get(v *Term, i int) *Term {
	return mkSelector(si.sel(i), si.sorts[i], v)
}

func (si *structInfo) mk(args []*Term) *Term { return app(si.ctor(), si.sort, args...) }

func (si *structInfo) with(v *Term, i int, x *Term) *Term {
	args := make([]*Term, len(si.flds))
	for j := range args {
		if j == i {
			args[j] = x
		} else {
			args[j] = si.get(v, j)
		}
	}
	return si.mk(args)
}

// zero value of a type
func (w *world) zero(t types.Type) *Term {
	switch t.(type) {
	case *arrType, *kmapType, *realType:
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return w.strConst("")
		case u.Info()&types.IsFloat != 0:
			return w.floatConst(new(big.Rat))
		}
		return w.intTerm(t, big.NewInt(0))
	case *types.Struct:
		si := w.structInfo(t)
		args := make([]*Term, len(si.flds))
		for i, f := range si.flds {
			args[i] = w.zero(f.Type())
		}
		return si.mk(args)
	case *types.Slice:
		return nilSlice
	case *types.Array:
		return mkConstArr(w.sortOf(t), w.zero(u.Elem()))
	}
	return mkInt(0)
}

func (w *world) intTerm(t types.Type, n *big.Int) *Term {
	if w.bv {
		if k, ok := intKind(t); ok {
			return bvConst(n, k.bits)
		}
	}
	return mkBig(n)
}

func bvConst(n *big.Int, bits uint) *Term {
	m := new(big.Int).Mod(n, pow2(bits))
	return intern(&Term{Op: "raw", Name: fmt.Sprintf("(_ bv%s %d)", m, bits), Sort: Sort(fmt.Sprintf("(_ BitVec %d)", bits))})
}

var nilSlice = app("mkslice", SSlc, mkInt(0), mkInt(0), mkInt(0), mkInt(0))

// mkIdx is the position of element i of a slice with offset off. It is kept as
// a function application, not a sum, so that quantifier patterns match it.
func mkIdx(off, i *Term) *Term {
	if isInt(off) {
		return mkAdd(i, off)
	}
	if off.Op == "sidx" {
		return app("sidx", SInt, off.Args[0], mkAdd(off.Args[1], i))
	}
	return app("sidx", SInt, off, i)
}

// offAdd is the offset of a subslice.
func offAdd(off, i *Term) *Term {
	if isInt(i) && i.Int.Sign() == 0 {
		return off
	}
	return mkIdx(off, i)
}

func sArr(s *Term) *Term { return mkSelector("s_arr", SInt, s) }
func sOff(s *Term) *Term { return mkSelector("s_off", SInt, s) }
func sLen(s *Term) *Term { return mkSelector("s_len", SInt, s) }
func sCap(s *Term) *Term { return mkSelector("s_cap", SInt, s) }
func mkSlice(a, o, l, c *Term) *Term {
	return app("mkslice", SSlc, a, o, l, c)
}

// heap variables -----------------------------------------------------------

func (w *world) heap(name string, s Sort, elem types.Type) *Term {
	if h, ok := w.heaps[name]; ok {
		return h
	}
	h := mkVar(name, s)
	w.heaps[name] = h
	w.heapElem[h] = elem
	return h
}

func (w *world) bvSuffix() string {
	if w.bv {
		return "_bv"
	}
	return ""
}

// fieldHeap is the heap of a scalar field of a struct type.
func (w *world) fieldHeap(t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	return w.heap("F_"+w.typeName(types.Unalias(t))+"."+f.Name()+w.bvSuffix(), arrSort(SInt, w.sortOf(f.Type())), f.Type())
}

// boxHeap is the heap of boxed scalars (pointers to non-structs).
func (w *world) boxHeap(t types.Type) *Term {
	return w.heap("B_"+w.typeName(types.Unalias(t))+w.bvSuffix(), arrSort(SInt, w.sortOf(t)), t)
}

// elemHeap is the heap of slice and array elements.
func (w *world) elemHeap(t types.Type) *Term {
	t = types.Unalias(t)
	// identical underlying basic kinds share one heap per element type name
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Byte {
		t = types.Typ[types.Uint8]
	}
	return w.heap("E_"+w.typeName(t)+w.bvSuffix(), arrSort(SInt, arrSort(SInt, w.sortOf(t))), t)
}

func (w *world) mapHeaps(m *types.Map) (d, v, l *Term) {
	n := w.typeName(types.Unalias(m.Key())) + "_" + w.typeName(types.Unalias(m.Elem()))
	ks, vs := w.sortOf(m.Key()), w.sortOf(m.Elem())
	d = w.heap("MD_"+n, arrSort(SInt, arrSort(ks, SBool)), nil)
	v = w.heap("MV_"+n, arrSort(SInt, arrSort(ks, vs)), m.Elem())
	l = w.heap("ML_"+n, arrSort(SInt, SInt), nil)
	return
}

var allocVar = mkVar("alloc$", SInt)

// subRef is the address of an aggregate field inside a heap object.
func (w *world) subRef(t types.Type, i int, ref *Term) *Term {
	st := t.Underlying().(*types.Struct)
	n := w.typeName(types.Unalias(t)) + "." + st.Field(i).Name()
	fn := "sub_" + n
	if !w.fkeys[fn] {
		w.fkeys[fn] = true
		declFun(fn, SInt, SInt)
		declFun("inv_"+n, SInt, SInt)
		declFun("subtag", SInt, SInt)
		r := mkBound("r", SInt)
		s := app(fn, SInt, r)
		addAxiom("interior reference "+n, mkForall([]BVar{{"r", SInt}}, mkAnd(
			mkEq(app("root", SInt, s), app("root", SInt, r)),
			mkEq(app("inv_"+n, SInt, s), r),
			mkEq(app("subtag", SInt, s), mkInt(int64(len(w.fkeys)))),
			mkLt(s, mkInt(0))), []*Term{s}), fn)
	}
	return app(fn, SInt, ref)
}

// eltRef is the address of an element of a slice; only mutexes have one.
func (w *world) eltRef(s, i *Term) *Term {
	fn := "elt_mutex"
	if !w.fkeys[fn] {
		w.fkeys[fn] = true
		declFun(fn, SInt, SInt, SInt)
		declFun("inv1_"+fn, SInt, SInt)
		declFun("inv2_"+fn, SInt, SInt)
		declFun("subtag", SInt, SInt)
		a, k := mkBound("a", SInt), mkBound("k", SInt)
		t := app(fn, SInt, a, k)
		addAxiom("element reference", mkForall([]BVar{{"a", SInt}, {"k", SInt}}, mkAnd(
			mkEq(app("inv1_"+fn, SInt, t), a),
			mkEq(app("inv2_"+fn, SInt, t), k),
			mkEq(app("subtag", SInt, t), mkInt(int64(len(w.fkeys)))),
			mkLt(t, mkInt(0))), []*Term{t}), fn)
	}
	return app(fn, SInt, sArr(s), mkIdx(sOff(s), i))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// loadAt loads a value of type t stored at ref; hp maps heap variables to the
// version to read.
func (w *world) loadAt(t types.Type, ref *Term, hp func(*Term) *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		si := w.structInfo(t)
		args := make([]*Term, len(si.flds))
		for i := range si.flds {
			args[i] = w.loadField(t, ref, i, hp)
		}
		return si.mk(args)
	case *types.Array:
		return mkSel(hp(w.elemHeap(u.Elem())), ref)
	}
	return mkSel(hp(w.boxHeap(t)), ref)
}

func (w *world) loadField(t types.Type, ref *Term, i int, hp func(*Term) *Term) *Term {
	st := t.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	if isAgg(ft) {
		return w.loadAt(ft, w.subRef(t, i, ref), hp)
	}
	return mkSel(hp(w.fieldHeap(t, i)), ref)
}

// type ids for interfaces
func (w *world) tid(t types.Type) *Term {
	n := w.typeName(types.Unalias(t))
	id, ok := w.tids[n]
	if !ok {
		id = len(w.tids) + 1
		w.tids[n] = id
	}
	return mkInt(int64(id))
}

func (w *world) box(t types.Type, v *Term) *Term {
	n := w.typeName(types.Unalias(t)) + w.bvSuffix()
	bf, uf := "box_"+n, "unbox_"+n
	s := w.sortOf(t)
	if !w.fkeys[bf] {
		w.fkeys[bf] = true
		declFun(bf, SInt, s)
		declFun(uf, s, SInt)
		v := mkBound("v", s)
		b := app(bf, SInt, v)
		tid := w.tid(t)
		addAxiom("boxing "+n, mkForall([]BVar{{"v", s}}, mkAnd(
			mkEq(app(uf, s, b), v),
			mkEq(app("typ", SInt, b), tid),
			mkNot(mkEq(b, mkInt(0)))), []*Term{b}), bf)
		x := mkBound("x", SInt)
		u := app(uf, s, x)
		addAxiom("unboxing "+n, mkForall([]BVar{{"x", SInt}}, mkImp(mkEq(app("typ", SInt, x), tid),
			mkEq(app(bf, SInt, u), x)), []*Term{u}), uf)
	}
	return app(bf, SInt, v)
}

func (w *world) unbox(t types.Type, x *Term) *Term {
	n := w.typeName(types.Unalias(t)) + w.bvSuffix()
	w.box(t, w.someTerm(w.sortOf(t)))
	return app("unbox_"+n, w.sortOf(t), x)
}

func (w *world) someTerm(s Sort) *Term { return mkConst("dummy_"+sanitize(string(s)), s) }

func typOf(x *Term) *Term { return app("typ", SInt, x) }

// strings --------------------------------------------------------------

func (w *world) strConst(s string) *Term {
	if t, ok := w.strs[s]; ok {
		return t
	}
	c := mkConst(fmt.Sprintf("str$%d", len(w.strs)), SStr)
	w.strs[s] = c
	fs := []*Term{mkEq(slen(c), mkInt(int64(len(s))))}
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			fs = append(fs, mkEq(sat(c, mkInt(int64(i))), mkInt(int64(s[i]))))
		}
	}
	nm := s
	if len(nm) > 20 {
		nm = nm[:20]
	}
	addAxiom(fmt.Sprintf("string literal %q", nm), mkAnd(fs...), c.Name)
	return c
}

func slen(s *Term) *Term   { return app("slen", SInt, s) }
func sat(s, i *Term) *Term { return app("sat", SInt, s, i) }
func streq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return app("streq", SBool, a, b)
}

// floats ---------------------------------------------------------------

func (w *world) floatConst(r *big.Rat) *Term {
	n := "fc$" + r.RatString()
	c := mkConst(n, SF64)
	if !w.fkeys[n] {
		w.fkeys[n] = true
		addAxiom("float constant "+r.RatString(), mkAnd(
			mkNot(app("fnan", SBool, c)),
			mkNot(app("finf", SBool, c)),
			mkEq(app("fr", SReal, c), realConst(r))), n)
	}
	return c
}

func realConst(r *big.Rat) *Term {
	num, den := r.Num(), r.Denom()
	s := new(big.Int).Abs(num).String() + ".0"
	if !r.IsInt() {
		s = fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(num), den)
	}
	if num.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return intern(&Term{Op: "raw", Name: s, Sort: SReal})
}

func init() {
	declFun("root", SInt, SInt)
	declFun("classNo", SInt, SInt)
	declFun("typ", SInt, SInt)
	declFun("slen", SInt, SStr)
	declFun("sidx", SInt, SInt, SInt)
	declFun("sat", SInt, SStr, SInt)
	declFun("streq", SBool, SStr, SStr)
	declFun("strdiff", SInt, SStr, SStr)
	declFun("slt", SBool, SStr, SStr)
	declFun("ssub", SStr, SStr, SInt, SInt)
	declFun("scat", SStr, SStr, SStr)
	declFun("sfrom", SStr, arrSort(SInt, SInt), SInt, SInt)
	declFun("schr", SStr, SInt)
	declFun("sbyte", SStr, SInt)
	declFun("implements", SBool, SInt, SInt)
	for _, f := range []string{"shl_u", "shr_u", "band_u", "bor_u", "bxor_u", "bandnot_u"} {
		declFun(f, SInt, SInt, SInt)
	}
	bi, bj := mkBound("i", SInt), mkBound("j", SInt)
	bit := func(x *Term) *Term { return mkAnd(mkLe(mkInt(0), x), mkLe(x, mkInt(1))) }
	ba := app("band_u", SInt, bi, bj)
	addAxiom("and of single bits", mkForall([]BVar{{"i", SInt}, {"j", SInt}}, mkImp(mkAnd(bit(bi), bit(bj)), mkEq(ba, mkIte(mkAnd(mkEq(bi, mkInt(1)), mkEq(bj, mkInt(1))), mkInt(1), mkInt(0)))), []*Term{ba}), "band_u")
	declFun("fnan", SBool, SF64)
	declFun("finf", SBool, SF64)
	declFun("fr", SReal, SF64)
	declFun("i2f", SF64, SInt)
	declFun("f2i", SInt, SF64)
	declFun("f64bits", SInt, SF64)
	declFun("f64frombits", SF64, SInt)
	for _, f := range []string{"fadd", "fsub", "fmul", "fdiv"} {
		declFun(f, SF64, SF64, SF64)
	}
	declFun("fneg", SF64, SF64)

	r := mkBound("r", SInt)
	a, b, c := mkBound("a", SStr), mkBound("b", SStr), mkBound("c", SStr)
	i, j, k := mkBound("i", SInt), mkBound("j", SInt), mkBound("k", SInt)
	A := mkBound("A", arrSort(SInt, SInt))
	root := app("root", SInt, r)
	addAxiom("root of base references", mkForall([]BVar{{"r", SInt}}, mkImp(mkLe(mkInt(0), r), mkEq(root, r)), []*Term{root}), "root")
	bs := func(n string, s Sort) BVar { return BVar{n, s} }
	xx := func(o, i *Term) *Term { return app("sidx", SInt, o, i) }
	addAxiom("element positions", mkForall([]BVar{bs("i", SInt), bs("j", SInt)}, mkEq(xx(i, j), mkAdd(i, j)), []*Term{xx(i, j)}), "sidx")
	addAxiom("element positions of subslices", mkForall([]BVar{bs("i", SInt), bs("j", SInt), bs("k", SInt)}, mkEq(app("sidx", SInt, xx(i, j), k), xx(i, mkAdd(j, k))), []*Term{app("sidx", SInt, xx(i, j), k)}), "sidx")
	addAxiom("string length", mkForall([]BVar{bs("a", SStr)}, mkLe(mkInt(0), slen(a)), []*Term{slen(a)}), "slen")
	addAxiom("string bytes", mkForall([]BVar{bs("a", SStr), bs("i", SInt)}, mkAnd(mkLe(mkInt(0), sat(a, i)), mkLe(sat(a, i), mkInt(255))), []*Term{sat(a, i)}), "sat")
	df := app("strdiff", SInt, a, b)
	se := app("streq", SBool, a, b)
	addAxiom("string extensionality", mkForall([]BVar{bs("a", SStr), bs("b", SStr)}, mkAnd(
		mkEq(se, mkEq(a, b)),
		mkOr(mkEq(a, b), mkNot(mkEq(slen(a), slen(b))), mkAnd(mkLe(mkInt(0), df), mkLt(df, slen(a)), mkNot(mkEq(sat(a, df), sat(b, df)))))),
		[]*Term{se}), "streq")
	lt := func(x, y *Term) *Term { return app("slt", SBool, x, y) }
	addAxiom("string order is irreflexive and total", mkForall([]BVar{bs("a", SStr), bs("b", SStr)}, mkAnd(
		mkImp(lt(a, b), mkAnd(mkNot(lt(b, a)), mkNot(mkEq(a, b)))),
		mkOr(lt(a, b), lt(b, a), mkEq(a, b))), []*Term{lt(a, b)}), "slt")
	addAxiom("string order is transitive", mkForall([]BVar{bs("a", SStr), bs("b", SStr), bs("c", SStr)},
		mkImp(mkAnd(lt(a, b), lt(b, c)), lt(a, c)), []*Term{lt(a, b), lt(b, c)}), "slt")
	addAxiom("string order is transitive (weak)", mkForall([]BVar{bs("a", SStr), bs("b", SStr), bs("c", SStr)},
		mkImp(mkAnd(mkNot(lt(b, a)), lt(b, c)), lt(a, c)), []*Term{lt(b, a), lt(b, c)}), "slt")
	ss := app("ssub", SStr, a, i, j)
	addAxiom("substring length", mkForall([]BVar{bs("a", SStr), bs("i", SInt), bs("j", SInt)}, mkImp(
		mkAnd(mkLe(mkInt(0), i), mkLe(i, j), mkLe(j, slen(a))),
		mkAnd(mkEq(slen(ss), mkSub(j, i)), mkImp(mkAnd(mkEq(i, mkInt(0)), mkEq(j, slen(a))), mkEq(ss, a)))), []*Term{ss}), "ssub")
	addAxiom("substring bytes", mkForall([]BVar{bs("a", SStr), bs("i", SInt), bs("j", SInt), bs("k", SInt)}, mkImp(
		mkAnd(mkLe(mkInt(0), i), mkLe(i, j), mkLe(j, slen(a)), mkLe(mkInt(0), k), mkLt(k, mkSub(j, i))),
		mkEq(sat(ss, k), sat(a, mkAdd(i, k)))), []*Term{sat(ss, k)}), "ssub")
	sc := app("scat", SStr, a, b)
	addAxiom("concatenation length", mkForall([]BVar{bs("a", SStr), bs("b", SStr)}, mkEq(slen(sc), mkAdd(slen(a), slen(b))), []*Term{sc}), "scat")
	addAxiom("concatenation bytes", mkForall([]BVar{bs("a", SStr), bs("b", SStr), bs("k", SInt)}, mkAnd(
		mkImp(mkAnd(mkLe(mkInt(0), k), mkLt(k, slen(a))), mkEq(sat(sc, k), sat(a, k))),
		mkImp(mkAnd(mkLe(slen(a), k), mkLt(k, mkAdd(slen(a), slen(b)))), mkEq(sat(sc, k), sat(b, mkSub(k, slen(a)))))),
		[]*Term{sat(sc, k)}), "scat")
	sf := app("sfrom", SStr, A, i, j)
	addAxiom("string from bytes length", mkForall([]BVar{bs("A", A.Sort), bs("i", SInt), bs("j", SInt)}, mkImp(mkAnd(mkLe(mkInt(0), j), mkLe(j, mkBig(maxLen))), mkEq(slen(sf), j)), []*Term{sf}), "sfrom")
	addAxiom("string from bytes", mkForall([]BVar{bs("A", A.Sort), bs("i", SInt), bs("j", SInt), bs("k", SInt)}, mkImp(mkAnd(mkLe(mkInt(0), k), mkLt(k, j), mkLe(j, mkBig(maxLen)),
		mkLe(mkInt(0), mkSel(A, app("sidx", SInt, i, k))), mkLe(mkSel(A, app("sidx", SInt, i, k)), mkInt(255))),
		mkEq(sat(sf, k), mkSel(A, app("sidx", SInt, i, k)))), []*Term{sat(sf, k)}), "sfrom")
	sby := app("sbyte", SStr, i)
	addAxiom("one byte string", mkForall([]BVar{bs("i", SInt)}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLe(i, mkInt(255))), mkAnd(mkEq(slen(sby), mkInt(1)), mkEq(sat(sby, mkInt(0)), i))), []*Term{sby}), "sbyte")
	B := mkBound("B", arrSort(SInt, SInt))
	sf2 := app("sfrom", SStr, B, k, j)
	addAxiom("equal bytes make equal strings", mkForall([]BVar{bs("A", A.Sort), bs("i", SInt), bs("B", A.Sort), bs("k", SInt), bs("j", SInt)},
		mkEq(app("streq", SBool, sf, sf2), mkEq(sf, sf2)), []*Term{sf, sf2}), "sfrom")
	x := mkBound("x", SF64)
	bits := app("f64bits", SInt, x)
	addAxiom("float bits are a bijection", mkForall([]BVar{bs("x", SF64)}, mkAnd(mkEq(app("f64frombits", SF64, bits), x), mkLe(mkInt(0), bits), mkLt(bits, mkBig(pow2(64)))), []*Term{bits}), "f64bits")
	fb := app("f64frombits", SF64, i)
	addAxiom("bits of float from bits", mkForall([]BVar{bs("i", SInt)}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, mkBig(pow2(64)))), mkEq(app("f64bits", SInt, fb), i)), []*Term{fb}), "f64frombits")
	// reals of floats: infinities are beyond every finite value
	fr := app("fr", SReal, x)
	addAxiom("range of finite floats", mkForall([]BVar{bs("x", SF64)}, mkAnd(
		mkImp(app("finf", SBool, x), mkNot(app("fnan", SBool, x))),
		mkImp(mkAnd(mkNot(app("finf", SBool, x)), mkNot(app("fnan", SBool, x))), mkAnd(app("<", SBool, fr, bigR), app("<", SBool, app("-", SReal, bigR), fr))),
		mkImp(app("finf", SBool, x), mkOr(mkEq(fr, bigR), mkEq(fr, app("-", SReal, bigR))))), []*Term{fr}), "fr")
	// arithmetic rounds the exact result: a monotone function that is the
	// identity on finite floats, also on their halves and doubles
	// while those are in range
	declFun("rnd", SReal, SReal)
	declFun("floats$", SBool)
	fl := func(s string) *Term { return intern(&Term{Op: "raw", Name: s, Sort: SReal}) }
	p, q := mkBound("p", SReal), mkBound("q", SReal)
	rn := func(x *Term) *Term { return app("rnd", SReal, x) }
	fin := func(x *Term) *Term { return mkAnd(mkNot(app("fnan", SBool, x)), mkNot(app("finf", SBool, x))) }
	frr := func(x *Term) *Term { return app("fr", SReal, x) }
	half := func(x *Term) *Term { return app("/", SReal, x, fl("2.0")) }
	x2 := mkBound("y", SF64)
	big1023 := realConst(new(big.Rat).SetInt(pow2(1023)))
	inRange := func(x *Term) *Term {
		return mkAnd(app("<", SBool, x, big1023), app("<", SBool, app("-", SReal, big1023), x))
	}
	addAxiom("rounding is monotone", mkForall([]BVar{bs("p", SReal), bs("q", SReal)}, mkImp(app("<=", SBool, p, q), app("<=", SBool, rn(p), rn(q))), []*Term{rn(p), rn(q)}), "rnd")
	addAxiom("rounding keeps floats", mkForall([]BVar{bs("x", SF64)}, mkImp(fin(x), mkAnd(mkEq(rn(frr(x)), frr(x)),
		mkImp(inRange(frr(x)), mkEq(rn(app("+", SReal, frr(x), frr(x))), app("+", SReal, frr(x), frr(x)))))), []*Term{frr(x)}), "rnd")
	for _, o := range [][2]string{{"fadd", "+"}, {"fsub", "-"}} {
		t, e := app(o[0], SF64, x, x2), app(o[1], SReal, frr(x), frr(x2))
		addAxiom("rounded "+o[0], mkForall([]BVar{bs("x", SF64), bs("y", SF64)}, mkImp(mkAnd(fin(x), fin(x2), inRange(e)), mkAnd(fin(t), mkEq(frr(t), rn(e)))), []*Term{t}), o[0])
	}
	dv := app("fdiv", SF64, x, x2)
	addAxiom("rounded halving", mkForall([]BVar{bs("x", SF64), bs("y", SF64)}, mkImp(mkAnd(fin(x), fin(x2), mkEq(frr(x2), fl("2.0"))), mkAnd(fin(dv), mkEq(frr(dv), rn(half(frr(x)))),
		mkImp(app("<=", SBool, fl("0.0000000001"), frr(x)), mkEq(frr(dv), half(frr(x)))))), []*Term{dv}), "fdiv")
	absR := func(x *Term) *Term { return mkIte(app("<=", SBool, fl("0.0"), x), x, app("-", SReal, x)) }
	eps := realConst(new(big.Rat).SetFrac(big.NewInt(1), pow2(52)))
	tiny := realConst(new(big.Rat).SetFrac(big.NewInt(1), pow2(1000)))
	// (half a unit in the last place, or of the smallest float)
	addAxiom("rounding error", mkForall([]BVar{bs("p", SReal)}, mkImp(inRange(p),
		mkAnd(app("<=", SBool, rn(p), app("+", SReal, app("+", SReal, p, app("*", SReal, eps, absR(p))), tiny)),
			app("<=", SBool, app("-", SReal, app("-", SReal, p, app("*", SReal, eps, absR(p))), tiny), rn(p)))), []*Term{rn(p)}), "rnd", "floats$")
	ml := app("fmul", SF64, x, x2)
	me := app("*", SReal, frr(x), frr(x2))
	addAxiom("rounded fmul", mkForall([]BVar{bs("x", SF64), bs("y", SF64)}, mkImp(mkAnd(fin(x), fin(x2), inRange(me)), mkAnd(fin(ml), mkEq(frr(ml), rn(me)))), []*Term{ml}), "fmul", "floats$")
	de := app("/", SReal, frr(x), frr(x2))
	addAxiom("rounded fdiv", mkForall([]BVar{bs("x", SF64), bs("y", SF64)}, mkImp(mkAnd(fin(x), fin(x2), mkNot(mkEq(frr(x2), fl("0.0"))), inRange(de)), mkAnd(fin(dv), mkEq(frr(dv), rn(de)))), []*Term{dv}), "fdiv", "floats$")
	itf := app("i2f", SF64, i)
	big53 := mkBig(pow2(53))
	big64 := mkBig(pow2(64))
	addAxiom("floats of integers", mkForall([]BVar{bs("i", SInt)}, mkImp(mkAnd(mkLe(mkNeg(big64), i), mkLe(i, big64)), mkAnd(fin(itf), mkEq(frr(itf), rn(app("to_real", SReal, i))),
		mkImp(mkAnd(mkLe(mkNeg(big53), i), mkLe(i, big53)), mkEq(frr(itf), app("to_real", SReal, i))))), []*Term{itf}), "i2f")
	opRange["sat"] = ival{big.NewInt(0), big.NewInt(255)}
	opRange["f64bits"] = ikind{64, false}.rng()
}

var bigR = realConst(new(big.Rat).SetInt(pow2(1024)))

func flt(a, b *Term) *Term {
	return mkAnd(mkNot(app("fnan", SBool, a)), mkNot(app("fnan", SBool, b)), app("<", SBool, app("fr", SReal, a), app("fr", SReal, b)))
}
func fle(a, b *Term) *Term {
	return mkAnd(mkNot(app("fnan", SBool, a)), mkNot(app("fnan", SBool, b)), app("<=", SBool, app("fr", SReal, a), app("fr", SReal, b)))
}
func feq(a, b *Term) *Term {
	return mkAnd(mkNot(app("fnan", SBool, a)), mkNot(app("fnan", SBool, b)), mkEq(app("fr", SReal, a), app("fr", SReal, b)))
}

func acopyFn(es Sort) string {
	n := "acopy_" + sanitize(string(es))
	if _, ok := funDecls[n]; !ok {
		as := arrSort(SInt, es)
		declFun(n, as, as, SInt, as, SInt, SInt)
		A, B := mkBound("A", as), mkBound("B", as)
		d, s, l, i := mkBound("d", SInt), mkBound("s", SInt), mkBound("n", SInt), mkBound("i", SInt)
		c := app(n, as, A, d, B, s, l)
		e := mkSel(c, i)
		addAxiom("block copy", mkForall([]BVar{{"A", as}, {"d", SInt}, {"B", as}, {"s", SInt}, {"n", SInt}, {"i", SInt}},
			mkEq(e, mkIte(mkAnd(mkLe(d, i), mkLt(i, mkAdd(d, l))), mkSel(B, app("sidx", SInt, s, mkSub(i, d))), mkSel(A, i))), []*Term{e}), n)
	}
	return n
}

func acopy(A, d, B, s, n *Term) *Term {
	_, es := arrParts(A.Sort)
	return app(acopyFn(es), A.Sort, A, d, B, s, n)
}

// scopyArr: array A with bytes [d, d+n) replaced by string s from index 0
func scopy(A, d, s *Term) *Term {
	n := "scopy"
	as := arrSort(SInt, SInt)
	if _, ok := funDecls[n]; !ok {
		declFun(n, as, as, SInt, SStr)
		A, d, s, i := mkBound("A", as), mkBound("d", SInt), mkBound("s", SStr), mkBound("i", SInt)
		c := app(n, as, A, d, s)
		e := mkSel(c, i)
		addAxiom("copy of string bytes", mkForall([]BVar{{"A", as}, {"d", SInt}, {"s", SStr}, {"i", SInt}},
			mkEq(e, mkIte(mkAnd(mkLe(d, i), mkLt(i, mkAdd(d, slen(s)))), sat(s, mkSub(i, d)), mkSel(A, i))), []*Term{e}), n)
		sf := app("sfrom", SStr, c, d, slen(s))
		addAxiom("string of copied bytes", mkForall([]BVar{{"A", as}, {"d", SInt}, {"s", SStr}}, mkImp(mkLe(slen(s), mkBig(maxLen)), mkEq(sf, s)), []*Term{sf}), n, "sfrom")
	}
	return app(n, as, A, d, s)
}
