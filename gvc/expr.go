package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

// intExpr evaluates an integer expression to a mathematical integer.
func (f *fx) intExpr(e ast.Expr) *Term { return f.expr(e) }

func (f *fx) constOf(e ast.Expr) (*Term, bool) {
	if tv, ok := f.info().Types[e]; ok && tv.Value != nil {
		ty := tv.Type
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.UntypedFloat && tv.Value.Kind() == constant.Int {
			return f.w.floatConst(new(big.Rat).SetInt(bigOf(tv.Value))), true
		}
		return f.w.constTerm(ty, tv.Value), true
	}
	return nil, false
}

func bigOf(v constant.Value) *big.Int {
	n, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
	return n
}

// exprAs evaluates e and converts it (implicitly) to type ty.
func (f *fx) exprAs(e ast.Expr, ty types.Type) *Term {
	if tv, ok := f.info().Types[e]; ok && tv.IsNil() {
		return f.nilOf(ty)
	}
	et := f.typ(e)
	if ty == nil {
		return f.expr(e)
	}
	if tv := f.info().Types[e]; tv.Value != nil && !isIface(ty) {
		return f.w.constTerm(ty, tv.Value)
	}
	return f.convTo(f.expr(e), et, ty, e.Pos())
}

func (f *fx) nilOf(ty types.Type) *Term {
	if _, ok := ty.Underlying().(*types.Slice); ok {
		return nilSlice
	}
	return mkInt(0)
}

// convTo is assignment conversion: only interface boxing does anything.
func (f *fx) convTo(t *Term, from, to types.Type, pos token.Pos) *Term {
	if isIface(to) && !isIface(from) {
		if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return mkInt(0)
		}
		return f.w.box(types.Default(from), t)
	}
	return f.recast(t, from, to)
}

// recast rebuilds a struct value of an identical underlying type.
func (f *fx) recast(t *Term, from, to types.Type) *Term {
	s := f.w.sortOf(to)
	if t.Sort == s {
		return t
	}
	if _, ok := to.Underlying().(*types.Struct); ok {
		a, b := f.w.structInfo(from), f.w.structInfo(to)
		var as []*Term
		for i := range b.flds {
			as = append(as, f.recast(a.get(t, i), a.flds[i].Type(), b.flds[i].Type()))
		}
		return b.mk(as)
	}
	panic(unsupported("conversion from " + from.String() + " to " + to.String()))
}

func (f *fx) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, isid := ast.Unparen(n.Fun).(*ast.Ident); isid && (id.Name == "len" || id.Name == "cap") {
				if _, bi := f.info().Uses[id].(*types.Builtin); bi {
					return true
				}
			}
			if tv := f.info().Types[n.Fun]; tv.IsType() {
				return true
			}
			ok = false
		case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.BinaryExpr:
			if n.Op == token.QUO || n.Op == token.REM || n.Op == token.SHL || n.Op == token.SHR {
				ok = false
			}
		case *ast.SelectorExpr:
			if sel := f.info().Selections[n]; sel != nil {
				ok = false // may dereference
			}
		}
		return ok
	})
	return ok
}

// cond translates a condition with short circuit evaluation.
func (f *fx) cond(e ast.Expr) (t, fl *block) {
	switch x := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			a, b := f.cond(x.X)
			return b, a
		}
	case *ast.BinaryExpr:
		if (x.Op == token.LAND || x.Op == token.LOR) && !f.pure(x.Y) {
			a, b := f.cond(x.X)
			join := f.p.newBlock()
			if x.Op == token.LAND {
				f.p.start(b)
				f.p.goTo(join)
				f.p.start(a)
				if f.p.cur == nil {
					return f.p.newBlock(), join
				}
				c, d := f.cond(x.Y)
				f.p.start(d)
				f.p.goTo(join)
				return c, join
			}
			f.p.start(a)
			f.p.goTo(join)
			f.p.start(b)
			if f.p.cur == nil {
				return join, f.p.newBlock()
			}
			c, d := f.cond(x.Y)
			f.p.start(c)
			f.p.goTo(join)
			return join, d
		}
	}
	c := f.expr(e)
	return f.p.branch(c)
}

func (f *fx) expr(e ast.Expr) *Term {
	w := f.w
	if t, ok := f.constOf(e); ok {
		return t
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return f.expr(e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			if _, ok := f.info().Uses[e].(*types.Nil); ok {
				return f.nilOf(f.typ(e))
			}
		}
		switch o := f.info().ObjectOf(e).(type) {
		case *types.Func:
			return w.funcConst(o)
		case *types.Var:
			_ = o
			return f.lvalue(e).get()
		}
		f.fail(e, "unsupported identifier %s", e.Name)
	case *ast.FuncLit:
		f.escapeLit(e)
		return f.havocFunc()
	case *ast.SelectorExpr:
		sel := f.info().Selections[e]
		if sel != nil && sel.Kind() == types.MethodVal {
			f.havocRecv(e)
			return f.havocFunc()
		}
		if sel == nil {
			if fn, ok := f.info().Uses[e.Sel].(*types.Func); ok {
				return w.funcConst(fn)
			}
		}
		return f.lvalue(e).get()
	case *ast.StarExpr, *ast.IndexExpr:
		if ix, ok := e.(*ast.IndexExpr); ok {
			if isString(f.typ(ix.X)) {
				s := f.expr(ix.X)
				i := f.intExpr(ix.Index)
				f.check("index out of range", e.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, slen(s))))
				return f.loaded(tyByte, sat(s, i))
			}
		}
		return f.lvalue(e).get()
	case *ast.SliceExpr:
		return f.sliceExpr(e)
	case *ast.CallExpr:
		rs := f.call(e)
		if len(rs) != 1 {
			if len(rs) == 0 {
				return nil
			}
			f.fail(e, "multi-value call in single-value context")
		}
		return rs[0]
	case *ast.UnaryExpr:
		return f.unary(e)
	case *ast.BinaryExpr:
		return f.binary(e)
	case *ast.CompositeLit:
		return f.composite(e, f.typ(e))
	case *ast.TypeAssertExpr:
		v, ok := f.typeAssert(e)
		f.check("failed type assertion", e.Pos(), ok)
		return v
	}
	f.fail(e, "unsupported expression %T", e)
	return nil
}

func (w *world) funcConst(fn *types.Func) *Term {
	n := "fn_" + fullKey(fn)
	if !w.fkeys[n] {
		w.fkeys[n] = true
		c := mkConst(n, SInt)
		addAxiom("function value "+n, mkLt(mkInt(0), c), n)
	}
	return mkConst(n, SInt)
}

func (f *fx) havocFunc() *Term {
	f.ntmp++
	v := mkVar("fv"+itoa(f.ntmp), SInt)
	f.p.havoc(v)
	f.p.assume(mkLt(mkInt(0), v))
	return v
}

func (f *fx) havocRecv(e *ast.SelectorExpr) {}

// escapeLit: the captured variables of a literal that is not translated at
// its use may change at any later call; they were boxed by the analysis.
func (f *fx) escapeLit(e *ast.FuncLit) {
	f.note(e, "a function literal escapes and is not verified here")
}

func (f *fx) note(n ast.Node, s string) {
	f.notes = append(f.notes, posOf(n.Pos())+": "+s)
}

func (f *fx) typeAssert(e *ast.TypeAssertExpr) (v, ok *Term) {
	x := f.tmp(f.typ(e.X), f.expr(e.X))
	ty := f.typ(e.Type)
	return f.assertTo(x, ty)
}

func (f *fx) assertTo(x *Term, ty types.Type) (v, ok *Term) {
	if isIface(ty) {
		ok = mkAnd(mkNot(mkEq(x, mkInt(0))), app("implements", SBool, typOf(x), f.w.tid(ty)))
		return x, ok
	}
	ok = mkAnd(mkNot(mkEq(x, mkInt(0))), mkEq(typOf(x), f.w.tid(ty)))
	v = f.tmp(ty, f.w.unbox(ty, x))
	f.p.assume(mkImp(ok, f.typeInv(v, ty)))
	return v, ok
}

func (f *fx) sliceExpr(e *ast.SliceExpr) *Term {
	xt := f.typ(e.X)
	lo := mkInt(0)
	get := func(x ast.Expr) *Term { return f.intExpr(x) }
	if isString(xt) {
		s := f.tmp(xt, f.expr(e.X))
		if e.Low != nil {
			lo = get(e.Low)
		}
		hi := slen(s)
		if e.High != nil {
			hi = get(e.High)
		}
		f.check("slice bounds out of range", e.Pos(), mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, slen(s))))
		if isInt(lo) && lo.Int.Sign() == 0 && hi == slen(s) {
			return s
		}
		return app("ssub", SStr, s, lo, hi)
	}
	var s *Term
	var slot types.Type
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		s = f.tmp(xt, f.expr(e.X))
		slot = u.Elem()
	case *types.Array:
		l := f.lvalue(e.X)
		if l.ref == nil {
			f.fail(e, "slicing an array that is not in memory")
		}
		s = mkSlice(l.ref, mkInt(0), mkInt(u.Len()), mkInt(u.Len()))
		slot = u.Elem()
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		r := f.expr(e.X)
		f.nonNil(r, e.Pos())
		s = mkSlice(r, mkInt(0), mkInt(a.Len()), mkInt(a.Len()))
		slot = a.Elem()
	default:
		f.fail(e, "unsupported slice operand")
	}
	if e.Low != nil {
		lo = get(e.Low)
	}
	hi := sLen(s)
	if e.High != nil {
		hi = get(e.High)
	}
	max := sCap(s)
	if e.Max != nil {
		max = get(e.Max)
	}
	cond := []*Term{mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, max)}
	if e.Max != nil {
		cond = append(cond, mkLe(max, sCap(s)))
	}
	f.check("slice bounds out of range", e.Pos(), mkAnd(cond...))
	r := mkSlice(sArr(s), offAdd(sOff(s), lo), mkSub(hi, lo), mkSub(max, lo))
	if f.p.cur != nil && f.strFacts(slot) {
		A := mkSel(f.w.elemHeap(slot), sArr(s))
		f.p.assume(mkImp(mkLe(hi, sLen(s)), mkEq(app("sfrom", SStr, A, sOff(r), sLen(r)), app("ssub", SStr, app("sfrom", SStr, A, sOff(s), sLen(s)), lo, hi))))
	}
	// a nil slice stays nil
	if sArr(s).Op != "int" {
		r = mkIte(mkEq(sArr(s), mkInt(0)), nilSlice, r)
		if isInt(lo) && lo.Int.Sign() == 0 {
			// lo == 0: offsets agree; keep the plain form (nil slices have off 0)
			r = mkSlice(sArr(s), sOff(s), hi, max)
		} else {
			// s[lo:hi] of a nil slice has lo == 0
			r = mkSlice(sArr(s), offAdd(sOff(s), lo), mkSub(hi, lo), mkSub(max, lo))
		}
	}
	return f.tmp(types.NewSlice(slot), r)
}

func (f *fx) unary(e *ast.UnaryExpr) *Term {
	switch e.Op {
	case token.NOT:
		return mkNot(f.expr(e.X))
	case token.ADD:
		return f.expr(e.X)
	case token.SUB:
		t := f.expr(e.X)
		if t.Sort == SF64 {
			return app("fneg", SF64, t)
		}
		k, _ := intKind(f.typ(e))
		return mopTerm("wrap", k, mkNeg(t))
	case token.XOR:
		t := f.expr(e.X)
		k, _ := intKind(f.typ(e))
		if k.signed {
			return mkSub(mkInt(-1), t)
		}
		return mkSub(mkBig(k.rng().hi), t)
	case token.AND:
		x := ast.Unparen(e.X)
		if cl, ok := x.(*ast.CompositeLit); ok {
			ty := f.typ(cl)
			v := f.tmp(ty, f.composite(cl, ty))
			return f.alloc(ty, v)
		}
		if id, ok := x.(*ast.Ident); ok {
			if o, ok := f.info().Uses[id].(*types.Var); ok {
				if g := f.w.classAddr(o); g != nil {
					return g
				}
			}
		}
		l := f.lvalue(e.X)
		if l.ref == nil {
			f.fail(e, "address of %s is not representable", types.ExprString(e.X))
		}
		return l.ref
	case token.ARROW:
		v, _ := f.recv(e)
		return v
	}
	f.fail(e, "unsupported unary %s", e.Op)
	return nil
}

func (f *fx) recv(e *ast.UnaryExpr) (v, ok *Term) {
	f.expr(e.X)
	et := f.typ(e.X).Underlying().(*types.Chan).Elem()
	v = f.havocVal("recv", et)
	ok = f.havocVal("recvok", tyBool)
	f.p.assume(mkImp(mkNot(ok), f.eq(et, v, f.w.zero(et))))
	f.received(et, v, ok)
	return v, ok
}

// received runs the hooks about a value taken from a channel.
func (f *fx) received(et types.Type, v, ok *Term) {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", et), types.NewVar(0, nil, "", tyBool)), false)
	ci := callInfo{nil, []*Term{v, ok}, sig}
	f.hook("after", "recv", ci)
	if n, isN := et.(*types.Named); isN {
		f.hook("after", "recv:"+n.Obj().Name(), ci)
	}
}

func (f *fx) eq(ty types.Type, a, b *Term) *Term {
	if a.Sort == SStr {
		return streq(a, b)
	}
	if a.Sort == SF64 {
		return feq(a, b)
	}
	if st, ok := ty.Underlying().(*types.Struct); ok {
		si := f.w.structInfo(ty)
		var cs []*Term
		for i := 0; i < st.NumFields(); i++ {
			cs = append(cs, f.eq(st.Field(i).Type(), si.get(a, i), si.get(b, i)))
		}
		return mkAnd(cs...)
	}
	return mkEq(a, b)
}

func (f *fx) isNil(e ast.Expr) bool {
	tv, ok := f.info().Types[e]
	return ok && tv.IsNil()
}

func (f *fx) binary(e *ast.BinaryExpr) *Term {
	switch e.Op {
	case token.LAND, token.LOR:
		if f.pure(e.Y) {
			a := f.expr(e.X)
			b := f.expr(e.Y)
			if e.Op == token.LAND {
				return mkAnd(a, b)
			}
			return mkOr(a, b)
		}
		t, fl := f.cond(e)
		f.ntmp++
		v := mkVar("b"+itoa(f.ntmp), SBool)
		join := f.p.newBlock()
		f.p.start(t)
		f.p.assign(v, tTrue)
		f.p.goTo(join)
		f.p.start(fl)
		f.p.assign(v, tFalse)
		f.p.goTo(join)
		f.p.start(join)
		return v
	case token.EQL, token.NEQ:
		var r *Term
		if f.isNil(e.Y) || f.isNil(e.X) {
			x := e.X
			if f.isNil(e.X) {
				x = e.Y
			}
			t := f.expr(x)
			if t.Sort == SSlc {
				r = mkEq(sArr(t), mkInt(0))
			} else {
				r = mkEq(t, mkInt(0))
			}
		} else {
			xt, yt := f.typ(e.X), f.typ(e.Y)
			ty := xt
			if isIface(yt) && !isIface(xt) {
				ty = yt
			}
			if b, ok := xt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				ty = yt
			}
			a := f.exprAs(e.X, ty)
			b := f.exprAs(e.Y, ty)
			r = f.eq(ty, a, b)
		}
		if e.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		ty := f.typ(e.X)
		if b, ok := ty.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			ty = f.typ(e.Y)
		}
		a, b := f.exprAs(e.X, ty), f.exprAs(e.Y, ty)
		return f.compare(e.Op, a, b, ty)
	case token.SHL, token.SHR:
		a := f.exprAs(e.X, f.typ(e))
		n := f.expr(e.Y)
		yt := f.typ(e.Y)
		if k, ok := intKind(yt); ok && k.signed && !isInt(n) {
			f.check("negative shift amount", e.Pos(), mkLe(mkInt(0), n))
		}
		k, _ := intKind(f.typ(e))
		op := "shl"
		if e.Op == token.SHR {
			op = "shr"
		}
		return mopTerm(op, k, a, n)
	}
	ty := f.typ(e)
	a, b := f.exprAs(e.X, ty), f.exprAs(e.Y, ty)
	return f.arith(e.Op, a, b, ty, e.Pos())
}

func (f *fx) compare(op token.Token, a, b *Term, ty types.Type) *Term {
	switch a.Sort {
	case SStr:
		switch op {
		case token.LSS:
			return app("slt", SBool, a, b)
		case token.LEQ:
			return mkNot(app("slt", SBool, b, a))
		case token.GTR:
			return app("slt", SBool, b, a)
		}
		return mkNot(app("slt", SBool, a, b))
	case SF64:
		switch op {
		case token.LSS:
			return flt(a, b)
		case token.LEQ:
			return fle(a, b)
		case token.GTR:
			return flt(b, a)
		}
		return fle(b, a)
	}
	switch op {
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	}
	return mkLe(b, a)
}

func (f *fx) arith(op token.Token, a, b *Term, ty types.Type, pos token.Pos) *Term {
	if a.Sort == SStr {
		r := f.tmp(types.Typ[types.String], app("scat", SStr, a, b))
		f.p.assume(mkLe(slen(r), mkBig(maxLen))) // memory is finite
		return r
	}
	if a.Sort == SF64 {
		m := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}
		if bt, ok := ty.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			declFun(m[op]+"32", SF64, SF64, SF64)
			return app(m[op]+"32", SF64, a, b)
		}
		return app(m[op], SF64, a, b)
	}
	k, ok := intKind(ty)
	if !ok {
		panic(unsupported(posOf(pos) + ": arithmetic on " + ty.String()))
	}
	switch op {
	case token.ADD:
		return mopTerm("wrap", k, mkAdd(a, b))
	case token.SUB:
		return mopTerm("wrap", k, mkSub(a, b))
	case token.MUL:
		return mopTerm("wrap", k, mkMul(a, b))
	case token.QUO:
		f.check("division by zero", pos, mkNot(mkEq(b, mkInt(0))))
		return mopTerm("quo", k, a, b)
	case token.REM:
		f.check("division by zero", pos, mkNot(mkEq(b, mkInt(0))))
		return mopTerm("rem", k, a, b)
	case token.AND:
		return mopTerm("and", k, a, b)
	case token.OR:
		return mopTerm("or", k, a, b)
	case token.XOR:
		return mopTerm("xor", k, a, b)
	case token.AND_NOT:
		return mopTerm("andnot", k, a, b)
	}
	panic(unsupported(posOf(pos) + ": operator " + op.String()))
}

func (f *fx) composite(e *ast.CompositeLit, ty types.Type) *Term {
	w := f.w
	switch u := ty.Underlying().(type) {
	case *types.Pointer: // &T elided in a nested literal
		v := f.tmp(u.Elem(), f.composite(e, u.Elem()))
		return f.alloc(u.Elem(), v)
	case *types.Struct:
		si := w.structInfo(ty)
		as := make([]*Term, len(si.flds))
		for i, fl := range si.flds {
			as[i] = w.zero(fl.Type())
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				j := si.index(kv.Key.(*ast.Ident).Name)
				as[j] = f.compElt(kv.Value, si.flds[j].Type())
			} else {
				as[i] = f.compElt(el, si.flds[i].Type())
			}
		}
		return si.mk(as)
	case *types.Array, *types.Slice:
		var et types.Type
		n := int64(0)
		if a, ok := u.(*types.Array); ok {
			et, n = a.Elem(), a.Len()
		} else {
			et = u.(*types.Slice).Elem()
		}
		arr := mkConstArr(arrSort(SInt, w.sortOf(et)), w.zero(et))
		i := int64(0)
		max := int64(0)
		for _, el := range e.Elts {
			v := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k, _ := f.constOf(kv.Key)
				i = k.Int.Int64()
				v = kv.Value
			}
			arr = mkSto(arr, mkInt(i), f.compElt(v, et))
			i++
			if i > max {
				max = i
			}
		}
		if _, ok := u.(*types.Array); ok {
			_ = n
			return arr
		}
		if max == 0 {
			// a non-nil empty slice
			r := f.newRef()
			return mkSlice(r, mkInt(0), mkInt(0), mkInt(0))
		}
		r := f.newRef()
		h := w.elemHeap(et)
		f.p.assign(h, mkSto(h, r, arr))
		return mkSlice(r, mkInt(0), mkInt(max), mkInt(max))
	case *types.Map:
		m := f.newMap(u)
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := f.tmp(u.Key(), f.compElt(kv.Key, u.Key()))
			f.mapSet(u, m, k, f.compElt(kv.Value, u.Elem()), e.Pos())
		}
		return m
	}
	f.fail(e, "unsupported composite literal of %v", ty)
	return nil
}

func (f *fx) compElt(e ast.Expr, ty types.Type) *Term {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		return f.composite(cl, ty)
	}
	return f.tmp(ty, f.exprAs(e, ty))
}

// convert is an explicit conversion T(x).
func (f *fx) convert(e ast.Expr, to types.Type) *Term {
	w := f.w
	from := f.typ(e)
	if f.isNil(e) {
		return f.nilOf(to)
	}
	if isIface(to) {
		return f.exprAs(e, to)
	}
	if tv := f.info().Types[e]; tv.Value != nil {
		if isString(to) && tv.Value.Kind() == constant.String {
			return w.constTerm(to, tv.Value)
		}
		if _, ok := intKind(to); ok && tv.Value.Kind() != constant.String {
			return w.constTerm(to, constant.ToInt(tv.Value))
		}
		if isFloat(to) {
			return w.constTerm(to, tv.Value)
		}
	}
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.AND {
		if ix, ok := ast.Unparen(u.X).(*ast.IndexExpr); ok {
			if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				f.lvalue(ix) // bounds
				return f.havocVal("unsafe", types.Typ[types.Uintptr])
			}
		}
	}
	x := f.expr(e)
	kt, toInt := intKind(to)
	kf, fromInt := intKind(from)
	switch {
	case toInt && fromInt:
		_ = kf
		return mopTerm("wrap", kt, x)
	case toInt && isFloat(from):
		r := f.tmp(to, app("f2i_"+kt.String(), SInt, x))
		declFun("f2i_"+kt.String(), SInt, SF64)
		f.p.assume(f.typeInv(r, to))
		f2iAxiom(kt)
		return r
	case isFloat(to) && fromInt:
		if b := to.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			declFun("f64to32", SF64, SF64)
			return app("f64to32", SF64, app("i2f", SF64, x))
		}
		return app("i2f", SF64, x)
	case isFloat(to) && isFloat(from):
		if b := to.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			if bf := from.Underlying().(*types.Basic); bf.Kind() != types.Float32 {
				declFun("f64to32", SF64, SF64)
				return app("f64to32", SF64, x)
			}
		}
		return x
	case isString(to) && isString(from):
		return x
	case isString(to) && fromInt:
		return app("schr", SStr, x)
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				h := w.elemHeap(s.Elem())
				x = f.tmp(from, x)
				f.byteRange(h, sArr(x))
				return f.tmp(to, app("sfrom", SStr, mkSel(h, sArr(x)), sOff(x), sLen(x)))
			}
			return f.havocVal("runes", to)
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				h := w.elemHeap(s.Elem())
				r := f.newRef()
				f.p.assign(h, mkSto(h, r, scopy(mkSel(h, r), mkInt(0), x)))
				c := f.havocVal("cap", tyInt)
				f.p.assume(mkAnd(mkLe(slen(x), c), mkLe(c, mkBig(maxLen))))
				return f.tmp(to, mkSlice(r, mkInt(0), slen(x), c))
			}
			return f.havocVal("runes", to)
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if f.repoPtr(from) {
			return x
		}
		return f.havocVal("unsafe", types.Typ[types.Uintptr])
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer && f.repoPtr(to) {
		f.assume["the unsafe.Pointer at "+posOf(e.Pos())+" holds a "+types.TypeString(to, nil)] = true
		x = f.tmp(to, x)
		f.p.assume(f.typeInv(x, to))
		return x
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		f.assume["unsafe pointer conversions give arbitrary values ("+posOf(e.Pos())+")"] = true
		return f.havocVal("unsafe", to)
	}
	return f.recast(x, from, to)
}

// repoPtr: a pointer to a struct type of the repository.
func (f *fx) repoPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || f.w.pkgs[n.Obj().Pkg().Path()] == nil {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func f2iAxiom(k ikind) {
	n := "f2i_" + k.String()
	if _, ok := funDecls[n+"$ax"]; ok {
		return
	}
	declFun(n+"$ax", SInt)
	x := mkBound("x", SF64)
	r := app(n, SInt, x)
	fr := app("fr", SReal, x)
	rg := k.rng()
	lo := realConst(new(big.Rat).SetInt(rg.lo))
	hi := realConst(new(big.Rat).SetInt(rg.hi))
	addAxiom("truncation to "+k.String(), mkForall([]BVar{{"x", SF64}}, mkImp(
		mkAnd(mkNot(app("fnan", SBool, x)), app("<=", SBool, lo, fr), app("<=", SBool, fr, hi)),
		mkEq(r, mkIte(app("<=", SBool, realConst(new(big.Rat)), fr), app("to_int", SInt, fr), mkNeg(app("to_int", SInt, app("-", SReal, fr)))))), []*Term{r}), n)
}

// byteRange: bytes in memory are between 0 and 255.
func (f *fx) byteRange(h, arr *Term) {
	f.v.qn++
	b := mkBound("i?"+itoa(f.v.qn), SInt)
	e := mkSel(mkSel(h, arr), b)
	f.p.assume(mkForall([]BVar{{b.Name, SInt}}, mkAnd(mkLe(mkInt(0), e), mkLe(e, mkInt(255))), []*Term{e}))
}

func itoa(n int) string { return new(big.Int).SetInt64(int64(n)).String() }
