package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

func (f *fx) builtin(name string, e *ast.CallExpr) func() []*Term {
	w := f.w
	p := f.p
	one := func(t *Term) func() []*Term { return func() []*Term { return []*Term{t} } }
	switch name {
	case "len", "cap":
		xt := f.typ(e.Args[0])
		if pt, ok := xt.Underlying().(*types.Pointer); ok {
			return one(mkInt(pt.Elem().Underlying().(*types.Array).Len()))
		}
		if a, ok := xt.Underlying().(*types.Array); ok {
			return one(mkInt(a.Len()))
		}
		x := f.expr(e.Args[0])
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			x = f.tmp(xt, x)
			if name == "cap" {
				return one(sCap(x))
			}
			return one(sLen(x))
		case *types.Basic:
			return one(slen(x))
		case *types.Map:
			md, _, ml := w.mapHeaps(u)
			x = f.tmp(xt, x)
			ks := w.sortOf(u.Key())
			n := f.tmp(tyInt, mkIte(mkEq(x, mkInt(0)), mkInt(0), mkSel(ml, x)))
			p.assume(mkAnd(mkLe(mkInt(0), n), mkLe(n, mkBig(maxLen)),
				mkImp(mkNot(mkEq(x, mkInt(0))), mkEq(mkEq(n, mkInt(0)), mkEq(mkSel(md, x), mkConstArr(arrSort(ks, SBool), tFalse))))))
			return one(n)
		case *types.Chan:
			n := f.havocVal("chlen", tyInt)
			p.assume(mkLe(mkInt(0), n))
			return one(n)
		}
	case "append":
		return func() []*Term { return []*Term{f.appendCall(e)} }
	case "copy":
		return func() []*Term {
			n := f.copyCall(e)
			if f.p.cur != nil {
				n = f.tmp(tyInt, n)
				f.hook("after", "copy", callInfo{nil, []*Term{n}, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "n", tyInt)), false)})
			}
			return []*Term{n}
		}
	case "make":
		ty := f.typ(e.Args[0])
		switch u := ty.Underlying().(type) {
		case *types.Slice:
			n := f.expr(e.Args[1])
			c := n
			if len(e.Args) > 2 {
				c = f.expr(e.Args[2])
			}
			f.check("makeslice: len or cap out of range", e.Pos(), mkAnd(mkLe(mkInt(0), n), mkLe(n, c), mkLe(c, mkBig(makeMax(u.Elem())))))
			r := f.newRef()
			h := w.elemHeap(u.Elem())
			p.assign(h, mkSto(h, r, mkConstArr(arrSort(SInt, w.sortOf(u.Elem())), w.zero(u.Elem()))))
			return one(f.tmp(ty, mkSlice(r, mkInt(0), n, c)))
		case *types.Map:
			for _, a := range e.Args[1:] {
				f.expr(a)
			}
			return one(f.newMap(u))
		case *types.Chan:
			for _, a := range e.Args[1:] {
				n := f.expr(a)
				f.check("makechan: size out of range", e.Pos(), mkAnd(mkLe(mkInt(0), n), mkLe(n, mkBig(maxLen))))
			}
			return one(f.newRef())
		}
	case "new":
		ty := f.typ(e.Args[0])
		return one(f.alloc(ty, w.zero(ty)))
	case "delete":
		u := f.typ(e.Args[0]).Underlying().(*types.Map)
		m := f.tmp(f.typ(e.Args[0]), f.expr(e.Args[0]))
		k := f.tmp(u.Key(), f.exprAs(e.Args[1], u.Key()))
		return func() []*Term { f.mapDelete(u, m, k, e.Pos()); return nil }
	case "panic":
		f.exprAs(e.Args[0], types.NewInterfaceType(nil, nil))
		return func() []*Term {
			if rf := f.recoverFrame(); rf != nil {
				p.goTo(rf.recov)
				return nil
			}
			if f.c.Opts["panics"] == "" {
				f.oblig("panic", "unreachable", e.Pos(), tFalse)
			}
			p.cur = nil
			return nil
		}
	case "recover":
		return func() []*Term {
			for fr := f.cur; fr != nil; fr = fr.lex {
				if fr.panicV != nil {
					f.ntmp++
					v := mkVar("rec"+itoa(f.ntmp), SInt)
					p.assign(v, fr.panicV)
					p.assign(fr.panicV, mkInt(0))
					return []*Term{v}
				}
			}
			return []*Term{mkInt(0)}
		}
	case "close":
		f.expr(e.Args[0])
		return func() []*Term { f.hook("before", "close", nil); return nil }
	case "print", "println":
		return func() []*Term { return nil }
	case "min", "max":
		a, b := f.expr(e.Args[0]), f.expr(e.Args[1])
		if name == "min" {
			return one(mkIte(mkLe(a, b), a, b))
		}
		return one(mkIte(mkLe(a, b), b, a))
	}
	f.fail(e, "unsupported builtin %s", name)
	return nil
}

// makeMax is the largest element count make accepts for an element type.
func makeMax(t types.Type) *big.Int {
	sz := types.SizesFor("gc", "amd64").Sizeof(t)
	if sz <= 1 {
		return maxLen
	}
	return new(big.Int).Div(maxLen, big.NewInt(sz))
}

func (f *fx) appendCall(e *ast.CallExpr) *Term {
	w, p := f.w, f.p
	st := f.typ(e)
	et := st.Underlying().(*types.Slice).Elem()
	h := w.elemHeap(et)
	s := f.tmp(st, f.exprAs(e.Args[0], st))
	var n *Term
	var fill func(arr, at *Term) *Term
	var text *Term // the appended bytes as a string
	if e.Ellipsis.IsValid() {
		at := f.typ(e.Args[1])
		x := f.tmp(at, f.exprAs(e.Args[1], at))
		if isString(at) {
			n = slen(x)
			text = x
			fill = func(arr, pos *Term) *Term { return scopy(arr, pos, x) }
		} else {
			n = sLen(x)
			src := f.tmpArr(mkSel(h, sArr(x)))
			if f.strFacts(et) {
				text = app("sfrom", SStr, src, sOff(x), n)
			}
			fill = func(arr, pos *Term) *Term { return acopy(arr, pos, src, sOff(x), n) }
		}
	} else {
		var vs []*Term
		for _, a := range e.Args[1:] {
			vs = append(vs, f.tmpCopy(et, f.exprAs(a, et)))
		}
		n = mkInt(int64(len(vs)))
		if len(vs) == 1 {
			text = app("sbyte", SStr, vs[0])
		}
		fill = func(arr, pos *Term) *Term {
			for i, v := range vs {
				arr = mkSto(arr, offAdd(pos, mkInt(int64(i))), v)
			}
			return arr
		}
	}
	if p.cur == nil {
		return w.someTerm(SSlc)
	}
	if isInt(n) && n.Int.Sign() == 0 {
		return s
	}
	// a nil slice appended with nothing stays nil
	nl := f.tmp(tyInt, mkAdd(sLen(s), n))
	f.assumeOnce(mkLe(nl, mkBig(makeMax(et)))) // memory is finite
	fits := f.tmp(tyBool, mkLe(nl, sCap(s)))
	// the write stays inside the old memory if it fits
	if !f.modAny {
		can := f.canWrite(h, sArr(s))
		if can != tTrue {
			f.oblig("frame", h.Name, e.Pos(), mkOr(mkNot(fits), mkEq(n, mkInt(0)), can))
		}
	}
	r := f.newRef()
	arr := f.tmp(types.NewPointer(et), mkIte(fits, sArr(s), r))
	c := f.havocVal("cap", tyInt)
	p.assume(mkAnd(mkLe(nl, c), mkLe(c, mkBig(makeMax(et))), mkImp(fits, mkEq(c, sCap(s)))))
	var before *Term
	if f.strFacts(et) && text != nil {
		before = f.tmp(types.Typ[types.String], app("sfrom", SStr, mkSel(h, sArr(s)), sOff(s), sLen(s)))
	}
	p.assign(h, mkSto(h, arr, fill(mkSel(h, sArr(s)), mkIdx(sOff(s), sLen(s)))))
	if before != nil {
		p.assume(mkEq(app("sfrom", SStr, mkSel(h, arr), sOff(s), nl), app("scat", SStr, before, text)))
	}
	res := mkSlice(arr, sOff(s), nl, c)
	if !isInt(n) {
		res = mkIte(mkAnd(mkEq(n, mkInt(0)), mkEq(sArr(s), mkInt(0))), nilSlice, res)
	}
	return f.tmp(st, res)
}

// strFacts reports whether the contract asks for the text of appended and
// sliced byte slices to be stated (it follows from their bytes).
func (f *fx) strFacts(et types.Type) bool {
	b, ok := et.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8 && f.c.Opts["strfacts"] != ""
}

func (f *fx) assumeOnce(t *Term) { f.p.assume(t) }

func (f *fx) tmpArr(t *Term) *Term {
	f.ntmp++
	v := mkVar("m"+itoa(f.ntmp), t.Sort)
	f.p.assign(v, t)
	return v
}

func (f *fx) copyCall(e *ast.CallExpr) *Term {
	w, p := f.w, f.p
	dt := f.typ(e.Args[0])
	et := dt.Underlying().(*types.Slice).Elem()
	h := w.elemHeap(et)
	d := f.tmp(dt, f.expr(e.Args[0]))
	xt := f.typ(e.Args[1])
	x := f.tmp(xt, f.exprAs(e.Args[1], xt))
	if p.cur == nil {
		return mkInt(0)
	}
	ln := sLen
	if isString(xt) {
		ln = slen
	}
	n := f.tmp(tyInt, mkIte(mkLe(sLen(d), ln(x)), sLen(d), ln(x)))
	can := f.canWrite(h, sArr(d))
	if can != tTrue {
		f.oblig("frame", h.Name, e.Pos(), mkOr(mkEq(n, mkInt(0)), can))
	}
	var arr *Term
	if isString(xt) {
		arr = scopy(mkSel(h, sArr(d)), sOff(d), app("ssub", SStr, x, mkInt(0), n))
	} else {
		arr = acopy(mkSel(h, sArr(d)), sOff(d), f.tmpArr(mkSel(h, sArr(x))), sOff(x), n)
	}
	p.assign(h, mkSto(h, sArr(d), arr))
	return n
}

// special handles functions with built-in meaning.
func (f *fx) special(fn *types.Func, e *ast.CallExpr) func() []*Term {
	if fn == nil || fn.Pkg() == nil {
		return nil
	}
	one := func(t *Term) func() []*Term { return func() []*Term { return []*Term{t} } }
	switch fn.Pkg().Path() + "." + funcKey(fn) {
	case "math.Float64bits":
		return one(app("f64bits", SInt, f.exprAs(e.Args[0], tyF64)))
	case "math.Float64frombits":
		return one(app("f64frombits", SF64, f.expr(e.Args[0])))
	case "math.IsNaN":
		return one(app("fnan", SBool, f.exprAs(e.Args[0], tyF64)))
	case "math.IsInf":
		x := f.tmp(tyF64, f.exprAs(e.Args[0], tyF64))
		s := f.expr(e.Args[1])
		z := realConst(new(big.Rat))
		pos := app("<", SBool, z, app("fr", SReal, x))
		return one(mkAnd(app("finf", SBool, x), mkOr(mkEq(s, mkInt(0)), mkAnd(mkLt(mkInt(0), s), pos), mkAnd(mkLt(s, mkInt(0)), mkNot(pos)))))
	case "sync/atomic.LoadPointer", "sync/atomic.StorePointer", "sync/atomic.CompareAndSwapPointer":
		u, ok := ast.Unparen(e.Args[0]).(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			break
		}
		l := f.lvalue(u.X)
		f.assume["the atomic pointer "+types.ExprString(u.X)+" is not changed by another goroutine during the call"] = true
		switch fn.Name()[0] {
		case 'L':
			return func() []*Term { return []*Term{f.tmp(l.ty, l.get())} }
		case 'S':
			v := f.tmp(l.ty, f.exprAs(e.Args[1], l.ty))
			return func() []*Term { l.set(v); return nil }
		}
		old, v := f.tmp(l.ty, f.exprAs(e.Args[1], l.ty)), f.tmp(l.ty, f.exprAs(e.Args[2], l.ty))
		return func() []*Term {
			same := f.tmp(tyBool, mkEq(l.get(), old))
			l.set(f.tmp(l.ty, mkIte(same, v, l.get())))
			return []*Term{same}
		}
	case "sync/atomic.AddInt64", "sync/atomic.AddUint64", "sync/atomic.AddInt32", "sync/atomic.AddUint32",
		"sync/atomic.LoadInt64", "sync/atomic.LoadUint64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint32",
		"sync/atomic.StoreInt64", "sync/atomic.StoreUint32", "sync/atomic.StoreInt32", "sync/atomic.StoreUint64":
		if u, ok := ast.Unparen(e.Args[0]).(*ast.UnaryExpr); ok {
			l := f.lvalue(u.X)
			n := fn.Name()
			switch n[0] {
			case 'L':
				return one(f.havocVal("atomic", l.ty))
			case 'S':
				v := f.exprAs(e.Args[1], l.ty)
				return func() []*Term { l.set(v); return nil }
			}
			d := f.exprAs(e.Args[1], l.ty)
			return func() []*Term {
				cur := f.havocVal("atomic", l.ty)
				k, _ := intKind(l.ty)
				nv := f.tmp(l.ty, mopTerm("wrap", k, mkAdd(cur, d)))
				l.set(nv)
				return []*Term{nv}
			}
		}
	}
	return nil
}

func (f *fx) isAtomicScalar(fn *types.Func, x *ast.SelectorExpr) bool { return false }
func (f *fx) atomicMethod(fn *types.Func, x *ast.SelectorExpr, e *ast.CallExpr) func() []*Term {
	return nil
}

var _ = constant.Bool
