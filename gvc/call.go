package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (f *fx) call(e *ast.CallExpr) []*Term {
	if f.p.cur == nil {
		return f.deadResults(e)
	}
	r := f.prepCall(e)()
	if f.p.cur == nil {
		return f.deadResults(e)
	}
	return r
}

func (f *fx) deadResults(e *ast.CallExpr) []*Term {
	var out []*Term
	tv := f.info().Types[e]
	switch t := tv.Type.(type) {
	case nil:
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			out = append(out, f.w.someTerm(f.w.sortOf(t.At(i).Type())))
		}
	default:
		if !tv.IsVoid() {
			out = append(out, f.w.someTerm(f.w.sortOf(t)))
		}
	}
	return out
}

type carg struct {
	t  *Term
	ty types.Type
	fv *fnval
	e  ast.Expr

	vari  []*Term // the values of a variadic argument
	variE []ast.Expr
}

// prepCall evaluates function and arguments; the result performs the call.
func (f *fx) prepCall(e *ast.CallExpr) func() []*Term {
	// conversion
	if tv := f.info().Types[e.Fun]; tv.IsType() {
		return func() []*Term { return []*Term{f.convert(e.Args[0], tv.Type)} }
	}
	fun := ast.Unparen(e.Fun)
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := f.info().Uses[id].(*types.Builtin); ok {
			return f.builtin(b.Name(), e)
		}
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		if b, ok := f.info().Uses[sel.Sel].(*types.Builtin); ok {
			return f.builtin(b.Name(), e)
		}
	}
	var fn *types.Func
	var recv *Term
	var recvT types.Type
	var fv *fnval
	name := ""
	var post func()
	switch x := fun.(type) {
	case *ast.FuncLit:
		fv = &fnval{lit: x, fr: f.cur}
	case *ast.Ident:
		name = x.Name
		switch o := f.info().ObjectOf(x).(type) {
		case *types.Func:
			fn = o
		default:
			fv = f.fnValue(x)
			if fv == nil {
				c := f.expr(x)
				f.nonNil(c, x.Pos())
				fv = &fnval{trace: x.Name, val: c}
			}
		}
	case *ast.SelectorExpr:
		name = x.Sel.Name
		sel := f.info().Selections[x]
		if sel == nil {
			switch o := f.info().Uses[x.Sel].(type) {
			case *types.Func:
				fn = o
			default:
				fv = &fnval{trace: name, val: f.expr(x)}
			}
		} else if sel.Kind() == types.MethodVal {
			fn = sel.Obj().(*types.Func)
			rt := fn.Type().(*types.Signature).Recv().Type()
			recvT = rt
			if f.isAtomicScalar(fn, x) {
				return f.atomicMethod(fn, x, e)
			}
			if mu := f.mutexCall(fn, x); mu != nil {
				return func() []*Term { return mu() }
			}
			recv, post = f.recvWithCopy(x, fn)
			if post != nil && f.readOnly(fn) {
				post = nil
			}
		} else {
			// a function stored in a field
			c := f.lvalue(x).get()
			f.nonNil(c, x.Pos())
			fv = &fnval{trace: name, val: c}
		}
	default:
		c := f.expr(e.Fun)
		f.nonNil(c, e.Pos())
		fv = &fnval{trace: "func"}
	}
	sig := f.typ(e.Fun).Underlying().(*types.Signature)
	if sp := f.special(fn, e); sp != nil {
		return sp
	}
	args := f.args(e, sig)
	return func() []*Term {
		var rs []*Term
		if fn != nil {
			rs = f.callFn(fn, recv, recvT, args, sig, e)
		} else {
			rs = f.callVal(fv, args, sig, e)
		}
		if post != nil && f.p.cur != nil {
			post()
		}
		return rs
	}
}

func (f *fx) args(e *ast.CallExpr, sig *types.Signature) []carg {
	var out []carg
	np := sig.Params().Len()
	if len(e.Args) == 1 && np > 1 {
		if tup, ok := f.typ(e.Args[0]).(*types.Tuple); ok {
			rs := f.call(ast.Unparen(e.Args[0]).(*ast.CallExpr))
			for i, r := range rs {
				pt := paramType(sig, i, false)
				out = append(out, carg{t: f.convTo(r, tup.At(i).Type(), pt, e.Pos()), ty: pt})
			}
			return out
		}
	}
	var vari []*Term
	var variE []ast.Expr
	var vt types.Type
	for i, a := range e.Args {
		if sig.Variadic() && i >= np-1 && !e.Ellipsis.IsValid() {
			vt = sig.Params().At(np - 1).Type().(*types.Slice).Elem()
			vari = append(vari, f.tmpCopy(vt, f.exprAs(a, vt)))
			variE = append(variE, a)
			continue
		}
		pt := sig.Params().At(i).Type()
		fv := f.fnValue(a)
		var t *Term
		if fv != nil {
			t = f.havocFunc()
			if fv.fn != nil && fv.recv == nil {
				t = f.w.funcConst(fv.fn)
			}
		} else {
			t = f.tmpCopy(pt, f.argExpr(a, pt))
		}
		if f.p.cur == nil {
			t = f.w.someTerm(f.w.sortOf(pt))
		}
		out = append(out, carg{t: t, ty: pt, fv: fv, e: a})
	}
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		st := sig.Params().At(np - 1).Type()
		if len(vari) == 0 {
			out = append(out, carg{t: nilSlice, ty: st})
		} else {
			et := st.(*types.Slice).Elem()
			r := f.newRef()
			arr := mkConstArr(arrSort(SInt, f.w.sortOf(et)), f.w.zero(et))
			for i, v := range vari {
				arr = mkSto(arr, mkInt(int64(i)), v)
			}
			h := f.w.elemHeap(et)
			f.p.assign(h, mkSto(h, r, arr))
			n := mkInt(int64(len(vari)))
			out = append(out, carg{t: mkSlice(r, mkInt(0), n, n), ty: st, vari: vari, variE: variE})
		}
	}
	return out
}

// argExpr evaluates an argument; addresses that have no representation are
// passed as a private copy that is written back by the caller (see copyOut).
func (f *fx) argExpr(a ast.Expr, pt types.Type) *Term {
	return f.exprAs(a, pt)
}

func (f *fx) tmpCopy(ty types.Type, t *Term) *Term {
	if f.p.cur == nil || t == nil {
		return f.w.someTerm(f.w.sortOf(ty))
	}
	switch t.Op {
	case "int", "true", "false", "const":
		return t
	}
	f.ntmp++
	v := mkVar(fmt.Sprintf("a%d", f.ntmp), t.Sort)
	f.regVar(v, ty)
	f.p.assign(v, t)
	return v
}

// readOnly: calling fn cannot change its receiver.
func (f *fx) readOnly(fn *types.Func) bool {
	ct := f.v.sp.contracts[fullKey(fn)]
	if ct == nil {
		ct = f.v.sp.contracts[shortKey(fn)]
	}
	if ct != nil && !ct.Inline {
		return len(ct.Modifies) == 0
	}
	return f.w.pkgs[pkgPath(fn)] == nil
}

func paramType(sig *types.Signature, i int, _ bool) types.Type {
	return sig.Params().At(i).Type()
}

func (f *fx) recvFor(x *ast.SelectorExpr, fn *types.Func) *Term {
	t, _ := f.recvWithCopy(x, fn)
	return t
}

// recvWithCopy evaluates the receiver of a method call; a struct that has no
// address in the model is copied to fresh memory and copied back afterwards.
func (f *fx) recvWithCopy(x *ast.SelectorExpr, fn *types.Func) (*Term, func()) {
	sel := f.info().Selections[x]
	rt := fn.Type().(*types.Signature).Recv().Type()
	path := sel.Index()[:len(sel.Index())-1]
	xt := f.typ(x.X)
	if isIface(rt) || isIface(xt) {
		if len(path) == 0 {
			r := f.tmpCopy(xt, f.expr(x.X))
			f.nonNil(r, x.Pos())
			return r, nil
		}
		l := f.selPath(x.X, path, x.Pos())
		r := f.tmpCopy(l.ty, l.get())
		f.nonNil(r, x.Pos())
		return r, nil
	}
	_, ptrRecv := rt.Underlying().(*types.Pointer)
	if len(path) == 0 {
		if _, isPtr := xt.Underlying().(*types.Pointer); isPtr {
			r := f.tmpCopy(xt, f.expr(x.X))
			if ptrRecv {
				return r, nil
			}
			f.nonNil(r, x.Pos())
			el := xt.Underlying().(*types.Pointer).Elem()
			return f.loaded(el, f.w.loadAt(el, r, ident)), nil
		}
		if !ptrRecv {
			return f.tmpCopy(xt, f.expr(x.X)), nil
		}
		if id, ok := ast.Unparen(x.X).(*ast.Ident); ok {
			if o, ok := f.info().Uses[id].(*types.Var); ok {
				if g := f.w.classAddr(o); g != nil {
					return g, nil
				}
			}
		}
		l := f.lvalueOrTemp(x.X)
		return f.addrOf(l, x.Pos())
	}
	l := f.selPath(x.X, path, x.Pos())
	if _, isPtr := l.ty.Underlying().(*types.Pointer); isPtr {
		r := f.tmpCopy(l.ty, l.get())
		if ptrRecv {
			return r, nil
		}
		f.nonNil(r, x.Pos())
		el := l.ty.Underlying().(*types.Pointer).Elem()
		return f.loaded(el, f.w.loadAt(el, r, ident)), nil
	}
	if !ptrRecv {
		return f.tmpCopy(l.ty, l.get()), nil
	}
	return f.addrOf(l, x.Pos())
}

func (f *fx) addrOf(l *lval, pos token.Pos) (*Term, func()) {
	if l.ref != nil {
		return f.tmpCopy(types.NewPointer(l.ty), l.ref), nil
	}
	v := f.tmp(l.ty, l.get())
	r := f.alloc(l.ty, v)
	return r, func() { l.set(f.loaded(l.ty, f.w.loadAt(l.ty, r, ident))) }
}

// --- known functions ---------------------------------------------------------

func (f *fx) callFn(fn *types.Func, recv *Term, recvT types.Type, args []carg, sig *types.Signature, e *ast.CallExpr) []*Term {
	key := fullKey(fn)
	pos := e.Pos()
	qn := qualName(fn)
	f.hook("before", fn.Name(), args)
	f.hook("before", qn, args)
	var out []*Term
	ct := f.v.sp.contracts[key]
	if ct == nil {
		ct = f.v.sp.contracts[shortKey(fn)]
	}
	pi := f.w.pkgs[pkgPath(fn)]
	hasLit := false
	for _, a := range args {
		if a.fv != nil && (a.fv.lit != nil || a.fv.fn != nil || ct == nil || ct.Opts["fncontract"] == "") {
			hasLit = true
		}
	}
	switch {
	case ct != nil && ct.Opts["ranges"] != "":
		f.rangeGhost(ct, recv, args, e)
	case ct != nil && ct.Opts["callsback"] != "":
		out = f.callsBack(ct, fn, recv, recvT, args, sig, e)
	case ct != nil && !ct.Inline && !(hasLit && pi != nil && ct.Trusted == "" && ct.Opts["nolit"] == ""):
		out = f.callContract(ct, fn, recv, recvT, args, sig, pos)
	case pi != nil && pi.decls[funcKey(fn)] != nil:
		out = f.inlineFn(pi, fn, recv, args, pos)
	default:
		out = f.opaque(fn, recv, recvT, args, sig, pos)
	}
	if f.p.cur != nil {
		fsig := fn.Type().(*types.Signature)
		f.traceIf(fn.Name(), recv, recvT, args, out, fsig)
		f.traceIf(qn, recv, recvT, args, out, fsig)
		ci := callInfo{args, out, fn.Type().(*types.Signature)}
		f.hook("after", fn.Name(), ci)
		f.hook("after", qn, ci)
	}
	if ct != nil && ct.Opts["maycall"] != "" && f.p.cur != nil {
		f.mayCall(ct, args, out, sig, e)
	}
	return out
}

// mayCall: a call that succeeded calls the given function value later, once
// and at an unknown time. Both cases are followed: it has been called when the
// call returns, and it has not been called when the function returns.
func (f *fx) mayCall(ct *Contract, args []carg, out []*Term, sig *types.Signature, e *ast.CallExpr) {
	p := f.p
	var fv *fnval
	var fsig *types.Signature
	for i, n := range ct.Params {
		if n != ct.Opts["maycall"] {
			continue
		}
		j := i - (len(ct.Params) - len(args))
		fv = args[j].fv
		fsig, _ = args[j].ty.Underlying().(*types.Signature)
	}
	if fv == nil || fsig == nil {
		panic(unsupported(posOf(e.Pos()) + ": " + ct.Key + " with an unknown function"))
	}
	f.assume[ct.Key+" calls its function exactly once if it gives no error and never otherwise"] = true
	f.ntmp++
	now := mkVar("now"+itoa(f.ntmp), SBool)
	p.havoc(now)
	if n := len(out); n > 0 {
		p.assume(mkImp(now, mkEq(out[n-1], mkInt(0))))
	}
	t, el := p.branch(now)
	end := p.newBlock()
	p.start(t)
	f.hook("before", "completion", nil)
	var as []carg
	for i := 0; i < fsig.Params().Len(); i++ {
		ty := fsig.Params().At(i).Type()
		as = append(as, carg{t: f.havocVal("cb", ty), ty: ty})
	}
	f.callVal(fv, as, fsig, e)
	if p.cur != nil {
		p.goTo(end)
	}
	p.start(el)
	p.goTo(end)
	p.start(end)
}

func pkgPath(fn *types.Func) string {
	if fn.Pkg() == nil {
		return ""
	}
	return fn.Pkg().Path()
}

// shortKey lets extern contracts use the last path element.
func shortKey(fn *types.Func) string {
	if fn.Pkg() == nil {
		return funcKey(fn)
	}
	return fn.Pkg().Name() + "." + funcKey(fn)
}

// opaque: a function outside the repository without a contract.
func (f *fx) opaque(fn *types.Func, recv *Term, recvT types.Type, args []carg, sig *types.Signature, pos token.Pos) []*Term {
	f.assume["unspecified external function "+shortKey(fn)+": any result, changes only what its pointer arguments point to, does not panic"] = true
	pure := pureExtern(fn)
	change := func(t *Term, ty types.Type, e ast.Expr) {
		if e != nil && isIface(ty) && !isIface(f.typ(e)) {
			// a value passed as an interface
			if et := f.typ(e); et != types.Typ[types.UntypedNil] {
				switch et.Underlying().(type) {
				case *types.Pointer, *types.Slice:
					t, ty = f.w.unbox(et, t), et
				}
			}
		}
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			f.havocObject(u.Elem(), t, pos)
		case *types.Slice:
			if readsSlices(fn) {
				return
			}
			p := f.p
			cond := mkLt(mkInt(0), sLen(t))
			th, el := p.branch(cond)
			end := p.newBlock()
			p.start(th)
			f.havocLoc(modLoc{heap: f.w.elemHeap(u.Elem()), ref: sArr(t)}, pos)
			p.goTo(end)
			p.start(el)
			p.goTo(end)
			p.start(end)
		}
	}
	for _, a := range args {
		if a.fv != nil {
			continue
		}
		if pure {
			if p, ok := a.ty.Underlying().(*types.Pointer); ok {
				f.havocObject(p.Elem(), a.t, pos)
			}
			continue
		}
		if a.variE != nil {
			et := a.ty.Underlying().(*types.Slice).Elem()
			for i, t := range a.vari {
				change(t, et, a.variE[i])
			}
			continue
		}
		change(a.t, a.ty, a.e)
	}
	if recvT != nil {
		if p, ok := recvT.Underlying().(*types.Pointer); ok && f.w.pkgs[pkgPath(fn)] != nil {
			f.havocObject(p.Elem(), recv, pos)
		}
	}
	return f.havocResults(sig)
}

// readsSlices: decoders, which only read the bytes they are given.
func readsSlices(fn *types.Func) bool {
	switch pkgPath(fn) {
	case "github.com/BurntSushi/toml", "encoding/json":
		return true
	}
	return false
}

// pureExtern: external functions that only read what they are given.
func pureExtern(fn *types.Func) bool {
	if strings.HasPrefix(fn.Name(), "Read") {
		return false
	}
	switch pkgPath(fn) {
	case "errors", "github.com/zeebo/errs", "strings", "bytes", "strconv", "math", "time", "context", "path", "path/filepath", "unicode", "unicode/utf8", "log", "os", "hash/crc32", "html/template", "sync", "sync/atomic":
		return true
	case "fmt":
		return !strings.Contains(fn.Name(), "can")
	}
	return strings.HasSuffix(pkgPath(fn), "rothko/external")
}

func (f *fx) havocResults(sig *types.Signature) []*Term {
	n := sig.Results().Len()
	if n > 0 {
		f.bumpAlloc()
	}
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, f.havocVal("res", sig.Results().At(i).Type()))
	}
	return out
}

func (f *fx) bumpAlloc() {
	f.ntmp++
	a := mkVar("alloc"+itoa(f.ntmp), SInt)
	f.p.assign(a, allocVar)
	f.p.havoc(allocVar)
	f.p.assume(mkLe(a, allocVar))
	f.p.emit(&cmd{kind: cFrame, frame: f.newHeapInv})
}

func (f *fx) havocObject(ty types.Type, ref *Term, pos token.Pos) {
	if _, ok := ty.Underlying().(*types.Struct); ok {
		if n, ok := types.Unalias(ty).(*types.Named); ok && n.Obj().Pkg() != nil && f.w.pkgs[n.Obj().Pkg().Path()] == nil {
			return // foreign struct: its fields are never read here
		}
	}
	v := f.havocVal("hv", ty)
	cond := mkNot(mkEq(ref, mkInt(0)))
	_ = cond
	f.storeAt(ty, ref, v, pos, false)
}

// callContract uses a contract instead of the body.
func (f *fx) callContract(ct *Contract, fn *types.Func, recv *Term, recvT types.Type, args []carg, sig *types.Signature, pos token.Pos) []*Term {
	p := f.p
	f.used[ct.Key] = true
	if ct.Extern {
		f.assume["contract of "+ct.Key+" (external)"] = true
	} else if ct.Trusted != "" {
		f.assume["contract of "+ct.Key+": "+ct.Trusted] = true
	}
	pkg := f.w.pkgs[ct.PkgPath]
	bind := map[string]SVal{}
	full := sig
	if fn != nil {
		full = fn.Type().(*types.Signature)
	}
	i := 0
	setp := func(t *Term, ty types.Type, nm string) {
		v := SVal{t: t, ty: ty}
		if i < len(ct.Params) {
			bind[ct.Params[i]] = v
		}
		if nm != "" && nm != "_" {
			if _, dup := bind[nm]; !dup {
				bind[nm] = v
			}
		}
		i++
	}
	if recv != nil {
		nm := ""
		if full.Recv() != nil {
			nm = full.Recv().Name()
		}
		setp(recv, recvT, nm)
		if _, ok := recvT.Underlying().(*types.Pointer); ok && ct.Opts["nilrecv"] == "" {
			f.nonNil(recv, pos)
		}
	}
	for j, a := range args {
		setp(a.t, a.ty, full.Params().At(j).Name())
	}
	short := ct.Key
	if fn != nil {
		short = shortKey(fn)
	}
	f.ncall++
	before := p.takeSnap(fmt.Sprintf("call%d", f.ncall))
	// the callee's call traces and the state in which it took its lock are
	// known only through its contract: fresh unknowns here
	ncall := f.ncall
	trs := map[string]*trace{}
	calleeTr := func(name string) *trace {
		if t, ok := trs[name]; ok {
			return t
		}
		t := f.newTrace(fmt.Sprintf("call%d$%s", ncall, name))
		var body ast.Node
		if pkg != nil && fn != nil && pkg.decls[funcKey(fn)] != nil {
			body = pkg.decls[funcKey(fn)]
		}
		t.sig = findSigIn(f.w, ct, full, pkg, body, name)
		trs[name] = t
		return t
	}
	lk := map[*Term]*Term{}
	mk := func(hp func(*Term) *Term) *sctx {
		c := &sctx{v: f.v, pkg: pkg, hp: hp, bind: bind, fnName: ct.Key, tr: calleeTr}
		c.locked = &sctx{v: f.v, pkg: pkg, bind: bind, fnName: ct.Key, tr: calleeTr, hp: func(t *Term) *Term {
			if r, ok := lk[t]; ok {
				return r
			}
			r := mkVar(fmt.Sprintf("lk%d$%s", ncall, t.Name), t.Sort)
			lk[t] = r
			return r
		}}
		return c
	}
	pre := mk(ident)
	preH := mk(before.at)
	for k, r := range ct.Requires {
		l := r.Label
		if l == "" {
			l = itoa(k + 1)
		}
		f.oblig("precondition of "+short, l, pos, pre.boolE(r.E))
	}
	if ct.Opts["locks"] != "any" && fn != nil && f.v.locks(fn) {
		f.oblig("locks", "none held when calling "+short, pos, f.v.noLocks())
	}
	nres := full.Results().Len()
	refRes := false
	for j := 0; j < nres; j++ {
		if hasRefs(full.Results().At(j).Type()) {
			refRes = true
		}
	}
	if refRes || len(ct.Modifies) > 0 {
		f.bumpAlloc()
	}
	// frame
	for _, m := range ct.Modifies {
		for _, ml := range f.v.modLocs(preH, m.E) {
			f.havocLoc(ml, pos)
		}
	}
	var out []*Term
	for j := 0; j < nres; j++ {
		rv := full.Results().At(j)
		t := f.havocVal("res", rv.Type())
		out = append(out, t)
		v := SVal{t: t, ty: rv.Type()}
		if j < len(ct.Results) {
			bind[ct.Results[j]] = v
		}
		if rv.Name() != "" && rv.Name() != "_" {
			if _, dup := bind[rv.Name()]; !dup {
				bind[rv.Name()] = v
			}
		}
		if _, dup := bind[fmt.Sprintf("r%d", j)]; !dup {
			bind[fmt.Sprintf("r%d", j)] = v
		}
		if nres == 1 {
			bind["result"] = v
		}
	}
	// the callee's ghost variables: some value for which its contract holds
	for _, g := range ct.Ghosts {
		if _, dup := bind[g.Label]; !dup {
			var ty types.Type
			if te := ct.GhostTy[g.Label]; te != nil {
				ty = f.v.resolveType(pkg, te)
				bind[g.Label] = SVal{t: f.havocVal("ghost", ty), ty: ty}
			}
		}
	}
	post := mk(ident)
	post.old = preH
	for _, en := range ct.Ensures {
		p.assume(post.boolE(en.E))
	}
	if ct.Opts["noreturn"] != "" {
		p.cur = nil
	}
	return out
}

func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasRefs(u.Elem())
	}
	return false
}

// modLocs resolves a modifies item.
func (v *verifier) modLocs(c *sctx, e *sx) []modLoc {
	w := v.w
	var all func(ty types.Type, ref *Term) []modLoc
	all = func(ty types.Type, ref *Term) []modLoc {
		switch u := ty.Underlying().(type) {
		case *types.Struct:
			var out []modLoc
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if isAgg(ft) {
					out = append(out, all(ft, w.subRef(ty, i, ref))...)
				} else {
					out = append(out, modLoc{heap: w.fieldHeap(ty, i), ref: ref})
				}
			}
			return out
		case *types.Array:
			return []modLoc{{heap: w.elemHeap(u.Elem()), ref: ref}}
		}
		return []modLoc{{heap: w.boxHeap(ty), ref: ref}}
	}
	deref := func(x SVal) (types.Type, *Term) {
		if p, ok := x.ty.Underlying().(*types.Pointer); ok {
			return p.Elem(), c.value(x)
		}
		if x.ref != nil {
			return x.ty, x.ref
		}
		c.fail("modifies: %s is not in memory", sxString(e))
		return nil, nil
	}
	switch {
	case e.op == "call" && e.args[0].name == "elems":
		x := c.eval(e.args[1])
		s := x.ty.Underlying().(*types.Slice)
		return []modLoc{{heap: w.elemHeap(s.Elem()), ref: sArr(c.value(x))}}
	case e.op == "call" && (e.args[0].name == "map" || e.args[0].name == "mapof"):
		x := c.eval(e.args[1])
		m := x.ty.Underlying().(*types.Map)
		md, mv, ml := w.mapHeaps(m)
		r := c.value(x)
		return []modLoc{{heap: md, ref: r}, {heap: mv, ref: r}, {heap: ml, ref: r}}
	case e.op == "call" && e.args[0].name == "allmaps":
		x := c.eval(e.args[1])
		m := x.ty.Underlying().(*types.Map)
		md, mv, ml := w.mapHeaps(m)
		return []modLoc{{heap: md}, {heap: mv}, {heap: ml}}
	case e.op == "call" && e.args[0].name == "allof": // every object's field: allof(x.f)
		s := e.args[1]
		x := c.eval(s.args[0])
		ty := x.ty
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			ty = p.Elem()
		}
		si := w.structInfo(ty)
		i := si.index(s.name)
		return w.allFields(ty, i)
	case e.op == "call" && e.args[0].name == "allelems":
		x := c.eval(e.args[1])
		s := x.ty.Underlying().(*types.Slice)
		return []modLoc{{heap: w.elemHeap(s.Elem())}}
	case e.op == "sel" && e.name == "*":
		ty, ref := deref(c.eval(e.args[0]))
		return all(ty, ref)
	case e.op == "un" && e.name == "*":
		ty, ref := deref(c.eval(e.args[0]))
		return all(ty, ref)
	case e.op == "sel":
		// package-level variable or field
		x := func() (x SVal) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); !ok {
						panic(r)
					}
				}
			}()
			return c.eval(e.args[0])
		}()
		if x.ty == nil {
			break
		}
		// walk to the struct holding the field
		obj, path, _ := types.LookupFieldOrMethod(x.ty, true, c.pkgOf(x.ty), e.name)
		if _, ok := obj.(*types.Var); !ok {
			c.fail("modifies: no field %s", e.name)
		}
		ty, ref := deref(x)
		for k, i := range path {
			st := ty.Underlying().(*types.Struct)
			ft := st.Field(i).Type()
			if k == len(path)-1 {
				if isAgg(ft) {
					return all(ft, w.subRef(ty, i, ref))
				}
				return []modLoc{{heap: w.fieldHeap(ty, i), ref: ref}}
			}
			if isAgg(ft) {
				ref = w.subRef(ty, i, ref)
				ty = ft
			} else {
				ref = c.value(SVal{t: w.loadField(ty, ref, i, c.hp)})
				ty = ft.Underlying().(*types.Pointer).Elem()
			}
		}
	case e.op == "ident" && e.name == "held":
		return []modLoc{{heap: heldVar}}
	case e.op == "ident":
		if c.pkg == nil {
			// a clause about a function of another module
		} else if te, ok := v.sp.ghosts[c.pkg.path+"."+e.name]; ok {
			return []modLoc{{heap: v.ghostVar(c.pkg.path, e.name, c.lookupType(te))}}
		}
		for _, k := range sortedKeys(v.sp.ghosts) {
			if strings.HasSuffix(k, "."+e.name) {
				pp := strings.TrimSuffix(k, "."+e.name)
				return []modLoc{{heap: v.ghostVar(pp, e.name, v.resolveType(w.pkgs[pp], v.sp.ghosts[k]))}}
			}
		}
		if c.pkg == nil {
			break
		}
		if o, ok := c.pkg.pkg.Scope().Lookup(e.name).(*types.Var); ok {
			g := w.globalVar(o)
			if isAgg(o.Type()) {
				return all(o.Type(), g)
			}
			return []modLoc{{heap: g}}
		}
		x := c.eval(e)
		if x.ref != nil {
			return all(x.ty, x.ref)
		}
	}
	c.fail("bad modifies item %s", sxString(e))
	return nil
}

func (f *fx) havocLoc(m modLoc, pos token.Pos) {
	p := f.p
	if m.heap == heldVar {
		p.havoc(heldVar)
		return
	}
	if m.ref == nil {
		if f.canWrite(m.heap, mkInt(0)) != tTrue && !f.ghostWritable(m.heap) {
			f.oblig("frame", m.heap.Name, pos, tFalse)
		}
		p.havoc(m.heap)
		if f.isHeapArr(m.heap) {
			p.assume(f.heapInv(m.heap))
		}
		return
	}
	f.writeCheck(m.heap, m.ref, pos)
	_, vs := arrParts(m.heap.Sort)
	f.ntmp++
	v := mkVar("hv"+itoa(f.ntmp), vs)
	p.havoc(v)
	p.assume(f.heapValInv(m.heap, v))
	p.assign(m.heap, mkSto(m.heap, m.ref, v))
}

func (f *fx) ghostWritable(h *Term) bool {
	for _, m := range f.mods {
		if m.heap == h {
			return true
		}
	}
	return f.modAny
}

// --- inlining -----------------------------------------------------------------

func (fr *frame) recvEntry() *block { return fr.entryBlk() }

var frameEntry = map[*frame]*block{}

func (fr *frame) entryBlk() *block { return frameEntry[fr] }

func (f *fx) inlineFn(pi *pkgInfo, fn *types.Func, recv *Term, args []carg, pos token.Pos) []*Term {
	if f.depth > 12 {
		panic(unsupported(posOf(pos) + ": inlining too deep at " + fn.Name()))
	}
	for _, a := range f.active {
		if a == fn {
			panic(unsupported(posOf(pos) + ": recursive function " + fn.Name() + " needs a contract"))
		}
	}
	f.active = append(f.active, fn)
	defer func() { f.active = f.active[:len(f.active)-1] }()
	decl := pi.decls[funcKey(fn)]
	f.inlined[fullKey(fn)] = true
	sig := fn.Type().(*types.Signature)
	return f.inlineBody(pi, fn, sig, decl.Recv, decl.Type, decl.Body, nil, recv, args, pos)
}

func (f *fx) inlineLit(fv *fnval, args []carg, pos token.Pos) []*Term {
	if f.depth > 12 {
		panic(unsupported(posOf(pos) + ": inlining too deep at a function literal"))
	}
	sig := fv.fr.pkg.info.Types[fv.lit].Type.(*types.Signature)
	return f.inlineBody(fv.fr.pkg, nil, sig, nil, fv.lit.Type, fv.lit.Body, fv.fr, nil, args, pos)
}

func (f *fx) inlineBody(pi *pkgInfo, fn *types.Func, sig *types.Signature, rl *ast.FieldList, ft *ast.FuncType, body *ast.BlockStmt, lex *frame, recv *Term, args []carg, pos token.Pos) []*Term {
	p := f.p
	f.depth++
	defer func() { f.depth-- }()
	fr := &frame{pkg: pi, fn: fn, sig: sig, vars: map[types.Object]*lvar{}, fnb: map[types.Object]*fnval{}, lex: lex, caller: f.cur, body: body, lit: fn == nil}
	b0 := p.newBlock()
	p.goTo(b0)
	p.start(b0)
	frameEntry[fr] = b0
	saved := f.cur
	savedEnv := f.specEnv
	f.bindFrame(fr, rl, ft, recv, args)
	fr.ret = p.newBlock()
	f.setupRecover(fr)
	f.stmts(body.List)
	p.goTo(fr.ret)
	p.start(fr.ret)
	if p.cur != nil {
		f.runDefers(fr)
	}
	f.afterPanic(fr)
	var out []*Term
	if p.cur != nil {
		for _, r := range fr.results {
			out = append(out, f.tmpCopy(r.ty, f.varLval(r, pos).get()))
		}
	}
	f.cur = saved
	f.specEnv = savedEnv
	if out == nil {
		for _, r := range fr.results {
			out = append(out, f.w.someTerm(f.w.sortOf(r.ty)))
		}
	}
	return out
}

// bindFrame makes fr current and declares its parameters and results.
func (f *fx) bindFrame(fr *frame, rl *ast.FieldList, ft *ast.FuncType, recv *Term, args []carg) {
	fr.boxed = f.boxedVars(fr)
	f.cur = fr
	info := fr.pkg.info
	if rl != nil && recv != nil {
		for _, fl := range rl.List {
			for _, id := range fl.Names {
				if o := info.Defs[id]; o != nil && id.Name != "_" {
					f.declare(o, recv)
				}
			}
		}
	}
	i := 0
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			i++
			continue
		}
		for _, id := range fl.Names {
			if o := info.Defs[id]; o != nil && id.Name != "_" && i < len(args) {
				if args[i].fv != nil && !f.reassigned(o) {
					fr.fnb[o] = args[i].fv
				}
				f.declare(o, args[i].t)
			}
			i++
		}
	}
	if ft.Results != nil {
		n := 0
		for _, fl := range ft.Results.List {
			ty := info.Types[fl.Type].Type
			if len(fl.Names) == 0 {
				v := f.newVar(fmt.Sprintf("ret%d", n), ty)
				f.p.assign(v, f.w.zero(ty))
				fr.results = append(fr.results, &lvar{v: v, ty: ty, name: fmt.Sprintf("r%d", n)})
				n++
				continue
			}
			for _, id := range fl.Names {
				o := info.Defs[id]
				if o == nil || id.Name == "_" {
					v := f.newVar(fmt.Sprintf("ret%d", n), ty)
					f.p.assign(v, f.w.zero(ty))
					fr.results = append(fr.results, &lvar{v: v, ty: ty, name: fmt.Sprintf("r%d", n)})
				} else {
					fr.results = append(fr.results, f.declare(o, f.w.zero(ty)))
				}
				n++
			}
		}
	}
}

// boxedVars finds the variables of a body whose address is taken or that are
// captured by a literal that outlives its statement.
func (f *fx) boxedVars(fr *frame) map[types.Object]bool {
	out := map[types.Object]bool{}
	info := fr.pkg.info
	var rootVar func(e ast.Expr) types.Object
	rootVar = func(e ast.Expr) types.Object {
		switch e := ast.Unparen(e).(type) {
		case *ast.Ident:
			if v, ok := info.ObjectOf(e).(*types.Var); ok && !v.IsField() {
				return v
			}
		case *ast.SelectorExpr:
			if sel := info.Selections[e]; sel != nil && sel.Kind() == types.FieldVal {
				if _, ptr := info.Types[e.X].Type.Underlying().(*types.Pointer); !ptr {
					return rootVar(e.X)
				}
			}
		case *ast.IndexExpr:
			if tv, ok := info.Types[e.X]; ok {
				if _, arr := tv.Type.Underlying().(*types.Array); arr {
					return rootVar(e.X)
				}
			}
		}
		return nil
	}
	inlineOK := map[*ast.FuncLit]bool{}
	ast.Inspect(fr.body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if o := rootVar(n.X); o != nil {
					out[o] = true
				}
			}
		case *ast.SliceExpr:
			if tv, ok := info.Types[n.X]; ok {
				if _, arr := tv.Type.Underlying().(*types.Array); arr {
					if o := rootVar(n.X); o != nil {
						out[o] = true
					}
				}
			}
		case *ast.SelectorExpr:
			if sel := info.Selections[n]; sel != nil && sel.Kind() == types.MethodVal {
				rt := sel.Obj().Type().(*types.Signature).Recv().Type()
				if _, ptr := rt.Underlying().(*types.Pointer); ptr {
					if tv, ok := info.Types[n.X]; ok {
						if _, xp := tv.Type.Underlying().(*types.Pointer); !xp {
							if o := rootVar(n.X); o != nil {
								out[o] = true
							}
						}
					}
				}
			}
		case *ast.CallExpr:
			if l, ok := ast.Unparen(n.Fun).(*ast.FuncLit); ok {
				inlineOK[l] = true
			}
			for _, a := range n.Args {
				if l, ok := ast.Unparen(a).(*ast.FuncLit); ok {
					inlineOK[l] = true
				}
			}
		case *ast.GoStmt:
			if l, ok := ast.Unparen(n.Call.Fun).(*ast.FuncLit); ok {
				inlineOK[l] = false
			}
		case *ast.AssignStmt:
			for _, r := range n.Rhs {
				if l, ok := ast.Unparen(r).(*ast.FuncLit); ok {
					inlineOK[l] = true
				}
			}
		case *ast.FuncLit:
			if !inlineOK[n] {
				ast.Inspect(n.Body, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok {
						if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && v.Pos() < n.Pos() && v.Pos() > fr.body.Pos() {
							out[v] = true
						}
					}
					return true
				})
			}
		}
		return true
	})
	return out
}

func (f *fx) setupRecover(fr *frame) {
	has := false
	for _, s := range fr.body.List {
		d, ok := s.(*ast.DeferStmt)
		if !ok {
			continue
		}
		if lit, ok := ast.Unparen(d.Call.Fun).(*ast.FuncLit); ok {
			ast.Inspect(lit.Body, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "recover" {
						has = true
					}
				}
				return true
			})
		}
	}
	if !has {
		return
	}
	p := f.p
	fr.panicV = p.freshVar("panicking", SInt)
	p.assign(fr.panicV, mkInt(0))
	fr.recov = p.newBlock()
	cur := p.cur
	p.cur = fr.recov
	p.havoc(fr.panicV)
	p.assume(mkNot(mkEq(fr.panicV, mkInt(0))))
	p.goTo(fr.ret)
	p.cur = cur
}

// afterPanic: a panic that was not recovered does not return.
func (f *fx) afterPanic(fr *frame) {
	if fr.recov == nil || f.p.cur == nil {
		return
	}
	t, e := f.p.branch(mkEq(fr.panicV, mkInt(0)))
	f.p.start(e)
	f.oblig("panic", "not recovered", fr.body.Pos(), tFalse)
	f.p.cur = nil
	f.p.start(t)
}

// --- function values ------------------------------------------------------------

func (f *fx) callVal(fv *fnval, args []carg, sig *types.Signature, e *ast.CallExpr) []*Term {
	switch {
	case fv.lit != nil:
		return f.inlineLit(fv, args, e.Pos())
	case fv.fn != nil:
		return f.callFn(fv.fn, fv.recv, fv.recvT, args, sig, e)
	}
	f.hook("before", fv.trace, args)
	out := f.havocResults(sig)
	f.assume["callback "+fv.trace+" does not change state the function relies on and does not panic"] = true
	f.recordFn(fv, args, out, sig)
	f.hook("after", fv.trace, callInfo{args, out, sig})
	return out
}

func (f *fx) traceIf(name string, recv *Term, recvT types.Type, args []carg, out []*Term, sig *types.Signature) {
	for _, t := range f.c.Traces {
		q, as := t, t
		if i := strings.Index(t, " as "); i >= 0 {
			q, as = strings.TrimSpace(t[:i]), strings.TrimSpace(t[i+4:])
		}
		if q == name {
			f.record(as, recv, recvT, args, out, sig)
		}
	}
}

// qualName is Type.Method for a method and pkg.Func for a function.
func qualName(fn *types.Func) string {
	if r := fn.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
		return "interface." + fn.Name()
	}
	if fn.Pkg() == nil {
		return "." + fn.Name()
	}
	return fn.Pkg().Name() + "." + fn.Name()
}

func (f *fx) traceFor(name string) *trace {
	if t, ok := f.traces[name]; ok {
		return t
	}
	t := f.newTrace(name)
	if f.top != nil {
		t.sig = findSigIn(f.w, f.c, f.top.sig, f.top.pkg, f.top.body, name)
	}
	f.traces[name] = t
	return t
}

func (f *fx) newTrace(name string) *trace {
	return &trace{f: f, name: name, n: mkVar("tr$"+name+".n", SInt), args: map[int]*Term{}, at: map[int]types.Type{}, ress: map[int]*Term{}, rt: map[int]types.Type{}, mems: map[int]*Term{}, mt: map[int]types.Type{}}
}

// findSigIn finds the signature of a traced function by name: a parameter of the
// function under contract, or a function called in its package.
func findSigIn(w *world, ct *Contract, fsig *types.Signature, pkg *pkgInfo, body ast.Node, name string) *types.Signature {
	var sig *types.Signature
	qual := ""
	for _, t := range ct.Traces {
		if i := strings.Index(t, " as "); i >= 0 && strings.TrimSpace(t[i+4:]) == name {
			name = strings.TrimSpace(t[:i])
			break
		}
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		qual, name = name, name[i+1:]
	}
	for i := 0; i < fsig.Params().Len(); i++ {
		pv := fsig.Params().At(i)
		if pv.Name() == name && qual == "" {
			if s, ok := pv.Type().Underlying().(*types.Signature); ok {
				return s
			}
		}
	}
	if pkg == nil {
		return nil
	}
	var best *ast.Ident
	inBody := func(id *ast.Ident) bool { return body != nil && id.Pos() >= body.Pos() && id.Pos() < body.End() }
	for id := range pkg.info.Uses {
		if id.Name != name {
			continue
		}
		o := pkg.info.Uses[id]
		if _, ok := o.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		if fn, ok := o.(*types.Func); qual != "" && (!ok || qualName(fn) != qual) {
			continue
		}
		if best == nil || inBody(id) && !inBody(best) || inBody(id) == inBody(best) && id.Pos() < best.Pos() {
			best = id
		}
	}
	if best != nil {
		sig = pkg.info.Uses[best].Type().Underlying().(*types.Signature)
	}
	if sig == nil && qual != "" {
		// a function of another package of the repository
		for _, k := range sortedKeys(w.pkgs) {
			for _, d := range w.pkgs[k].decls {
				fn, ok := w.pkgs[k].info.Defs[d.Name].(*types.Func)
				if ok && d.Name.Name == name && qualName(fn) == qual {
					return fn.Type().(*types.Signature)
				}
			}
		}
	}
	return sig
}

func (f *fx) record(name string, recv *Term, recvT types.Type, args []carg, out []*Term, sig *types.Signature) {
	if f.p.cur == nil {
		return
	}
	t := f.traceFor(name)
	t.sig = sig
	p := f.p
	if recv != nil && recvT != nil && t.sig.Recv() != nil {
		rt := t.sig.Recv().Type()
		if isIface(rt) == isIface(recvT) && f.w.sortOf(rt) == recv.Sort {
			t.recT = rt
			v := t.arg(-1)
			p.assign(v, mkSto(v, t.n, recv))
		}
	}
	for k, a := range args {
		if _, ok := f.w.sortOf(a.ty), true; ok && a.fv == nil {
			v := t.arg(k)
			if v.Sort == arrSort(SInt, a.t.Sort) {
				p.assign(v, mkSto(v, t.n, a.t))
			}
			if s, ok := a.ty.Underlying().(*types.Slice); ok {
				m, _ := t.mem(k, "")
				p.assign(m, mkSto(m, t.n, mkSel(f.w.elemHeap(s.Elem()), sArr(a.t))))
			}
		}
	}
	for k, r := range out {
		v := t.res(k)
		p.assign(v, mkSto(v, t.n, r))
	}
	p.assign(t.n, mkAdd(t.n, mkInt(1)))
}

func (f *fx) recordFn(fv *fnval, args []carg, out []*Term, sig *types.Signature) {
	if f.p.cur == nil {
		return
	}
	if fv.val != nil && fv.val.Sort == f.w.sortOf(sig) {
		t := f.traceFor(fv.trace)
		if t.sig == nil || t.sig.Recv() == nil {
			t.sig = sig
			v := t.arg(-1)
			f.p.assign(v, mkSto(v, t.n, fv.val))
		}
	}
	f.record(fv.trace, nil, nil, args, out, sig)
}

// --- hooks, monitors --------------------------------------------------------------

func (f *fx) hook(kind, name string, what interface{}) {
	if f.p.cur == nil || len(f.c.At) == 0 {
		return
	}
	f.calls[kind+" "+name]++
	n := f.calls[kind+" "+name]
	for _, a := range f.c.At {
		w := kind + " " + name
		if kind == "at" {
			w = name
		}
		if a.Where != w && a.Where != fmt.Sprintf("%s#%d", w, n) {
			continue
		}
		f.runAt(a, what)
	}
}

type callInfo struct {
	args []carg
	out  []*Term
	sig  *types.Signature
}

func (f *fx) runAt(a AtClause, what interface{}) {
	pos := f.cur.body.Pos()
	bodyPos := token.NoPos
	if s, ok := what.(ast.Stmt); ok {
		pos = s.Pos()
		switch s := s.(type) {
		case *ast.ForStmt:
			bodyPos = s.Body.Lbrace + 1
		case *ast.RangeStmt:
			bodyPos = s.Body.Lbrace + 1
		}
	}
	ctx := f.ctxAt(f.cur, bodyPos, nil)
	if f.hookAt != nil {
		ctx.bind["$at"] = SVal{t: f.hookAt, ty: tyInt}
	}
	args, ok := what.([]carg)
	if ci, isCall := what.(callInfo); isCall {
		args, ok = ci.args, true
		for i, x := range ci.out {
			ctx.bind[fmt.Sprintf("$r%d", i)] = SVal{t: x, ty: ci.sig.Results().At(i).Type()}
		}
	}
	if ok {
		for i, x := range args {
			ctx.bind[fmt.Sprintf("$%d", i)] = SVal{t: x.t, ty: x.ty}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				f.notes = append(f.notes, fmt.Sprintf("at %s: %q not applicable: %s", a.Where, a.C.Src, string(se)))
				if a.Kind == "assert" {
					f.oblig("assertion", a.Where+" "+a.C.Label, pos, tFalse)
				}
				return
			}
			panic(r)
		}
	}()
	switch a.Kind {
	case "assert":
		f.oblig("assertion", a.Where+" "+a.C.Label, pos, ctx.boolE(a.C.E))
	case "assume": // reported with the evidence
		f.assume["in "+f.c.Key+": "+strings.TrimSpace(a.C.Src)] = true
		f.p.assume(ctx.boolE(a.C.E))
	case "hint":
		id := "hint " + a.Where + ": " + a.C.Src
		if !f.off[id] {
			f.cands[id] = true
			t := ctx.boolE(a.C.E)
			f.oblig("candidate", id, pos, t)
			f.p.assume(t)
		}
	case "set":
		x := ctx.eval(a.C.E)
		v, ty, val := f.ghostTarget(ctx, a.LHS, func(ty types.Type) *Term { return ctx.adapt(x, ty) })
		_ = ty
		f.p.assign(v, val)
	case "use":
		f.p.assume(f.useLemma(ctx, a.C.E))
	}
}

// ghostTarget resolves g, g[i], g[i][j]... to the ghost variable and its new value.
func (f *fx) ghostTarget(ctx *sctx, e *sx, mk func(types.Type) *Term) (*Term, types.Type, *Term) {
	if e.op == "ident" {
		if g, ok := f.ghosts[e.name]; ok {
			return g.v, g.ty, mk(g.ty)
		}
		l := f.v.modLocs(ctx, e)
		ty := f.w.heapElem[l[0].heap]
		return l[0].heap, ty, mk(ty)
	}
	if e.op == "index" {
		i := ctx.eval(e.args[1])
		base := ctx.eval(e.args[0])
		var et types.Type
		var k *Term
		switch t := base.ty.(type) {
		case *kmapType:
			et, k = t.elem, ctx.adapt(i, t.key)
		case *arrType:
			et, k = t.elem, ctx.value(i)
		default:
			panic(specErr("at set: bad target"))
		}
		return f.ghostTarget(ctx, e.args[0], func(types.Type) *Term {
			return mkSto(ctx.value(base), k, mk(et))
		})
	}
	panic(specErr("at set: only ghost variables can be assigned"))
}

func (f *fx) useLemma(ctx *sctx, e *sx) *Term {
	if e.op != "call" {
		panic(specErr("use: lemma(args)"))
	}
	name := sxString(e.args[0])
	lm := f.v.findLemma(ctx.pkg, name)
	if lm == nil {
		panic(specErr("unknown lemma " + name))
	}
	f.used["lemma "+lm.PkgPath+"."+lm.Name] = true
	n := &sctx{v: f.v, pkg: f.w.pkgs[lm.PkgPath], hp: ctx.hp, bind: map[string]SVal{}}
	var req, ens []*Term
	for i, p := range lm.Params {
		ty := f.v.resolveType(n.pkg, p.typ)
		x := ctx.eval(e.args[i+1])
		n.bind[p.name] = SVal{t: ctx.adapt(x, ty), ty: ty}
		req = append(req, f.v.lemmaInv(n.bind[p.name].t, ty))
	}
	for _, r := range lm.Requires {
		req = append(req, n.boolE(r.E))
	}
	for _, r := range lm.Ensures {
		ens = append(ens, n.boolE(r.E))
	}
	return mkImp(mkAnd(req...), mkAnd(ens...))
}

func (v *verifier) findLemma(pkg *pkgInfo, name string) *Lemma {
	if pkg != nil {
		if m, ok := v.sp.lemmas[pkg.path+"."+name]; ok {
			return m
		}
	}
	for _, k := range sortedKeys(v.sp.lemmas) {
		if strings.HasSuffix(k, "."+name) || strings.HasSuffix(k, "/"+name) {
			return v.sp.lemmas[k]
		}
	}
	return nil
}

// ctxAt is the specification context at a program point.
func (f *fx) ctxAt(fr *frame, pos token.Pos, pre *snap) *sctx {
	vars := func(hp func(*Term) *Term) func(string) (SVal, bool) {
		return func(name string) (SVal, bool) { return f.lookupName(fr, pos, name, hp) }
	}
	c := &sctx{v: f.v, pkg: fr.pkg, hp: ident, vars: vars(ident), bind: map[string]SVal{}, fnName: f.c.Key, tr: f.traceFor}
	if f.old != nil {
		c.old = f.oldCtx()
	}
	if pre != nil {
		c.pre = &sctx{v: f.v, pkg: fr.pkg, hp: pre.at, vars: vars(pre.at), bind: map[string]SVal{}, tr: f.traceFor}
		c.pre.old = c.old
	}
	if f.lock != nil {
		lk := f.lock
		c.locked = &sctx{v: f.v, pkg: fr.pkg, hp: lk.at, vars: vars(lk.at), bind: map[string]SVal{}, tr: f.traceFor}
	}
	return c
}

func (f *fx) oldCtx() *sctx {
	return &sctx{v: f.v, pkg: f.top.pkg, hp: f.old.at, bind: map[string]SVal{}, tr: f.traceFor,
		vars: func(n string) (SVal, bool) { v, ok := f.inVals[n]; return v, ok }}
}

func (f *fx) lookupName(fr *frame, pos token.Pos, name string, hp func(*Term) *Term) (SVal, bool) {
	for i := len(f.specEnv) - 1; i >= 0; i-- {
		if v, ok := f.specEnv[i][name]; ok {
			return SVal{t: substHp(v.t, hp), ty: v.ty}, true
		}
		if (name == "$i" || name == "$x") && len(f.specEnv[i]) > 0 {
			break
		}
	}
	if g, ok := f.ghosts[name]; ok {
		return SVal{t: hp(g.v), ty: g.ty}, true
	}
	get := func(lv *lvar) (SVal, bool) {
		if lv.boxed {
			if isAgg(lv.ty) {
				return SVal{ref: hp(lv.v), ty: lv.ty}, true
			}
			return SVal{t: mkSel(hp(f.w.boxHeap(lv.ty)), hp(lv.v)), ty: lv.ty}, true
		}
		return SVal{t: hp(lv.v), ty: lv.ty}, true
	}
	if strings.HasPrefix(name, "$out") && f.top != nil {
		for i, r := range f.top.results {
			if name == fmt.Sprintf("$out%d", i) {
				return get(r)
			}
		}
	}
	first := true
	for x := fr; x != nil; {
		if first && pos.IsValid() {
			if sc := x.pkg.pkg.Scope().Innermost(pos); sc != nil {
				if _, o := sc.LookupParent(name, pos); o != nil {
					for y := x; y != nil; y = y.lex {
						if lv, ok := y.vars[o]; ok {
							return get(lv)
						}
					}
				}
			}
		}
		first = false
		// by name, the latest declaration
		var best types.Object
		for o := range x.vars {
			if o.Name() == name && (best == nil || o.Pos() > best.Pos()) {
				best = o
			}
		}
		if best != nil {
			return get(x.vars[best])
		}
		for i, r := range x.results {
			if r.name == name || (name == "result" && len(x.results) == 1) || name == fmt.Sprintf("r%d", i) {
				return get(r)
			}
		}
		if x.lex != nil {
			x = x.lex
		} else {
			x = x.caller
		}
	}
	if v, ok := f.resVals[name]; ok {
		return v, true
	}
	if v, ok := f.inVals[name]; ok {
		return v, true
	}
	return SVal{}, false
}

func substHp(t *Term, hp func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	return subst(t, hp, map[*Term]*Term{})
}

// mutexCall recognises Lock and Unlock of monitored mutexes.
func (f *fx) mutexCall(fn *types.Func, x *ast.SelectorExpr) func() []*Term {
	if pkgPath(fn) != "sync" {
		return nil
	}
	n := fn.Name()
	if n != "Lock" && n != "Unlock" && n != "RLock" && n != "RUnlock" {
		return nil
	}
	sel := f.info().Selections[x]
	path := sel.Index()[:len(sel.Index())-1]
	var l *lval
	if ix, ok := ast.Unparen(x.X).(*ast.IndexExpr); ok && len(path) == 0 {
		if g := f.elemMutex(ix); g != nil {
			return f.mutexOp(n, g.ref, g.mon, g.owner, g.oref, x)
		}
	}
	if len(path) > 0 {
		l = f.selPath(x.X, path, x.Pos())
	} else if _, ok := f.typ(x.X).Underlying().(*types.Pointer); ok {
		r := f.expr(x.X)
		f.nonNil(r, x.Pos())
		l = f.refLval(f.typ(x.X).Underlying().(*types.Pointer).Elem(), r, x.Pos())
	} else {
		l = f.lvalueOrTemp(x.X)
	}
	if l.ref == nil {
		f.fail(x, "mutex without an address")
	}
	ref := l.ref
	// the object the mutex belongs to
	var owner types.Type
	var oref *Term
	var mon *Monitor
	if strings.HasPrefix(ref.Op, "sub_") {
		oref = ref.Args[0]
		for _, m := range f.v.sp.monitors {
			if pk := f.w.pkgs[m.PkgPath]; pk != nil {
				if o := pk.pkg.Scope().Lookup(m.Type); o != nil && ref.Op == "sub_"+f.w.typeName(o.Type())+"."+m.Field {
					mon, owner = m, o.Type()
				}
			}
		}
	}
	return f.mutexOp(n, ref, mon, owner, oref, x)
}

// one mutex of a slice of mutexes
type elemMu struct {
	ref   *Term
	mon   *Monitor
	owner types.Type
	oref  *Term
}

func (f *fx) elemMutex(ix *ast.IndexExpr) *elemMu {
	st, ok := f.typ(ix.X).Underlying().(*types.Slice)
	if !ok || !isMutex(st.Elem()) {
		return nil
	}
	s := f.tmp(f.typ(ix.X), f.expr(ix.X))
	i := f.intExpr(ix.Index)
	f.check("index out of range", ix.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, sLen(s))))
	g := &elemMu{ref: f.w.eltRef(s, i)}
	sx, ok := ast.Unparen(ix.X).(*ast.SelectorExpr)
	if !ok {
		return g
	}
	if m, owner, oref := f.fieldMonitor(sx, func(m *Monitor) bool { return m.Field == sx.Sel.Name+"[]" }); m != nil {
		g.mon, g.owner, g.oref = m, owner, oref
		mm := *m
		mm.At = i
		g.mon = &mm
	}
	return g
}

func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// fieldMonitor finds the monitor about a field selected from an object.
func (f *fx) fieldMonitor(sx *ast.SelectorExpr, want func(*Monitor) bool) (*Monitor, types.Type, *Term) {
	sel := f.info().Selections[sx]
	if sel == nil || sel.Kind() != types.FieldVal {
		return nil, nil, nil
	}
	pt, ok := f.typ(sx.X).Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, nil, nil
	}
	for _, m := range f.v.sp.monitors {
		if m.PkgPath == n.Obj().Pkg().Path() && m.Type == n.Obj().Name() && want(m) {
			return m, pt.Elem(), f.expr(sx.X)
		}
	}
	return nil, nil, nil
}

// elemGuard: an element of a slice guarded by a slice of mutexes may be touched
// only with its own mutex held.
func (f *fx) elemGuard(e *ast.IndexExpr, i *Term) {
	sx, ok := ast.Unparen(e.X).(*ast.SelectorExpr)
	if !ok || f.p.cur == nil || f.c.Opts["nolocks"] != "" {
		return
	}
	m, owner, oref := f.fieldMonitor(sx, func(m *Monitor) bool {
		if !strings.HasSuffix(m.Field, "[]") {
			return false
		}
		for _, g := range m.Guards {
			if g == sx.Sel.Name+"[at]" {
				return true
			}
		}
		return false
	})
	if m == nil {
		return
	}
	c := f.monCtx(m, owner, oref)
	me, err := parseMod("this." + strings.TrimSuffix(m.Field, "[]"))
	if err != nil {
		panic(specErr(err.Error()))
	}
	mus := c.value(c.eval(me))
	f.oblig("lock held", m.Type+"."+sx.Sel.Name+"[i]", e.Pos(), mkOr(mkSel(heldVar, f.w.eltRef(mus, i)), mkLt(f.alloc0, app("root", SInt, oref))))
}

func (f *fx) mutexOp(n string, ref *Term, mon *Monitor, owner types.Type, oref *Term, x *ast.SelectorExpr) func() []*Term {
	return func() []*Term {
		p := f.p
		switch n {
		case "Lock", "RLock":
			f.oblig("lock", "not already held", x.Pos(), mkNot(mkSel(heldVar, ref)))
			p.assign(heldVar, mkSto(heldVar, ref, tTrue))
			if mon != nil {
				f.enterMonitor(mon, owner, oref, x.Pos())
			}
		default:
			f.oblig("unlock", "held", x.Pos(), mkSel(heldVar, ref))
			if mon != nil {
				f.hookAt = mon.At
				f.hook("before", "unlock", nil)
				f.hook("before", "unlock:"+mon.Field, nil)
				f.hookAt = nil
				c := f.monCtx(mon, owner, oref)
				for i, inv := range mon.Inv {
					lb := inv.Label
					if lb == "" {
						lb = itoa(i + 1)
					}
					f.oblig("monitor invariant", mon.Type+"."+mon.Field+" "+lb, x.Pos(), c.boolE(inv.E))
				}
			}
			p.assign(heldVar, mkSto(heldVar, ref, tFalse))
		}
		return nil
	}
}

func (f *fx) monCtx(m *Monitor, owner types.Type, oref *Term) *sctx {
	c := &sctx{v: f.v, pkg: f.w.pkgs[m.PkgPath], hp: ident, bind: map[string]SVal{}}
	c.bind["this"] = SVal{t: oref, ty: types.NewPointer(owner)}
	if m.At != nil {
		c.bind["at"] = SVal{t: m.At, ty: tyInt}
	}
	return c
}

func (f *fx) enterMonitor(m *Monitor, owner types.Type, oref *Term, pos token.Pos) {
	p := f.p
	c := f.monCtx(m, owner, oref)
	f.bumpAlloc()
	for _, g := range m.Guards {
		if strings.HasSuffix(g, "[at]") {
			g = "elems(this." + strings.TrimSuffix(g, "[at]") + ")"
		}
		e, err := parseMod("this." + g)
		if _, gh := f.v.sp.ghosts[m.PkgPath+"."+g]; gh || strings.Contains(g, "(") {
			e, err = parseMod(g)
		}
		if err != nil {
			panic(specErr(err.Error()))
		}
		f.ncall++
		for _, ml := range f.v.modLocs(c, e) {
			if ml.ref == nil {
				p.havoc(ml.heap)
				if f.isHeapArr(ml.heap) {
					p.assume(f.heapInv(ml.heap))
				}
				continue
			}
			_, vs := arrParts(ml.heap.Sort)
			f.ntmp++
			v := mkVar("hv"+itoa(f.ntmp), vs)
			p.havoc(v)
			p.assume(f.heapValInv(ml.heap, v))
			p.assign(ml.heap, mkSto(ml.heap, ml.ref, v))
		}
	}
	for _, inv := range m.Inv {
		p.assume(c.boolE(inv.E))
	}
	f.ncall++
	f.lock = p.takeSnap(fmt.Sprintf("lock%d", f.ncall))
	f.hookAt = m.At
	f.hook("after", "lock", nil)
	f.hook("after", "lock:"+m.Field, nil)
	f.hookAt = nil
}

func parseMod(src string) (e *sx, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &sparser{t: ts, src: src}
	return p.modItem(), nil
}

// guardCheck: a guarded field may be touched only with its lock held.
func (f *fx) guardCheck(ty types.Type, field string, ref *Term, pos token.Pos) {
	if f.p.cur == nil {
		return
	}
	n, ok := types.Unalias(ty).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	for _, m := range f.v.sp.monitors {
		if m.PkgPath != n.Obj().Pkg().Path() || m.Type != n.Obj().Name() {
			continue
		}
		for _, g := range m.Guards {
			if g == field {
				si := f.w.structInfo(ty)
				i := si.index(m.Field)
				mref := f.w.subRef(ty, i, ref)
				if f.c.Opts["nolocks"] != "" {
					continue
				}
				f.oblig("lock held", m.Type+"."+field, pos, mkOr(mkSel(heldVar, mref), mkLt(f.alloc0, app("root", SInt, ref))))
			}
		}
	}
}
