package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (f *fx) stmts(ss []ast.Stmt) {
	for _, s := range ss {
		if f.p.cur == nil {
			// dead code; labels are not supported, so nothing can jump here
			return
		}
		f.stmt(s, "")
	}
}

func (f *fx) newVar(name string, ty types.Type) *Term {
	v := f.p.freshVar(name, f.w.sortOf(ty))
	f.regVar(v, ty)
	return v
}

func (f *fx) declare(o types.Object, val *Term) *lvar {
	ty := o.Type()
	if f.cur.boxed[o] {
		r := f.alloc(ty, f.tmp(ty, val))
		v := f.p.freshVar("&"+o.Name(), SInt)
		f.p.assign(v, r)
		l := &lvar{v: v, boxed: true, ty: ty, name: o.Name()}
		f.cur.vars[o] = l
		return l
	}
	v := f.newVar(o.Name(), ty)
	f.p.assign(v, val)
	l := &lvar{v: v, ty: ty, name: o.Name()}
	f.cur.vars[o] = l
	return l
}

func (f *fx) bindLit(lhs *ast.Ident, rhs ast.Expr, define bool) bool {
	o := f.info().ObjectOf(lhs)
	if o == nil {
		return false
	}
	fv := f.fnValue(rhs)
	if fv == nil || !define {
		return false
	}
	if f.reassigned(o) {
		return false
	}
	f.cur.fnb[o] = fv
	f.declare(o, f.havocFunc())
	return true
}

// reassigned reports whether a variable is assigned after its definition.
func (f *fx) reassigned(o types.Object) bool {
	n := 0
	ast.Inspect(f.cur.body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && f.info().Uses[id] == o {
					n++
				}
			}
		case *ast.UnaryExpr:
			if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND && f.info().Uses[id] == o {
				n++
			}
		}
		return true
	})
	return n > 0
}

// fnValue recognises expressions whose function is known.
func (f *fx) fnValue(e ast.Expr) *fnval {
	switch e := ast.Unparen(e).(type) {
	case *ast.FuncLit:
		return &fnval{lit: e, fr: f.cur}
	case *ast.Ident:
		o := f.info().ObjectOf(e)
		for fr := f.cur; fr != nil; fr = fr.lex {
			if v, ok := fr.fnb[o]; ok {
				return v
			}
		}
		if fn, ok := o.(*types.Func); ok {
			return &fnval{fn: fn}
		}
	case *ast.SelectorExpr:
		if sel := f.info().Selections[e]; sel != nil && sel.Kind() == types.MethodVal && !isIface(sel.Recv()) {
			fn := sel.Obj().(*types.Func)
			return &fnval{fn: fn, recv: f.recvFor(e, fn), recvT: fn.Type().(*types.Signature).Recv().Type()}
		} else if sel == nil {
			if fn, ok := f.info().Uses[e.Sel].(*types.Func); ok {
				return &fnval{fn: fn}
			}
		}
	case *ast.CallExpr:
		if tv := f.info().Types[e.Fun]; tv.IsType() && len(e.Args) == 1 {
			return f.fnValue(e.Args[0]) // conversion to a named function type
		}
	}
	return nil
}

func (f *fx) assignTo(l *lval, val *Term, from types.Type, pos token.Pos) {
	if l.ty == nil {
		return
	}
	l.set(f.convTo(val, from, l.ty, pos))
}

func (f *fx) assignStmt(s *ast.AssignStmt) {
	define := s.Tok == token.DEFINE
	isNew := func(e ast.Expr) types.Object {
		if id, ok := e.(*ast.Ident); ok && define {
			if o := f.info().Defs[id]; o != nil {
				return o
			}
		}
		return nil
	}
	put := func(e ast.Expr, l *lval, val *Term, from types.Type) {
		if o := isNew(e); o != nil {
			f.declare(o, f.convTo(val, from, o.Type(), e.Pos()))
			return
		}
		f.assignTo(l, val, from, e.Pos())
	}
	lv := func(e ast.Expr) *lval {
		if isNew(e) != nil {
			return nil
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return &lval{set: func(*Term) {}}
		}
		return f.lvalue(e)
	}
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		// op=
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		op := ops[s.Tok]
		l := f.lvalue(s.Lhs[0])
		ty := l.ty
		var r *Term
		if op == token.SHL || op == token.SHR {
			n := f.expr(s.Rhs[0])
			k, _ := intKind(ty)
			nm := "shl"
			if op == token.SHR {
				nm = "shr"
			}
			r = mopTerm(nm, k, l.get(), n)
		} else {
			b := f.exprAs(s.Rhs[0], ty)
			r = f.arith(op, l.get(), b, ty, s.Pos())
		}
		l.set(r)
		return
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		switch r := ast.Unparen(s.Rhs[0]).(type) {
		case *ast.IndexExpr:
			if u, ok := f.typ(r.X).Underlying().(*types.Map); ok {
				l0, l1 := lv(s.Lhs[0]), lv(s.Lhs[1])
				m := f.tmp(f.typ(r.X), f.expr(r.X))
				k := f.tmp(u.Key(), f.exprAs(r.Index, u.Key()))
				v, okT := f.mapGet(u, m, k)
				put(s.Lhs[0], l0, v, u.Elem())
				put(s.Lhs[1], l1, okT, tyBool)
				return
			}
		case *ast.TypeAssertExpr:
			l0, l1 := lv(s.Lhs[0]), lv(s.Lhs[1])
			v, okT := f.typeAssert(r)
			ty := f.typ(r.Type)
			okV := f.tmp(tyBool, okT)
			put(s.Lhs[0], l0, f.tmp(ty, mkIte(okV, v, f.w.zero(ty))), ty)
			put(s.Lhs[1], l1, okV, tyBool)
			return
		case *ast.UnaryExpr:
			if r.Op == token.ARROW {
				l0, l1 := lv(s.Lhs[0]), lv(s.Lhs[1])
				v, okT := f.recv(r)
				put(s.Lhs[0], l0, v, f.typ(r.X).Underlying().(*types.Chan).Elem())
				put(s.Lhs[1], l1, okT, tyBool)
				return
			}
		}
	}
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		call := ast.Unparen(s.Rhs[0]).(*ast.CallExpr)
		var ls []*lval
		for _, e := range s.Lhs {
			ls = append(ls, lv(e))
		}
		rs := f.call(call)
		tup := f.typ(call).(*types.Tuple)
		for i, e := range s.Lhs {
			if f.p.cur == nil {
				break
			}
			put(e, ls[i], rs[i], tup.At(i).Type())
		}
		return
	}
	if len(s.Lhs) == 1 {
		if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name != "_" {
			if f.bindLit(id, s.Rhs[0], define) {
				return
			}
		}
		l := lv(s.Lhs[0])
		if l != nil && l.ty != nil {
			v := f.exprAs(s.Rhs[0], l.ty)
			if f.p.cur != nil {
				l.set(v)
			}
			return
		}
		from := f.typ(s.Rhs[0])
		if l != nil { // blank
			f.expr(s.Rhs[0])
			return
		}
		o := isNew(s.Lhs[0])
		v := f.exprAs(s.Rhs[0], o.Type())
		_ = from
		if f.p.cur != nil {
			f.declare(o, v)
		}
		return
	}
	// parallel assignment
	var ls []*lval
	for _, e := range s.Lhs {
		ls = append(ls, lv(e))
	}
	var vs []*Term
	for i, e := range s.Rhs {
		var ty types.Type
		if ls[i] != nil {
			ty = ls[i].ty
		} else {
			ty = isNew(s.Lhs[i]).Type()
		}
		if ty == nil {
			ty = types.Default(f.typ(e))
		}
		x := f.exprAs(e, ty)
		// a copy: the source may be overwritten by this statement
		f.ntmp++
		v := mkVar(fmt.Sprintf("t%d", f.ntmp), x.Sort)
		f.regVar(v, ty)
		f.p.assign(v, x)
		vs = append(vs, v)
	}
	for i, e := range s.Lhs {
		if o := isNew(e); o != nil {
			f.declare(o, vs[i])
		} else {
			ls[i].set(vs[i])
		}
	}
}

func (f *fx) stmt(s ast.Stmt, label string) {
	p := f.p
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		f.stmts(s.List)
	case *ast.ExprStmt:
		switch x := ast.Unparen(s.X).(type) {
		case *ast.CallExpr:
			f.call(x)
		default:
			f.expr(s.X)
		}
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					o := f.info().Defs[id]
					f.declare(o, f.w.zero(o.Type()))
				}
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				for i, id := range vs.Names {
					if id.Name == "_" {
						f.expr(vs.Values[i])
						continue
					}
					if f.bindLit(id, vs.Values[i], true) {
						continue
					}
					o := f.info().Defs[id]
					v := f.exprAs(vs.Values[i], o.Type())
					f.declare(o, v)
				}
				continue
			}
			rs := f.call(ast.Unparen(vs.Values[0]).(*ast.CallExpr))
			tup := f.typ(vs.Values[0]).(*types.Tuple)
			for i, id := range vs.Names {
				if id.Name == "_" {
					continue
				}
				o := f.info().Defs[id]
				f.declare(o, f.convTo(rs[i], tup.At(i).Type(), o.Type(), id.Pos()))
			}
		}
	case *ast.AssignStmt:
		f.assignStmt(s)
	case *ast.IncDecStmt:
		l := f.lvalue(s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		one := mkInt(1)
		if isFloat(l.ty) {
			one = f.w.floatConst(ratOf(1))
		}
		l.set(f.arith(op, l.get(), one, l.ty, s.Pos()))
	case *ast.LabeledStmt:
		f.stmt(s.Stmt, s.Label.Name)
	case *ast.IfStmt:
		if s.Init != nil {
			f.stmt(s.Init, "")
			if p.cur == nil {
				return
			}
		}
		t, e := f.cond(s.Cond)
		join := p.newBlock()
		p.start(t)
		f.stmts(s.Body.List)
		p.goTo(join)
		p.start(e)
		if s.Else != nil && p.cur != nil {
			f.stmt(s.Else, "")
		}
		p.goTo(join)
		p.start(join)
	case *ast.ReturnStmt:
		f.returnStmt(s)
	case *ast.BranchStmt:
		f.branchStmt(s)
	case *ast.ForStmt:
		f.forStmt(s, label)
	case *ast.RangeStmt:
		f.rangeStmt(s, label)
	case *ast.SwitchStmt:
		f.switchStmt(s, label)
	case *ast.TypeSwitchStmt:
		f.typeSwitch(s, label)
	case *ast.SelectStmt:
		f.selectStmt(s, label)
	case *ast.DeferStmt:
		f.deferStmt(s)
	case *ast.GoStmt:
		f.goStmt(s)
	case *ast.SendStmt:
		f.expr(s.Chan)
		et := f.typ(s.Chan).Underlying().(*types.Chan).Elem()
		x := f.exprAs(s.Value, et)
		f.sendPanic()
		f.hook("before", "send", []carg{{t: x, ty: et}})
		if n, ok := et.(*types.Named); ok {
			f.hook("before", "send:"+n.Obj().Name(), []carg{{t: x, ty: et}})
		}
	default:
		f.fail(s, "unsupported statement %T", s)
	}
}

// sendPanic: a send on a closed channel panics; that matters where the panic
// is recovered.
func (f *fx) sendPanic() {
	if rf := f.recoverFrame(); rf != nil {
		f.ntmp++
		c := mkVar("closed"+itoa(f.ntmp), SBool)
		f.p.havoc(c)
		bad, ok := f.p.branch(c)
		f.p.start(bad)
		f.p.goTo(rf.recov)
		f.p.start(ok)
	}
}

func (f *fx) returnStmt(s *ast.ReturnStmt) {
	fr := f.cur
	if len(s.Results) > 0 {
		var vs []*Term
		if len(s.Results) == 1 && len(fr.results) > 1 {
			call := ast.Unparen(s.Results[0]).(*ast.CallExpr)
			rs := f.call(call)
			tup := f.typ(call).(*types.Tuple)
			if f.p.cur == nil {
				return
			}
			for i, r := range rs {
				vs = append(vs, f.convTo(r, tup.At(i).Type(), fr.results[i].ty, s.Pos()))
			}
		} else {
			for i, e := range s.Results {
				if i < len(fr.results) {
					x := f.exprAs(e, fr.results[i].ty)
					if f.p.cur == nil {
						return
					}
					if len(s.Results) > 1 {
						f.ntmp++
						v := mkVar(fmt.Sprintf("t%d", f.ntmp), x.Sort)
						f.regVar(v, fr.results[i].ty)
						f.p.assign(v, x)
						x = v
					}
					vs = append(vs, x)
				}
			}
		}
		for i, v := range vs {
			f.varLval(fr.results[i], s.Pos()).set(v)
		}
	}
	f.p.goTo(fr.ret)
}

func (f *fx) branchStmt(s *ast.BranchStmt) {
	ls := f.cur.loops
	for i := len(ls) - 1; i >= 0; i-- {
		l := ls[i]
		if s.Label != nil && l.label != s.Label.Name {
			continue
		}
		switch s.Tok {
		case token.BREAK:
			if l.num > 0 {
				f.hook("break", itoa(l.num-1), s)
			}
			f.p.goTo(l.brk)
			return
		case token.CONTINUE:
			if !l.isLoop {
				continue
			}
			f.p.goTo(l.cont)
			return
		}
	}
	f.fail(s, "unsupported branch statement %s", s.Tok)
}

func (f *fx) switchStmt(s *ast.SwitchStmt, label string) {
	p := f.p
	if s.Init != nil {
		f.stmt(s.Init, "")
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tagT = f.typ(s.Tag)
		tag = f.tmp(tagT, f.expr(s.Tag))
	}
	if p.cur == nil {
		return
	}
	end := p.newBlock()
	var clauses []*ast.CaseClause
	for _, c := range s.Body.List {
		clauses = append(clauses, c.(*ast.CaseClause))
	}
	bodies := make([]*block, len(clauses))
	for i := range bodies {
		bodies[i] = p.newBlock()
	}
	def := -1
	for i, c := range clauses {
		if c.List == nil {
			def = i
			continue
		}
		for _, e := range c.List {
			if p.cur == nil {
				break
			}
			if tag == nil {
				t, fl := f.cond(e)
				p.start(t)
				p.goTo(bodies[i])
				p.start(fl)
				continue
			}
			var cnd *Term
			if f.isNil(e) {
				cnd = mkEq(tag, mkInt(0))
			} else {
				cnd = f.eq(tagT, tag, f.exprAs(e, tagT))
			}
			t, fl := p.branch(cnd)
			p.start(t)
			p.goTo(bodies[i])
			p.start(fl)
		}
	}
	if def >= 0 {
		p.goTo(bodies[def])
	} else {
		p.goTo(end)
	}
	f.cur.loops = append(f.cur.loops, &loopCtx{label: label, brk: end})
	for i, c := range clauses {
		p.start(bodies[i])
		body := c.Body
		ft := false
		if n := len(body); n > 0 {
			if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				body, ft = body[:n-1], true
			}
		}
		f.stmts(body)
		if ft {
			p.goTo(bodies[i+1])
		} else {
			p.goTo(end)
		}
	}
	f.cur.loops = f.cur.loops[:len(f.cur.loops)-1]
	p.start(end)
}

func (f *fx) typeSwitch(s *ast.TypeSwitchStmt, label string) {
	p := f.p
	if s.Init != nil {
		f.stmt(s.Init, "")
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	xt := f.typ(x)
	v := f.tmp(xt, f.expr(x))
	end := p.newBlock()
	f.cur.loops = append(f.cur.loops, &loopCtx{label: label, brk: end})
	var def *ast.CaseClause
	run := func(c *ast.CaseClause, val *Term) {
		if o := f.info().Implicits[c]; o != nil {
			f.declare(o, val)
		}
		f.stmts(c.Body)
		p.goTo(end)
	}
	for _, c0 := range s.Body.List {
		c := c0.(*ast.CaseClause)
		if c.List == nil {
			def = c
			continue
		}
		if len(c.List) == 1 {
			var cnd, val *Term
			if f.isNil(c.List[0]) {
				cnd, val = mkEq(v, mkInt(0)), v
			} else {
				val, cnd = f.assertTo(v, f.typ(c.List[0]))
			}
			t, fl := p.branch(cnd)
			p.start(t)
			run(c, val)
			p.start(fl)
			continue
		}
		body := p.newBlock()
		for _, e := range c.List {
			var cnd *Term
			if f.isNil(e) {
				cnd = mkEq(v, mkInt(0))
			} else {
				_, cnd = f.assertTo(v, f.typ(e))
			}
			t, fl := p.branch(cnd)
			p.start(t)
			p.goTo(body)
			p.start(fl)
		}
		rest := p.cur
		p.start(body)
		run(c, v)
		p.cur = rest
	}
	if def != nil {
		run(def, v)
	} else {
		p.goTo(end)
	}
	f.cur.loops = f.cur.loops[:len(f.cur.loops)-1]
	p.start(end)
}

func (f *fx) selectStmt(s *ast.SelectStmt, label string) {
	p := f.p
	end := p.newBlock()
	f.cur.loops = append(f.cur.loops, &loopCtx{label: label, brk: end})
	for i, c0 := range s.Body.List {
		c := c0.(*ast.CommClause)
		if p.cur == nil {
			break
		}
		var rest *block
		if i < len(s.Body.List)-1 {
			f.ntmp++
			ch := mkVar("sel"+itoa(f.ntmp), SBool)
			p.havoc(ch)
			a, b := p.branch(ch)
			rest = b
			p.start(a)
		}
		if c.Comm != nil {
			f.stmt(c.Comm, "")
		}
		f.stmts(c.Body)
		p.goTo(end)
		if rest != nil {
			p.start(rest)
		}
	}
	f.cur.loops = f.cur.loops[:len(f.cur.loops)-1]
	p.start(end)
}

func (f *fx) deferStmt(s *ast.DeferStmt) {
	fr := f.cur
	for _, l := range fr.loops {
		if l.isLoop {
			f.fail(s, "defer inside a loop")
		}
	}
	site := &deferSite{flag: f.p.freshVar("deferred", SBool)}
	// the flag is false until here: set on function entry
	fr.defers = append(fr.defers, site)
	f.deferInit(fr, site.flag)
	f.p.assign(site.flag, tTrue)
	call := s.Call
	if lit, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		site.run = func() { f.inlineLit(&fnval{lit: lit, fr: fr}, nil, call.Pos()) }
		return
	}
	prep := f.prepCall(call)
	site.run = func() { prep() }
}

// deferInit puts an assignment at the start of the frame.
func (f *fx) deferInit(fr *frame, flag *Term) {
	b := fr.recvEntry()
	c := &cmd{kind: cAssign, v: flag, e: tFalse}
	b.cmds = append([]*cmd{c}, b.cmds...)
}

func (f *fx) runDefers(fr *frame) {
	p := f.p
	fr.unwinding = true
	defer func() { fr.unwinding = false }()
	for i := len(fr.defers) - 1; i >= 0; i-- {
		if p.cur == nil {
			return
		}
		d := fr.defers[i]
		t, fl := p.branch(d.flag)
		join := p.newBlock()
		p.start(t)
		d.run()
		p.goTo(join)
		p.start(fl)
		p.goTo(join)
		p.start(join)
	}
}

func (f *fx) goStmt(s *ast.GoStmt) {
	call := s.Call
	for _, a := range call.Args {
		f.tmp(f.typ(a), f.exprAs(a, types.Default(f.typ(a))))
	}
	f.note(s, "the body of a go statement runs concurrently and is not part of this proof")
	f.assume["a goroutine started at "+posOf(s.Pos())+" touches only state guarded by a lock or its own variables"] = true
}

// --- loops -----------------------------------------------------------------

func (f *fx) loopSpec() (*LoopSpec, int) {
	n := f.nloop
	f.nloop++
	sp := f.c.Loops[n]
	if sp == nil {
		sp = &LoopSpec{}
	}
	return sp, n
}

type loopState struct {
	sp     *LoopSpec
	n      int
	pos    token.Pos
	pre    *snap
	from   int
	set    *havocSet
	head   *block
	auto   []*Term // checked automatically, must hold
	cands  []cand
	dec    []*Term
	fr     *frame
	env    map[string]SVal
	bodyAt token.Pos
	lockB  bool
}

type cand struct {
	id string
	t  *Term
}

func (f *fx) invTerms(ls *loopState) (ts []*Term, labels []string) {
	for i, c := range ls.sp.Inv {
		t := f.tryInv(ls, c)
		if t == nil {
			continue
		}
		ts = append(ts, t)
		l := c.Label
		if l == "" {
			l = fmt.Sprintf("%d", i+1)
		}
		labels = append(labels, l)
	}
	return
}

func (f *fx) tryInv(ls *loopState, c Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				f.notes = append(f.notes, fmt.Sprintf("%s: invariant %q of loop %d not applicable here: %s", posOf(ls.pos), c.Src, ls.n, string(se)))
				t = nil
				return
			}
			panic(r)
		}
	}()
	ctx := f.ctxAt(ls.fr, ls.bodyAt, ls.pre)
	return ctx.boolE(c.E)
}

// loopHead cuts the loop: invariants are checked on entry, everything the
// loop changes is forgotten, and the invariants are assumed.
func (f *fx) loopHead(ls *loopState) {
	p := f.p
	f.hook("preloop", itoa(ls.n), nil)
	ls.pre = p.takeSnap(fmt.Sprintf("pre%d", ls.n))
	ls.fr = f.cur
	f.specEnv = append(f.specEnv, ls.env)
	ts, labels := f.invTerms(ls)
	for i, t := range ts {
		f.oblig("invariant on entry", fmt.Sprintf("loop %d %s", ls.n, labels[i]), ls.pos, t)
	}
	for _, t := range ls.auto {
		if t != tTrue {
			f.oblig("invariant on entry", fmt.Sprintf("loop %d (index range)", ls.n), ls.pos, t)
		}
	}
	for _, c := range ls.cands {
		f.oblig("candidate", c.id, ls.pos, c.t)
	}
	head := p.newBlock()
	p.goTo(head)
	p.start(head)
	ls.head = head
	ls.set = &havocSet{vars: map[*Term]bool{}}
	ls.from = len(p.blocks)
	p.emit(&cmd{kind: cHavocSet, set: ls.set})
	p.emit(&cmd{kind: cFrame, frame: func() []*Term { return f.loopFrame(ls) }})
	for _, t := range ts {
		p.assume(t)
	}
	for _, t := range ls.auto {
		p.assume(t)
	}
	for _, c := range ls.cands {
		p.assume(c.t)
	}
	if len(ts) > 0 {
		f.cover(fmt.Sprintf("loop %d", ls.n), ls.pos)
	}
	ls.dec = nil
	for _, d := range ls.sp.Dec {
		ctx := f.ctxAt(ls.fr, ls.bodyAt, ls.pre)
		t := ctx.value(ctx.eval(d.E))
		v := p.freshVar("variant", SInt)
		p.assign(v, t)
		ls.dec = append(ls.dec, v)
	}
}

func (f *fx) isHeapArr(h *Term) bool {
	if _, ok := f.w.heapElem[h]; !ok {
		return false
	}
	switch {
	case len(h.Name) > 2 && (h.Name[:2] == "F_" || h.Name[:2] == "B_" || h.Name[:2] == "E_"):
		return true
	case len(h.Name) > 3 && (h.Name[:3] == "MD_" || h.Name[:3] == "MV_" || h.Name[:3] == "ML_"):
		return true
	}
	return false
}

// loopFrame: facts about the forgotten variables that need no invariant.
func (f *fx) loopFrame(ls *loopState) []*Term {
	var out []*Term
	var vs []*Term
	for v := range ls.set.vars {
		vs = append(vs, v)
	}
	sortTerms(vs)
	for _, v := range vs {
		if v == allocVar {
			out = append(out, mkLe(ls.pre.at2(v), v))
			continue
		}
		if v == heldVar {
			out = append(out, mkEq(ls.pre.at2(v), v))
			continue
		}
		if f.isHeapArr(v) {
			if t := f.heapInv(v); t != tTrue {
				out = append(out, t)
			}
			if f.modAny {
				continue
			}
			all := false
			f.v.qn++
			r := mkBound("r?"+itoa(f.v.qn), SInt)
			conds := []*Term{mkLe(app("root", SInt, r), f.alloc0)}
			for _, m := range f.mods {
				if m.heap == v {
					if m.ref == nil {
						all = true
					} else {
						conds = append(conds, mkNot(mkEq(r, m.ref)))
					}
				}
			}
			if all {
				continue
			}
			e := mkSel(v, r)
			out = append(out, mkForall([]BVar{{r.Name, SInt}}, mkImp(mkAnd(conds...), mkEq(e, mkSel(f.old.at2(v), r))), []*Term{e}, []*Term{mkSel(f.old.at2(v), r)}))
			continue
		}
		if ty, ok := f.varTy[v]; ok {
			out = append(out, f.typeInv(v, ty))
		}
	}
	for _, nm := range sortedKeys(f.traces) {
		tr := f.traces[nm]
		if !ls.set.vars[tr.n] {
			continue
		}
		n0 := ls.pre.at2(tr.n)
		out = append(out, mkLe(n0, tr.n))
		arrs := []*Term{}
		for _, m := range []map[int]*Term{tr.args, tr.ress, tr.mems} {
			for _, a := range m {
				arrs = append(arrs, a)
			}
		}
		sortTerms(arrs)
		for _, a := range arrs {
			f.v.qn++
			k := mkBound("k?"+itoa(f.v.qn), SInt)
			e := mkSel(a, k)
			out = append(out, mkForall([]BVar{{k.Name, SInt}}, mkImp(mkLt(k, n0), mkEq(e, mkSel(ls.pre.at2(a), k))), []*Term{e}))
		}
	}
	return out
}

// at2 is at for use while passifying: the snapshot must already know v.
func (s *snap) at2(v *Term) *Term { return s.at(v) }

// loopBack checks the invariants at the end of an iteration.
func (f *fx) loopBack(ls *loopState) {
	p := f.p
	if p.cur == nil {
		return
	}
	ts, labels := f.invTerms(ls)
	for i, t := range ts {
		f.oblig("invariant preserved", fmt.Sprintf("loop %d %s", ls.n, labels[i]), ls.pos, t)
	}
	for _, t := range ls.auto {
		if t != tTrue {
			f.oblig("invariant preserved", fmt.Sprintf("loop %d (index range)", ls.n), ls.pos, t)
		}
	}
	for _, c := range ls.cands {
		f.oblig("candidate", c.id, ls.pos, c.t)
	}
	for i, d := range ls.sp.Dec {
		ctx := f.ctxAt(ls.fr, ls.bodyAt, ls.pre)
		t := ctx.value(ctx.eval(d.E))
		f.oblig("termination", fmt.Sprintf("loop %d", ls.n), ls.pos, mkAnd(mkLe(mkInt(0), ls.dec[i]), mkLt(t, ls.dec[i])))
	}
	if p.assignedIn(ls.from-1, len(p.blocks))[heldVar] {
		f.oblig("lock balance", fmt.Sprintf("loop %d", ls.n), ls.pos, mkEq(heldVar, ls.pre.at(heldVar)))
	}
	p.cur = nil
}

// loopDone fills in what the loop forgets.
func (f *fx) loopDone(ls *loopState) {
	for v := range f.p.assignedIn(ls.from, len(f.p.blocks)) {
		ls.set.vars[v] = true
	}
	for _, c := range ls.head.cmds {
		switch c.kind {
		case cAssign, cHavoc:
			ls.set.vars[c.v] = true
		}
	}
	// the snapshots must exist before passification
	for v := range ls.set.vars {
		if f.isHeapArr(v) {
			f.old.at(v)
		}
		ls.pre.at(v)
	}
	f.old.at(allocVar)
	f.specEnv = f.specEnv[:len(f.specEnv)-1]
}

func (f *fx) pushLoop(label string, brk, cont *block) {
	f.cur.loops = append(f.cur.loops, &loopCtx{label: label, brk: brk, cont: cont, isLoop: true})
}
func (f *fx) popLoop() { f.cur.loops = f.cur.loops[:len(f.cur.loops)-1] }

func (f *fx) forStmt(s *ast.ForStmt, label string) {
	p := f.p
	if s.Init != nil {
		f.stmt(s.Init, "")
		if p.cur == nil {
			return
		}
	}
	sp, n := f.loopSpec()
	if sp.Unroll > 0 {
		f.unroll(s, label, sp, n)
		return
	}
	ls := &loopState{sp: sp, n: n, pos: s.Pos(), bodyAt: s.Body.Lbrace + 1, env: map[string]SVal{}, fr: f.cur}
	f.countIndex(s, ls)
	if !sp.NoAuto {
		ls.cands = f.candidates(ls, s)
	}
	f.loopHead(ls)
	end, cont := p.newBlock(), p.newBlock()
	if s.Cond != nil {
		t, e := f.cond(s.Cond)
		p.start(e)
		p.goTo(end)
		p.start(t)
	}
	f.pushLoop(label, end, cont)
	f.cur.loops[len(f.cur.loops)-1].num = n + 1
	f.hook("loop", itoa(n), s)
	f.stmts(s.Body.List)
	f.popLoop()
	p.goTo(cont)
	p.start(cont)
	if s.Post != nil && p.cur != nil {
		f.stmt(s.Post, "")
	}
	f.hook("loopend", itoa(n), s)
	f.loopBack(ls)
	f.loopDone(ls)
	p.start(end)
	f.hook("postloop", itoa(n), nil)
}

// countIndex: a loop that counts up in ones may be written as a range loop, so
// $i, the number of iterations done, has a meaning in it too.
func (f *fx) countIndex(s *ast.ForStmt, ls *loopState) {
	for _, e := range f.specEnv {
		if _, ok := e["$i"]; ok {
			return
		}
	}
	in, ok := s.Init.(*ast.AssignStmt)
	if !ok || len(in.Lhs) != 1 || in.Tok != token.DEFINE {
		return
	}
	id, ok := in.Lhs[0].(*ast.Ident)
	if !ok {
		return
	}
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return
	}
	if x, ok := inc.X.(*ast.Ident); !ok || x.Name != id.Name {
		return
	}
	o, ok := f.info().Defs[id].(*types.Var)
	if !ok {
		return
	}
	lv := f.cur.vars[o]
	if lv == nil || lv.boxed || lv.v.Sort != SInt {
		return
	}
	first := f.tmp(lv.ty, lv.v)
	ls.env["$i"] = SVal{t: mkSub(lv.v, first), ty: tyInt}
}

func (f *fx) unroll(s *ast.ForStmt, label string, sp *LoopSpec, n int) {
	p := f.p
	end := p.newBlock()
	saved := f.nloop
	f.hook("preloop", itoa(n), nil)
	for i := 0; i < sp.Unroll && p.cur != nil; i++ {
		f.nloop = saved
		cont := p.newBlock()
		if s.Cond != nil {
			t, e := f.cond(s.Cond)
			p.start(e)
			p.goTo(end)
			p.start(t)
		}
		f.pushLoop(label, end, cont)
		f.cur.loops[len(f.cur.loops)-1].num = n + 1
		f.hook("loop", itoa(n), s)
		f.stmts(s.Body.List)
		f.popLoop()
		p.goTo(cont)
		p.start(cont)
		if s.Post != nil && p.cur != nil {
			f.stmt(s.Post, "")
		}
		f.hook("loopend", itoa(n), s)
	}
	if p.cur != nil {
		if s.Cond != nil {
			t, e := f.cond(s.Cond)
			p.start(e)
			p.goTo(end)
			p.start(t)
		}
		f.oblig("unwinding", fmt.Sprintf("loop %d ends within %d iterations", n, sp.Unroll), s.Pos(), tFalse)
		p.cur = nil
	}
	p.start(end)
	f.hook("postloop", itoa(n), nil)
}

// candidates proposes simple invariants; the ones that do not hold are
// dropped (Houdini).
func (f *fx) candidates(ls *loopState, s *ast.ForStmt) []cand {
	assigned := map[types.Object]bool{}
	ast.Inspect(s, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					if o := f.info().Uses[id]; o != nil {
						assigned[o] = true
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := x.X.(*ast.Ident); ok {
				if o := f.info().Uses[id]; o != nil {
					assigned[o] = true
				}
			}
		}
		return true
	})
	var out []cand
	add := func(id string, t *Term) {
		if t == tTrue {
			return
		}
		k := fmt.Sprintf("loop %d %s", ls.n, id)
		if f.off[k] {
			return
		}
		f.cands[k] = true
		out = append(out, cand{k, t})
	}
	seen := map[string]int{}
	for fr := f.cur; fr != nil; fr = fr.lex {
		var os []types.Object
		for o := range fr.vars {
			if assigned[o] {
				os = append(os, o)
			}
		}
		for i := 1; i < len(os); i++ {
			for j := i; j > 0 && os[j].Pos() < os[j-1].Pos(); j-- {
				os[j], os[j-1] = os[j-1], os[j]
			}
		}
		for _, o := range os {
			lv := fr.vars[o]
			if lv.boxed || o.Pos() > s.Body.Pos() {
				continue
			}
			nm := o.Name()
			seen[nm]++
			if seen[nm] > 1 {
				nm += itoa(seen[nm])
			}
			if k, ok := intKind(lv.ty); ok && k.bits >= 32 {
				f.p.freshVar("c", SInt)
				p0 := mkVar(lv.v.Name+fmt.Sprintf("@c%d", ls.n), SInt)
				f.p.assign(p0, lv.v)
				add(nm+" does not fall below its start", mkLe(p0, lv.v))
				add(nm+" does not exceed its start", mkLe(lv.v, p0))
				if k.signed {
					add(nm+" >= 0", mkLe(mkInt(0), lv.v))
				}
			}
			if _, ok := lv.ty.Underlying().(*types.Slice); ok {
				p0 := mkVar(lv.v.Name+fmt.Sprintf("@c%d", ls.n), SSlc)
				f.p.assign(p0, lv.v)
				add(nm+" keeps its memory", mkEq(sArr(p0), sArr(lv.v)))
				add(nm+" does not grow", mkLe(sLen(lv.v), sLen(p0)))
			}
		}
	}
	if b, ok := s.Cond.(*ast.BinaryExpr); ok && f.pure(b) {
		var lo, hi ast.Expr
		switch b.Op {
		case token.LSS, token.LEQ, token.NEQ:
			lo, hi = b.X, b.Y
		case token.GTR, token.GEQ:
			lo, hi = b.Y, b.X
		}
		if lo != nil {
			if _, ok := intKind(f.typ(lo)); ok {
				a, c := f.exprAs(lo, f.typ(hi)), f.exprAs(hi, f.typ(lo))
				if b.Op == token.LEQ || b.Op == token.GEQ {
					c = mkAdd(c, mkInt(1))
				}
				add("condition bound", mkLe(a, c))
			}
		}
	}
	return out
}

func (f *fx) rangeStmt(s *ast.RangeStmt, label string) {
	p := f.p
	xt := f.typ(s.X)
	sp, n := f.loopSpec()
	ls := &loopState{sp: sp, n: n, pos: s.Pos(), bodyAt: s.Body.Lbrace + 1, env: map[string]SVal{}, fr: f.cur}
	setVar := func(e ast.Expr, val func() *Term, ty types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			o := f.info().Defs[e.(*ast.Ident)]
			f.declare(o, f.convTo(val(), ty, o.Type(), e.Pos()))
			return
		}
		l := f.lvalue(e)
		f.assignTo(l, val(), ty, e.Pos())
	}
	keyName := func(e ast.Expr) string {
		if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
			return id.Name
		}
		return ""
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Basic, *types.Pointer:
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsString == 0 {
			f.fail(s, "unsupported range")
		}
		var ln *Term
		var load func(i *Term) *Term
		var et types.Type
		isStr := false
		switch u := u.(type) {
		case *types.Slice:
			x := f.tmp(xt, f.expr(s.X))
			et = u.Elem()
			ln = sLen(x)
			h := f.w.elemHeap(et)
			load = func(i *Term) *Term { return f.loaded(et, mkSel(mkSel(h, sArr(x)), mkIdx(sOff(x), i))) }
			ls.env["$x"] = SVal{t: x, ty: xt}
		case *types.Array:
			et = u.Elem()
			ln = mkInt(u.Len())
			if s.Value != nil {
				x := f.tmp(xt, f.expr(s.X))
				load = func(i *Term) *Term { return f.loaded(et, mkSel(x, i)) }
			}
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			et = a.Elem()
			ln = mkInt(a.Len())
			r := f.tmp(xt, f.expr(s.X))
			load = func(i *Term) *Term {
				return f.loaded(et, mkSel(f.w.loadAt(u.Elem(), r, ident), i))
			}
		case *types.Basic:
			isStr = true
			x := f.tmp(xt, f.expr(s.X))
			ln = slen(x)
			et = types.Typ[types.Int32]
			ls.env["$x"] = SVal{t: x, ty: xt}
			load = func(i *Term) *Term {
				r := f.havocVal("rune", et)
				f.p.assume(mkImp(mkLt(sat(x, i), mkInt(128)), mkEq(r, sat(x, i))))
				f.p.assume(mkImp(mkLe(mkInt(128), sat(x, i)), mkLe(mkInt(128), r)))
				return r
			}
		}
		if p.cur == nil {
			return
		}
		idx := p.freshVar("$i", SInt)
		f.regVar(idx, tyInt)
		p.assign(idx, mkInt(0))
		ls.env["$i"] = SVal{t: idx, ty: tyInt}
		if k := keyName(s.Key); k != "" {
			ls.env[k] = SVal{t: idx, ty: tyInt}
		}
		ls.auto = []*Term{mkAnd(mkLe(mkInt(0), idx), mkLe(idx, ln))}
		if !sp.NoAuto {
			ls.cands = f.candidates(ls, &ast.ForStmt{For: s.For, Cond: nil, Body: s.Body})
		}
		f.loopHead(ls)
		end, cont := p.newBlock(), p.newBlock()
		t, e := p.branch(mkLt(idx, ln))
		p.start(e)
		p.goTo(end)
		p.start(t)
		setVar(s.Key, func() *Term { return idx }, tyInt)
		step := mkInt(1)
		if s.Value != nil {
			setVar(s.Value, func() *Term { return load(idx) }, et)
		}
		if isStr {
			st := f.havocVal("step", tyInt)
			x := ls.env["$x"].t
			p.assume(mkAnd(mkLe(mkInt(1), st), mkLe(st, mkInt(4)), mkLe(mkAdd(idx, st), ln), mkImp(mkLt(sat(x, idx), mkInt(128)), mkEq(st, mkInt(1)))))
			step = st
		}
		f.pushLoop(label, end, cont)
		f.cur.loops[len(f.cur.loops)-1].num = n + 1
		f.hook("loop", itoa(n), s)
		f.stmts(s.Body.List)
		f.popLoop()
		p.goTo(cont)
		p.start(cont)
		if p.cur != nil {
			p.assign(idx, mkAdd(idx, step))
		}
		f.hook("loopend", itoa(n), s)
		f.loopBack(ls)
		f.loopDone(ls)
		p.start(end)
		f.hook("postloop", itoa(n), nil)
	case *types.Map:
		m := f.tmp(xt, f.expr(s.X))
		if p.cur == nil {
			return
		}
		ks := f.w.sortOf(u.Key())
		vis := p.freshVar("$visited", arrSort(ks, SBool))
		p.assign(vis, mkConstArr(arrSort(ks, SBool), tFalse))
		md, _, ml := f.w.mapHeaps(u)
		wit := f.havocVal("somekey", u.Key())
		p.assume(mkImp(mkAnd(mkNot(mkEq(m, mkInt(0))), mkLt(mkInt(0), mkSel(ml, m))), mkSel(mkSel(md, m), wit)))
		dom0 := p.freshVar("$dom", arrSort(ks, SBool))
		p.assign(dom0, mkIte(mkEq(m, mkInt(0)), mkConstArr(arrSort(ks, SBool), tFalse), mkSel(md, m)))
		ls.env["$visited"] = SVal{t: vis, ty: &kmapType{u.Key(), tyBool}}
		ls.env["$dom"] = SVal{t: dom0, ty: &kmapType{u.Key(), tyBool}}
		f.v.qn++
		kb := mkBound("k?"+itoa(f.v.qn), ks)
		ls.auto = []*Term{mkForall([]BVar{{kb.Name, ks}}, mkImp(mkSel(vis, kb), mkSel(dom0, kb)), []*Term{mkSel(vis, kb)})}
		f.loopHead(ls)
		end, cont := p.newBlock(), p.newBlock()
		f.ntmp++
		more := mkVar("more"+itoa(f.ntmp), SBool)
		p.havoc(more)
		t, e := p.branch(more)
		p.start(e)
		p.assume(mkForall([]BVar{{kb.Name, ks}}, mkImp(mkAnd(mkSel(dom0, kb), mkSel(mkSel(md, m), kb)), mkSel(vis, kb)), []*Term{mkSel(vis, kb)}, []*Term{mkSel(mkSel(md, m), kb)}))
		p.goTo(end)
		p.start(t)
		k := f.havocVal("key", u.Key())
		p.assume(mkAnd(mkNot(mkEq(m, mkInt(0))), mkSel(dom0, k), mkSel(mkSel(md, m), k), mkNot(mkSel(vis, k))))
		p.assign(vis, mkSto(vis, k, tTrue))
		setVar(s.Key, func() *Term { return k }, u.Key())
		if s.Value != nil {
			v, _ := f.mapGet(u, m, k)
			setVar(s.Value, func() *Term { return v }, u.Elem())
		}
		f.pushLoop(label, end, cont)
		f.cur.loops[len(f.cur.loops)-1].num = n + 1
		f.hook("loop", itoa(n), s)
		f.stmts(s.Body.List)
		f.popLoop()
		p.goTo(cont)
		p.start(cont)
		f.hook("loopend", itoa(n), s)
		f.loopBack(ls)
		f.loopDone(ls)
		p.start(end)
		f.hook("postloop", itoa(n), nil)
	case *types.Chan:
		f.expr(s.X)
		f.loopHead(ls)
		end, cont := p.newBlock(), p.newBlock()
		f.ntmp++
		more := mkVar("more"+itoa(f.ntmp), SBool)
		p.havoc(more)
		t, e := p.branch(more)
		p.start(e)
		p.goTo(end)
		p.start(t)
		val := f.havocVal("recv", u.Elem())
		f.received(u.Elem(), val, tTrue)
		setVar(s.Key, func() *Term { return val }, u.Elem())
		f.pushLoop(label, end, cont)
		f.cur.loops[len(f.cur.loops)-1].num = n + 1
		f.hook("loop", itoa(n), s)
		f.stmts(s.Body.List)
		f.popLoop()
		p.goTo(cont)
		p.start(cont)
		f.hook("loopend", itoa(n), s)
		f.loopBack(ls)
		f.loopDone(ls)
		p.start(end)
		f.hook("postloop", itoa(n), nil)
	default:
		f.fail(s, "unsupported range over %v", xt)
	}
}

func ratOf(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }

// rangeGhost is a call of a library function that calls its argument for every
// key and value of a ghost map, in any order, until it returns false.
func (f *fx) rangeGhost(ct *Contract, recv *Term, args []carg, call *ast.CallExpr) {
	pos := call.Pos()
	p := f.p
	if p.cur == nil {
		return
	}
	fv := args[0].fv
	if fv == nil || recv == nil {
		panic(unsupported(posOf(pos) + ": " + ct.Key + " with an unknown function"))
	}
	names := strings.Split(ct.Opts["ranges"], ",")
	ghost := func(name string) *Term {
		for _, k := range sortedKeys(f.v.sp.ghosts) {
			if strings.HasSuffix(k, "."+name) {
				pp := strings.TrimSuffix(k, "."+name)
				return f.v.ghostVar(pp, name, f.v.resolveType(f.w.pkgs[pp], f.v.sp.ghosts[k]))
			}
		}
		panic(unsupported(ct.Key + ": no ghost variable " + name))
	}
	m := f.tmp(types.Typ[types.Uintptr], recv)
	dom, val := ghost(names[0]), ghost(names[1])
	anyT := types.NewInterfaceType(nil, nil)
	ks := f.w.sortOf(anyT)
	sp, n := f.loopSpec()
	ls := &loopState{sp: sp, n: n, pos: pos, bodyAt: token.NoPos, env: map[string]SVal{}, fr: f.cur}
	vis := p.freshVar("$visited", arrSort(ks, SBool))
	p.assign(vis, mkConstArr(arrSort(ks, SBool), tFalse))
	dom0 := p.freshVar("$dom", arrSort(ks, SBool))
	p.assign(dom0, mkSel(dom, m))
	ls.env["$visited"] = SVal{t: vis, ty: &kmapType{anyT, tyBool}}
	ls.env["$dom"] = SVal{t: dom0, ty: &kmapType{anyT, tyBool}}
	key, v := mkVar(fmt.Sprintf("$key%d", n), ks), mkVar(fmt.Sprintf("$val%d", n), ks)
	ls.env["$key"] = SVal{t: key, ty: anyT}
	ls.env["$val"] = SVal{t: v, ty: anyT}
	f.v.qn++
	kb := mkBound("k?"+itoa(f.v.qn), ks)
	ls.auto = []*Term{mkForall([]BVar{{kb.Name, ks}}, mkImp(mkSel(vis, kb), mkSel(dom0, kb)), []*Term{mkSel(vis, kb)})}
	f.loopHead(ls)
	end := p.newBlock()
	f.ntmp++
	more := mkVar("more"+itoa(f.ntmp), SBool)
	p.havoc(more)
	t, e := p.branch(more)
	p.start(e)
	p.assume(mkForall([]BVar{{kb.Name, ks}}, mkImp(mkSel(dom0, kb), mkSel(vis, kb)), []*Term{mkSel(vis, kb)}, []*Term{mkSel(dom0, kb)}))
	p.goTo(end)
	p.start(t)
	p.havoc(key)
	p.assume(mkAnd(mkSel(dom0, key), mkSel(mkSel(dom, m), key), mkNot(mkSel(vis, key))))
	p.assign(v, mkSel(mkSel(val, m), key))
	p.assign(vis, mkSto(vis, key, tTrue))
	sig := args[0].ty.Underlying().(*types.Signature)
	rs := f.callVal(fv, []carg{{t: key, ty: anyT}, {t: v, ty: anyT}}, sig, call)
	if p.cur != nil {
		go1, stop := p.branch(rs[0])
		p.start(stop)
		p.goTo(end)
		p.start(go1)
	}
	f.hook("loopend", itoa(n), nil)
	f.loopBack(ls)
	f.loopDone(ls)
	p.start(end)
	f.hook("postloop", itoa(n), nil)
}

// callsBack is a call of a function that calls its argument, a function giving
// whether to go on and an error, any number of times one after the other, until
// that says stop or gives an error. An error of it is one of the call.
func (f *fx) callsBack(ct *Contract, fn *types.Func, recv *Term, recvT types.Type, args []carg, sig *types.Signature, call *ast.CallExpr) []*Term {
	pos := call.Pos()
	p := f.p
	if p.cur == nil {
		return nil
	}
	var fv *fnval
	var fsig *types.Signature
	for i, n := range ct.Params {
		if n == ct.Opts["callsback"] {
			a := args[i-(len(ct.Params)-len(args))]
			fv = a.fv
			fsig, _ = a.ty.Underlying().(*types.Signature)
		}
	}
	if fv == nil || fsig == nil || fsig.Results().Len() != 2 {
		panic(unsupported(posOf(pos) + ": " + ct.Key + " with an unknown function"))
	}
	f.assume[ct.Key+" calls its function one call after the other until it says stop or gives an error, which it returns"] = true
	sp, n := f.loopSpec()
	ls := &loopState{sp: sp, n: n, pos: pos, bodyAt: token.NoPos, env: map[string]SVal{}, fr: f.cur}
	cberr := p.freshVar("cberr", SInt)
	p.assign(cberr, mkInt(0))
	f.loopHead(ls)
	end := p.newBlock()
	f.ntmp++
	more := mkVar("more"+itoa(f.ntmp), SBool)
	p.havoc(more)
	t, e := p.branch(more)
	p.start(e)
	p.goTo(end)
	p.start(t)
	var as []carg
	for i := 0; i < fsig.Params().Len(); i++ {
		ty := fsig.Params().At(i).Type()
		as = append(as, carg{t: f.havocVal("cb", ty), ty: ty})
	}
	f.hook("before", "callback", as)
	rs := f.callVal(fv, as, fsig, call)
	if p.cur != nil {
		f.hook("after", "callback", callInfo{as, rs, fsig})
		go1, stop := p.branch(mkAnd(rs[0], mkEq(rs[1], mkInt(0))))
		p.start(stop)
		p.assign(cberr, rs[1])
		p.goTo(end)
		p.start(go1)
	}
	f.hook("loopend", itoa(n), nil)
	f.loopBack(ls)
	f.loopDone(ls)
	p.start(end)
	f.hook("postloop", itoa(n), nil)
	out := f.callContract(ct, fn, recv, recvT, args, sig, pos)
	if k := len(out); k > 0 && p.cur != nil {
		p.assume(mkImp(mkNot(mkEq(cberr, mkInt(0))), mkNot(mkEq(out[k-1], mkInt(0)))))
	}
	return out
}
