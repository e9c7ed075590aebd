package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Result of verifying one function or lemma.
type Result struct {
	Name     string
	Obs      []*Obligation
	Err      string // translation failed
	Notes    []string
	Assume   []string
	Used     []string
	Inlined  []string
	Secs     float64
	Vacuous  []string
	Covers   int
	Rounds   int
	Contract *Contract
}

func (r *Result) ok() bool {
	if r.Err != "" || len(r.Vacuous) > 0 {
		return false
	}
	for _, o := range r.Obs {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

func (v *verifier) translate(ct *Contract, off map[string]bool) (f *fx, err error) {
	v.reveal = ct.Opts["reveal"]
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("%s", string(x))
			case specErr:
				err = fmt.Errorf("specification: %s", string(x))
			default:
				if os.Getenv("GVC_TRACE") != "" {
					debug.PrintStack()
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	pi := v.w.pkgs[ct.PkgPath]
	if pi == nil {
		return nil, fmt.Errorf("no package %s", ct.PkgPath)
	}
	key := strings.TrimPrefix(ct.Key, ct.PkgPath+".")
	decl := pi.decls[key]
	if decl == nil {
		return nil, fmt.Errorf("function %s is not in the source", ct.Key)
	}
	fn := pi.info.Defs[decl.Name].(*types.Func)
	f = &fx{v: v, w: v.w, p: newProc(ct.Key), c: ct, varTy: map[*Term]types.Type{}, traces: map[string]*trace{}, assume: map[string]bool{},
		used: map[string]bool{}, inlined: map[string]bool{}, off: off, cands: map[string]bool{}, ghosts: map[string]*lvar{}, inVals: map[string]SVal{},
		nonnil: map[*Term]int{}, calls: map[string]int{}}
	p := f.p
	sig := fn.Type().(*types.Signature)
	fr := &frame{pkg: pi, fn: fn, sig: sig, vars: map[types.Object]*lvar{}, fnb: map[types.Object]*fnval{}, body: decl.Body}
	frameEntry[fr] = p.entry
	f.top = fr
	f.active = append(f.active, fn)
	b1 := p.newBlock()
	p.goTo(b1)
	p.start(b1)
	f.old = p.takeSnap("old")
	f.alloc0 = f.old.at(allocVar)
	p.assume(mkLe(mkInt(0), allocVar))
	p.emit(&cmd{kind: cFrame, frame: f.entryHeapInv})
	// parameters
	var args []carg
	i := 0
	in := func(name string, ty types.Type) *Term {
		nm := name
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("p%d", i)
		}
		t := mkVar(nm+"$in", v.w.sortOf(ty))
		f.regVar(t, ty)
		p.assume(f.typeInv(t, ty))
		sv := SVal{t: t, ty: ty}
		if name != "" && name != "_" {
			f.inVals[name] = sv
		}
		if i < len(ct.Params) {
			f.inVals[ct.Params[i]] = sv
		}
		i++
		return t
	}
	var recv *Term
	if r := sig.Recv(); r != nil {
		recv = in(r.Name(), r.Type())
		if _, ok := r.Type().Underlying().(*types.Pointer); ok && ct.Opts["nilrecv"] == "" {
			p.assume(mkNot(mkEq(recv, mkInt(0))))
		}
	}
	for j := 0; j < sig.Params().Len(); j++ {
		pv := sig.Params().At(j)
		t := in(pv.Name(), pv.Type())
		a := carg{t: t, ty: pv.Type()}
		if _, ok := pv.Type().Underlying().(*types.Signature); ok {
			nm := pv.Name()
			k := j
			if sig.Recv() != nil {
				k++
			}
			if k < len(ct.Params) {
				nm = ct.Params[k]
			}
			a.fv = &fnval{trace: nm}
		}
		args = append(args, a)
	}
	f.cur = fr
	for _, lm := range v.sp.lemmaOrd {
		if lm.Auto && !lm.Axiom && lm.PkgPath == ct.PkgPath {
			p.assume(f.lemmaForall(lm.Name, pi))
		}
	}
	// preconditions
	ctx := &sctx{v: v, pkg: pi, hp: ident, bind: map[string]SVal{}, tr: f.traceFor, fnName: ct.Key,
		vars: func(n string) (SVal, bool) { x, ok := f.inVals[n]; return x, ok }}
	for _, r := range ct.Requires {
		p.assume(ctx.boolE(r.E))
	}
	for _, u := range ct.Uses {
		if !strings.Contains(u.Src, "(") {
			p.assume(f.lemmaForall(strings.TrimSpace(u.Src), pi))
		} else {
			p.assume(f.useLemma(ctx, u.E))
		}
	}
	if len(ct.Modifies) == 1 && ct.Modifies[0].Src == "any" {
		f.modAny = true
	} else {
		oc := f.oldCtx()
		for _, m := range ct.Modifies {
			f.mods = append(f.mods, v.modLocs(oc, m.E)...)
		}
	}
	for _, g := range ct.Ghosts {
		ty := v.resolveType(pi, ct.GhostTy[g.Label])
		gv := mkVar("ghost$"+g.Label, v.w.sortOf(ty))
		f.ghosts[g.Label] = &lvar{v: gv, ty: ty, name: g.Label}
		if g.E == nil {
			p.havoc(gv)
			continue
		}
		p.assign(gv, ctx.adapt(ctx.eval(g.E), ty))
	}
	f.cover("precondition", decl.Pos())
	if ct.Opts["locks"] != "any" {
		p.assume(v.noLocks())
	}
	f.bindFrame(fr, decl.Recv, decl.Type, recv, args)
	fr.ret = p.newBlock()
	f.setupRecover(fr)
	f.hook("at", "entry", nil)
	body := p.newBlock()
	p.goTo(body)
	p.start(body)
	f.stmts(decl.Body.List)
	p.goTo(fr.ret)
	p.start(fr.ret)
	if p.cur != nil {
		f.runDefers(fr)
	}
	f.afterPanic(fr)
	if p.cur != nil {
		f.cover("exit", decl.Pos())
		res := map[string]SVal{}
		for j, r := range fr.results {
			l := f.varLval(r, decl.Pos())
			t := f.tmpCopy(r.ty, l.get())
			sv := SVal{t: t, ty: r.ty}
			if r.name != "" {
				res[r.name] = sv
			}
			res[fmt.Sprintf("r%d", j)] = sv
			if j < len(ct.Results) {
				res[ct.Results[j]] = sv
			}
			if len(fr.results) == 1 {
				res["result"] = sv
			}
		}
		f.resVals = res
		f.hook("at", "exit", nil)
		ec := &sctx{v: v, pkg: pi, hp: ident, bind: map[string]SVal{}, tr: f.traceFor, fnName: ct.Key}
		ec.vars = func(n string) (SVal, bool) {
			if x, ok := res[n]; ok {
				return x, true
			}
			if x, ok := f.inVals[n]; ok {
				return x, true
			}
			if g, ok := f.ghosts[n]; ok {
				return SVal{t: g.v, ty: g.ty}, true
			}
			return SVal{}, false
		}
		ec.old = f.oldCtx()
		if f.lock != nil {
			lk := *ec
			lk.hp = f.lock.at
			ec.locked = &lk
		}
		for j, en := range ct.Ensures {
			l := en.Label
			if l == "" {
				l = itoa(j + 1)
			}
			f.oblig("postcondition", l, decl.Pos(), ec.boolE(en.E))
		}
		if ct.Opts["locks"] != "any" {
			if p.assignedIn(0, len(p.blocks))[heldVar] {
				h0 := f.oldCtx().hp(heldVar)
				f.v.qn++
				mx := mkBound("m?"+itoa(f.v.qn), SInt)
				f.oblig("locks", "all released", decl.Pos(), mkForall([]BVar{{"m?" + itoa(f.v.qn), SInt}}, mkEq(mkSel(heldVar, mx), mkSel(h0, mx)), []*Term{mkSel(heldVar, mx)}))
			}
		}
	}
	// trace counters start at zero
	var init []*cmd
	for _, nm := range sortedKeys(f.traces) {
		init = append(init, &cmd{kind: cAssign, v: f.traces[nm].n, e: mkInt(0)})
	}
	p.entry.cmds = append(init, p.entry.cmds...)
	p.passify()
	return f, nil
}

func (f *fx) lemmaForall(name string, pi *pkgInfo) *Term {
	lm := f.v.findLemma(pi, name)
	if lm == nil {
		panic(specErr("unknown lemma " + name))
	}
	f.used["lemma "+lm.PkgPath+"."+lm.Name] = true
	return f.v.lemmaQuant(lm)
}

func (v *verifier) lemmaQuant(lm *Lemma) *Term {
	n := &sctx{v: v, pkg: v.w.pkgs[lm.PkgPath], hp: func(t *Term) *Term { panic(specErr("lemma " + lm.Name + " reads the heap")) }, bind: map[string]SVal{}}
	var bv []BVar
	var req, ens []*Term
	for _, p := range lm.Params {
		ty := v.resolveType(n.pkg, p.typ)
		v.qn++
		nm := fmt.Sprintf("%s?%d", p.name, v.qn)
		bv = append(bv, BVar{nm, v.w.sortOf(ty)})
		n.bind[p.name] = SVal{t: mkBound(nm, v.w.sortOf(ty)), ty: ty}
		req = append(req, v.lemmaInv(n.bind[p.name].t, ty))
	}
	for _, r := range lm.Requires {
		req = append(req, n.boolE(r.E))
	}
	for _, r := range lm.Ensures {
		ens = append(ens, n.boolE(r.E))
	}
	var trig [][]*Term
	for _, tr := range lm.Trig {
		var ts []*Term
		for _, x := range tr {
			ts = append(ts, n.value(n.eval(x)))
		}
		trig = append(trig, ts)
	}
	body := newLowerer().lower(mkImp(mkAnd(req...), mkAnd(ens...)))
	if len(bv) == 0 {
		return body
	}
	return mkForall(bv, body, trig...)
}

// loadAxioms adds the trusted axioms of the contract files.
func (v *verifier) loadAxioms() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	for _, lm := range v.sp.lemmaOrd {
		if !lm.Axiom {
			continue
		}
		t := v.lemmaQuant(lm)
		ops := map[string]bool{}
		cs := map[string]Sort{}
		for _, tr := range t.Trig {
			for _, x := range tr {
				symbols(x, ops, cs, map[*Term]bool{})
			}
		}
		if len(t.Trig) == 0 {
			symbols(t, ops, cs, map[*Term]bool{})
		}
		var g []string
		for _, o := range sortedKeys(ops) {
			if !builtinOps[o] && !dtOps[o] {
				g = append(g, o)
			}
		}
		addAxiom("axiom "+lm.Name, t, g...)
	}
	return nil
}

func (v *verifier) proveLemma(lm *Lemma, pf portfolio) (res *Result) {
	t0 := time.Now()
	res = &Result{Name: "lemma " + lm.PkgPath + "." + lm.Name}
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				res.Err = string(se)
				return
			}
			panic(r)
		}
	}()
	termMu.Lock()
	v.reveal = "*"
	if lm.Reveal != "" {
		v.reveal = lm.Reveal
	}
	p := newProc("lemma")
	n := &sctx{v: v, pkg: v.w.pkgs[lm.PkgPath], hp: ident, bind: map[string]SVal{}}
	for _, pr := range lm.Params {
		ty := v.resolveType(n.pkg, pr.typ)
		c := mkConst(pr.name+"$l", v.w.sortOf(ty))
		n.bind[pr.name] = SVal{t: c, ty: ty}
		p.assume(v.lemmaInv(c, ty))
	}
	for _, r := range lm.Requires {
		p.assume(n.boolE(r.E))
	}
	if lm.Floats {
		p.assume(app("floats$", SBool))
	}
	cov := &Obligation{Fn: res.Name, Kind: "cover", Label: "hypotheses", noFact: true}
	p.emit(&cmd{kind: cAssert, e: tFalse, ob: cov})
	f := &fx{v: v, w: v.w, p: p, used: map[string]bool{}}
	for _, u := range lm.Using {
		if u.E.op == "ident" {
			p.assume(f.lemmaForall(u.E.name, n.pkg))
		} else {
			p.assume(f.useLemma(n, u.E))
		}
	}
	if lm.Induct != "" {
		cp := *lm
		iv := n.bind[lm.Induct].t
		q := v.lemmaQuantIH(&cp, iv)
		p.assume(q)
	}
	for i, e := range lm.Ensures {
		l := e.Label
		if l == "" {
			l = itoa(i + 1)
		}
		o := &Obligation{Fn: res.Name, Kind: "lemma", Label: l}
		res.Obs = append(res.Obs, o)
		p.emit(&cmd{kind: cAssert, e: n.boolE(e.E), ob: o})
	}
	p.passify()
	termMu.Unlock()
	for _, o := range res.Obs {
		pf.discharge(o)
	}
	if !pf.cover(cov) {
		res.Vacuous = append(res.Vacuous, "hypotheses of "+res.Name)
	}
	for k := range f.used {
		res.Used = append(res.Used, k)
	}
	return res
}

// lemmaQuantIH is the induction hypothesis: the lemma for smaller values.
func (v *verifier) lemmaQuantIH(lm *Lemma, iv *Term) *Term {
	n := &sctx{v: v, pkg: v.w.pkgs[lm.PkgPath], hp: ident, bind: map[string]SVal{}}
	var bv []BVar
	var req []*Term
	for _, p := range lm.Params {
		ty := v.resolveType(n.pkg, p.typ)
		v.qn++
		nm := fmt.Sprintf("%s?%d", p.name, v.qn)
		bv = append(bv, BVar{nm, v.w.sortOf(ty)})
		n.bind[p.name] = SVal{t: mkBound(nm, v.w.sortOf(ty)), ty: ty}
		req = append(req, v.lemmaInv(n.bind[p.name].t, ty))
	}
	x := n.bind[lm.Induct].t
	req = append(req, mkLe(mkInt(0), x), mkLt(x, iv))
	var ens []*Term
	for _, r := range lm.Requires {
		req = append(req, n.boolE(r.E))
	}
	for _, r := range lm.Ensures {
		ens = append(ens, n.boolE(r.E))
	}
	var trig [][]*Term
	for _, tr := range lm.Trig {
		var ts []*Term
		for _, x := range tr {
			ts = append(ts, n.value(n.eval(x)))
		}
		trig = append(trig, ts)
	}
	return mkForall(bv, mkImp(mkAnd(req...), mkAnd(ens...)), trig...)
}

// runObs discharges obligations in parallel.
func runObs(obs []*Obligation, pf portfolio) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, o := range obs {
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			pf.discharge(o)
		}(o)
	}
	wg.Wait()
}

// verifyFunc proves one function against its contract.
func (v *verifier) verifyFunc(ct *Contract, pf portfolio) *Result {
	t0 := time.Now()
	res := &Result{Name: ct.Key, Contract: ct}
	defer func() { res.Secs = time.Since(t0).Seconds() }()
	off := map[string]bool{}
	var f *fx
	for round := 0; ; round++ {
		res.Rounds = round + 1
		termMu.Lock()
		var err error
		f, err = v.translate(ct, off)
		termMu.Unlock()
		if err != nil {
			res.Err = err.Error()
			return res
		}
		var cands []*Obligation
		for _, o := range f.p.obs {
			if o.Kind == "candidate" {
				cands = append(cands, o)
			}
		}
		if len(cands) == 0 {
			break
		}
		q := pf
		q.quick, q.full = 2, 0
		q.nopath = true
		var hs, cs []*Obligation
		for _, o := range cands {
			if strings.HasPrefix(o.Label, "hint ") {
				hs = append(hs, o)
			} else {
				cs = append(cs, o)
			}
		}
		runObs(cs, q)
		q.nopath = false
		runObs(hs, q)
		bad := false
		for _, o := range cands {
			if o.Status != "proved" {
				off[o.Label] = true
				bad = true
			}
		}
		if !bad {
			break
		}
		if round > 8 {
			for k := range f.cands {
				off[k] = true
			}
		}
	}
	var obs []*Obligation
	for _, o := range f.p.obs {
		if o.Kind != "candidate" {
			obs = append(obs, o)
		}
	}
	runObs(obs, pf)
	res.Obs = obs
	for _, k := range sortedKeys(off) {
		if strings.HasPrefix(k, "hint ") {
			f.notes = append(f.notes, "dropped "+k)
		}
	}
	// nothing proved may rest on contradictory assumptions
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, o := range f.p.covers {
		if o.Goal == nil {
			if o.Label == "exit" && ct.Opts["noexit"] == "" {
				res.Vacuous = append(res.Vacuous, "exit of "+ct.Key+" is unreachable")
			}
			continue
		}
		res.Covers++
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			q := pf
			q.quick = 1
			if !q.cover(o) {
				mu.Lock()
				res.Vacuous = append(res.Vacuous, o.Label+" of "+ct.Key)
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
	if ct.Opts["deadok"] != "" {
		res.Vacuous = nil
	}
	res.Notes = f.notes
	res.Assume = sortedKeys(f.assume)
	res.Used = sortedKeys(f.used)
	res.Inlined = sortedKeys(f.inlined)
	return res
}

func printResult(r *Result, verbose bool) {
	bad := 0
	by := map[string]int{}
	for _, o := range r.Obs {
		if o.Status != "proved" {
			bad++
		} else {
			by[o.Solver]++
		}
	}
	st := "ok"
	if !r.ok() {
		st = "FAILED"
	}
	fmt.Printf("%-7s %s: %d obligations, %d not proved, %d rounds, %.1fs\n", st, r.Name, len(r.Obs), bad, r.Rounds, r.Secs)
	if r.Err != "" {
		fmt.Println("   error:", r.Err)
	}
	for _, x := range r.Vacuous {
		fmt.Println("   vacuous:", x)
	}
	for _, o := range r.Obs {
		if o.Status != "proved" {
			fmt.Printf("   %s [%s] %s: %s\n", o.Status, o.Pos, o.Name(), o.Detail)
		} else if verbose {
			fmt.Printf("   proved [%s] %s (%s, %.2fs)\n", o.Pos, o.Name(), o.Solver, o.Secs)
		}
	}
	for _, n := range r.Notes {
		fmt.Println("   note:", n)
	}
	if verbose {
		for _, n := range r.Assume {
			fmt.Println("   assumes:", n)
		}
		fmt.Println("   inlined:", r.Inlined)
	}
}

func sortedObs(obs []*Obligation) []*Obligation {
	out := append([]*Obligation(nil), obs...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos < out[j].Pos })
	return out
}

// noLocks: no monitored mutex is held.
func (v *verifier) noLocks() *Term {
	out := tTrue
	elts := false
	for _, m := range v.sp.monitors {
		pk := v.w.pkgs[m.PkgPath]
		if pk == nil {
			continue
		}
		o := pk.pkg.Scope().Lookup(m.Type)
		if o == nil {
			continue
		}
		if strings.HasSuffix(m.Field, "[]") {
			if !elts {
				elts = true
				a, k := mkBound("a?e", SInt), mkBound("k?e", SInt)
				h := mkSel(heldVar, v.w.eltRef(mkSlice(a, mkInt(0), mkInt(0), mkInt(0)), k))
				out = mkAnd(out, mkForall([]BVar{{"a?e", SInt}, {"k?e", SInt}}, mkNot(h), []*Term{h}))
			}
			continue
		}
		si := v.w.structInfo(o.Type())
		i := si.index(m.Field)
		if i < 0 {
			continue
		}
		v.qn++
		n := "m?" + itoa(v.qn)
		h := mkSel(heldVar, v.w.subRef(o.Type(), i, mkBound(n, SInt)))
		out = mkAnd(out, mkForall([]BVar{{n, SInt}}, mkNot(h), []*Term{h}))
	}
	return out
}

// locks reports whether the function, or one of this repository it calls
// directly, locks a mutex.
func (v *verifier) locks(fn *types.Func) bool {
	if v.lockUse == nil {
		v.lockUse = map[*types.Func]int{}
	}
	switch v.lockUse[fn] {
	case 1:
		return false
	case 2:
		return true
	}
	v.lockUse[fn] = 1
	if fn.Pkg() == nil {
		return false
	}
	pi := v.w.pkgs[fn.Pkg().Path()]
	if pi == nil || pi.decls[funcKey(fn)] == nil {
		return false
	}
	found := false
	ast.Inspect(pi.decls[funcKey(fn)], func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || found {
			return !found
		}
		var o types.Object
		switch x := c.Fun.(type) {
		case *ast.Ident:
			o = pi.info.Uses[x]
		case *ast.SelectorExpr:
			o = pi.info.Uses[x.Sel]
		}
		if g, ok := o.(*types.Func); ok {
			if pkgPath(g) == "sync" && (g.Name() == "Lock" || g.Name() == "RLock") || v.locks(g) {
				found = true
			}
		}
		return true
	})
	if found {
		v.lockUse[fn] = 2
	}
	return found
}
