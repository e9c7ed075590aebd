package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is the SMT name of a sort.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SReal Sort = "Real"
	SF64  Sort = "F64"
	SSlc  Sort = "Slice"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrElem returns the value sort of an array sort.
func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[len("(Array ") : len(str)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad sort " + str)
}

// BVar is a bound variable of a quantifier.
type BVar struct {
	Name string
	Sort Sort
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // SMT operator, or "var", "const", "int", "bound", "forall", "exists", "raw"
	Sort Sort
	Args []*Term
	Name string
	Int  *big.Int
	BV   []BVar
	Trig [][]*Term
	id   int
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	if t.Int != nil {
		sb.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, b := range t.BV {
		sb.WriteByte(';')
		sb.WriteString(b.Name)
		sb.WriteByte(':')
		sb.WriteString(string(b.Sort))
	}
	for _, tr := range t.Trig {
		sb.WriteByte('!')
		for _, a := range tr {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	termTab[k] = t
	return t
}

func mkVar(name string, s Sort) *Term   { return intern(&Term{Op: "var", Name: name, Sort: s}) }
func mkConst(name string, s Sort) *Term { return intern(&Term{Op: "const", Name: name, Sort: s}) }
func mkBound(name string, s Sort) *Term { return intern(&Term{Op: "bound", Name: name, Sort: s}) }
func mkBig(n *big.Int) *Term            { return intern(&Term{Op: "int", Int: new(big.Int).Set(n), Sort: SInt}) }
func mkInt(n int64) *Term               { return mkBig(big.NewInt(n)) }

var (
	tTrue  = intern(&Term{Op: "true", Sort: SBool})
	tFalse = intern(&Term{Op: "false", Sort: SBool})
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func isInt(t *Term) bool { return t.Op == "int" }

func app(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, Sort: s, Args: args})
}

func mkNot(a *Term) *Term {
	switch a {
	case tTrue:
		return tFalse
	case tFalse:
		return tTrue
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return app("not", SBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return app("and", SBool, out...)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a == tFalse {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		if a.Op == "or" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return app("or", SBool, out...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	return app("=>", SBool, a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isInt(a) && isInt(b) {
		return mkBool(a.Int.Cmp(b.Int) == 0)
	}
	if a.Sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	return app("=", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		return mkAnd(mkImp(c, a), mkImp(mkNot(c), b))
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in ite: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	return app("ite", a.Sort, c, a, b)
}

func mkAdd(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBig(new(big.Int).Add(a.Int, b.Int))
	}
	if isInt(a) && a.Int.Sign() == 0 {
		return b
	}
	if isInt(b) && b.Int.Sign() == 0 {
		return a
	}
	// (x + c1) + c2
	if isInt(b) && a.Op == "+" && len(a.Args) == 2 && isInt(a.Args[1]) {
		return mkAdd(a.Args[0], mkBig(new(big.Int).Add(a.Args[1].Int, b.Int)))
	}
	if isInt(a) {
		return mkAdd(b, a)
	}
	return app("+", a.Sort, a, b)
}

func mkNeg(a *Term) *Term {
	if isInt(a) {
		return mkBig(new(big.Int).Neg(a.Int))
	}
	return app("-", a.Sort, a)
}

func mkSub(a, b *Term) *Term {
	if isInt(b) {
		return mkAdd(a, mkBig(new(big.Int).Neg(b.Int)))
	}
	if a == b && a.Sort == SInt {
		return mkInt(0)
	}
	// (x + y) - x
	if a.Op == "+" && len(a.Args) == 2 {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return app("-", a.Sort, a, b)
}

func mkMul(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBig(new(big.Int).Mul(a.Int, b.Int))
	}
	one := big.NewInt(1)
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if isInt(p[0]) {
			if p[0].Int.Sign() == 0 {
				return mkInt(0)
			}
			if p[0].Int.Cmp(one) == 0 {
				return p[1]
			}
		}
	}
	if isInt(a) {
		a, b = b, a
	}
	return app("*", a.Sort, a, b)
}

func mkLe(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBool(a.Int.Cmp(b.Int) <= 0)
	}
	if a == b {
		return tTrue
	}
	return app("<=", SBool, a, b)
}
func mkLt(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return mkBool(a.Int.Cmp(b.Int) < 0)
	}
	if a == b {
		return tFalse
	}
	return app("<", SBool, a, b)
}

// euclidean div and mod by SMT-LIB
func mkDiv(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.Int.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.Int, b.Int, new(big.Int))
		return mkBig(q)
	}
	if isInt(b) && b.Int.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return app("div", SInt, a, b)
}
func mkMod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.Int.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.Int, b.Int, new(big.Int))
		return mkBig(m)
	}
	return app("mod", SInt, a, b)
}

func mkSel(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if isInt(a.Args[1]) && isInt(i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return app("select", v, a, i)
}

func mkSto(a, i, v *Term) *Term {
	_, vs := arrParts(a.Sort)
	if v.Sort != vs {
		panic(fmt.Sprintf("store sort mismatch %s into %s (%s)", v.Sort, a.Sort, a))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return app("store", a.Sort, a, i, v)
}

func mkConstArr(s Sort, v *Term) *Term { return app("constarr", s, v) }

func mkForall(bv []BVar, body *Term, trig ...[]*Term) *Term {
	if body == tTrue || len(bv) == 0 {
		return body
	}
	return intern(&Term{Op: "forall", Sort: SBool, BV: bv, Args: []*Term{body}, Trig: trig})
}
func mkExists(bv []BVar, body *Term, trig ...[]*Term) *Term {
	if body == tFalse || len(bv) == 0 {
		return body
	}
	return intern(&Term{Op: "exists", Sort: SBool, BV: bv, Args: []*Term{body}, Trig: trig})
}

// rebuild re-applies the smart constructors.
func rebuild(t *Term, args []*Term, trig [][]*Term) *Term {
	switch t.Op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "=":
		return mkEq(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "sidx":
		return mkIdx(args[0], args[1])
	case "+":
		if t.Sort == SInt && len(args) == 2 {
			return mkAdd(args[0], args[1])
		}
	case "-":
		if t.Sort == SInt {
			if len(args) == 1 {
				return mkNeg(args[0])
			}
			return mkSub(args[0], args[1])
		}
	case "*":
		if t.Sort == SInt {
			return mkMul(args[0], args[1])
		}
	case "<=":
		return mkLe(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "div":
		return mkDiv(args[0], args[1])
	case "mod":
		return mkMod(args[0], args[1])
	case "select":
		return mkSel(args[0], args[1])
	case "store":
		return mkSto(args[0], args[1], args[2])
	case "forall":
		return mkForall(t.BV, args[0], trig...)
	case "exists":
		return mkExists(t.BV, args[0], trig...)
	}
	if sel, ok := selectors[t.Op]; ok && args[0].Op == sel.ctor {
		return args[0].Args[sel.idx]
	}
	return intern(&Term{Op: t.Op, Sort: t.Sort, Args: args, Name: t.Name, Int: t.Int, BV: t.BV, Trig: trig})
}

// selectors maps datatype selector names to their constructor and position.
type selInfo struct {
	ctor string
	idx  int
}

var selectors = map[string]selInfo{
	"s_arr": {"mkslice", 0}, "s_off": {"mkslice", 1}, "s_len": {"mkslice", 2}, "s_cap": {"mkslice", 3},
}

func mkSelector(name string, s Sort, a *Term) *Term {
	if sel, ok := selectors[name]; ok && a.Op == sel.ctor {
		return a.Args[sel.idx]
	}
	if a.Op == "ite" {
		x, y := a.Args[1], a.Args[2]
		sel := selectors[name]
		if x.Op == sel.ctor && y.Op == sel.ctor {
			return mkIte(a.Args[0], x.Args[sel.idx], y.Args[sel.idx])
		}
	}
	return app(name, s, a)
}

// subst replaces terms bottom up through f (applied to leaves "var").
func subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.Op == "var" {
		r = f(t)
	} else if len(t.Args) == 0 {
		r = t
	} else {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = subst(a, f, memo)
			ch = ch || args[i] != a
		}
		var trig [][]*Term
		for _, tr := range t.Trig {
			var n []*Term
			for _, a := range tr {
				x := subst(a, f, memo)
				ch = ch || x != a
				n = append(n, x)
			}
			trig = append(trig, n)
		}
		if ch {
			r = rebuild(t, args, trig)
		} else {
			r = t
		}
	}
	memo[t] = r
	return r
}

// substBound replaces bound variables.
func substBound(t *Term, m map[string]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.Op == "bound" {
			if x, ok := m[t.Name]; ok {
				r = x
			}
		} else if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			var trig [][]*Term
			for _, tr := range t.Trig {
				var n []*Term
				for _, a := range tr {
					x := rec(a)
					ch = ch || x != a
					n = append(n, x)
				}
				trig = append(trig, n)
			}
			if ch {
				r = rebuild(t, args, trig)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func symQuote(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '@') {
			return "|" + n + "|"
		}
	}
	return n
}

func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb)
	return sb.String()
}

func (t *Term) print(sb *strings.Builder) {
	switch t.Op {
	case "var", "const", "bound":
		sb.WriteString(symQuote(t.Name))
		return
	case "int":
		if t.Int.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.Int).String())
		} else {
			sb.WriteString(t.Int.String())
		}
		return
	case "raw":
		sb.WriteString(t.Name)
		return
	case "true", "false":
		sb.WriteString(t.Op)
		return
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.Sort)
		t.Args[0].print(sb)
		sb.WriteByte(')')
		return
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for i, b := range t.BV {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(sb, "(%s %s)", symQuote(b.Name), b.Sort)
		}
		sb.WriteString(") ")
		if len(t.Trig) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].print(sb)
		for _, tr := range t.Trig {
			sb.WriteString(" :pattern (")
			for i, a := range tr {
				if i > 0 {
					sb.WriteByte(' ')
				}
				a.print(sb)
			}
			sb.WriteString(")")
		}
		if len(t.Trig) > 0 {
			sb.WriteString(")")
		}
		sb.WriteByte(')')
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(t.Op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.Op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		a.print(sb)
	}
	sb.WriteByte(')')
}

// symbols collects the operator and constant names used in t.
func symbols(t *Term, ops map[string]bool, consts map[string]Sort, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "const" || t.Op == "var" {
		consts[t.Name] = t.Sort
	} else {
		ops[t.Op] = true
	}
	for _, a := range t.Args {
		symbols(a, ops, consts, seen)
	}
	for _, tr := range t.Trig {
		for _, a := range tr {
			symbols(a, ops, consts, seen)
		}
	}
}

func hasVars(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "var" {
		return true
	}
	for _, a := range t.Args {
		if hasVars(a, seen) {
			return true
		}
	}
	return false
}

// Interval arithmetic, used to lower machine arithmetic exactly.
type ival struct{ lo, hi *big.Int } // nil: unbounded

func (v ival) within(w ival) bool {
	return v.lo != nil && v.hi != nil && v.lo.Cmp(w.lo) >= 0 && v.hi.Cmp(w.hi) <= 0
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

type ikind struct {
	bits   uint
	signed bool
}

func (k ikind) rng() ival {
	if k.signed {
		h := pow2(k.bits - 1)
		return ival{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
	}
	return ival{big.NewInt(0), new(big.Int).Sub(pow2(k.bits), big.NewInt(1))}
}
func (k ikind) String() string {
	if k.signed {
		return fmt.Sprintf("i%d", k.bits)
	}
	return fmt.Sprintf("u%d", k.bits)
}
func parseKind(s string) ikind {
	n, _ := strconv.Atoi(s[1:])
	return ikind{uint(n), s[0] == 'i'}
}

// mopTerm builds a machine operation, lowered when passifying.
// op is one of wrap, and, or, xor, andnot, shl, shr, quo, rem.
func mopTerm(op string, k ikind, args ...*Term) *Term {
	return app("m:"+op+":"+k.String(), SInt, args...)
}

type lowerer struct {
	iv   map[*Term]ival // intervals of SSA constants
	memo map[*Term]*Term
	im   map[*Term]ival
}

func newLowerer() *lowerer {
	return &lowerer{iv: map[*Term]ival{}, memo: map[*Term]*Term{}, im: map[*Term]ival{}}
}

var maxLen = pow2(47)

func (l *lowerer) interval(t *Term) ival {
	if t.Sort != SInt {
		return ival{}
	}
	if v, ok := l.iv[t]; ok {
		return v
	}
	if v, ok := l.im[t]; ok {
		return v
	}
	v := l.interval1(t)
	l.im[t] = v
	return v
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (l *lowerer) interval1(t *Term) ival {
	switch t.Op {
	case "int":
		return ival{t.Int, t.Int}
	case "s_len", "s_cap", "s_off", "slen":
		return ival{big.NewInt(0), maxLen}
	case "+", "-", "*", "sidx":
		if len(t.Args) == 1 {
			a := l.interval(t.Args[0])
			if a.lo == nil || a.hi == nil {
				return ival{}
			}
			return ival{new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)}
		}
		a, b := l.interval(t.Args[0]), l.interval(t.Args[1])
		if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
			return ival{}
		}
		switch t.Op {
		case "+", "sidx":
			return ival{new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}
		case "-":
			return ival{new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)}
		}
		ps := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		lo, hi := ps[0], ps[0]
		for _, p := range ps {
			lo, hi = bmin(lo, p), bmax(hi, p)
		}
		return ival{lo, hi}
	case "mod":
		b := l.interval(t.Args[1])
		if b.lo != nil && b.lo.Sign() > 0 && b.hi != nil {
			return ival{big.NewInt(0), new(big.Int).Sub(b.hi, big.NewInt(1))}
		}
	case "div":
		a, b := l.interval(t.Args[0]), l.interval(t.Args[1])
		if isInt(t.Args[1]) && t.Args[1].Int.Sign() > 0 && a.lo != nil && a.hi != nil {
			q1, _ := new(big.Int).DivMod(a.lo, t.Args[1].Int, new(big.Int))
			q2, _ := new(big.Int).DivMod(a.hi, t.Args[1].Int, new(big.Int))
			return ival{q1, q2}
		}
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && b.lo != nil && b.lo.Sign() > 0 {
			return ival{big.NewInt(0), a.hi}
		}
	case "ite":
		a, b := l.interval(t.Args[1]), l.interval(t.Args[2])
		if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			return ival{bmin(a.lo, b.lo), bmax(a.hi, b.hi)}
		}
	}
	if strings.HasPrefix(t.Op, "w:") {
		return parseKind(t.Op[2:]).rng()
	}
	if r, ok := opRange[t.Op]; ok {
		return r
	}
	return ival{}
}

// opRange gives known result ranges of uninterpreted functions.
var opRange = map[string]ival{}

// lower rewrites machine operations into SMT integer operations.
func (l *lowerer) lower(t *Term) *Term {
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := t
	if len(t.Args) > 0 {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = l.lower(a)
			ch = ch || args[i] != a
		}
		if strings.HasPrefix(t.Op, "m:") {
			p := strings.Split(t.Op, ":")
			r = l.mop(p[1], parseKind(p[2]), args)
		} else if ch {
			trig := t.Trig
			if len(trig) > 0 {
				trig = nil
				for _, tr := range t.Trig {
					var n []*Term
					for _, a := range tr {
						n = append(n, l.lower(a))
					}
					trig = append(trig, n)
				}
			}
			r = rebuild(t, args, trig)
		}
	}
	l.memo[t] = r
	return r
}

func wrapFn(k ikind) string { return "wrap_" + k.String() }

func (l *lowerer) wrap(k ikind, e *Term) *Term {
	rg := k.rng()
	iv := l.interval(e)
	if iv.within(rg) {
		return e
	}
	m := pow2(k.bits)
	var w *Term
	if k.signed {
		h := mkBig(pow2(k.bits - 1))
		w = mkSub(mkMod(mkAdd(e, h), mkBig(m)), h)
	} else {
		w = mkMod(e, mkBig(m))
	}
	if isInt(e) {
		return w
	}
	in := mkAnd(mkLe(mkBig(rg.lo), e), mkLe(e, mkBig(rg.hi)))
	r := mkIte(in, e, w)
	l.im[r] = rg
	return r
}

// knownZero returns the low-bit count known zero: value is a multiple of 2^n.
func (l *lowerer) knownZero(t *Term) uint {
	switch t.Op {
	case "int":
		if t.Int.Sign() == 0 {
			return 4096
		}
		return t.Int.TrailingZeroBits()
	case "*":
		return l.knownZero(t.Args[0]) + l.knownZero(t.Args[1])
	case "+":
		a, b := l.knownZero(t.Args[0]), l.knownZero(t.Args[1])
		if a < b {
			return a
		}
		return b
	case "mod":
		if isInt(t.Args[1]) {
			a, b := l.knownZero(t.Args[0]), l.knownZero(t.Args[1])
			if a < b {
				return a
			}
			return b
		}
	case "ite":
		a, b := l.knownZero(t.Args[1]), l.knownZero(t.Args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func isPow2m1(n *big.Int) (uint, bool) {
	m := new(big.Int).Add(n, big.NewInt(1))
	if n.Sign() < 0 {
		return 0, false
	}
	if m.TrailingZeroBits() == uint(m.BitLen()-1) {
		return uint(m.BitLen() - 1), true
	}
	return 0, false
}

func (l *lowerer) mop(op string, k ikind, a []*Term) *Term {
	switch op {
	case "wrap":
		return l.wrap(k, a[0])
	case "quo":
		x, y := l.interval(a[0]), l.interval(a[1])
		if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 {
			return mkDiv(a[0], a[1])
		}
		return l.wrap(k, mkIte(mkLe(mkInt(0), a[0]), mkDiv(a[0], a[1]), mkNeg(mkDiv(mkNeg(a[0]), a[1]))))
	case "rem":
		x, y := l.interval(a[0]), l.interval(a[1])
		if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 {
			return mkMod(a[0], a[1])
		}
		return mkIte(mkLe(mkInt(0), a[0]), mkMod(a[0], a[1]), mkNeg(mkMod(mkNeg(a[0]), a[1])))
	case "shl":
		if isInt(a[1]) {
			n := uint(a[1].Int.Uint64())
			if n >= k.bits {
				return mkInt(0)
			}
			return l.wrap(k, mkMul(a[0], mkBig(pow2(n))))
		}
		r := app("shl_u", SInt, a...)
		return l.wrap(k, r)
	case "shr":
		if isInt(a[1]) {
			n := a[1].Int.Uint64()
			if n >= uint64(k.bits) {
				if k.signed {
					return mkIte(mkLt(a[0], mkInt(0)), mkInt(-1), mkInt(0))
				}
				return mkInt(0)
			}
			return mkDiv(a[0], mkBig(pow2(uint(n))))
		}
		return l.wrap(k, app("shr_u", SInt, a...))
	case "and":
		x, y := a[0], a[1]
		if isInt(x) {
			x, y = y, x
		}
		if isInt(y) {
			if y.Int.Sign() == 0 {
				return mkInt(0)
			}
			if isInt(x) && x.Int.Sign() >= 0 && y.Int.Sign() >= 0 {
				return mkBig(new(big.Int).And(x.Int, y.Int))
			}
			if n, ok := isPow2m1(y.Int); ok {
				if l.interval(x).within(ival{big.NewInt(0), y.Int}) {
					return x
				}
				return mkMod(x, mkBig(pow2(n)))
			}
			if y.Int.Sign() > 0 {
				// contiguous mask 2^hi - 2^lo
				lo := y.Int.TrailingZeroBits()
				sh := new(big.Int).Rsh(y.Int, lo)
				if n, ok := isPow2m1(sh); ok {
					return mkMul(mkMod(mkDiv(x, mkBig(pow2(lo))), mkBig(pow2(n))), mkBig(pow2(lo)))
				}
			}
		}
		if x == y {
			return x
		}
		return l.wrap(k, app("band_u", SInt, x, y))
	case "or":
		x, y := a[0], a[1]
		if isInt(x) && isInt(y) && x.Int.Sign() >= 0 && y.Int.Sign() >= 0 {
			return mkBig(new(big.Int).Or(x.Int, y.Int))
		}
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if isInt(p[0]) && p[0].Int.Sign() == 0 {
				return p[1]
			}
			z := l.knownZero(p[0])
			iv := l.interval(p[1])
			if iv.lo != nil && iv.lo.Sign() >= 0 && iv.hi != nil && uint(iv.hi.BitLen()) <= z {
				return l.wrap(k, mkAdd(p[0], p[1]))
			}
		}
		// x | c for a single-bit constant
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if isInt(p[0]) && p[0].Int.Sign() > 0 && uint(p[0].Int.BitLen()-1) == p[0].Int.TrailingZeroBits() {
				b := p[0]
				bit := mkMod(mkDiv(p[1], b), mkInt(2))
				return l.wrap(k, mkAdd(p[1], mkIte(mkEq(bit, mkInt(1)), mkInt(0), b)))
			}
		}
		// x | y where the low z bits of x are zero: the sum if y fits in them
		r := l.wrap(k, app("bor_u", SInt, x, y))
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if z := l.knownZero(p[0]); z > 0 && z < k.bits && !isInt(p[0]) {
				return mkIte(mkAnd(mkLe(mkInt(0), p[1]), mkLt(p[1], mkBig(pow2(z)))), l.wrap(k, mkAdd(p[0], p[1])), r)
			}
		}
		return mkIte(mkEq(x, mkInt(0)), y, mkIte(mkEq(y, mkInt(0)), x, r))
	case "xor":
		if isInt(a[0]) && isInt(a[1]) && a[0].Int.Sign() >= 0 && a[1].Int.Sign() >= 0 {
			return mkBig(new(big.Int).Xor(a[0].Int, a[1].Int))
		}
		// x ^ -1 (bitwise not)
		if isInt(a[1]) && a[1].Int.Cmp(big.NewInt(-1)) == 0 {
			return l.wrap(k, mkSub(mkInt(-1), a[0]))
		}
		return l.wrap(k, app("bxor_u", SInt, a...))
	case "andnot":
		if isInt(a[1]) {
			y := l.mop("and", k, a)
			return mkSub(a[0], y)
		}
		return l.wrap(k, app("bandnot_u", SInt, a...))
	}
	panic("mop " + op)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
