package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- expressions -----------------------------------------------------------

type sx struct {
	op   string // ident, int, str, float, bool, nil, call, index, slice, sel, un, bin, quant, type
	name string
	args []*sx
	bv   []sparam
	trig [][]*sx
	pos  string
	tx   ast.Expr
}

type sparam struct {
	name string
	typ  ast.Expr
}

type tok struct {
	k string // id, int, float, str, char, op, eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "::", "..", "&^"}
next:
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
			continue
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
			continue
		case unicode.IsDigit(rune(c)):
			j := i
			k := "int"
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '.' && j+1 < len(src) && unicode.IsDigit(rune(src[j+1]))) {
				if src[j] == '.' {
					k = "float"
				}
				j++
			}
			out = append(out, tok{k, src[i:j]})
			i = j
			continue
		case c == '"' || c == '`' || c == '\'':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("unterminated literal in %q", src)
			}
			k := "str"
			if c == '\'' {
				k = "char"
			}
			out = append(out, tok{k, src[i : j+1]})
			i = j + 1
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				continue next
			}
		}
		out = append(out, tok{"op", string(c)})
		i++
	}
	return append(out, tok{"eof", ""}), nil
}

type sparser struct {
	t   []tok
	p   int
	src string
}

func (p *sparser) peek() tok { return p.t[p.p] }
func (p *sparser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *sparser) isOp(s string) bool {
	return p.t[p.p].k == "op" && p.t[p.p].s == s
}
func (p *sparser) accept(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(specErr(fmt.Sprintf("expected %q, found %q in %q", s, p.peek().s, p.src)))
	}
}

type specErr string

func (e specErr) Error() string { return string(e) }

func parseExpr(src string) (e *sx, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	p := &sparser{t: ts, src: src}
	e = p.expr(0)
	if p.peek().k != "eof" {
		panic(specErr(fmt.Sprintf("trailing %q in %q", p.peek().s, src)))
	}
	return e, nil
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7}

func (p *sparser) expr(min int) *sx {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		switch t.s {
		case "==>":
			r := p.expr(pr)
			l = &sx{op: "bin", name: t.s, args: []*sx{l, r}}
			continue
		case "==", "!=", "<", "<=", ">", ">=":
			r := p.expr(pr + 1)
			e := &sx{op: "bin", name: t.s, args: []*sx{l, r}}
			// chained comparisons
			for {
				t2 := p.peek()
				if t2.k == "op" && binPrec[t2.s] == 5 {
					p.next()
					r2 := p.expr(pr + 1)
					e = &sx{op: "bin", name: "&&", args: []*sx{e, {op: "bin", name: t2.s, args: []*sx{r, r2}}}}
					r = r2
					continue
				}
				break
			}
			l = e
			continue
		}
		r := p.expr(pr + 1)
		l = &sx{op: "bin", name: t.s, args: []*sx{l, r}}
	}
}

func (p *sparser) unary() *sx {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!", "-", "*", "&":
			p.next()
			x := p.unary()
			return &sx{op: "un", name: t.s, args: []*sx{x}}
		}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		q := &sx{op: "quant", name: t.s}
		for {
			var names []string
			names = append(names, p.next().s)
			// "i, j int" or "i int, j int"
			for p.isOp(",") {
				p.next()
				names = append(names, p.next().s)
			}
			ty := p.typ()
			for _, n := range names {
				q.bv = append(q.bv, sparam{n, ty})
			}
			if p.accept(";") || p.accept(",") {
				continue
			}
			break
		}
		p.expect("::")
		for p.isOp("{") {
			p.next()
			var tr []*sx
			for {
				tr = append(tr, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			q.trig = append(q.trig, tr)
		}
		q.args = []*sx{p.expr(0)}
		return q
	}
	return p.postfix()
}

// typ parses a type: collects tokens up to a stop token.
func (p *sparser) typ() ast.Expr {
	var sb strings.Builder
	depth := 0
	for {
		t := p.peek()
		if t.k == "eof" {
			break
		}
		if t.k == "op" && t.s == "{" && p.p > 0 && p.t[p.p-1].s == "interface" {
			p.next()
			p.next()
			sb.WriteString("{}")
			continue
		}
		if t.k == "op" && depth == 0 && (t.s == "::" || t.s == ";" || t.s == "," || t.s == ")" || t.s == "=" || t.s == "{") {
			break
		}
		if t.k == "op" && (t.s == "[" || t.s == "(") {
			depth++
		}
		if t.k == "op" && (t.s == "]" || t.s == ")") {
			depth--
		}
		sb.WriteString(t.s)
		if t.k == "id" && p.t[p.p+1].k == "id" {
			sb.WriteString(" ")
		}
		p.next()
	}
	s := sb.String()
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(specErr(fmt.Sprintf("bad type %q in %q: %v", s, p.src, err)))
	}
	return e
}

func (p *sparser) postfix() *sx {
	t := p.next()
	var e *sx
	switch t.k {
	case "id":
		switch t.s {
		case "true", "false":
			e = &sx{op: "bool", name: t.s}
		case "nil":
			e = &sx{op: "nil"}
		default:
			e = &sx{op: "ident", name: t.s}
		}
	case "int":
		e = &sx{op: "int", name: t.s}
	case "float":
		e = &sx{op: "float", name: t.s}
	case "str":
		s, err := strconv.Unquote(t.s)
		if err != nil {
			panic(specErr("bad string " + t.s))
		}
		e = &sx{op: "str", name: s}
	case "char":
		r, _, _, err := strconv.UnquoteChar(t.s[1:len(t.s)-1], '\'')
		if err != nil {
			panic(specErr("bad char " + t.s))
		}
		e = &sx{op: "int", name: strconv.Itoa(int(r))}
	case "op":
		if t.s == "(" {
			e = p.expr(0)
			p.expect(")")
			break
		}
		panic(specErr(fmt.Sprintf("unexpected %q in %q", t.s, p.src)))
	default:
		panic(specErr(fmt.Sprintf("unexpected end in %q", p.src)))
	}
	for {
		switch {
		case p.isOp("("):
			p.next()
			c := &sx{op: "call", args: []*sx{e}}
			// type arguments for is(x, T) / as(x, T): second argument is a type
			first := true
			for !p.isOp(")") {
				if !first {
					p.expect(",")
				}
				if e.op == "ident" && (e.name == "is" || e.name == "as" || e.name == "box" || e.name == "conv" || e.name == "ptr") && !first && len(c.args) == 2 {
					c.args = append(c.args, &sx{op: "type", tx: p.typ()})
				} else {
					c.args = append(c.args, p.expr(0))
				}
				first = false
			}
			p.expect(")")
			e = c
		case p.isOp("["):
			p.next()
			var lo *sx
			if !p.isOp("..") && !p.isOp(":") {
				lo = p.expr(0)
			}
			if p.accept("..") || p.accept(":") {
				var hi *sx
				if !p.isOp("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &sx{op: "slice", args: []*sx{e, lo, hi}}
			} else {
				p.expect("]")
				e = &sx{op: "index", args: []*sx{e, lo}}
			}
		case p.isOp("."):
			p.next()
			e = &sx{op: "sel", name: p.next().s, args: []*sx{e}}
		default:
			return e
		}
	}
}

// ---- contract files --------------------------------------------------------

type Clause struct {
	Label string
	Src   string
	E     *sx
}

type LoopSpec struct {
	Inv    []Clause
	Dec    []Clause
	Unroll int
	NoAuto bool
}

type AtClause struct {
	Where string
	Kind  string // assert, assume(not allowed), set
	C     Clause
	LHS   *sx
}

type Contract struct {
	Key      string // full key
	PkgPath  string
	Extern   bool
	Trusted  string // reason; body not verified
	Inline   bool   // verify, but callers inline the body
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	Loops    map[int]*LoopSpec
	Opts     map[string]string
	At       []AtClause
	Traces   []string
	Ghosts   []Clause // local ghost variables: Label = name, E = initial value
	GhostTy  map[string]ast.Expr
	File     string
	Line     int
	Uses     []Clause
}

type Macro struct {
	Name    string
	Params  []sparam
	Res     ast.Expr
	Body    *sx
	Unint   bool
	PkgPath string
	Fn      string // SMT name for uninterpreted
	Opaque  bool   // the definition is known only where it is revealed
	Rec     bool   // recursive definition: uninterpreted plus a defining axiom
	Trig    [][]*sx
}

type Lemma struct {
	Name     string
	Params   []sparam
	Requires []Clause
	Ensures  []Clause
	Induct   string // int parameter for induction
	Trig     [][]*sx
	PkgPath  string
	Axiom    bool // trusted
	Guard    []string
	Floats   bool // proved with the bounds of rounding errors
	Reveal   string
	Auto     bool // make available everywhere as quantified fact after proof
	Using    []Clause
	File     string
	Line     int
}

type Monitor struct {
	PkgPath string
	Type    string
	Field   string
	Guards  []string
	Inv     []Clause
	Ghost   bool
	At      *Term // the index, for one mutex of a slice
}

type Specs struct {
	contracts map[string]*Contract
	macros    map[string]*Macro // pkgpath.name
	lemmas    map[string]*Lemma
	lemmaOrd  []*Lemma
	monitors  []*Monitor
	ghosts    map[string]ast.Expr // pkgpath.name -> type
	files     []string
	consts    map[string]*big.Int
}

func newSpecs() *Specs {
	return &Specs{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, lemmas: map[string]*Lemma{}, ghosts: map[string]ast.Expr{}}
}

var clauseKw = map[string]bool{"floats": true, "package": true, "pred": true, "spec": true, "ufunc": true, "recspec": true, "opaque": true, "axiom": true, "lemma": true,
	"fn": true, "extern": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true,
	"decreases": true, "unroll": true, "opts": true, "trusted": true, "inline": true, "at": true, "traces": true, "ghost": true,
	"monitor": true, "guards": true, "ghostvar": true, "trigger": true, "induct": true, "noauto": true, "auto": true, "using": true, "reveal": true, "param": true, "end": true}

func (s *Specs) loadDir(dir string, w *world) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := s.loadFile(f, w); err != nil {
			return err
		}
		s.files = append(s.files, f)
	}
	return nil
}

func (s *Specs) loadFile(file string, w *world) (err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type ln struct {
		text string
		n    int
	}
	var lines []ln
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		first := t
		if j := strings.IndexFunc(t, func(r rune) bool { return !unicode.IsLetter(r) }); j >= 0 {
			first = t[:j]
		}
		if clauseKw[first] {
			lines = append(lines, ln{t, i + 1})
		} else {
			if len(lines) == 0 {
				return fmt.Errorf("%s:%d: continuation without clause", file, i+1)
			}
			lines[len(lines)-1].text += " " + t
		}
	}
	pkgPath := ""
	var c *Contract
	var lp *LoopSpec
	var lem *Lemma
	var mon *Monitor
	cur := 0
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s:%d: %s", file, cur, string(se))
				return
			}
			panic(r)
		}
	}()
	mustExpr := func(src string) *sx {
		e, err := parseExpr(src)
		if err != nil {
			panic(specErr(err.Error()))
		}
		return e
	}
	clause := func(rest string) Clause {
		label := ""
		// "label: expr" where label is a plain word followed by ':' and not '::'
		for i := 0; i < len(rest); i++ {
			ch := rest[i]
			if ch == ':' && i > 0 && (i+1 >= len(rest) || rest[i+1] != ':') {
				label = strings.TrimSpace(rest[:i])
				rest = strings.TrimSpace(rest[i+1:])
				break
			}
			if !(unicode.IsLetter(rune(ch)) || unicode.IsDigit(rune(ch)) || ch == '_' || ch == '-') {
				break
			}
		}
		return Clause{Label: label, Src: rest, E: mustExpr(rest)}
	}
	params := func(src string) []sparam { // "(a T, b U)"
		ts, err := lex(src)
		if err != nil {
			panic(specErr(err.Error()))
		}
		p := &sparser{t: ts, src: src}
		p.expect("(")
		var out []sparam
		var pend []string
		for !p.isOp(")") {
			pend = append(pend, p.next().s)
			if p.accept(",") {
				continue
			}
			ty := p.typ()
			for _, n := range pend {
				out = append(out, sparam{n, ty})
			}
			pend = nil
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		return out
	}
	closeParen := func(s string) int {
		d := 0
		for i, ch := range s {
			if ch == '(' {
				d++
			}
			if ch == ')' {
				d--
				if d == 0 {
					return i
				}
			}
		}
		panic(specErr("unbalanced parentheses in " + s))
	}
	for _, l := range lines {
		cur = l.n
		kw, rest := l.text, ""
		if i := strings.IndexFunc(l.text, func(r rune) bool { return !unicode.IsLetter(r) }); i >= 0 {
			kw, rest = l.text[:i], strings.TrimSpace(l.text[i:])
		}
		switch kw {
		case "package":
			pkgPath = rest
			if !strings.Contains(rest, ".") {
				pkgPath = w.modPath
				if rest != "." && rest != "root" {
					pkgPath += "/" + rest
				}
			}
			if rest == "std" {
				pkgPath = "std"
			}
		case "pred", "spec", "ufunc", "recspec", "opaque":
			i := strings.Index(rest, "(")
			name := strings.TrimSpace(rest[:i])
			j := closeParen(rest[i:]) + i
			m := &Macro{Name: name, Params: params(rest[i : j+1]), PkgPath: pkgPath}
			tail := strings.TrimSpace(rest[j+1:])
			if kw == "ufunc" {
				te, err := parser.ParseExpr(tail)
				if err != nil {
					panic(specErr(err.Error()))
				}
				m.Res, m.Unint = te, true
				m.Fn = "u_" + sanitize(pkgPath) + "." + name
			} else {
				k := strings.Index(tail, "=")
				ty := strings.TrimSpace(tail[:k])
				if ty != "" {
					te, err := parser.ParseExpr(ty)
					if err != nil {
						panic(specErr(err.Error()))
					}
					m.Res = te
				}
				m.Body = mustExpr(strings.TrimSpace(tail[k+1:]))
				if kw == "opaque" {
					m.Opaque = true
					m.Fn = "o_" + sanitize(pkgPath) + "." + name
				}
				if kw == "recspec" {
					m.Rec = true
					m.Fn = "r_" + sanitize(pkgPath) + "." + name
				}
			}
			if _, dup := s.macros[pkgPath+"."+name]; dup {
				panic(specErr("duplicate spec " + name))
			}
			s.macros[pkgPath+"."+name] = m
		case "axiom", "lemma":
			lem = &Lemma{PkgPath: pkgPath, Axiom: kw == "axiom", File: filepath.Base(file), Line: l.n}
			c, lp, mon = nil, nil, nil
			if i := strings.Index(rest, "("); i >= 0 {
				lem.Name = strings.TrimSpace(rest[:i])
				j := closeParen(rest[i:]) + i
				lem.Params = params(rest[i : j+1])
			} else {
				lem.Name = rest
			}
			lem.Auto = kw == "axiom"
			s.lemmas[pkgPath+"."+lem.Name] = lem
			s.lemmaOrd = append(s.lemmaOrd, lem)
		case "induct":
			lem.Induct = rest
		case "auto":
			lem.Auto = true
		case "reveal":
			// only these opaque specifications are expanded in the proof
			lem.Reveal = rest
		case "floats":
			lem.Floats = true
		case "trigger":
			var tr []*sx
			ts, err := lex(rest)
			if err != nil {
				panic(specErr(err.Error()))
			}
			p := &sparser{t: ts, src: rest}
			for {
				tr = append(tr, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			lem.Trig = append(lem.Trig, tr)
		case "ghostvar":
			i := strings.IndexAny(rest, " ")
			te, err := parser.ParseExpr(strings.TrimSpace(rest[i:]))
			if err != nil {
				panic(specErr(err.Error()))
			}
			s.ghosts[pkgPath+"."+rest[:i]] = te
		case "fn":
			c = &Contract{PkgPath: pkgPath, Loops: map[int]*LoopSpec{}, Opts: map[string]string{}, GhostTy: map[string]ast.Expr{}, File: filepath.Base(file), Line: l.n}
			lp, lem, mon = nil, nil, nil
			c.Key = pkgPath + "." + parseSigNames(rest, c)
			if _, dup := s.contracts[c.Key]; dup {
				panic(specErr("duplicate contract " + rest))
			}
			s.contracts[c.Key] = c
		case "extern":
			// extern strconv.ParseFloat(s, bits) (v, err)   or  extern bytes.(Buffer).Write(p) (n, err)
			c = &Contract{Extern: true, Loops: map[int]*LoopSpec{}, Opts: map[string]string{}, GhostTy: map[string]ast.Expr{}, File: filepath.Base(file), Line: l.n, PkgPath: pkgPath}
			lp, lem, mon = nil, nil, nil
			key := parseSigNames(rest, c)
			c.Key = key
			s.contracts[key] = c
		case "requires", "ensures":
			cl := clause(rest)
			if lem != nil {
				if kw == "requires" {
					lem.Requires = append(lem.Requires, cl)
				} else {
					lem.Ensures = append(lem.Ensures, cl)
				}
			} else if kw == "requires" {
				c.Requires = append(c.Requires, cl)
			} else {
				c.Ensures = append(c.Ensures, cl)
			}
		case "using":
			if lem != nil {
				lem.Using = append(lem.Using, Clause{Src: rest, E: mustExpr(rest)})
			} else {
				c.Uses = append(c.Uses, Clause{Src: rest, E: mustExpr(rest)})
			}
		case "modifies":
			ts, err := lex(rest)
			if err != nil {
				panic(specErr(err.Error()))
			}
			p := &sparser{t: ts, src: rest}
			for p.peek().k != "eof" {
				// allow x.* and elems(s)
				st := p.p
				e := p.modItem()
				var sb strings.Builder
				for _, t := range p.t[st:p.p] {
					sb.WriteString(t.s)
				}
				c.Modifies = append(c.Modifies, Clause{Src: sb.String(), E: e})
				if !p.accept(",") {
					break
				}
			}
		case "loop":
			n, err := strconv.Atoi(strings.TrimSpace(rest))
			if err != nil {
				panic(specErr("bad loop number"))
			}
			lp = c.Loops[n]
			if lp == nil {
				lp = &LoopSpec{}
				c.Loops[n] = lp
			}
		case "invariant":
			if mon != nil {
				mon.Inv = append(mon.Inv, clause(rest))
			} else {
				lp.Inv = append(lp.Inv, clause(rest))
			}
		case "decreases":
			lp.Dec = append(lp.Dec, clause(rest))
		case "unroll":
			lp.Unroll, _ = strconv.Atoi(rest)
		case "noauto":
			lp.NoAuto = true
		case "opts":
			for _, f := range strings.Fields(rest) {
				k, v := f, "1"
				if i := strings.Index(f, "="); i > 0 {
					k, v = f[:i], f[i+1:]
				}
				c.Opts[k] = v
			}
		case "trusted":
			c.Trusted = rest
			if rest == "" {
				c.Trusted = "assumed"
			}
		case "inline":
			c.Inline = true
		case "traces":
			for _, f := range strings.Split(rest, ",") {
				c.Traces = append(c.Traces, strings.TrimSpace(f))
			}
		case "ghost":
			// ghost name T = expr
			i := strings.Index(rest, " ")
			j := strings.Index(rest, "=")
			if j < 0 {
				j = len(rest)
			}
			te, err := parser.ParseExpr(strings.TrimSpace(rest[i:j]))
			if err != nil {
				panic(specErr(err.Error()))
			}
			c.GhostTy[rest[:i]] = te
			g := Clause{Label: rest[:i]}
			if j < len(rest) {
				g.Src, g.E = rest[j+1:], mustExpr(rest[j+1:])
			}
			c.Ghosts = append(c.Ghosts, g)
		case "at":
			// at <where> assert <expr>  |  at <where> set x = expr  | at <where> use lemma(args)
			var kindw string
			idx := -1
			for _, k := range []string{" assert ", " set ", " use ", " hint ", " assume "} {
				if i := strings.Index(rest, k); i >= 0 && (idx < 0 || i < idx) {
					idx, kindw = i, k
				}
			}
			if idx < 0 {
				panic(specErr("at: needs assert, set or use"))
			}
			a := AtClause{Where: strings.TrimSpace(rest[:idx]), Kind: strings.TrimSpace(kindw)}
			body := strings.TrimSpace(rest[idx+len(kindw):])
			if a.Kind == "set" {
				j := strings.Index(body, ":=")
				if j < 0 {
					panic(specErr("at set: needs x := expr"))
				}
				a.LHS = mustExpr(body[:j])
				a.C = Clause{Src: body, E: mustExpr(body[j+2:])}
			} else {
				a.C = clause(body)
			}
			c.At = append(c.At, a)
		case "monitor":
			// monitor (Type).field
			i := strings.Index(rest, ").")
			mon = &Monitor{PkgPath: pkgPath, Type: rest[1:i], Field: strings.TrimSpace(rest[i+2:])}
			c, lp, lem = nil, nil, nil
			s.monitors = append(s.monitors, mon)
		case "guards":
			for _, f := range strings.Split(rest, ",") {
				mon.Guards = append(mon.Guards, strings.TrimSpace(f))
			}
		case "end":
			lp = nil
		}
	}
	return nil
}

// parseSigNames splits "name(params) (results)"; params include the receiver.
func parseSigNames(rest string, c *Contract) string {
	rest = strings.Replace(rest, "(*", "(", 1)
	i := 0
	if strings.HasPrefix(rest, "(") {
		i = strings.Index(rest, ")") + 1
	} else if j := strings.Index(rest, ".("); j >= 0 && strings.Index(rest, "(") == j+1 {
		i = j + 2 + strings.Index(rest[j+2:], ")") + 1
	}
	k := strings.Index(rest[i:], "(")
	if k < 0 {
		return rest
	}
	k += i
	key := strings.TrimSpace(rest[:k])
	e := k + strings.Index(rest[k:], ")")
	for _, n := range strings.Split(rest[k+1:e], ",") {
		if n = strings.TrimSpace(n); n != "" {
			c.Params = append(c.Params, n)
		}
	}
	tail := strings.Trim(strings.TrimSpace(rest[e+1:]), "()")
	if tail != "" {
		for _, n := range strings.Split(tail, ",") {
			c.Results = append(c.Results, strings.TrimSpace(n))
		}
	}
	return key
}

func (p *sparser) modItem() *sx {
	t := p.next()
	if t.k != "id" && !(t.k == "op" && t.s == "*") {
		panic(specErr("bad modifies item near " + t.s))
	}
	var e *sx
	if t.s == "*" && t.k == "op" {
		e = &sx{op: "un", name: "*", args: []*sx{p.postfix()}}
		return e
	}
	e = &sx{op: "ident", name: t.s}
	for {
		switch {
		case p.isOp("."):
			p.next()
			if p.accept("*") {
				return &sx{op: "sel", name: "*", args: []*sx{e}}
			}
			e = &sx{op: "sel", name: p.next().s, args: []*sx{e}}
		case p.isOp("("):
			p.next()
			c := &sx{op: "call", args: []*sx{e}}
			for !p.isOp(")") {
				c.args = append(c.args, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.isOp("["):
			p.next()
			i := p.expr(0)
			p.expect("]")
			e = &sx{op: "index", args: []*sx{e, i}}
		default:
			return e
		}
	}
}

// ---- elaboration -----------------------------------------------------------

type SVal struct {
	t   *Term
	ty  types.Type
	ref *Term // for aggregates in the heap: the address (t is nil until loaded)
}

type sctx struct {
	v      *verifier
	pkg    *pkgInfo
	hp     func(*Term) *Term
	vars   func(name string) (SVal, bool)
	bind   map[string]SVal
	old    *sctx
	pre    *sctx
	locked *sctx
	tr     func(name string) *trace
	fnName string
	bounds map[string]bool
	depth  int
	inTrig bool  // evaluating a trigger
	outer  *sctx // inside old() and the like: where results are known
}

func (c *sctx) sub() *sctx {
	n := *c
	n.bind = map[string]SVal{}
	for k, v := range c.bind {
		n.bind[k] = v
	}
	return &n
}

func (c *sctx) fail(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func (c *sctx) value(v SVal) *Term {
	if v.t == nil && v.ref != nil {
		return c.v.w.loadAt(v.ty, v.ref, c.hp)
	}
	return v.t
}

func (c *sctx) lookupType(e ast.Expr) types.Type {
	return c.v.resolveType(c.pkg, e)
}

func (v *verifier) resolveType(pkg *pkgInfo, e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		switch e.Name {
		case "mathint":
			return tyMath
		case "real":
			return tyReal
		case "any":
			return types.NewInterfaceType(nil, nil)
		}
		if pkg != nil {
			if o := pkg.pkg.Scope().Lookup(e.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		if o := types.Universe.Lookup(e.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(v.resolveType(pkg, e.X))
	case *ast.ArrayType:
		if e.Len == nil {
			return types.NewSlice(v.resolveType(pkg, e.Elt))
		}
		if l, ok := e.Len.(*ast.BasicLit); ok {
			n, _ := strconv.Atoi(l.Value)
			return types.NewArray(v.resolveType(pkg, e.Elt), int64(n))
		}
	case *ast.MapType:
		return types.NewMap(v.resolveType(pkg, e.Key), v.resolveType(pkg, e.Value))
	case *ast.ChanType:
		return types.NewChan(types.SendRecv, v.resolveType(pkg, e.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.IndexExpr:
		if id, ok := e.X.(*ast.Ident); ok && id.Name == "arr" {
			return &arrType{v.resolveType(pkg, e.Index)}
		}
	case *ast.IndexListExpr:
		if id, ok := e.X.(*ast.Ident); ok && id.Name == "kmap" {
			return &kmapType{v.resolveType(pkg, e.Indices[0]), v.resolveType(pkg, e.Indices[1])}
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			for _, p := range v.allPkgs() {
				if p.Name() == id.Name || strings.HasSuffix(p.Path(), "/"+id.Name) {
					if o := p.Scope().Lookup(e.Sel.Name); o != nil {
						if tn, ok := o.(*types.TypeName); ok {
							return tn.Type()
						}
					}
				}
			}
		}
	case *ast.ParenExpr:
		return v.resolveType(pkg, e.X)
	}
	panic(specErr(fmt.Sprintf("cannot resolve type %s", types.ExprString(e))))
}

func (v *verifier) allPkgs() []*types.Package {
	if v.pkgList != nil {
		return v.pkgList
	}
	seen := map[*types.Package]bool{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		v.pkgList = append(v.pkgList, p)
		for _, i := range p.Imports() {
			add(i)
		}
	}
	for _, k := range sortedKeys(v.w.pkgs) {
		add(v.w.pkgs[k].pkg)
	}
	return v.pkgList
}

func isMathInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *sctx) boolE(e *sx) *Term {
	v := c.eval(e)
	t := c.value(v)
	if t == nil || t.Sort != SBool {
		c.fail("boolean expected: %s", sxString(e))
	}
	return t
}

func sxString(e *sx) string {
	if e == nil {
		return ""
	}
	var as []string
	for _, a := range e.args {
		as = append(as, sxString(a))
	}
	switch e.op {
	case "ident", "int", "bool", "float":
		return e.name
	case "str":
		return strconv.Quote(e.name)
	case "sel":
		return as[0] + "." + e.name
	case "bin":
		return "(" + as[0] + " " + e.name + " " + as[1] + ")"
	case "call":
		return as[0] + "(" + strings.Join(as[1:], ", ") + ")"
	case "index":
		return as[0] + "[" + as[1] + "]"
	}
	return e.op + " " + e.name + "(" + strings.Join(as, ",") + ")"
}

func (c *sctx) isBV(t *Term) bool { return strings.HasPrefix(string(t.Sort), "(_ BitVec") }

// unify adapts integer literals to the other operand's type.
func (c *sctx) unify(a, b *SVal) {
	ta, tb := c.value(*a), c.value(*b)
	if ta.Sort == tb.Sort {
		a.t, b.t = ta, tb
		return
	}
	fix := func(x, y *SVal, tx, ty *Term) bool {
		if isInt(tx) && ty.Sort == SF64 {
			x.t, x.ty = c.v.w.floatConst(new(big.Rat).SetInt(tx.Int)), y.ty
			y.t = ty
			return true
		}
		if isInt(tx) && ty.Sort == SReal {
			x.t, x.ty = realConst(new(big.Rat).SetInt(tx.Int)), y.ty
			y.t = ty
			return true
		}
		if isInt(tx) && c.isBV(ty) {
			var n uint
			fmt.Sscanf(string(ty.Sort), "(_ BitVec %d)", &n)
			x.t, x.ty = bvConst(tx.Int, n), y.ty
			y.t = ty
			return true
		}
		return false
	}
	if fix(a, b, ta, tb) || fix(b, a, tb, ta) {
		return
	}
	if ta.Sort == SInt && tb.Sort == SSlc && isInt(ta) { // nil
		a.t = nilSlice
		b.t = tb
		return
	}
	c.fail("type mismatch: %s (%s) and %s (%s)", ta, ta.Sort, tb, tb.Sort)
}

func (c *sctx) eval(e *sx) SVal {
	w := c.v.w
	switch e.op {
	case "bool":
		return SVal{t: mkBool(e.name == "true"), ty: tyBool}
	case "int":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(e.name, "_", ""), 0)
		if !ok {
			c.fail("bad integer %s", e.name)
		}
		return SVal{t: mkBig(n), ty: tyMath}
	case "float":
		r, _ := new(big.Rat).SetString(e.name)
		return SVal{t: w.floatConst(r), ty: tyF64}
	case "str":
		return SVal{t: w.strConst(e.name), ty: tyString}
	case "nil":
		return SVal{t: mkInt(0), ty: types.Typ[types.UntypedNil]}
	case "ident":
		return c.ident(e.name)
	case "un":
		switch e.name {
		case "!":
			return SVal{t: mkNot(c.boolE(e.args[0])), ty: tyBool}
		case "-":
			x := c.eval(e.args[0])
			t := c.value(x)
			if t.Sort == SF64 {
				return SVal{t: app("fneg", SF64, t), ty: x.ty}
			}
			if t.Sort == SReal {
				return SVal{t: app("-", SReal, t), ty: x.ty}
			}
			if c.isBV(t) {
				return SVal{t: app("bvneg", t.Sort, t), ty: x.ty}
			}
			return SVal{t: mkNeg(t), ty: tyMath}
		case "*":
			x := c.eval(e.args[0])
			p, ok := x.ty.Underlying().(*types.Pointer)
			if !ok {
				c.fail("dereference of non-pointer %s", sxString(e))
			}
			if isAgg(p.Elem()) {
				return SVal{ref: c.value(x), ty: p.Elem()}
			}
			return SVal{t: w.loadAt(p.Elem(), c.value(x), c.hp), ty: p.Elem()}
		case "&":
			if a := e.args[0]; a.op == "ident" && c.pkg != nil {
				if o, ok := c.pkg.pkg.Scope().Lookup(a.name).(*types.Var); ok {
					if g := w.classAddr(o); g != nil {
						return SVal{t: g, ty: types.NewPointer(o.Type())}
					}
				}
			}
			x := c.eval(e.args[0])
			if x.ref == nil {
				c.fail("& of a value: %s", sxString(e))
			}
			return SVal{t: x.ref, ty: types.NewPointer(x.ty)}
		}
	case "bin":
		return c.bin(e)
	case "quant":
		n := c.sub()
		var bv []BVar
		var rng []*Term
		for _, b := range e.bv {
			ty := c.lookupType(b.typ)
			c.v.qn++
			nm := fmt.Sprintf("%s?%d", b.name, c.v.qn)
			s := w.sortOf(ty)
			bt := mkBound(nm, s)
			bv = append(bv, BVar{nm, s})
			n.bind[b.name] = SVal{t: bt, ty: ty}
			_ = rng
		}
		body := n.boolE(e.args[0])
		var trig [][]*Term
		tn := n.sub()
		tn.inTrig = true
		for _, tr := range e.trig {
			var ts []*Term
			for _, x := range tr {
				ts = append(ts, tn.value(tn.eval(x)))
			}
			trig = append(trig, ts)
		}
		if e.name == "forall" {
			return SVal{t: mkForall(bv, body, trig...), ty: tyBool}
		}
		return SVal{t: mkExists(bv, body, trig...), ty: tyBool}
	case "sel":
		return c.sel(e)
	case "index":
		x := c.eval(e.args[0])
		i := c.eval(e.args[1])
		it := c.value(i)
		switch u := x.ty.Underlying().(type) {
		case *types.Slice:
			xt := c.value(x)
			return SVal{t: mkSel(mkSel(c.hp(w.elemHeap(u.Elem())), sArr(xt)), mkIdx(sOff(xt), it)), ty: u.Elem()}
		case *types.Array:
			return SVal{t: mkSel(c.value(x), it), ty: u.Elem()}
		case *types.Map:
			_, mv, _ := w.mapHeaps(u)
			return SVal{t: mkSel(mkSel(c.hp(mv), c.value(x)), c.adapt(i, u.Key())), ty: u.Elem()}
		case *arrType:
			return SVal{t: mkSel(c.value(x), it), ty: u.elem}
		case *kmapType:
			return SVal{t: mkSel(c.value(x), it), ty: u.elem}
		case *types.Basic:
			if isString(x.ty) {
				return SVal{t: sat(c.value(x), it), ty: tyByte}
			}
		}
		c.fail("cannot index %s of type %v", sxString(e.args[0]), x.ty)
	case "slice":
		x := c.eval(e.args[0])
		lo := mkInt(0)
		if e.args[1] != nil {
			lo = c.value(c.eval(e.args[1]))
		}
		xt := c.value(x)
		if isString(x.ty) {
			hi := slen(xt)
			if e.args[2] != nil {
				hi = c.value(c.eval(e.args[2]))
			}
			return SVal{t: app("ssub", SStr, xt, lo, hi), ty: x.ty}
		}
		hi := sLen(xt)
		if e.args[2] != nil {
			hi = c.value(c.eval(e.args[2]))
		}
		return SVal{t: mkSlice(sArr(xt), offAdd(sOff(xt), lo), mkSub(hi, lo), mkSub(sCap(xt), lo)), ty: x.ty}
	case "call":
		return c.call(e)
	}
	c.fail("cannot evaluate %s", sxString(e))
	return SVal{}
}

// adapt converts a value to the sort of type ty (nil, literals).
func (c *sctx) adapt(v SVal, ty types.Type) *Term {
	t := c.value(v)
	s := c.v.w.sortOf(ty)
	if t.Sort == s {
		return t
	}
	if isInt(t) && s == SSlc {
		return nilSlice
	}
	if isInt(t) && s == SF64 {
		return c.v.w.floatConst(new(big.Rat).SetInt(t.Int))
	}
	if isInt(t) && strings.HasPrefix(string(s), "(_ BitVec") {
		return c.v.w.intTerm(ty, t.Int)
	}
	c.fail("cannot use %s of sort %s as %v", t, t.Sort, ty)
	return nil
}

func (c *sctx) mutex(e *sx) SVal {
	if e.op == "index" {
		b := c.eval(e.args[0])
		if st, ok := b.ty.Underlying().(*types.Slice); ok && isMutex(st.Elem()) {
			return SVal{ref: c.v.w.eltRef(c.value(b), c.value(c.eval(e.args[1]))), ty: st.Elem()}
		}
	}
	return c.eval(e)
}

func (c *sctx) ident(name string) SVal {
	if v, ok := c.bind[name]; ok {
		return v
	}
	if c.vars != nil {
		if v, ok := c.vars(name); ok {
			return v
		}
	}
	if c.pkg != nil {
		if te, ok := c.v.sp.ghosts[c.pkg.path+"."+name]; ok {
			ty := c.lookupType(te)
			return SVal{t: c.hp(c.v.ghostVar(c.pkg.path, name, ty)), ty: ty}
		}
		if o := c.pkg.pkg.Scope().Lookup(name); o != nil {
			return c.pkgObj(o)
		}
	}
	for _, k := range sortedKeys(c.v.sp.ghosts) {
		if strings.HasSuffix(k, "."+name) {
			te := c.v.sp.ghosts[k]
			pk := c.v.w.pkgs[strings.TrimSuffix(k, "."+name)]
			ty := c.v.resolveType(pk, te)
			return SVal{t: c.hp(c.v.ghostVar(strings.TrimSuffix(k, "."+name), name, ty)), ty: ty}
		}
	}
	switch name {
	case "held": // all the locks held
		return SVal{t: c.hp(heldVar), ty: &kmapType{tyMath, tyBool}}
	case "MaxInt", "MaxInt64":
		return SVal{t: mkBig(new(big.Int).Sub(pow2(63), big.NewInt(1))), ty: tyMath}
	case "MinInt64":
		return SVal{t: mkBig(new(big.Int).Neg(pow2(63))), ty: tyMath}
	case "MaxLen":
		return SVal{t: mkBig(maxLen), ty: tyMath}
	}
	for o := c.outer; o != nil; o = o.outer {
		if o.vars != nil {
			if v, ok := o.vars(name); ok {
				return v
			}
		}
	}
	panic(specErr("unknown name " + name))
}

func (c *sctx) pkgObj(o types.Object) SVal {
	w := c.v.w
	switch o := o.(type) {
	case *types.Const:
		return SVal{t: w.constTerm(o.Type(), o.Val()), ty: o.Type()}
	case *types.Var:
		g := w.globalVar(o)
		if isAgg(o.Type()) {
			return SVal{ref: g, ty: o.Type()}
		}
		return SVal{t: c.hp(g), ty: o.Type()}
	}
	c.fail("name %s is not a value", o.Name())
	return SVal{}
}

func (c *sctx) sel(e *sx) SVal {
	// package qualified
	if e.args[0].op == "ident" {
		nm := e.args[0].name
		_, bound := c.bind[nm]
		if !bound && c.vars != nil {
			_, bound = c.vars(nm)
		}
		if !bound && c.pkg != nil && c.pkg.pkg.Scope().Lookup(nm) == nil {
			for _, p := range c.v.allPkgs() {
				if p.Name() == nm {
					if o := p.Scope().Lookup(e.name); o != nil {
						return c.pkgObj(o)
					}
				}
			}
		}
	}
	x := c.eval(e.args[0])
	return c.field(x, e.name)
}

func (c *sctx) field(x SVal, name string) SVal {
	w := c.v.w
	obj, path, _ := types.LookupFieldOrMethod(x.ty, true, c.pkgOf(x.ty), name)
	fv, ok := obj.(*types.Var)
	if !ok {
		c.fail("no field %s in %v", name, x.ty)
	}
	_ = fv
	for _, i := range path {
		t := x.ty
		if p, ok := t.Underlying().(*types.Pointer); ok {
			x = SVal{ref: c.value(x), ty: p.Elem()}
			t = p.Elem()
		}
		st := t.Underlying().(*types.Struct)
		ft := st.Field(i).Type()
		if x.ref != nil {
			if isAgg(ft) {
				x = SVal{ref: w.subRef(t, i, x.ref), ty: ft}
			} else {
				x = SVal{t: w.loadField(t, x.ref, i, c.hp), ty: ft}
			}
		} else {
			x = SVal{t: w.structInfo(t).get(x.t, i), ty: ft}
		}
	}
	return x
}

func (c *sctx) pkgOf(t types.Type) *types.Package {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	if c.pkg != nil {
		return c.pkg.pkg
	}
	return nil
}

func (c *sctx) bin(e *sx) SVal {
	switch e.name {
	case "&&":
		return SVal{t: mkAnd(c.boolE(e.args[0]), c.boolE(e.args[1])), ty: tyBool}
	case "||":
		return SVal{t: mkOr(c.boolE(e.args[0]), c.boolE(e.args[1])), ty: tyBool}
	case "==>":
		return SVal{t: mkImp(c.boolE(e.args[0]), c.boolE(e.args[1])), ty: tyBool}
	case "<==>":
		return SVal{t: mkEq(c.boolE(e.args[0]), c.boolE(e.args[1])), ty: tyBool}
	}
	a, b := c.eval(e.args[0]), c.eval(e.args[1])
	// nil comparisons
	if bt, ok := b.ty.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
		if _, ok := a.ty.Underlying().(*types.Slice); ok {
			r := mkEq(sArr(c.value(a)), mkInt(0))
			if e.name == "!=" {
				r = mkNot(r)
			}
			return SVal{t: r, ty: tyBool}
		}
	}
	c.unify(&a, &b)
	x, y := a.t, b.t
	ty := a.ty
	if ty == tyMath {
		ty = b.ty
	}
	signed := true
	if k, ok := intKind(ty); ok {
		signed = k.signed
	}
	if c.isBV(x) {
		bo := func(op string) SVal { return SVal{t: app(op, x.Sort, x, y), ty: ty} }
		bc := func(s, u string) SVal {
			o := u
			if signed {
				o = s
			}
			return SVal{t: app(o, SBool, x, y), ty: tyBool}
		}
		switch e.name {
		case "+":
			return bo("bvadd")
		case "-":
			return bo("bvsub")
		case "*":
			return bo("bvmul")
		case "&":
			return bo("bvand")
		case "|":
			return bo("bvor")
		case "^":
			return bo("bvxor")
		case "<<":
			return bo("bvshl")
		case ">>":
			if signed {
				return bo("bvashr")
			}
			return bo("bvlshr")
		case "<":
			return bc("bvslt", "bvult")
		case "<=":
			return bc("bvsle", "bvule")
		case ">":
			return bc("bvsgt", "bvugt")
		case ">=":
			return bc("bvsge", "bvuge")
		}
	}
	switch e.name {
	case "==":
		if x.Sort == SStr {
			return SVal{t: streq(x, y), ty: tyBool}
		}
		return SVal{t: mkEq(x, y), ty: tyBool}
	case "!=":
		if x.Sort == SStr {
			return SVal{t: mkNot(streq(x, y)), ty: tyBool}
		}
		return SVal{t: mkNot(mkEq(x, y)), ty: tyBool}
	}
	switch x.Sort {
	case SStr:
		switch e.name {
		case "<":
			return SVal{t: app("slt", SBool, x, y), ty: tyBool}
		case "<=":
			return SVal{t: mkNot(app("slt", SBool, y, x)), ty: tyBool}
		case ">":
			return SVal{t: app("slt", SBool, y, x), ty: tyBool}
		case ">=":
			return SVal{t: mkNot(app("slt", SBool, x, y)), ty: tyBool}
		case "+":
			return SVal{t: app("scat", SStr, x, y), ty: ty}
		}
	case SF64:
		switch e.name {
		case "<":
			return SVal{t: flt(x, y), ty: tyBool}
		case "<=":
			return SVal{t: fle(x, y), ty: tyBool}
		case ">":
			return SVal{t: flt(y, x), ty: tyBool}
		case ">=":
			return SVal{t: fle(y, x), ty: tyBool}
		case "+":
			return SVal{t: app("fadd", SF64, x, y), ty: ty}
		case "-":
			return SVal{t: app("fsub", SF64, x, y), ty: ty}
		case "*":
			return SVal{t: app("fmul", SF64, x, y), ty: ty}
		case "/":
			return SVal{t: app("fdiv", SF64, x, y), ty: ty}
		}
	case SReal, SInt:
		switch e.name {
		case "<":
			return SVal{t: mkLt(x, y), ty: tyBool}
		case "<=":
			return SVal{t: mkLe(x, y), ty: tyBool}
		case ">":
			return SVal{t: mkLt(y, x), ty: tyBool}
		case ">=":
			return SVal{t: mkLe(y, x), ty: tyBool}
		case "+":
			if x.Sort == SReal {
				return SVal{t: app("+", SReal, x, y), ty: ty}
			}
			if l := e.args[0]; l.op == "call" && l.args[0].name == "off" {
				return SVal{t: mkIdx(x, y), ty: tyMath}
			}
			return SVal{t: mkAdd(x, y), ty: tyMath}
		case "-":
			if x.Sort == SReal {
				return SVal{t: app("-", SReal, x, y), ty: ty}
			}
			return SVal{t: mkSub(x, y), ty: tyMath}
		case "*":
			if x.Sort == SReal {
				return SVal{t: app("*", SReal, x, y), ty: ty}
			}
			return SVal{t: mkMul(x, y), ty: tyMath}
		case "/":
			if x.Sort == SReal {
				return SVal{t: app("/", SReal, x, y), ty: ty}
			}
			return SVal{t: mkDiv(x, y), ty: tyMath}
		case "%":
			return SVal{t: mkMod(x, y), ty: tyMath}
		case "<<":
			if isInt(y) {
				return SVal{t: mkMul(x, mkBig(pow2(uint(y.Int.Uint64())))), ty: tyMath}
			}
		case ">>":
			if isInt(y) {
				return SVal{t: mkDiv(x, mkBig(pow2(uint(y.Int.Uint64())))), ty: tyMath}
			}
		}
	}
	c.fail("operator %s on %v and %v: %s", e.name, a.ty, b.ty, sxString(e))
	return SVal{}
}

func (c *sctx) call(e *sx) SVal {
	w := c.v.w
	f := e.args[0]
	as := e.args[1:]
	name := ""
	if f.op == "ident" {
		name = f.name
	}
	if f.op == "sel" && f.args[0].op == "ident" {
		for _, k := range sortedKeys(c.v.sp.macros) {
			if strings.HasSuffix(k, "/"+f.args[0].name+"."+f.name) {
				return c.v.applyMacro(c, c.v.sp.macros[k], as)
			}
		}
	}
	need := func(n int) {
		if len(as) != n {
			c.fail("%s needs %d arguments", name, n)
		}
	}
	val := func(i int) *Term { return c.value(c.eval(as[i])) }
	switch name {
	case "old":
		need(1)
		if c.old == nil {
			c.fail("old() not available here")
		}
		o := c.old.sub()
		o.outer = c
		o.inTrig = c.inTrig
		for k, v := range c.bind {
			if _, ok := o.bind[k]; !ok {
				o.bind[k] = v
			}
		}
		r := o.eval(as[0])
		return SVal{t: o.value(r), ty: r.ty, ref: r.ref}
	case "pre":
		need(1)
		if c.pre == nil {
			c.fail("pre() is for loop invariants")
		}
		o := c.pre.sub()
		o.outer = c
		o.inTrig = c.inTrig
		for k, v := range c.bind {
			if _, ok := o.bind[k]; !ok {
				o.bind[k] = v
			}
		}
		r := o.eval(as[0])
		return SVal{t: o.value(r), ty: r.ty, ref: r.ref}
	case "locked":
		need(1)
		if c.locked == nil {
			c.fail("locked() needs a monitor in this function")
		}
		o := c.locked.sub()
		o.inTrig = c.inTrig
		for k, v := range c.bind {
			if _, ok := o.bind[k]; !ok {
				o.bind[k] = v
			}
		}
		r := o.eval(as[0])
		return SVal{t: o.value(r), ty: r.ty}
	case "len", "cap":
		need(1)
		x := c.eval(as[0])
		switch u := x.ty.Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return SVal{t: sCap(c.value(x)), ty: tyInt}
			}
			return SVal{t: sLen(c.value(x)), ty: tyInt}
		case *types.Array:
			return SVal{t: mkInt(u.Len()), ty: tyInt}
		case *types.Map:
			_, _, ml := w.mapHeaps(u)
			return SVal{t: mkIte(mkEq(c.value(x), mkInt(0)), mkInt(0), mkSel(c.hp(ml), c.value(x))), ty: tyInt}
		case *types.Basic:
			return SVal{t: slen(c.value(x)), ty: tyInt}
		}
	case "has":
		need(2)
		x := c.eval(as[0])
		if km, ok := x.ty.(*kmapType); ok {
			_ = km
			return SVal{t: mkSel(c.value(x), val(1)), ty: tyBool}
		}
		m, ok := x.ty.Underlying().(*types.Map)
		if !ok {
			c.fail("has() needs a map")
		}
		md, _, _ := w.mapHeaps(m)
		in := mkSel(mkSel(c.hp(md), c.value(x)), c.adapt(c.eval(as[1]), m.Key()))
		if c.inTrig {
			return SVal{t: in, ty: tyBool}
		}
		return SVal{t: mkAnd(mkNot(mkEq(c.value(x), mkInt(0))), in), ty: tyBool}
	case "dom", "vals":
		need(1)
		x := c.eval(as[0])
		m := x.ty.Underlying().(*types.Map)
		md, mv, _ := w.mapHeaps(m)
		if name == "dom" {
			return SVal{t: mkSel(c.hp(md), c.value(x)), ty: &kmapType{m.Key(), tyBool}}
		}
		return SVal{t: mkSel(c.hp(mv), c.value(x)), ty: &kmapType{m.Key(), m.Elem()}}
	case "ite":
		need(3)
		cd := c.boolE(as[0])
		a, b := c.eval(as[1]), c.eval(as[2])
		c.unify(&a, &b)
		return SVal{t: mkIte(cd, a.t, b.t), ty: a.ty}
	case "elems":
		need(1)
		x := c.eval(as[0])
		s, ok := x.ty.Underlying().(*types.Slice)
		if !ok {
			c.fail("elems() needs a slice")
		}
		return SVal{t: mkSel(c.hp(w.elemHeap(s.Elem())), sArr(c.value(x))), ty: &arrType{s.Elem()}}
	case "arrof":
		need(1)
		x := c.eval(as[0])
		if x.ref != nil {
			return SVal{t: x.ref, ty: tyMath}
		}
		return SVal{t: sArr(c.value(x)), ty: tyMath}
	case "off":
		need(1)
		return SVal{t: sOff(val(0)), ty: tyInt}
	case "idx": // absolute position of element k of a slice
		need(2)
		return SVal{t: mkIdx(sOff(val(0)), val(1)), ty: tyMath}
	case "root":
		need(1)
		return SVal{t: app("root", SInt, val(0)), ty: tyMath}
	case "addr":
		need(1)
		x := c.eval(as[0])
		if x.ref != nil {
			return SVal{t: x.ref, ty: tyMath}
		}
		return SVal{t: c.value(x), ty: tyMath}
	case "fresh": // allocated during the call
		need(1)
		x := c.eval(as[0])
		t := c.value(x)
		if t.Sort == SSlc {
			t = sArr(t)
		}
		if c.old == nil {
			c.fail("fresh() not available here")
		}
		return SVal{t: mkAnd(mkLt(c.old.hp(allocVar), app("root", SInt, t)), mkLe(app("root", SInt, t), c.hp(allocVar))), ty: tyBool}
	case "allocated":
		need(1)
		x := c.eval(as[0])
		t := c.value(x)
		if t.Sort == SSlc {
			t = sArr(t)
		}
		return SVal{t: mkLe(app("root", SInt, t), c.hp(allocVar)), ty: tyBool}
	case "ncalls":
		need(1)
		return SVal{t: c.hp(c.trace(as[0]).n), ty: tyInt}
	case "recvof":
		need(2)
		tr := c.trace(as[0])
		return SVal{t: mkSel(c.hp(tr.arg(-1)), val(1)), ty: tr.argT(-1)}
	case "arg", "res", "argmem", "argfield":
		if len(as) < 3 {
			c.fail("%s(f, k, i)", name)
		}
		tr := c.trace(as[0])
		ki := c.value(c.eval(as[1]))
		if !isInt(ki) {
			c.fail("%s: position must be a literal", name)
		}
		k := int(ki.Int.Int64())
		i := val(2)
		switch name {
		case "arg":
			return SVal{t: mkSel(c.hp(tr.arg(k)), i), ty: tr.argT(k)}
		case "res":
			return SVal{t: mkSel(c.hp(tr.res(k)), i), ty: tr.resT(k)}
		case "argmem":
			h, et := tr.mem(k, "")
			return SVal{t: mkSel(c.hp(h), i), ty: &arrType{et}}
		default:
		}
	case "is":
		need(2)
		ty := c.lookupType(as[1].tx)
		if isIface(ty) {
			return SVal{t: app("implements", SBool, typOf(val(0)), w.tid(ty)), ty: tyBool}
		}
		return SVal{t: mkAnd(mkNot(mkEq(val(0), mkInt(0))), mkEq(typOf(val(0)), w.tid(ty))), ty: tyBool}
	case "as":
		need(2)
		ty := c.lookupType(as[1].tx)
		return SVal{t: w.unbox(ty, val(0)), ty: ty}
	case "box":
		need(2)
		ty := c.lookupType(as[1].tx)
		return SVal{t: w.box(ty, c.adapt(c.eval(as[0]), ty)), ty: types.NewInterfaceType(nil, nil)}
	case "ptr": // an unsafe.Pointer as a *T
		need(2)
		return SVal{t: val(0), ty: c.lookupType(as[1].tx)}
	case "typeof":
		need(1)
		return SVal{t: typOf(val(0)), ty: tyMath}
	case "feq":
		need(2)
		a, b := c.eval(as[0]), c.eval(as[1])
		c.unify(&a, &b)
		return SVal{t: feq(a.t, b.t), ty: tyBool}
	case "isnan":
		return SVal{t: app("fnan", SBool, val(0)), ty: tyBool}
	case "isinf":
		return SVal{t: app("finf", SBool, val(0)), ty: tyBool}
	case "real":
		t := val(0)
		if t.Sort == SInt {
			return SVal{t: app("to_real", SReal, t), ty: tyReal}
		}
		if t.Sort == SF64 {
			return SVal{t: app("fr", SReal, t), ty: tyReal}
		}
		return SVal{t: t, ty: tyReal}
	case "f64":
		t := val(0)
		return SVal{t: app("i2f", SF64, t), ty: tyF64}
	case "f2i": // truncation of a float, as int(x) does
		k := ikind{64, true}
		declFun("f2i_"+k.String(), SInt, SF64)
		f2iAxiom(k)
		return SVal{t: app("f2i_"+k.String(), SInt, val(0)), ty: tyMath}
	case "f64bits":
		return SVal{t: app("f64bits", SInt, val(0)), ty: tyMath}
	case "f64frombits":
		return SVal{t: app("f64frombits", SF64, val(0)), ty: tyF64}
	case "str": // string of bytes
		x := c.eval(as[0])
		t := c.value(x)
		if t.Sort == SSlc {
			return SVal{t: app("sfrom", SStr, mkSel(c.hp(w.elemHeap(tyByte)), sArr(t)), sOff(t), sLen(t)), ty: tyString}
		}
		return SVal{t: app("sfrom", SStr, t, val(1), val(2)), ty: tyString}
	case "chr": // string of one byte
		need(1)
		return SVal{t: app("sbyte", SStr, val(0)), ty: tyString}
	case "sub":
		need(3)
		return SVal{t: app("ssub", SStr, val(0), val(1), val(2)), ty: tyString}
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64":
		need(1)
		k := parseKind(map[byte]string{'u': "u", 'i': "i"}[name[0]] + name[1:])
		t := val(0)
		if c.isBV(t) {
			return SVal{t: bvResize(t, k.bits, false), ty: kindType(k)}
		}
		return SVal{t: mopTerm("wrap", k, t), ty: kindType(k)}
	case "s8", "s16", "s32":
		c.fail("use i8/i16/i32")
	case "bits": // machine operation inside a specification: bits(op, kind, a, b)
		if as[0].op != "str" {
			c.fail("bits(\"op\", \"kind\", a, b)")
		}
		k := parseKind(as[1].name)
		return SVal{t: mopTerm(as[0].name, k, val(2), val(3)), ty: kindType(k)}
	case "rotr":
		c.fail("rotr not supported")
	case "stored":
		need(3) // array update
		x := c.eval(as[0])
		return SVal{t: mkSto(c.value(x), val(1), val(2)), ty: x.ty}
	case "acopy":
		need(5)
		x := c.eval(as[0])
		return SVal{t: acopy(c.value(x), val(1), val(2), val(3), val(4)), ty: x.ty}
	case "with": // with(structvalue, "field", v)
		x := c.eval(as[0])
		si := w.structInfo(x.ty)
		i := si.index(as[1].name)
		return SVal{t: si.with(c.value(x), i, c.adapt(c.eval(as[2]), si.flds[i].Type())), ty: x.ty}
	case "conv":
		need(2)
		ty := c.lookupType(as[1].tx)
		return SVal{t: val(0), ty: ty}
	case "isconst":
		return SVal{t: mkBool(isInt(val(0))), ty: tyBool}
	case "held":
		need(1)
		x := c.mutex(as[0])
		if x.ref == nil {
			c.fail("held() needs a mutex")
		}
		return SVal{t: mkSel(c.hp(heldVar), x.ref), ty: tyBool}
	case "acquired", "released": // the only lock taken or given up since old()
		need(1)
		x := c.mutex(as[0])
		if x.ref == nil || c.old == nil {
			c.fail("%s() needs a mutex and an old state", name)
		}
		return SVal{t: mkAnd(mkEq(mkSel(c.old.hp(heldVar), x.ref), mkBool(name == "released")), mkEq(c.hp(heldVar), mkSto(c.old.hp(heldVar), x.ref, mkBool(name == "acquired")))), ty: tyBool}
	case "visited":
		need(1)
		if c.vars != nil {
			if v, ok := c.vars("$visited"); ok {
				return SVal{t: mkSel(v.t, c.adapt(c.eval(as[0]), v.ty.(*kmapType).key)), ty: tyBool}
			}
		}
		c.fail("visited() is for loops over maps")
	}
	if name != "" {
		if m := c.v.findMacro(c.pkg, name); m != nil {
			return c.v.applyMacro(c, m, as)
		}
	}
	c.fail("unknown function in specification: %s", sxString(e))
	return SVal{}
}

func kindType(k ikind) types.Type {
	switch k.String() {
	case "i8":
		return types.Typ[types.Int8]
	case "i16":
		return types.Typ[types.Int16]
	case "i32":
		return types.Typ[types.Int32]
	case "i64":
		return types.Typ[types.Int64]
	case "u8":
		return types.Typ[types.Uint8]
	case "u16":
		return types.Typ[types.Uint16]
	case "u32":
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

func (c *sctx) trace(e *sx) *trace {
	nm := e.name
	if e.op != "ident" && e.op != "str" {
		c.fail("bad trace reference")
	}
	if c.tr == nil {
		c.fail("no call traces here")
	}
	t := c.tr(nm)
	if t == nil {
		c.fail("no call trace for %s", nm)
	}
	return t
}

func (v *verifier) findMacro(pkg *pkgInfo, name string) *Macro {
	if pkg != nil {
		if m, ok := v.sp.macros[pkg.path+"."+name]; ok {
			return m
		}
	}
	for _, k := range sortedKeys(v.sp.macros) {
		if strings.HasSuffix(k, "."+name) {
			return v.sp.macros[k]
		}
	}
	return nil
}

func (v *verifier) applyMacro(c *sctx, m *Macro, as []*sx) SVal {
	if len(as) != len(m.Params) {
		c.fail("%s needs %d arguments, has %d", m.Name, len(m.Params), len(as))
	}
	pkg := v.w.pkgs[m.PkgPath]
	if pkg == nil {
		pkg = c.pkg
	}
	if m.Unint || m.Rec || m.Opaque && v.reveal != "*" && !strings.Contains(","+v.reveal+",", ","+m.Name+",") {
		var ts []*Term
		var ss []Sort
		for i, a := range as {
			ty := v.resolveType(pkg, m.Params[i].typ)
			ts = append(ts, c.adapt(c.eval(a), ty))
			ss = append(ss, v.w.sortOf(ty))
		}
		rt := v.resolveType(pkg, m.Res)
		declFun(m.Fn, v.w.sortOf(rt), ss...)
		if m.Rec {
			v.defineRec(m, pkg, rt)
		}
		return SVal{t: app(m.Fn, v.w.sortOf(rt), ts...), ty: rt}
	}
	if c.depth > 40 {
		c.fail("specification macros nest too deeply (recursive?) in %s", m.Name)
	}
	n := &sctx{v: v, pkg: pkg, hp: c.hp, bind: map[string]SVal{}, tr: c.tr, depth: c.depth + 1, fnName: c.fnName}
	oldBind := map[string]SVal{}
	for i, a := range as {
		x := c.eval(a)
		ty := v.resolveType(pkg, m.Params[i].typ)
		if x.ref == nil {
			x.t = c.adapt(x, ty)
		}
		x.ty = ty
		n.bind[m.Params[i].name] = x
		oldBind[m.Params[i].name] = x
	}
	if c.old != nil {
		o := *n
		o.hp = c.old.hp
		o.bind = oldBind
		n.old = &o
	}
	if c.pre != nil {
		o := *n
		o.hp = c.pre.hp
		o.bind = oldBind
		n.pre = &o
	}
	r := n.eval(m.Body)
	return r
}

// defineRec adds the defining equation of a recursive specification function.
func (v *verifier) defineRec(m *Macro, pkg *pkgInfo, rt types.Type) {
	if v.w.fkeys["rec:"+m.Fn] {
		return
	}
	v.w.fkeys["rec:"+m.Fn] = true
	n := &sctx{v: v, pkg: pkg, hp: func(t *Term) *Term { panic(specErr("recursive spec functions must not read the heap: " + m.Name)) }, bind: map[string]SVal{}}
	var bv []BVar
	var ts []*Term
	for _, p := range m.Params {
		ty := v.resolveType(pkg, p.typ)
		v.qn++
		nm := fmt.Sprintf("%s?%d", p.name, v.qn)
		s := v.w.sortOf(ty)
		b := mkBound(nm, s)
		bv = append(bv, BVar{nm, s})
		ts = append(ts, b)
		n.bind[p.name] = SVal{t: b, ty: ty}
	}
	f := app(m.Fn, v.w.sortOf(rt), ts...)
	body := n.eval(m.Body)
	addAxiom("definition of "+m.Name, newLowerer().lower(mkForall(bv, mkEq(f, n.value(body)), []*Term{f})), m.Fn)
}

func (v *verifier) ghostVar(pkgPath, name string, ty types.Type) *Term {
	g := v.w.heap("G_"+sanitize(pkgPath)+"."+name, v.w.sortOf(ty), ty)
	return g
}
