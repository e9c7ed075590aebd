package main

import (
	"fmt"
	"math/big"
	"strings"
)

type cmdKind int

const (
	cAssign cmdKind = iota
	cAssume
	cAssert
	cHavoc
	cHavocSet // havoc everything in a set filled in later
	cSnap     // parallel snapshot assignments, filled in lazily
	cFrame    // loop frame assumptions, filled in later
)

type havocSet struct {
	vars map[*Term]bool
}

type snap struct {
	name  string
	pairs [][2]*Term // dst, src
	have  map[*Term]*Term
}

type cmd struct {
	kind  cmdKind
	v     *Term
	e     *Term
	ob    *Obligation
	set   *havocSet
	snap  *snap
	frame func() []*Term
}

type block struct {
	id    int
	cmds  []*cmd
	succs []*block
	preds []*block
	// filled by passify
	facts []fact
	order int
	in    map[*Term]*Term
	out   map[*Term]*Term
	edgeF map[*block][]*Term // phi equations by predecessor
	idom  *block
	reach bool
	note  string
}

type fact struct {
	t   *Term
	ob  *Obligation // an assertion; a fact for later obligations as well
	def bool        // definition of a fresh constant: holds unconditionally
}

// Obligation is one proof obligation.
type Obligation struct {
	Fn     string
	Kind   string
	Label  string
	Pos    string
	Goal   *Term
	blk    *block
	idx    int
	Status string // proved, failed, unknown
	Solver string
	Secs   float64
	Detail string
	Extra  []*Term // extra hypotheses only for this obligation
	Tries  int
	proc   *proc
	noFact bool
}

func (o *Obligation) Name() string {
	s := o.Fn + ": " + o.Kind
	if o.Label != "" {
		s += " " + o.Label
	}
	return s
}

type proc struct {
	name   string
	blocks []*block
	cur    *block
	entry  *block
	obs    []*Obligation
	nvar   int
	low    *lowerer
	order  []*block
	ranges map[*Term]ival // declared ranges of IVL variables (by Go type)
	nconst int
	covers []*Obligation
}

func newProc(name string) *proc {
	p := &proc{name: name, low: newLowerer(), ranges: map[*Term]ival{}}
	p.entry = p.newBlock()
	p.cur = p.entry
	return p
}

func (p *proc) newBlock() *block {
	b := &block{id: len(p.blocks)}
	p.blocks = append(p.blocks, b)
	return b
}

func (p *proc) freshVar(hint string, s Sort) *Term {
	p.nvar++
	return mkVar(fmt.Sprintf("%s.%d", hint, p.nvar), s)
}

func (p *proc) emit(c *cmd) {
	if p.cur != nil {
		p.cur.cmds = append(p.cur.cmds, c)
	}
}
func (p *proc) assign(v, e *Term) {
	if v.Sort != e.Sort {
		panic(fmt.Sprintf("assign sort mismatch %s:%s := %s:%s", v, v.Sort, e, e.Sort))
	}
	p.emit(&cmd{kind: cAssign, v: v, e: e})
}
func (p *proc) assume(e *Term) {
	if e != tTrue {
		p.emit(&cmd{kind: cAssume, e: e})
	}
}
func (p *proc) havoc(v *Term) { p.emit(&cmd{kind: cHavoc, v: v}) }

func (p *proc) goTo(b *block) {
	if p.cur == nil {
		return
	}
	p.cur.succs = append(p.cur.succs, b)
	b.preds = append(b.preds, p.cur)
	p.cur = nil
}

// branch ends the current block and returns two blocks assuming c and !c.
func (p *proc) branch(c *Term) (*block, *block) {
	t, f := p.newBlock(), p.newBlock()
	cur := p.cur
	if cur != nil {
		cur.succs = append(cur.succs, t, f)
		t.preds = append(t.preds, cur)
		f.preds = append(f.preds, cur)
		t.cmds = append(t.cmds, &cmd{kind: cAssume, e: c})
		f.cmds = append(f.cmds, &cmd{kind: cAssume, e: mkNot(c)})
	}
	p.cur = nil
	return t, f
}

// live reports whether blk can be reached (has predecessors or is the entry).
func (p *proc) live(b *block) bool { return b == p.entry || len(b.preds) > 0 }

func (p *proc) start(b *block) {
	if !p.live(b) {
		p.cur = nil
		return
	}
	p.cur = b
}

func (p *proc) takeSnap(name string) *snap {
	s := &snap{name: name, have: map[*Term]*Term{}}
	p.emit(&cmd{kind: cSnap, snap: s})
	return s
}

// at returns the snapshot variable for v at the snapshot.
func (s *snap) at(v *Term) *Term {
	if r, ok := s.have[v]; ok {
		return r
	}
	r := mkVar(v.Name+"@"+s.name, v.Sort)
	s.have[v] = r
	s.pairs = append(s.pairs, [2]*Term{r, v})
	return r
}

// toSnap rewrites current-state variables to their snapshot versions.
func (s *snap) rewrite(t *Term, only func(*Term) bool) *Term {
	return subst(t, func(v *Term) *Term {
		if only == nil || only(v) {
			return s.at(v)
		}
		return v
	}, map[*Term]*Term{})
}

// assignedIn collects the variables assigned in blocks [from, to).
func (p *proc) assignedIn(from, to int, extra ...*block) map[*Term]bool {
	out := map[*Term]bool{}
	for _, b := range p.blocks[from:to] {
		for _, c := range b.cmds {
			switch c.kind {
			case cAssign, cHavoc:
				out[c.v] = true
			case cHavocSet:
				for v := range c.set.vars {
					out[v] = true
				}
			}
		}
	}
	return out
}

func (p *proc) fresh(hint string, s Sort) *Term {
	p.nconst++
	h := hint
	if i := strings.IndexByte(h, '@'); i > 0 && false {
		h = h[:i]
	}
	return mkConst(fmt.Sprintf("%s!%d", h, p.nconst), s)
}

func (p *proc) setIv(c *Term, iv ival) {
	if iv.lo != nil || iv.hi != nil {
		p.low.iv[c] = iv
	}
}

// passify turns the program into single-assignment facts per block.
func (p *proc) passify() {
	// topological order
	seen := map[*block]int{}
	var order []*block
	var visit func(b *block)
	visit = func(b *block) {
		if seen[b] != 0 {
			if seen[b] == 1 {
				panic("cycle in passive program of " + p.name)
			}
			return
		}
		seen[b] = 1
		for _, s := range b.succs {
			visit(s)
		}
		seen[b] = 2
		order = append(order, b)
	}
	visit(p.entry)
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	p.order = order
	initial := map[*Term]*Term{}
	init := func(v *Term) *Term {
		if c, ok := initial[v]; ok {
			return c
		}
		c := mkConst(v.Name+"!0", v.Sort)
		if iv, ok := p.ranges[v]; ok {
			p.setIv(c, iv)
		}
		initial[v] = c
		return c
	}
	for i, b := range order {
		b.order = i
		b.reach = true
		// live predecessors only
		var preds []*block
		for _, q := range b.preds {
			if q.reach {
				preds = append(preds, q)
			}
		}
		b.preds = preds
		b.in = map[*Term]*Term{}
		b.edgeF = map[*block][]*Term{}
		switch len(preds) {
		case 0:
		case 1:
			for k, v := range preds[0].out {
				b.in[k] = v
			}
		default:
			keys := map[*Term]bool{}
			for _, q := range preds {
				for k := range q.out {
					keys[k] = true
				}
			}
			var ks []*Term
			for k := range keys {
				ks = append(ks, k)
			}
			sortTerms(ks)
			for _, k := range ks {
				same := true
				var first *Term
				vals := make([]*Term, len(preds))
				for i, q := range preds {
					v, ok := q.out[k]
					if !ok {
						v = init(k)
					}
					vals[i] = v
					if first == nil {
						first = v
					} else if v != first {
						same = false
					}
				}
				if same {
					b.in[k] = first
					continue
				}
				c := p.fresh(k.Name, k.Sort)
				var iv ival
				ok := true
				for i, v := range vals {
					x := p.low.interval(v)
					if x.lo == nil || x.hi == nil {
						ok = false
					} else if i == 0 {
						iv = x
					} else if ok {
						iv = ival{bmin(iv.lo, x.lo), bmax(iv.hi, x.hi)}
					}
					b.edgeF[preds[i]] = append(b.edgeF[preds[i]], mkEq(c, v))
				}
				if !ok {
					iv = p.ranges[k]
				}
				p.setIv(c, iv)
				b.in[k] = c
			}
		}
		cur := map[*Term]*Term{}
		for k, v := range b.in {
			cur[k] = v
		}
		memo := map[*Term]*Term{}
		look := func(v *Term) *Term {
			if c, ok := cur[v]; ok {
				return c
			}
			return init(v)
		}
		sub := func(t *Term) *Term { return p.low.lower(subst(t, look, memo)) }
		def := func(v, e *Term) {
			iv := p.low.interval(e)
			if simpleTerm(e) {
				cur[v] = e
			} else {
				c := p.fresh(v.Name, v.Sort)
				if iv.lo == nil || iv.hi == nil {
					iv = p.ranges[v]
				}
				p.setIv(c, iv)
				b.facts = append(b.facts, fact{t: app("=", SBool, c, e), def: true})
				cur[v] = c
			}
			memo = map[*Term]*Term{}
		}
		hav := func(v *Term) {
			c := p.fresh(v.Name, v.Sort)
			if iv, ok := p.ranges[v]; ok {
				p.setIv(c, iv)
			}
			cur[v] = c
			memo = map[*Term]*Term{}
		}
		for _, c := range b.cmds {
			switch c.kind {
			case cAssign:
				def(c.v, sub(c.e))
			case cHavoc:
				hav(c.v)
			case cHavocSet:
				var ks []*Term
				for v := range c.set.vars {
					ks = append(ks, v)
				}
				sortTerms(ks)
				for _, v := range ks {
					hav(v)
				}
			case cSnap:
				vals := make([]*Term, len(c.snap.pairs))
				for i, pr := range c.snap.pairs {
					vals[i] = look(pr[1])
				}
				for i, pr := range c.snap.pairs {
					cur[pr[0]] = vals[i]
				}
				memo = map[*Term]*Term{}
			case cAssume:
				e := sub(c.e)
				if e != tTrue {
					b.facts = append(b.facts, fact{t: e})
					p.refine(e)
				}
			case cFrame:
				for _, t := range c.frame() {
					e := sub(t)
					if e != tTrue {
						b.facts = append(b.facts, fact{t: e})
					}
				}
			case cAssert:
				g := sub(c.e)
				c.ob.Goal = g
				c.ob.blk = b
				c.ob.idx = len(b.facts)
				c.ob.proc = p
				b.facts = append(b.facts, fact{t: g, ob: c.ob})
			}
		}
		b.out = cur
		// immediate dominator
		if len(preds) > 0 {
			d := preds[0]
			for _, q := range preds[1:] {
				x, y := d, q
				for x != y {
					for x.order > y.order {
						x = x.idom
					}
					for y.order > x.order {
						y = y.idom
					}
				}
				d = x
			}
			b.idom = d
		}
	}
}

// refine narrows nothing globally (constants are shared between paths); kept
// for documentation: path facts are left to the solver.
func (p *proc) refine(e *Term) {}

func simpleTerm(t *Term) bool {
	switch t.Op {
	case "const", "int", "true", "false", "bound", "raw":
		return true
	case "mkslice":
		for _, a := range t.Args {
			if !simpleTerm(a) && !(a.Op == "+" && simpleTerm(a.Args[0]) && simpleTerm(a.Args[1])) {
				return false
			}
		}
		return true
	case "constarr":
		return simpleTerm(t.Args[0])
	case "+", "-":
		for _, a := range t.Args {
			if !(a.Op == "const" || a.Op == "int") {
				return false
			}
		}
		return true
	}
	return strings.HasPrefix(t.Op, "mk_") && len(t.Args) <= 8 && allSimple(t.Args) || len(t.Args) == 0
}

func allSimple(ts []*Term) bool {
	for _, a := range ts {
		if !simpleTerm(a) {
			return false
		}
	}
	return true
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].Name < ts[j-1].Name; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// hyps returns the hypotheses of an obligation, over the whole DAG.
func (o *Obligation) hyps() []*Term {
	anc := map[*block]bool{}
	var up func(b *block)
	up = func(b *block) {
		if anc[b] {
			return
		}
		anc[b] = true
		for _, q := range b.preds {
			up(q)
		}
	}
	up(o.blk)
	dom := map[*block]bool{}
	for b := o.blk; b != nil; b = b.idom {
		dom[b] = true
	}
	reach := func(b *block) *Term {
		if dom[b] {
			return tTrue
		}
		return mkConst(fmt.Sprintf("reach!%d", b.id), SBool)
	}
	var out []*Term
	for _, b := range o.proc.order {
		if !anc[b] {
			continue
		}
		r := reach(b)
		// edges
		if len(b.preds) == 1 {
			if !dom[b.preds[0]] || r != tTrue {
				out = append(out, mkImp(r, reach(b.preds[0])))
			}
		} else if len(b.preds) > 1 {
			var es []*Term
			for _, q := range b.preds {
				e := mkConst(fmt.Sprintf("edge!%d!%d", q.id, b.id), SBool)
				es = append(es, e)
				out = append(out, mkImp(e, reach(q)))
				for _, f := range b.edgeF[q] {
					out = append(out, mkImp(e, f))
				}
			}
			out = append(out, mkImp(r, mkOr(es...)))
		}
		fs := b.facts
		if b == o.blk {
			fs = fs[:o.idx]
		}
		for _, f := range fs {
			if f.ob != nil && f.ob.noFact {
				continue
			}
			if f.def {
				out = append(out, f.t) // definitions need no guard
				continue
			}
			out = append(out, mkImp(r, f.t))
		}
	}
	return append(out, o.Extra...)
}

// pathHyps enumerates the paths to the obligation (at most max) and returns
// the hypotheses of each; ok is false if there are more.
func (o *Obligation) pathHyps(max int) (res [][]*Term, ok bool) {
	var path []*block
	ok = true
	var rec func(b *block)
	rec = func(b *block) {
		if !ok {
			return
		}
		path = append(path, b)
		if len(b.preds) == 0 {
			if len(res) >= max {
				ok = false
			} else {
				var out []*Term
				for i := len(path) - 1; i >= 0; i-- {
					x := path[i]
					if i < len(path)-1 {
						out = append(out, x.edgeF[path[i+1]]...)
					}
					fs := x.facts
					if x == o.blk {
						fs = fs[:o.idx]
					}
					for _, f := range fs {
						if f.ob != nil && f.ob.noFact {
							continue
						}
						out = append(out, f.t)
					}
				}
				out = append(out, o.Extra...)
				res = append(res, out)
			}
		} else {
			for _, q := range b.preds {
				rec(q)
			}
		}
		path = path[:len(path)-1]
	}
	rec(o.blk)
	return res, ok
}

var bigZero = big.NewInt(0)
