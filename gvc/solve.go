package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Axiom is a prelude axiom, included when all its guard symbols occur.
type Axiom struct {
	Name  string
	T     *Term
	Guard []string // symbols that must all be present
	From  string   // where it comes from (builtin, contract file)
}

type funDecl struct {
	name string
	args []Sort
	res  Sort
}

var (
	preludeAxioms []*Axiom
	funDecls      = map[string]funDecl{}
	dtDecls       []string            // datatype declarations in order
	dtOps         = map[string]bool{} // constructor and selector names
	dtSorts       = map[string]int{}
	sortDecls     = []Sort{SStr, SF64}
)

func declFun(name string, res Sort, args ...Sort) {
	if _, ok := funDecls[name]; ok {
		return
	}
	funDecls[name] = funDecl{name, args, res}
}

func addAxiom(name string, t *Term, guard ...string) {
	preludeAxioms = append(preludeAxioms, &Axiom{Name: name, T: t, Guard: guard})
}

var builtinOps = map[string]bool{
	"true": true, "false": true, "not": true, "and": true, "or": true, "=>": true, "=": true, "ite": true,
	"+": true, "-": true, "*": true, "/": true, "<": true, "<=": true, ">": true, ">=": true, "div": true, "mod": true,
	"select": true, "store": true, "constarr": true, "forall": true, "exists": true, "int": true, "bound": true,
	"const": true, "distinct": true, "raw": true, "to_real": true, "to_int": true, "is_int": true, "abs": true,
	"mkslice": true, "s_arr": true, "s_off": true, "s_len": true, "s_cap": true,
}

// queryText builds the SMT-LIB query asking for hyps and not goal.
func queryText(hyps []*Term, goal *Term, logic string, getModel []*Term) string {
	ops := map[string]bool{}
	consts := map[string]Sort{}
	seen := map[*Term]bool{}
	var body strings.Builder
	for _, h := range hyps {
		if h == tTrue {
			continue
		}
		symbols(h, ops, consts, seen)
	}
	symbols(goal, ops, consts, seen)
	used := map[*Axiom]bool{}
	for {
		ch := false
		for _, a := range preludeAxioms {
			if used[a] {
				continue
			}
			all := true
			for _, g := range a.Guard {
				if _, isConst := consts[g]; !ops[g] && !isConst {
					all = false
				}
			}
			if all {
				used[a] = true
				ch = true
				symbols(a.T, ops, consts, seen)
			}
		}
		if !ch {
			break
		}
	}
	var sb strings.Builder
	if logic != "" {
		fmt.Fprintf(&sb, "(set-logic %s)\n", logic)
	}
	for _, s := range sortDecls {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	sb.WriteString("(declare-datatypes ((Slice 0)) (((mkslice (s_arr Int) (s_off Int) (s_len Int) (s_cap Int)))))\n")
	for _, d := range dtDecls {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	for _, o := range sortedKeys(ops) {
		if builtinOps[o] || dtOps[o] || strings.HasPrefix(o, "bv") || strings.HasPrefix(o, "(_") || o == "concat" {
			continue
		}
		d, ok := funDecls[o]
		if !ok {
			panic("undeclared function symbol: " + o)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (", symQuote(o))
		for i, a := range d.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", d.res)
	}
	for _, c := range sortedKeys(consts) {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symQuote(c), consts[c])
	}
	for _, a := range preludeAxioms {
		if used[a] {
			sb.WriteString("(assert ")
			a.T.print(&sb)
			sb.WriteString(")\n")
		}
	}
	for _, h := range hyps {
		if h == tTrue {
			continue
		}
		body.WriteString("(assert ")
		h.print(&body)
		body.WriteString(")\n")
	}
	body.WriteString("(assert (not ")
	goal.print(&body)
	body.WriteString("))\n(check-sat)\n")
	for _, m := range getModel {
		if _, ok := consts[m.Name]; ok {
			fmt.Fprintf(&body, "(get-value (%s))\n", m)
		}
	}
	return sb.String() + body.String()
}

type solverCfg struct {
	name string
	cmd  string
	args func(secs int) []string
	pre  string
}

var solvers = map[string]solverCfg{
	"z3neweq": {"z3 5.3.2 (solve-eqs)", "z3-new", func(s int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", "smt.random_seed=1"}
	}, ""},
	"z3new": {"z3 5.3.2", "z3-new", func(s int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", "smt.solve_eqs=false", "smt.random_seed=1"}
	}, ""},
	"z3newd": {"z3 5.3.2 (mbqi)", "z3-new", func(s int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-T:%d", s), "smt.random_seed=2"}
	}, ""},
	"z3": {"z3 4.8.12", "z3", func(s int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", "smt.random_seed=3"}
	}, ""},
	"z3alt": {"z3 5.3.2 (arith 2)", "z3-new", func(s int) []string {
		return []string{"-smt2", "-in", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", "smt.solve_eqs=false", "smt.arith.solver=2", "smt.random_seed=7"}
	}, ""},
	"cvc5": {"cvc5 1.1.2", "cvc5", func(s int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "-q", "--full-saturate-quant"}
	}, "(set-logic ALL)\n"},
}

var solverRuns int64
var solverNanos int64
var procSem = make(chan struct{}, 9)

func runSolver(ctx context.Context, cfg solverCfg, text string, secs int) (res string, out string) {
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled", ""
	}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return "cancelled", ""
	}
	c, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cm := exec.CommandContext(c, "sh", append([]string{"-c", `ulimit -v 3500000; exec "$0" "$@"`, cfg.cmd}, cfg.args(secs)...)...)
	cm.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cm.Stdin = strings.NewReader(cfg.pre + text)
	var ob bytes.Buffer
	cm.Stdout = &ob
	cm.Stderr = &ob
	t0 := time.Now()
	cm.Run()
	atomic.AddInt64(&solverRuns, 1)
	atomic.AddInt64(&solverNanos, int64(time.Since(t0)))
	out = ob.String()
	for _, ln := range strings.Split(out, "\n") {
		ln = strings.TrimSpace(ln)
		switch ln {
		case "unsat", "sat", "unknown", "timeout":
			return ln, out
		}
		if strings.HasPrefix(ln, "(error") {
			return "error", out
		}
	}
	return "timeout", out
}

type portfolio struct {
	quick    int // seconds for the first attempt
	full     int // seconds for the parallel attempts
	dump     string
	nopath   bool
	deadline time.Time // nothing is attempted after it
}

// prove decides one query; it returns proved, and the best answer otherwise.
func (pf portfolio) prove(hyps []*Term, goal *Term, tag string) (ok bool, solver string, detail string) {
	termMu.Lock()
	hyps = dropSuperseded(hyps)
	text := queryText(hyps, goal, "", nil)
	termMu.Unlock()
	if pf.dump != "" {
		os.WriteFile(filepath.Join(pf.dump, tag+".smt2"), []byte(text), 0644)
	}
	ctx := context.Background()
	type ans struct{ n, r, out string }
	// the first attempt; a second configuration joins when it takes long
	qctx, qcancel := context.WithCancel(ctx)
	qch := make(chan ans, 2)
	try := func(n string) {
		r, out := runSolver(qctx, solvers[n], text, pf.quick)
		qch <- ans{n, r, out}
	}
	go try("z3new")
	var r, out string
	started, left := false, 1
	tm := time.After(700 * time.Millisecond)
	for left > 0 {
		select {
		case a := <-qch:
			left--
			if a.r == "unsat" {
				qcancel()
				return true, solvers[a.n].name, ""
			}
			if a.n == "z3new" {
				r, out = a.r, a.out
				if r == "sat" || r == "error" {
					left = 0
				}
			}
			if !started && left > 0 || !started && r != "sat" && r != "error" {
				started = true
				left++
				go try("z3alt")
			}
		case <-tm:
			if !started {
				started = true
				left++
				go try("z3alt")
			}
		}
	}
	qcancel()
	if r == "error" {
		return false, "", "solver error: " + firstLines(out, 5) + " in query " + tag
	}
	best := "z3 5.3.2: " + r
	names := []string{"cvc5", "z3", "z3newd", "z3alt", "z3neweq"}
	if pf.full <= 0 {
		return false, "", best
	}
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan ans, len(names)+1)
	for _, n := range names {
		go func(n string) {
			r, out := runSolver(cctx, solvers[n], text, pf.full)
			ch <- ans{n, r, out}
		}(n)
	}
	// without the quantified hypotheses: fewer facts, so a proof still counts,
	// and arithmetic is often decided only then
	go func() {
		r, out := runSolver(cctx, solvers["z3new"], groundText(text), pf.full)
		if r != "unsat" {
			r = "unknown"
		}
		ch <- ans{"z3new", r, out}
	}()
	for i := 0; i <= len(names); i++ {
		a := <-ch
		if a.r == "unsat" {
			return true, solvers[a.n].name, ""
		}
		best += "; " + solvers[a.n].name + ": " + a.r
		if a.r == "error" {
			best += " " + firstLines(a.out, 2)
		}
		if a.r == "sat" {
			// a genuine model: no other solver can prove it
			return false, "", best
		}
	}
	return false, "", best
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

var termMu sync.Mutex // guards the term table while solving in parallel

func splitGoal(g *Term) []*Term {
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, a := range splitGoal(g.Args[1]) {
			out = append(out, mkImp(g.Args[0], a))
		}
		return out
	case "forall":
		var out []*Term
		for _, a := range splitGoal(g.Args[0]) {
			out = append(out, mkForall(g.BV, a))
		}
		return out
	}
	return []*Term{g}
}

// discharge proves an obligation: whole DAG first, then split goals and paths.
func (pf portfolio) discharge(o *Obligation) {
	t0 := time.Now()
	defer func() { o.Secs = time.Since(t0).Seconds() }()
	if o.Goal == nil { // unreachable in the passive program
		o.Status, o.Solver = "proved", "unreachable"
		return
	}
	if o.Goal == tTrue {
		o.Status, o.Solver = "proved", "trivial"
		return
	}
	if !pf.deadline.IsZero() && time.Now().After(pf.deadline) {
		o.Status, o.Detail = "not attempted", "the time budget of this run was used up"
		return
	}
	termMu.Lock()
	h := o.hyps()
	goals := splitGoal(o.Goal)
	termMu.Unlock()
	tag := sanitize(o.Name()) + fmt.Sprintf("_%d_%d", o.blk.id, o.idx)
	o.Status = "proved"
	used := map[string]bool{}
	for gi, g := range goals {
		qpf := pf
		qpf.full = 0
		ok, s, det := qpf.prove(h, g, fmt.Sprintf("%s.g%d", tag, gi))
		if strings.HasPrefix(det, "solver error") {
			o.Status, o.Detail = "error", det
			return
		}
		if !ok && pf.nopath {
			o.Status, o.Detail = "failed", det
			return
		}
		if !ok {
			termMu.Lock()
			ph, all := o.pathHyps(48)
			termMu.Unlock()
			if all && len(ph) > 1 {
				ok = true
				bad := 0
				var mu sync.Mutex
				var wg sync.WaitGroup
				for pi, hh := range ph {
					wg.Add(1)
					go func(pi int, hh []*Term) {
						defer wg.Done()
						mu.Lock()
						stop := !ok
						mu.Unlock()
						if stop {
							return
						}
						ok1, s1, d1 := pf.prove(hh, g, fmt.Sprintf("%s.g%d.p%d", tag, gi, pi))
						mu.Lock()
						defer mu.Unlock()
						if ok1 {
							used[s1] = true
						} else {
							ok = false
							bad++
							det = fmt.Sprintf("path %d: %s", pi, d1)
						}
					}(pi, hh)
				}
				wg.Wait()
				s = ""
			} else {
				fpf := pf
				ok, s, det = fpf.prove(h, g, fmt.Sprintf("%s.g%d", tag, gi))
			}
		}
		if !ok {
			o.Status = "failed"
			o.Detail = det
			if len(goals) > 1 {
				o.Detail = fmt.Sprintf("conjunct %d of %d: %s", gi+1, len(goals), det)
			}
			termMu.Lock()
			gs := g.String()
			termMu.Unlock()
			if len(gs) > 1500 {
				gs = gs[:1500] + "..."
			}
			o.Detail += "\n    goal: " + gs
			return
		}
		if s != "" {
			used[s] = true
		}
	}
	o.Solver = strings.Join(sortedKeys(used), ", ")
}

// cover checks that hypotheses are not contradictory: a solver must not prove
// false quickly.
func (pf portfolio) cover(o *Obligation) bool {
	termMu.Lock()
	h := o.hyps()
	text := queryText(h, tFalse, "", nil)
	termMu.Unlock()
	if pf.dump != "" {
		os.WriteFile(filepath.Join(pf.dump, "cover_"+sanitize(o.Name())+fmt.Sprintf("_%d_%d", o.blk.id, o.idx)+".smt2"), []byte(text), 0644)
	}
	if !pf.deadline.IsZero() && time.Now().After(pf.deadline) {
		return true
	}
	r, _ := runSolver(context.Background(), solvers["z3new"], text, pf.quick)
	return r != "unsat"
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	r := sb.String()
	if len(r) > 120 {
		r = r[:120]
	}
	return r
}

func sortObs(obs []*Obligation) {
	sort.SliceStable(obs, func(i, j int) bool { return obs[i].Name() < obs[j].Name() })
}

// dropSuperseded leaves out the machine-arithmetic definition of a constant
// when an assertion proved later says what it is without wrap-around. Leaving
// out a hypothesis is always sound.
func dropSuperseded(hyps []*Term) []*Term {
	clean := map[*Term]bool{}
	for _, h := range hyps {
		if h.Op == "=" && len(h.Args) == 2 && h.Args[0].Op == "const" && !isInt(h.Args[1]) && !hasMod(h.Args[1], map[*Term]bool{}) {
			clean[h.Args[0]] = true
		}
	}
	if len(clean) == 0 {
		return hyps
	}
	var out []*Term
	for _, h := range hyps {
		if h.Op == "=" && len(h.Args) == 2 && h.Args[0].Op == "const" && clean[h.Args[0]] && hasMod(h.Args[1], map[*Term]bool{}) {
			continue
		}
		out = append(out, h)
	}
	return out
}

func hasMod(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "mod" {
		return true
	}
	for _, a := range t.Args {
		if hasMod(a, seen) {
			return true
		}
	}
	return false
}

// groundText leaves out the assertions with quantifiers of a query, except
// the last one, which is the negated goal.
func groundText(text string) string {
	ls := strings.Split(strings.TrimRight(text, "\n"), "\n")
	last := -1
	for i, l := range ls {
		if strings.HasPrefix(l, "(assert ") {
			last = i
		}
	}
	var sb strings.Builder
	for i, l := range ls {
		if i != last && strings.HasPrefix(l, "(assert ") && (strings.Contains(l, "(forall ") || strings.Contains(l, "(exists ")) {
			continue
		}
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	return sb.String()
}
