package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// One property in /verif/checks.json.
type checkCfg struct {
	Functions []string     `json:"functions"` // contract keys, short package path + "." + name
	Lemmas    []string     `json:"lemmas"`
	NoClosure bool         `json:"no_closure"`
	Harness   []harnessCfg `json:"harness"`
	Level     string       `json:"level"`
	Technique string       `json:"technique"`
	Note      string       `json:"note"`
	Bounded   []string     `json:"bounded"` // functions checked only by bounded execution
	Assume    []string     `json:"assumptions"`
}

type harnessCfg struct {
	File string `json:"file"` // in /verif/harness
	Pkg  string `json:"pkg"`  // package directory in the repository
	Run  string `json:"run"`
	Race bool   `json:"race"`
	Secs int    `json:"secs"` // budget of a quiet quick run
}

type harnessOut struct {
	Cfg        harnessCfg
	Violations []string
	Cases      int
	Distinct   int
	Samples    []string
	Notes      []string
	Compiled   bool
	Secs       float64
}

func checkMain(args []string) {
	root := "/verif"
	repo := "/repo"
	id := ""
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-root":
			i++
			root = args[i]
		case "-repo":
			i++
			repo = args[i]
		default:
			id = args[i]
		}
	}
	os.Exit(runCheck(root, repo, id))
}

type checkRun struct {
	root, repo, id string
	tier           string
	seed           int64
	cfg            *checkCfg
	t0             time.Time
	results        []*Result
	failed         []string // failed obligations, with detail
	failNames      []string
	harness        []*harnessOut
	known          []finding
	printedKnown   map[string]bool
	clientNotes    []string
	renamed        []string
}

type finding struct{ kind, id, key, text string }

func runCheck(root, repo, id string) (code int) {
	cr := &checkRun{root: root, repo: repo, id: id, t0: time.Now(), tier: os.Getenv("VERIF_TIER"), printedKnown: map[string]bool{}}
	if cr.tier == "" {
		cr.tier = "quick"
	}
	cr.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if cr.seed == 0 {
		cr.seed = 1
	}
	b, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	all := map[string]*checkCfg{}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	cr.cfg = all[id]
	if cr.cfg == nil {
		fmt.Println("no such property", id)
		return 2
	}
	cr.loadFindings()
	func() {
		defer func() {
			if r := recover(); r != nil {
				cr.fail("prover", fmt.Sprintf("the verifier stopped: %v\n%s", r, debug.Stack()))
			}
		}()
		cr.prove()
	}()
	cr.runHarness(len(cr.failed) > 0)
	return cr.report()
}

func (cr *checkRun) loadFindings() {
	b, _ := os.ReadFile(filepath.Join(cr.root, "known_findings.txt"))
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, ln := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(ln)); m != nil {
			cr.known = append(cr.known, finding{"finding", m[1], m[2], m[3]})
		}
	}
}

// isKnown: the violation with this key is listed.
func (cr *checkRun) isKnown(key string) bool {
	for _, k := range cr.known {
		if k.id == cr.id && k.key == key {
			if !cr.printedKnown[key] {
				cr.printedKnown[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", cr.id, k.text)
			}
			return true
		}
	}
	return false
}

func (cr *checkRun) fail(name, detail string) {
	cr.failNames = append(cr.failNames, name)
	cr.failed = append(cr.failed, name+"\n"+detail)
}

func fullSpecKey(k string) string {
	if strings.HasPrefix(k, "github.com/") {
		return k
	}
	if strings.HasPrefix(k, "rothko.") {
		return modPath + strings.TrimPrefix(k, "rothko")
	}
	return modPath + "/" + k
}

func (cr *checkRun) prove() {
	if len(cr.cfg.Functions) == 0 && len(cr.cfg.Lemmas) == 0 {
		return
	}
	repoDir = cr.repo
	clientDir = filepath.Join(cr.root, "specs", "clients")
	w, err := loadWorld(cr.repo)
	if err != nil {
		cr.fail("load", "the repository does not load: "+err.Error())
		return
	}
	for _, e := range w.renamed {
		cr.renamed = append(cr.renamed, e)
	}
	for _, e := range w.clientErrs {
		cr.clientNotes = append(cr.clientNotes, e)
	}
	v := &verifier{w: w, sp: newSpecs()}
	if err := v.sp.loadDir(filepath.Join(cr.root, "specs"), w); err != nil {
		cr.fail("contracts", "the contracts do not fit the source: "+err.Error())
		return
	}
	if err := v.loadAxioms(); err != nil {
		cr.fail("contracts", "the contracts do not fit the source: "+err.Error())
		return
	}
	pf := portfolio{quick: 5, full: 15, deadline: time.Now().Add(270 * time.Second)}
	if cr.tier == "thorough" {
		pf = portfolio{quick: 10, full: 60, deadline: time.Now().Add(600 * time.Second)}
	}
	var work []string
	seen := map[string]bool{}
	var push func(k string)
	push = func(k string) {
		if !seen[k] {
			seen[k] = true
			work = append(work, k)
		}
	}
	for _, k := range cr.cfg.Functions {
		if v.sp.contracts[fullSpecKey(k)] == nil {
			cr.fail(k, "no contract for "+k)
			continue
		}
		push(fullSpecKey(k))
	}
	for _, k := range cr.cfg.Lemmas {
		push("lemma " + fullSpecKey(k))
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for len(work) > 0 {
		batch := work
		work = nil
		for _, k := range batch {
			var do func() *Result
			if strings.HasPrefix(k, "lemma ") {
				var lm *Lemma
				for _, l := range v.sp.lemmaOrd {
					if l.PkgPath+"."+l.Name == strings.TrimPrefix(k, "lemma ") {
						lm = l
					}
				}
				if lm == nil {
					cr.fail(k, "no such lemma")
					continue
				}
				if lm.Axiom {
					continue
				}
				do = func() *Result { return v.proveLemma(lm, pf) }
			} else {
				ct := v.sp.contracts[k]
				if ct == nil || ct.Extern || ct.Trusted != "" {
					continue
				}
				do = func() *Result { return v.verifyFunc(ct, pf) }
			}
			wg.Add(1)
			sem <- struct{}{}
			go func(k string) {
				defer wg.Done()
				defer func() { <-sem }()
				var r *Result
				func() {
					defer func() {
						if x := recover(); x != nil {
							r = &Result{Name: k, Err: fmt.Sprintf("internal: %v", x)}
						}
					}()
					r = do()
				}()
				mu.Lock()
				cr.results = append(cr.results, r)
				mu.Unlock()
			}(k)
		}
		wg.Wait()
		if cr.cfg.NoClosure {
			break
		}
		for _, r := range cr.results {
			for _, u := range r.Used {
				push(u)
			}
		}
	}
	sort.Slice(cr.results, func(i, j int) bool { return cr.results[i].Name < cr.results[j].Name })
	for _, r := range cr.results {
		if r.Err != "" {
			cr.fail(r.Name+": translation", r.Err+"\n"+strings.Join(cr.clientNotes, "\n"))
		}
		for _, x := range r.Vacuous {
			cr.fail(r.Name+": vacuous", x)
		}
		for _, o := range r.Obs {
			if o.Status != "proved" {
				if cr.isKnown(o.Name()) {
					continue
				}
				cr.fail(o.Name(), "at "+o.Pos+" ("+o.Status+")\n"+o.Detail)
			}
		}
	}
}

func (cr *checkRun) runHarness(failed bool) {
	for _, h := range cr.cfg.Harness {
		o := cr.oneHarness(h, failed)
		cr.harness = append(cr.harness, o)
	}
}

var pkgClauseRE = regexp.MustCompile(`(?m)^package (\w+)`)

func (cr *checkRun) oneHarness(h harnessCfg, failed bool) *harnessOut {
	t0 := time.Now()
	out := &harnessOut{Cfg: h}
	defer func() { out.Secs = time.Since(t0).Seconds() }()
	secs := h.Secs
	if secs == 0 {
		secs = 6
	}
	if failed {
		secs *= 4
	}
	if cr.tier == "thorough" {
		secs = 60
	}
	tmp, err := os.MkdirTemp("", "verif-h-")
	if err != nil {
		out.Notes = append(out.Notes, err.Error())
		return out
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	repl[filepath.Join(cr.repo, h.Pkg, "zz_verif_"+strings.ReplaceAll(h.File, "/", "_"))] = filepath.Join(cr.root, "harness", h.File)
	// the shared helpers, under this harness's package name
	src, err := os.ReadFile(filepath.Join(cr.root, "harness", h.File))
	if err != nil {
		out.Notes = append(out.Notes, err.Error())
		return out
	}
	if m := pkgClauseRE.FindSubmatch(src); m != nil {
		hb, _ := os.ReadFile(filepath.Join(cr.root, "harness", "vh.go.txt"))
		hb = pkgClauseRE.ReplaceAll(hb, []byte("package "+string(m[1])))
		hp := filepath.Join(tmp, "vh_test.go")
		os.WriteFile(hp, hb, 0644)
		repl[filepath.Join(cr.repo, h.Pkg, "zz_verif_vh_test.go")] = hp
	}
	// the repository's own test files are left out: they are not under test
	ents, _ := filepath.Glob(filepath.Join(cr.repo, h.Pkg, "*_test.go"))
	for _, e := range ents {
		repl[e] = ""
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovp := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovp, ov, 0644)
	bin := filepath.Join(tmp, "h.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovp, "-o", bin}
	if h.Race {
		args = append(args, "-race")
	}
	args = append(args, "./"+h.Pkg)
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cm := exec.CommandContext(ctx, "go", args...)
	cm.Dir = cr.repo
	cm.Env = env
	if b, err := cm.CombinedOutput(); err != nil {
		out.Notes = append(out.Notes, "the harness does not compile against this source: "+firstLines(string(b), 12))
		fmt.Println("note:", out.Notes[len(out.Notes)-1])
		return out
	}
	out.Compiled = true
	work := filepath.Join(tmp, "work")
	os.MkdirAll(work, 0777)
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(secs*2+60)*time.Second)
	defer cancel2()
	cm = exec.CommandContext(ctx2, bin, "-test.run", h.Run, "-test.v", "-test.count=1")
	cm.Dir = work
	cm.Env = append(env, "VERIF_BUDGET="+strconv.Itoa(secs), "VERIF_SEED="+strconv.FormatInt(cr.seed, 10), "VERIF_TIER="+cr.tier, "VERIF_WORK="+work, "TMPDIR="+work)
	cm.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	var ob bytes.Buffer
	cm.Stdout, cm.Stderr = &ob, &ob
	err = cm.Run()
	txt := ob.String()
	timedOut := ctx2.Err() != nil
	for _, ln := range strings.Split(txt, "\n") {
		ln = strings.TrimSpace(ln)
		switch {
		case strings.HasPrefix(ln, "VERIF-VIOLATION "):
			rest := strings.TrimPrefix(ln, "VERIF-VIOLATION ")
			key, msg, _ := strings.Cut(rest, " ")
			if !cr.isKnown(key) {
				out.Violations = append(out.Violations, key+" "+msg)
			}
		case strings.HasPrefix(ln, "VERIF-CASES "):
			var a, b int
			fmt.Sscanf(ln, "VERIF-CASES %d %d", &a, &b)
			out.Cases += a
			out.Distinct += b
		case strings.HasPrefix(ln, "VERIF-SAMPLE "):
			if len(out.Samples) < 6 {
				out.Samples = append(out.Samples, strings.TrimPrefix(ln, "VERIF-SAMPLE "))
			}
		}
	}
	if err != nil && len(out.Violations) == 0 && !timedOut {
		// the process died: a crash of the code under test counts, a test
		// that only complains about its environment does not
		for _, m := range []string{"fatal error: ", "panic: ", "WARNING: DATA RACE", "SIGSEGV", "SIGBUS"} {
			if i := strings.Index(txt, m); i >= 0 && !strings.Contains(txt, "test timed out") && !strings.Contains(txt, "out of memory") && !strings.Contains(txt, "VERIF-ENV") {
				e := i + 3000
				if e > len(txt) {
					e = len(txt)
				}
				if last := lastLine(txt[:i], "VERIF-CASE "); !cr.isKnown("crash") {
					out.Violations = append(out.Violations, "crash the code under test crashed; last case: "+last+"\n"+txt[i:e])
				}
				break
			}
		}
	}
	if timedOut {
		out.Notes = append(out.Notes, "the harness run reached its time limit")
	}
	return out
}

func lastLine(s, prefix string) string {
	ls := strings.Split(s, "\n")
	for i := len(ls) - 1; i >= 0; i-- {
		if strings.HasPrefix(strings.TrimSpace(ls[i]), prefix) {
			return ls[i]
		}
	}
	return ""
}

func (cr *checkRun) report() int {
	nob, ndis, ntriv := 0, 0, 0
	bySolver := map[string]int{}
	byKind := map[string]int{}
	var fns, lemmas, notes []string
	trusted := map[string]bool{}
	covers := 0
	var psecs float64
	for _, e := range cr.renamed {
		notes = append(notes, "renamed back: "+e)
	}
	for _, r := range cr.results {
		if strings.HasPrefix(r.Name, "lemma ") {
			lemmas = append(lemmas, shortName(r.Name))
		} else {
			fns = append(fns, shortName(r.Name))
		}
		covers += r.Covers
		psecs += r.Secs
		for _, o := range r.Obs {
			nob++
			byKind[o.Kind]++
			if o.Status == "proved" {
				ndis++
				switch o.Solver {
				case "trivial", "unreachable":
					ntriv++
					bySolver["simplifier ("+o.Solver+")"]++
				default:
					bySolver[o.Solver]++
				}
			}
		}
		for _, a := range r.Assume {
			trusted[shortName(a)] = true
		}
		for _, n := range r.Notes {
			notes = append(notes, shortName(r.Name)+": "+n)
		}
	}
	inl := map[string]bool{}
	for _, r := range cr.results {
		for _, i := range r.Inlined {
			inl[shortName(i)] = true
		}
	}
	var viol []string
	var hev []map[string]interface{}
	cases, dist := 0, 0
	var samples []string
	for _, h := range cr.harness {
		for _, x := range h.Violations {
			viol = append(viol, h.Cfg.File+": "+x)
		}
		cases += h.Cases
		dist += h.Distinct
		samples = append(samples, h.Samples...)
		hev = append(hev, map[string]interface{}{"harness": h.Cfg.File, "compiled": h.Compiled, "cases": h.Cases, "notes": h.Notes, "seconds": round2(h.Secs)})
	}
	code := 0
	replay := ""
	if len(viol) > 0 || len(cr.failed) > 0 {
		code = 1
		dir := filepath.Join(cr.root, "replays")
		os.MkdirAll(dir, 0755)
		replay = filepath.Join(dir, cr.id+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s, tier %s, seed %d\n\n", cr.id, cr.tier, cr.seed)
		if len(viol) > 0 {
			fmt.Fprintf(&sb, "FAILING INPUTS (run against the real code)\n")
			for _, x := range viol {
				fmt.Fprintf(&sb, "  %s\n", x)
			}
			sb.WriteString("\n")
		}
		if len(cr.failed) > 0 {
			fmt.Fprintf(&sb, "FAILED OBLIGATIONS\n")
			for _, x := range cr.failed {
				fmt.Fprintf(&sb, "  %s\n\n", x)
			}
		}
		for _, h := range cr.harness {
			for _, n := range h.Notes {
				fmt.Fprintf(&sb, "harness %s: %s\n", h.Cfg.File, n)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
	}
	tb := sortedKeys(trusted)
	tb = append(tb, baseAssumptions...)
	cov := map[string]interface{}{
		"functions_under_contract": fns,
		"lemmas_proved":            lemmas,
		"helpers_inlined":          sortedKeys(inl),
		"obligations":              nob,
		"discharged":               ndis,
		"obligations_by_kind":      byKind,
		"discharged_by":            bySolver,
		"trivially_discharged":     ntriv,
		"vacuity_covers":           covers,
		"solver_runs":              atomic.LoadInt64(&solverRuns),
		"solver_seconds":           round2(float64(atomic.LoadInt64(&solverNanos)) / 1e9),
		"checker_cmd":              "/verif/check " + cr.id,
		"trusted_base":             tb,
		"notes":                    notes,
		"failed_obligations":       cr.failNames,
		"bounded_only":             cr.cfg.Bounded,
		"bounded_runs":             hev,
	}
	if cases > 0 || cr.cfg.Level == "exploration" {
		cov["evaluations"] = cases
		cov["distinct_nontrivial"] = dist
		cov["rule"] = "bounded executions of the real code by the harness; never counted as proved: enumerated small inputs and seeded random ones compared with an independent oracle; a case is non-trivial when it reaches the oracle comparison"
		cov["samples"] = samples
	}
	if cr.cfg.Level == "other" {
		cov["explanation"] = cr.cfg.Note
	}
	ev := map[string]interface{}{
		"property": cr.id, "tier": cr.tier, "seed": cr.seed, "level": cr.cfg.Level, "coverage": cov,
		"assumptions": append(append([]string{}, cr.cfg.Assume...), tb...),
		"wall_s":      round2(time.Since(cr.t0).Seconds()), "violations": len(viol),
	}
	if len(viol) == 0 {
		ev["violations"] = len(cr.failed)
	}
	os.MkdirAll(filepath.Join(cr.root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(cr.root, "evidence", cr.id+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d functions under contract, %d lemmas, %d obligations, %d discharged; %d bounded cases; %.1fs\n", cr.id, len(fns), len(lemmas), nob, ndis, cases, time.Since(cr.t0).Seconds())
	for _, n := range cr.failNames {
		fmt.Println("  failed:", shortName(n))
	}
	for _, x := range viol {
		fmt.Println("  violation:", firstLines(x, 1))
	}
	if code == 1 {
		if len(viol) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", cr.id, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", cr.id, replay)
		}
	}
	return code
}

const modPath = "github.com/vivint/rothko"

var baseAssumptions = []string{
	"gvc's own translation of Go (loops cut by invariants, calls replaced by contracts) and its axioms for strings, slices and maps",
	"the solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 are right when they answer unsat",
	"slice and string lengths are below 2^47; memory is never exhausted; the Go compiler and runtime are correct",
	"goroutines share memory only through the locks and channels the contracts name (monitor discipline); everything else is checked as sequential code",
}

func shortName(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, modPath+"/", ""), modPath+".", "rothko.")
}

func round2(x float64) float64 { return float64(int(x*100+0.5)) / 100 }
