package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		checkMain(os.Args[2:])
		return
	}
	fn := flag.String("fn", "", "verify functions whose key contains this")
	lem := flag.String("lemma", "", "prove lemmas whose name contains this")
	verbose := flag.Bool("v", false, "list obligations")
	dump := flag.String("dump", "", "directory for queries")
	repo := flag.String("repo", "/repo", "repository")
	spec := flag.String("specs", "/verif/specs", "contract files")
	names := flag.Bool("names", false, "print the names of the source (specs/names.json)")
	quick := flag.Int("quick", 4, "first solver attempt, seconds")
	full := flag.Int("full", 20, "portfolio attempt, seconds")
	flag.Parse()
	repoDir = *repo
	clientDir = *spec + "/clients"
	if *names {
		clientDir = ""
	}
	w, err := loadWorld(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *names {
		b, _ := json.MarshalIndent(collectNames(w), "", " ")
		fmt.Println(string(b))
		return
	}
	for _, e := range w.renamed {
		fmt.Println("renamed:", e)
	}
	for _, e := range w.clientErrs {
		fmt.Println("client:", e)
	}
	v := &verifier{w: w, sp: newSpecs()}
	if err := v.sp.loadDir(*spec, w); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := v.loadAxioms(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	pf := portfolio{quick: *quick, full: *full, dump: *dump}
	bad := 0
	if *lem != "" || *fn == "" {
		for _, l := range v.sp.lemmaOrd {
			if l.Axiom || !strings.Contains(l.Name, *lem) {
				continue
			}
			r := v.proveLemma(l, pf)
			printResult(r, *verbose)
			if !r.ok() {
				bad++
			}
		}
	}
	if *fn != "" || *lem == "" {
		for _, k := range sortedKeys(v.sp.contracts) {
			c := v.sp.contracts[k]
			if c.Extern || c.Trusted != "" || !strings.Contains(k, *fn) {
				continue
			}
			r := v.verifyFunc(c, pf)
			printResult(r, *verbose)
			if !r.ok() {
				bad++
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
