package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "repository")
	pat := flag.String("pkg", "./lens", "package")
	only := flag.String("func", "", "verify only this function")
	to := flag.Duration("t", 10*time.Second, "timeout per obligation")
	verbose := flag.Bool("v", false, "print json")
	flag.Parse()
	t0 := time.Now()
	p, err := loadProg(*repo, *pat)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	for _, f := range flag.Args() {
		sp := newSpec()
		if err := sp.load(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, l := range sp.lemmas {
			if *only != "" && *only != "lemma "+l.Name {
				continue
			}
			r := verifyLemma(p, sp, l, *to)
			report(r, *verbose)
		}
		var wg sync.WaitGroup
		res := make([]*FuncResult, len(sp.order))
		for i, ct := range sp.order {
			if !ct.Verify || (*only != "" && ct.Name != *only) {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[i] = verifyFunc(p, sp, ct, *to)
			}()
		}
		wg.Wait()
		for _, r := range res {
			if r != nil {
				report(r, *verbose)
			}
		}
	}
	fmt.Fprintf(os.Stderr, "total %v\n", time.Since(t0))
}

func report(r *FuncResult, v bool) {
	fmt.Printf("%-12s %-45s obl %d/%d inv %d/%d rounds %d loops %d solver %dms %v %s\n", r.Status, r.Func, r.Discharged, r.Obligations, r.Invariants, r.InvTried, r.Rounds, r.Loops, r.SolverMs, r.Solvers, r.Reason)
	for _, f := range r.FailedRes {
		fmt.Println("    FAIL", f)
	}
	if r.Cex != nil {
		fmt.Println("    cex", r.Cex)
	}
	if v {
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
	}
}
