package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// PropCfg is one entry of /verif/checks.json.
type PropCfg struct {
	Specs       []string `json:"specs"`
	Pkg         string   `json:"pkg"`
	Harness     []string `json:"harness"`
	HarnessPkg  string   `json:"harness_pkg"`
	TimeoutS    int      `json:"timeout_s"`
	BudgetS     int      `json:"budget_s"`
	Level       string   `json:"level"`
	Bounded     []string `json:"bounded"`
	Unverified  []string `json:"unverified"`
	Assumptions []string `json:"assumptions"`
	MinFuncs    int      `json:"min_funcs"`
	AsRoot      bool     `json:"as_root"`
}

type Finding struct {
	Kind     string `json:"kind"` // known | fixed
	Property string `json:"property"`
	Key      string `json:"key"` // specific harness case or obligation name
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type HFail struct {
	Key   string `json:"key"`
	Input string `json:"input"`
	Want  string `json:"want"`
	Got   string `json:"got"`
}

type HOut struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Fails       []HFail  `json:"fails"`
	Done        bool     `json:"done"`
}

type harnessRun struct {
	out      HOut
	buildErr string
	crash    string
	wallS    float64
	last     string
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	root := fs.String("root", "/verif", "verification directory")
	noProof := fs.Bool("noproof", false, "skip the proof (harness development)")
	noHarness := fs.Bool("noharness", false, "skip the harness")
	must(fs.Parse(args))
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var cfgs map[string]*PropCfg
	b, err := os.ReadFile(filepath.Join(*root, "checks.json"))
	must(err)
	must(json.Unmarshal(b, &cfgs))
	cfg := cfgs[*prop]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	var findings []Finding
	if b, err := os.ReadFile(filepath.Join(*root, "known_findings.json")); err == nil {
		must(json.Unmarshal(b, &findings))
	}
	if cfg.Pkg == "" {
		cfg.Pkg = "./lens"
	}
	if cfg.TimeoutS == 0 {
		cfg.TimeoutS = 20
	}
	if cfg.BudgetS == 0 {
		cfg.BudgetS = 15
	}
	to := time.Duration(cfg.TimeoutS) * time.Second
	budget := cfg.BudgetS
	if *tier == "thorough" {
		to *= 4
		budget *= 10
	}
	scratch, err := os.MkdirTemp("", "govc-check-")
	must(err)
	defer os.RemoveAll(scratch)
	must(os.Chmod(scratch, 0o755))

	// 1. build the harness while the proof is loading
	hb := make(chan string, 1)
	bin := filepath.Join(scratch, "h.test")
	go func() {
		if *noHarness || len(cfg.Harness) == 0 {
			hb <- "none"
			return
		}
		hb <- buildHarness(*repo, *root, scratch, bin, cfg)
	}()

	// 2. bounded stand-in first: it is quick, and a concrete failing input settles the verdict
	var hr harnessRun
	hr.buildErr = <-hb
	haveHarness := hr.buildErr == ""
	if hr.buildErr == "none" {
		hr.buildErr = ""
	}
	if haveHarness {
		runHarness(&hr, bin, scratch, seed, *tier, budget, nil, cfg)
	}

	// 3. proof
	limit := 540 * time.Second
	if *tier == "thorough" {
		limit = 50 * time.Minute
	} else if len(hr.out.Fails) > 0 || hr.crash != "" {
		limit = 150 * time.Second
	}
	var results []*FuncResult
	loadErr := ""
	p0 := time.Now()
	proofDeadline = p0.Add(limit)
	if !*noProof && len(cfg.Specs) > 0 {
		p, err := loadProg(*repo, cfg.Pkg)
		if err != nil {
			loadErr = err.Error()
		} else {
			results = proveAll(p, *root, cfg, to)
		}
	}
	proofWall := time.Since(p0).Seconds()

	// an obligation failed: look harder for an input, starting from the verifier's counterexamples
	if haveHarness && len(hr.out.Fails) == 0 && hr.crash == "" {
		cex := map[string]map[string]string{}
		anyFail := loadErr != ""
		for _, r := range results {
			if r.Status != "proved" {
				anyFail = true
			}
			if r.Cex != nil {
				cex[r.Func] = r.Cex
			}
		}
		if anyFail {
			first := hr.out.Evaluations
			runHarness(&hr, bin, scratch, seed+1000, *tier, budget*3, cex, cfg)
			hr.out.Evaluations += first
		}
	}

	// 4. verdict
	known := map[string]Finding{}
	for _, f := range findings {
		if f.Kind == "known" && f.Property == *prop {
			known[f.Key] = f
		}
	}
	seenKnown := map[string]bool{}
	var violations []string
	var details []string
	for _, f := range hr.out.Fails {
		if k, ok := known[f.Key]; ok {
			if !seenKnown[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
			}
			seenKnown[f.Key] = true
			continue
		}
		violations = append(violations, "input")
		details = append(details, fmt.Sprintf("failing case %s\n  input: %s\n  want:  %s\n  got:   %s", f.Key, f.Input, f.Want, f.Got))
	}
	if hr.crash != "" {
		violations = append(violations, "input")
		details = append(details, "the real code crashed or hung under the replay harness; last case: "+hr.last+"\n"+hr.crash)
	}
	proofFail := false
	obl, dis := 0, 0
	var failedObls []string
	for _, r := range results {
		obl += r.Obligations
		dis += r.Discharged
		if r.Status == "proved" {
			continue
		}
		if r.Status == "unsupported" {
			nm := r.Func + "/unsupported"
			if k, ok := known[nm]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				continue
			}
			proofFail = true
			failedObls = append(failedObls, nm+": "+r.Reason)
			continue
		}
		for i, f := range r.Failed {
			if k, ok := known[f]; ok {
				if !seenKnown[f] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
				seenKnown[f] = true
				continue
			}
			proofFail = true
			failedObls = append(failedObls, r.FailedRes[i])
		}
	}
	if loadErr != "" {
		proofFail = true
		failedObls = append(failedObls, "load: "+loadErr)
	}
	if !*noProof && len(cfg.Specs) > 0 && loadErr == "" && len(results) < cfg.MinFuncs {
		proofFail = true
		failedObls = append(failedObls, fmt.Sprintf("only %d functions under contract, expected at least %d", len(results), cfg.MinFuncs))
	}
	exit := 0
	nviol := 0
	if len(violations) > 0 || proofFail {
		exit = 1
		nviol = len(violations) + len(failedObls)
		rdir := filepath.Join(*root, "evidence", "replays")
		must(os.MkdirAll(rdir, 0o755))
		rp := filepath.Join(rdir, *prop+".txt")
		var w bytes.Buffer
		fmt.Fprintf(&w, "property %s tier %s seed %d\nrerun: cd /verif && VERIF_SEED=%d ./check.sh %s %s\n\n", *prop, *tier, seed, seed, *prop, *tier)
		for _, d := range details {
			fmt.Fprintln(&w, d)
		}
		for _, f := range failedObls {
			fmt.Fprintln(&w, "failed obligation", f)
		}
		for _, r := range results {
			if r.Status != "proved" {
				j, _ := json.MarshalIndent(r, "", " ")
				fmt.Fprintln(&w, string(j))
			}
		}
		if hr.buildErr != "" {
			fmt.Fprintln(&w, "replay harness does not build:\n"+hr.buildErr)
		}
		must(os.WriteFile(rp, w.Bytes(), 0o644))
		for i, d := range append(details, failedObls...) {
			if i > 6 {
				break
			}
			if len(d) > 600 {
				d = d[:600] + "…"
			}
			fmt.Println(d)
		}
		if len(violations) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
		}
	}
	writeEvidence(*root, *prop, *tier, seed, cfg, results, &hr, obl, dis, nviol, proofWall, time.Since(t0).Seconds(), loadErr, findings)
	if exit == 0 {
		fmt.Printf("%s: held; %d functions under contract, %d/%d obligations discharged, %d bounded evaluations, %.0fs\n", *prop, countFuncs(results), dis, obl, hr.out.Evaluations, time.Since(t0).Seconds())
		if hr.buildErr != "" {
			fmt.Println("note: replay harness does not build against this tree")
		}
	}
	return exit
}

func countFuncs(rs []*FuncResult) int {
	n := 0
	for _, r := range rs {
		if !strings.HasPrefix(r.Func, "lemma ") {
			n++
		}
	}
	return n
}

func proveAll(p *Prog, root string, cfg *PropCfg, to time.Duration) []*FuncResult {
	var mu sync.Mutex
	var out []*FuncResult
	var dropped []*FuncResult
	var wg sync.WaitGroup
	for _, f := range cfg.Specs {
		sp := newSpec()
		if err := sp.load(filepath.Join(root, "contracts", f)); err != nil {
			out = append(out, &FuncResult{Func: f, Status: "unsupported", Reason: err.Error()})
			continue
		}
		// helper contracts marked optional disappear with their function: callers then inline
		for _, ct := range sp.order {
			if ct.Optional && ct.Verify && p.fns[ct.Name] == nil {
				ct.failed = true
				ct.Verify = false
			}
		}
		for _, l := range sp.lemmas {
			r := verifyLemma(p, sp, l, to)
			r.File = f
			out = append(out, r)
		}
		// optional helper contracts first: one that no longer holds is dropped and its callers inline the helper
		pass := func(optional bool) {
			var wg sync.WaitGroup
			for _, ct := range sp.order {
				if !ct.Verify || ct.Optional != optional {
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := verifyFunc(p, sp, ct, to)
					mu.Lock()
					defer mu.Unlock()
					if optional && r.Status != "proved" {
						dropped = append(dropped, r)
						return
					}
					out = append(out, r)
				}()
			}
			wg.Wait()
			mu.Lock()
			for _, r := range dropped {
				if ct := sp.funcs[r.Func]; ct != nil && ct.Optional {
					ct.failed = true
				}
			}
			mu.Unlock()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			pass(true)
			pass(false)
		}()
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].File+out[i].Func < out[j].File+out[j].Func })
	return out
}

func buildHarness(repo, root, scratch, bin string, cfg *PropCfg) string {
	pkg := cfg.HarnessPkg
	if pkg == "" {
		pkg = "lens"
	}
	rep := map[string]string{}
	old, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
	for _, o := range old {
		rep[o] = ""
	}
	for _, h := range cfg.Harness {
		rep[filepath.Join(repo, pkg, "zz_verif_"+h+"_test.go")] = filepath.Join(root, "harness", h+"_test.go")
	}
	ov := filepath.Join(scratch, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	must(os.WriteFile(ov, b, 0o644))
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+pkg)
	cmd.Dir = repo
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "go test -c: " + err.Error() + "\n" + string(o)
	}
	return ""
}

func runHarness(hr *harnessRun, bin, scratch string, seed int, tier string, budget int, cex map[string]map[string]string, cfg *PropCfg) {
	work, err := os.MkdirTemp(scratch, "work")
	must(err)
	hr.out, hr.crash, hr.last = HOut{}, "", ""
	must(os.Chmod(work, 0o777))
	outF := filepath.Join(work, "out.json")
	cb, _ := json.Marshal(cex)
	limit := time.Duration(budget)*time.Second + 90*time.Second
	ctx, cancel := context.WithTimeout(context.Background(), limit+10*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif$", "-test.timeout", limit.String(), "-test.v")
	cmd.Dir = work
	env := []string{"VERIF_OUT=" + outF, "VERIF_SEED=" + strconv.Itoa(seed), "VERIF_TIER=" + tier, "VERIF_BUDGET_S=" + strconv.Itoa(budget),
		"VERIF_CEX=" + string(cb), "HOME=" + work, "TMPDIR=" + work, "PATH=" + os.Getenv("PATH"), "GOCACHE=" + filepath.Join(work, "gocache"),
		"GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOPATH=" + filepath.Join(work, "gopath")}
	cmd.Env = env
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	if os.Getuid() == 0 && !cfg.AsRoot {
		must(os.Chown(work, 65534, 65534))
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	t0 := time.Now()
	err = cmd.Run()
	hr.wallS += time.Since(t0).Seconds()
	if b, e := os.ReadFile(outF); e == nil {
		_ = json.Unmarshal(b, &hr.out)
	}
	if b, e := os.ReadFile(outF + ".cur"); e == nil {
		hr.last = string(b)
	}
	if err != nil || !hr.out.Done {
		s := o.String()
		if len(s) > 6000 {
			s = s[:3000] + "\n...\n" + s[len(s)-3000:]
		}
		if len(hr.out.Fails) == 0 || !hr.out.Done {
			hr.crash = fmt.Sprintf("%v\n%s", err, s)
		}
	}
}

func writeEvidence(root, prop, tier string, seed int, cfg *PropCfg, rs []*FuncResult, hr *harnessRun, obl, dis, nviol int, pw, wall float64, loadErr string, fnd []Finding) {
	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	solv := map[string]int{}
	kinds := map[string]int{}
	assumed := map[string]bool{}
	inl := map[string]bool{}
	var solverMs int64
	var fns []map[string]any
	loops := 0
	for _, r := range rs {
		for k, v := range r.Solvers {
			solv[k] += v
		}
		for k, v := range r.Kinds {
			kinds[k] += v
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, a := range r.Inlined {
			inl[a] = true
		}
		solverMs += r.SolverMs
		loops += r.Loops
		fns = append(fns, map[string]any{"function": r.Func, "contract_file": r.File, "status": r.Status, "obligations": r.Obligations, "discharged": r.Discharged,
			"loops": r.Loops, "loop_invariants_kept": r.Invariants, "inlined": r.Inlined, "callee_contracts": r.Contracts, "reason": r.Reason})
	}
	tb := []string{"govc (condition generator in /verif/govc)", "golang.org/x/tools/go/ssa", "Go type checker", "z3 4.8.12", "cvc5 1.1.2", "z3-new"}
	for _, a := range keysOf(assumed) {
		tb = append(tb, "assumed contract: "+a)
	}
	cov := map[string]any{
		"obligations": obl, "discharged": dis,
		"checker_cmd":           fmt.Sprintf("cd /verif && ./check.sh %s %s", prop, tier),
		"trusted_base":          tb,
		"functions":             fns,
		"functions_under_contract": countFuncs(rs),
		"inlined_callees":       keysOf(inl),
		"discharged_by":         solv,
		"obligation_kinds":      kinds,
		"solver_ms":             solverMs,
		"loops":                 loops,
		"proof_wall_s":          pw,
		"outside_the_proof":     cfg.Unverified,
	}
	if len(cfg.Harness) > 0 {
		cov["bounded_standin"] = map[string]any{"label": "bounded: concrete executions of the real code, not counted as proved", "covers": cfg.Bounded,
			"build_error": hr.buildErr, "wall_s": hr.wallS, "crash": hr.crash}
		cov["evaluations"] = hr.out.Evaluations
		cov["distinct_nontrivial"] = hr.out.Distinct
		cov["rule"] = hr.out.Rule
		cov["samples"] = hr.out.Samples
	}
	as := append([]string{}, cfg.Assumptions...)
	as = append(as, "int and other 64-bit arithmetic is mathematical except in contract files in bv mode or functions marked overflow (then overflow is an obligation)",
		"no concurrent access to the objects a verified function works on (each call is verified as sequential code)",
		"memory exhaustion and run-time panics in functions without the nopanic clause end the execution; contracts speak about executions that return")
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": wall, "violations": nviol}
	if loadErr != "" {
		ev["load_error"] = loadErr
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(root, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644))
}
