package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog *ssa.Program
	pkg  *ssa.Package
	fns  map[string]*ssa.Function
}

func loadProg(dir, pattern string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedDeps,
		Dir: dir,
	}
	cfg.Mode &^= packages.NeedDeps
	// generic helpers of these packages are loaded from source, so that their instances are inlined
	pkgs, err := packages.Load(cfg, pattern, "github.com/go-analyze/bulk", "slices")
	if err != nil {
		return nil, err
	}
	for i, p := range pkgs { // the package under verification first
		if p.PkgPath != "slices" && p.PkgPath != "github.com/go-analyze/bulk" {
			pkgs[0], pkgs[i] = pkgs[i], pkgs[0]
			break
		}
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("loading %s: %v", pattern, pkgs[0].Errors[0])
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", pattern)
	}
	prog.Build()
	p := &Prog{prog: prog, pkg: sp[0], fns: map[string]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == sp[0] && fn.Synthetic == "" {
			p.fns[fn.RelString(sp[0].Pkg)] = fn
		}
	}
	// unreferenced package-level functions and methods
	for _, m := range sp[0].Members {
		switch mm := m.(type) {
		case *ssa.Function:
			p.addFn(mm)
		case *ssa.Type:
			for _, t := range []types.Type{mm.Type(), types.NewPointer(mm.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						p.addFn(f)
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Prog) addFn(f *ssa.Function) {
	if f == nil || f.Pkg != p.pkg {
		return
	}
	n := f.RelString(p.pkg.Pkg)
	if p.fns[n] == nil {
		p.fns[n] = f
	}
	for _, a := range f.AnonFuncs {
		p.addFn(a)
	}
}

type FuncResult struct {
	Func        string   `json:"func"`
	File        string   `json:"spec"`
	Status      string   `json:"status"` // proved, failed, unsupported
	Reason      string   `json:"reason,omitempty"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Failed      []string `json:"failed,omitempty"`
	FailedRes   []string `json:"failed_detail,omitempty"`
	Invariants  int      `json:"invariants"`
	InvTried    int      `json:"invariants_tried"`
	Rounds      int      `json:"rounds"`
	Loops       int      `json:"loops"`
	Inlined     []string `json:"inlined,omitempty"`
	Contracts   []string `json:"contracts_used,omitempty"`
	Assumed     []string `json:"assumed,omitempty"`
	SolverMs    int64    `json:"solver_ms"`
	Solvers     map[string]int `json:"solvers"`
	Cex         map[string]string `json:"cex,omitempty"`
	Kinds       map[string]int `json:"kinds"`
	InvKept     []string `json:"inv_kept,omitempty"`
}

func keysOf(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func newExec(p *Prog, sp *Spec) *Exec {
	return &Exec{
		u: &Unit{BV: sp.BV, SMTStr: sp.SMTStr, pkg: p.pkg.Pkg, strLits: map[string]T{}, typeIDs: map[string]int{}},
		g: newGen(), spec: sp, prog: p.prog, pkg: p.pkg, keySort: map[string]string{"alloc": "Int"},
		loopMods: map[string]map[string]bool{}, dropped: map[string]bool{}, loopsSeen: map[string]bool{}, inlined: map[string]bool{},
		used: map[string]bool{}, reg: map[string]func(*Exec){}, assumed: map[string]bool{}, cellTyp: map[string]types.Type{}, rootVars: map[string]SV{},
	}
}

func (x *Exec) prelude() {
	x.needIface()
	x.needSlice()
	x.needStr()
	for _, t := range x.spec.needTypes {
		gt, srt := x.specType(t)
		if gt == nil {
			panic(unsup("types: %s (%s)", t, srt))
		}
	}
	for i, s := range x.spec.smt {
		x.g.hdecl(fmt.Sprintf("smt%d", i), s)
	}
	empty := &Mem{m: map[string]T{}, epoch: 0}
	for _, a := range x.spec.axioms {
		env := &Env{x: x, vars: map[string]SV{}, mem: empty, old: empty}
		x.g.hdecl("ax "+a.Src, "(assert "+env.boolE(a).S+")")
	}
}

func (x *Exec) assertLemmas() {
	empty := &Mem{m: map[string]T{}, epoch: 0}
	for _, l := range x.spec.lemmas {
		if l.Thm {
			continue
		}
		env := &Env{x: x, vars: map[string]SV{}, mem: empty, old: empty}
		q := &Ex{Op: "quant", S: "forall", Vars: l.Vars, Args: []*Ex{l.E}}
		if l.E.Op == "quant" && len(l.Vars) == 0 {
			q = l.E
		} else if l.E.Op == "call" && l.E.S == "trigger" {
			q.Args = []*Ex{l.E.Args[len(l.E.Args)-1]}
			q.Trig = []*Ex{{Op: "grp", Args: l.E.Args[:len(l.E.Args)-1]}}
		}
		x.g.hdecl("lemma "+l.Name, "(assert "+env.eval(q).t.S+")")
	}
}

// runOnce generates all obligations of one function under contract.
func (x *Exec) runOnce(fn *ssa.Function, ct *Contract) {
	x.root, x.rootFn = ct, fn
	x.safety = ct.NoPanic
	x.prelude()
	x.assertLemmas()
	mem := &Mem{m: map[string]T{}, epoch: 0}
	for n, s := range x.spec.ghosts {
		x.setKeySort("ghost:"+n, s)
	}
	al := x.curAlloc(mem)
	x.entryAl = al
	var args []Val
	var binds []Val
	params := ct.Params
	if n := len(fn.FreeVars); n > 0 && n <= len(ct.Params) { // captured variables come first, matched by name
		given := map[string]bool{}
		for _, p := range ct.Params[:n] {
			given[p] = true
		}
		for _, fv := range fn.FreeVars {
			if !given[fv.Name()] {
				panic(unsup("contract of %s does not name the captured variable %s", ct.Name, fv.Name()))
			}
			el := deref(fv.Type())
			k := "cell:captured:" + fv.Name()
			x.setKeySort(k, x.sortOf(el))
			x.cellTyp[k] = el
			v := x.g.fresh("cap_"+fv.Name(), x.sortOf(el))
			x.g.assume(x.rangeFact(v, el, al))
			mem.m[k] = v
			binds = append(binds, &LV{kind: "cell", key: k, rtyp: el, typ: el})
			x.rootVars[fv.Name()] = SV{t: v, typ: el}
		}
		params = ct.Params[n:]
	}
	for i, p := range fn.Params {
		nm := fmt.Sprintf("p%d", i)
		if i < len(params) {
			nm = "p_" + params[i]
		}
		srt := x.sortOf(p.Type())
		x.g.items = append(x.g.items, "(declare-const "+nm+" "+srt+")")
		t := T{nm, srt}
		if srt == "Slice" {
			r, o, l, c := x.sl(t)
			t = app("Slice", "mkslice", x.g.def("r", r), x.g.def("o", o), x.g.def("l", l), x.g.def("c", c))
		}
		x.g.assume(x.rangeFact(t, p.Type(), al))
		args = append(args, t)
		if i < len(params) {
			x.rootVars[params[i]] = SV{t: t, typ: p.Type()}
		}
	}
	if len(params) != len(fn.Params) {
		panic(unsup("contract of %s names %d parameters, the function has %d", ct.Name, len(ct.Params), len(fn.Params)))
	}
	if len(ct.Results) > fn.Signature.Results().Len() {
		panic(unsup("contract of %s names %d results, the function has %d", ct.Name, len(ct.Results), fn.Signature.Results().Len()))
	}
	if sig := fn.Signature; sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			x.g.assume(tNot(tEq(args[0].(T), intT(0))))
		}
	}
	x.entryMem = mem
	env := &Env{x: x, vars: x.rootVars, mem: mem, old: mem}
	for _, r := range ct.Requires {
		x.g.assume(env.boolE(r))
	}
	if ct.AllocBoundE != nil {
		ct.AllocBound = env.coerce(env.eval(ct.AllocBoundE), x.u.idx())
	}
	if len(binds) != len(fn.FreeVars) {
		panic(unsup("contract of %s does not name the captured variables", ct.Name))
	}
	// the entry memory must stay lazily extensible: share the map
	res, out, ret := x.runFunc(fn, args, binds, mem, tTrue, shortName(ct.Name), nil)
	if ret.S == "false" {
		if len(ct.Ensures) > 0 {
			x.g.oblige("cover", shortName(ct.Name)+"/cover", "function can return", tTrue, tTrue)
		}
		return
	}
	x.g.oblige("cover", shortName(ct.Name)+"/cover:return", "some execution satisfies the precondition and returns", ret, tFalse)
	post := &Env{x: x, vars: map[string]SV{}, mem: out, old: mem}
	for k, v := range x.rootVars {
		post.vars[k] = v
	}
	for i, n := range ct.Results {
		if n != "_" {
			post.vars[n] = x.svOf(res[i], fn.Signature.Results().At(i).Type())
		}
	}
	for i, c := range ct.Covers {
		x.g.oblige("cover", fmt.Sprintf("%s/cover.%d", shortName(ct.Name), i), c.Src, tAnd(ret, post.boolE(c)), tFalse)
	}
	for i, e := range ct.Ensures {
		x.g.oblige("ensures", fmt.Sprintf("%s/ensures.%d", shortName(ct.Name), i), e.Src, ret, post.boolE(e))
	}
	if !ct.ModAll {
		x.frameObls(ct, fn, mem, out, ret)
	}
}

func (x *Exec) frameObls(ct *Contract, fn *ssa.Function, in, out *Mem, ret T) {
	ghostOK := map[string]bool{}
	heapOK := map[string]bool{}
	excl := map[string][]T{}
	env := &Env{x: x, vars: x.rootVars, mem: in, old: in}
	for _, m := range ct.Modifies {
		switch m.Kind {
		case "ghost":
			ghostOK["ghost:"+m.Name] = true
		case "heap":
			for _, k := range x.heapKeys(m.Name) {
				heapOK[k] = true
			}
		case "deref":
			sv := env.eval(m.Expr)
			if pt, ok := sv.typ.Underlying().(*types.Pointer); ok {
				k := x.hkey(pt.Elem())
				excl[k] = append(excl[k], sv.t)
				// embedded arrays of the object
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if at, ok := st.Field(i).Type().Underlying().(*types.Array); ok {
							f := fmt.Sprintf("region_%s_%d", sanitize(x.u.tstr(pt.Elem())), i)
							x.g.hdecl(f, fmt.Sprintf("(define-fun %s ((r Int)) Int (- (- 0 (* 64 r)) %d))", f, x.regionID(f)))
							k2 := x.ekey(at.Elem())
							excl[k2] = append(excl[k2], app("Int", f, sv.t))
						}
					}
				}
			}
		case "elems":
			sv := env.eval(m.Expr)
			switch t := sv.typ.Underlying().(type) {
			case *types.Slice:
				k := x.ekey(t.Elem())
				r, _, _, _ := x.sl(sv.t)
				excl[k] = append(excl[k], r)
			case *types.Map:
				a, b, c := x.mkeys(sv.typ)
				for _, k := range []string{a, b, c} {
					excl[k] = append(excl[k], sv.t)
				}
			}
		}
	}
	if out.epoch != in.epoch {
		x.g.oblige("frame", shortName(ct.Name)+"/frame:all", "an unmodelled call may modify anything", ret, tFalse)
		return
	}
	for _, k := range out.keys() {
		if strings.HasPrefix(k, "cell:") || strings.HasPrefix(k, "vis:") || k == "alloc" {
			continue
		}
		a := x.get(in, k)
		b := out.m[k]
		if a.S == b.S {
			continue
		}
		nm := shortName(ct.Name) + "/frame:" + k
		if strings.HasPrefix(k, "ghost:") || strings.HasPrefix(k, "G:") {
			if !ghostOK[k] && !heapOK[k] {
				x.g.oblige("frame", nm, "not modified", ret, tEq(a, b))
			}
			continue
		}
		if heapOK[k] {
			continue
		}
		q := T{"q!r", "Int"}
		g := app("Bool", "<", q, x.entryAl)
		for _, t := range excl[k] {
			g = tAnd(g, tNot(tEq(q, t)))
		}
		x.g.oblige("frame", nm, "pre-existing objects outside the modifies clause are unchanged", ret,
			T{fmt.Sprintf("(forall ((q!r Int)) %s)", tImp(g, tEq(sel(b, q), sel(a, q))).S), "Bool"})
	}
}

var debug = os.Getenv("GOVC_DEBUG")

func verifyFunc(p *Prog, sp *Spec, ct *Contract, to time.Duration) (r *FuncResult) {
	r = &FuncResult{Func: ct.Name, File: ct.File, Solvers: map[string]int{}, Kinds: map[string]int{}}
	fn := p.fns[ct.Name]
	if fn == nil {
		r.Status, r.Reason = "unsupported", "function under contract not found: "+ct.Name
		return r
	}
	var x *Exec
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.Status, r.Reason = "unsupported", u.msg
				return
			}
			panic(e)
		}
	}()
	loopMods := map[string]map[string]bool{}
	reg := map[string]func(*Exec){}
	dropped := map[string]bool{}
	retried := map[string]bool{}
	tried := map[string]bool{}
	if ct.Timeout > 0 {
		to = time.Duration(ct.Timeout) * time.Second
	}
	for round := 0; ; round++ {
		r.Rounds = round + 1
		if round > 60 {
			r.Status, r.Reason = "unsupported", "invariant search did not converge"
			return r
		}
		x = newExec(p, sp)
		x.loopMods, x.dropped, x.reg = loopMods, dropped, reg
		x.nocand = round == 0
		x.runOnce(fn, ct)
		if x.restart || (round == 0 && len(x.loopsSeen) > 0) {
			continue
		}
		var hs []*Obl
		for _, o := range x.g.obls {
			if o.Cand != "" {
				hs = append(hs, o)
				tried[o.Cand] = true
			}
		}
		if len(hs) == 0 {
			break
		}
		// initialisation first
		any := false
		run := func(kind string) {
			ts := time.Now()
			defer func() {
				if debug == "t" {
					fmt.Fprintf(os.Stderr, "round %d %s: %d candidates %.1fs\n", round, kind, len(hs), time.Since(ts).Seconds())
				}
			}()
			var sel []*Obl
			for _, o := range hs {
				if o.Kind == kind && !dropped[o.Cand] {
					sel = append(sel, o)
				}
			}
			solveBatch(x.g, sel, 1500*time.Millisecond)
			{ // stated invariants get a second, individual try
				var again []*Obl
				for _, o := range sel {
					if o.Res != "unsat" && strings.Contains(o.Cand, "::T") && !retried[kind+o.Cand] {
						again = append(again, o)
					}
				}
				lim, to := 24, 5*time.Second
				if kind == "hinit" {
					lim, to = 48, 1500*time.Millisecond
				}
				if kind == "hpres" && len(again) > lim && len(again) <= 96 { // many: one solver only
					solveEach(x.g, again, 2*time.Second, &Contract{First: "only"})
				} else if len(again) > 0 && len(again) <= lim {
					solveEach(x.g, again, to, nil)
				}
				if len(again) > 0 && (len(again) <= lim || kind == "hpres" && len(again) <= 96) {
					for _, o := range again {
						if o.Res != "unsat" {
							retried[kind+o.Cand] = true
						}
					}
				}
			}
			for _, o := range sel {
				r.SolverMs += o.Ms
				if o.Res != "unsat" && !dropped[o.Cand] {
					dropped[o.Cand] = true
					any = true
					if debug == "h" {
						fmt.Fprintf(os.Stderr, "drop %s %s (%s)\n", kind, o.Cand, o.Res)
					}
				}
			}
		}
		run("hinit")
		if any {
			continue
		}
		run("hpres")
		if !any {
			break
		}
	}
	kept := map[string]bool{}
	var obls []*Obl
	for _, o := range x.g.obls {
		if o.Cand != "" {
			kept[o.Cand] = true
		}
		obls = append(obls, o)
	}
	r.Invariants, r.InvTried = len(kept), len(tried)
	r.InvKept = keysOf(kept)
	r.Loops = len(x.loopsSeen)
	r.Inlined, r.Contracts, r.Assumed = keysOf(x.inlined), keysOf(x.used), keysOf(x.assumed)
	var todo []*Obl
	for _, o := range obls {
		if o.Cand == "" {
			todo = append(todo, o)
		}
	}
	ts := time.Now()
	solveEach(x.g, todo, to, ct)
	if debug == "t" {
		fmt.Fprintf(os.Stderr, "final %d obligations %.1fs\n", len(todo), time.Since(ts).Seconds())
	}
	for _, o := range obls {
		r.Obligations++
		r.Kinds[o.Kind]++
		r.SolverMs += o.Ms
		if o.Kind == "cover" {
			if o.Res == "unsat" {
				r.Failed = append(r.Failed, o.Name)
				r.FailedRes = append(r.FailedRes, o.Name+": vacuous ("+o.Desc+")")
			} else {
				r.Discharged++
			}
			continue
		}
		if o.Res == "unsat" {
			r.Discharged++
			r.Solvers[o.Solver]++
		} else {
			r.Failed = append(r.Failed, o.Name)
			r.FailedRes = append(r.FailedRes, fmt.Sprintf("%s [%s] %s: %s", o.Name, o.Kind, o.Res, o.Desc))
			if r.Cex == nil && o.Model != nil {
				r.Cex = o.Model
			}
		}
	}
	if len(r.Failed) == 0 {
		r.Status = "proved"
	} else {
		r.Status = "failed"
	}
	return r
}

func verifyLemma(p *Prog, sp *Spec, l *Lemma, to time.Duration) (r *FuncResult) {
	r = &FuncResult{Func: "lemma " + l.Name, Solvers: map[string]int{}, Kinds: map[string]int{}}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.Status, r.Reason = "unsupported", u.msg
				return
			}
			panic(e)
		}
	}()
	x := newExec(p, sp)
	x.prelude()
	// earlier lemmas may be used
	save := sp.lemmas
	for i, o := range save {
		if o == l {
			sp.lemmas = save[:i]
		}
	}
	x.assertLemmas()
	sp.lemmas = save
	mem := &Mem{m: map[string]T{}, epoch: 0}
	vars := map[string]SV{}
	for _, v := range l.Vars {
		typ, srt := x.specType(v.Typ)
		vars[v.Name] = SV{t: x.g.fresh(v.Name, srt), typ: typ}
	}
	body := l.E
	if body.Op == "call" && body.S == "trigger" {
		body = body.Args[len(body.Args)-1]
	}
	env := &Env{x: x, vars: vars, mem: mem, old: mem}
	goal := env.eval(body).t
	if l.Ind == "" {
		x.g.oblige("lemma", "lemma:"+l.Name, l.Src, tTrue, goal)
	} else {
		// strong form: other variables universally quantified in the hypothesis
		n := vars[l.Ind]
		q := &Ex{Op: "quant", S: "forall", Args: []*Ex{body}}
		for _, v := range l.Vars {
			if v.Name != l.Ind {
				q.Vars = append(q.Vars, v)
			}
		}
		henv := env.sub(l.Ind, SV{t: app("Int", "-", n.t, intT(1)), typ: n.typ})
		var hyp T
		if len(q.Vars) > 0 {
			hyp = henv.eval(q).t
		} else {
			hyp = henv.eval(body).t
		}
		x.g.oblige("lemma", "lemma:"+l.Name+"/base", l.Src, app("Bool", "<=", n.t, intT(0)), goal)
		x.g.oblige("lemma", "lemma:"+l.Name+"/step", l.Src, tAnd(app("Bool", "<", intT(0), n.t), hyp), goal)
	}
	solveEach(x.g, x.g.obls, to, nil)
	for _, o := range x.g.obls {
		r.Obligations++
		r.Kinds["lemma"]++
		r.SolverMs += o.Ms
		if o.Res == "unsat" {
			r.Discharged++
			r.Solvers[o.Solver]++
		} else {
			r.Failed = append(r.Failed, o.Name)
			r.FailedRes = append(r.FailedRes, o.Name+" "+o.Res)
		}
	}
	r.Status = "proved"
	if len(r.Failed) > 0 {
		r.Status = "failed"
	}
	return r
}
