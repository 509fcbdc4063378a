package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	inherit map[ssa.Value]Val // closures in local cells of the caller, for the function about to be inlined
	u       *Unit
	g       *Gen
	spec    *Spec
	prog    *ssa.Program
	pkg     *ssa.Package
	keySort map[string]string
	epochs  int

	root      *Contract // contract being verified
	rootFn    *ssa.Function
	entryMem  *Mem
	entryAl   T
	regions   map[string]int
	keyT      map[string]types.Type
	reg       map[string]func(*Exec) // registers a memory key seen in an earlier round
	loopMods  map[string]map[string]bool // loop key -> modified mem keys
	restart   bool
	dropped   map[string]bool // houdini candidates dropped
	cands     map[string]string
	loopsSeen map[string]bool
	inlined   map[string]bool
	used      map[string]bool // contracts relied upon
	assumed   map[string]bool // extern assumptions relied upon
	depth     int
	safety    bool
	frames    []*Frame
	nocand    bool
	cellTyp   map[string]types.Type
	rootVars  map[string]SV
}

type Frame struct {
	fn     *ssa.Function
	path   string
	parent *Frame
	unroll int
	defers []*deferRec
	state  *State // state of block being executed (for candidates in inlined loops)
}

type deferRec struct {
	cond T
	call *ssa.CallCommon
	args []Val
	fv   Val
	pos  *ssa.Defer
}

type State struct {
	vals map[ssa.Value]Val
	mem  *Mem
}

func (s *State) clone() *State {
	n := &State{vals: make(map[ssa.Value]Val, len(s.vals)), mem: s.mem.clone()}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	return n
}

type edge struct {
	from *ssa.BasicBlock
	cond T
	st   *State
}

type node struct {
	b   *ssa.BasicBlock
	ctx string
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	ls := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ls[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = l
				}
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if l.body[b] {
						return
					}
					l.body[b] = true
					for _, p := range b.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	return ls
}

type retRec struct {
	cond T
	res  []Val
	mem  *Mem
}

// runFunc symbolically executes fn's body from mem under reach; it returns the merged results.
func (x *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, mem *Mem, reach T, path string, parent *Frame) ([]Val, *Mem, T) {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body for %s", fn))
	}
	x.depth++
	if x.depth > 24 {
		panic(unsup("inlining too deep at %s", fn))
	}
	defer func() { x.depth-- }()
	fr := &Frame{fn: fn, path: path, parent: parent}
	x.frames = append(x.frames, fr)
	defer func() { x.frames = x.frames[:len(x.frames)-1] }()
	if c := x.spec.funcs[x.fname(fn)]; c != nil && c.Unroll > 0 {
		fr.unroll = c.Unroll
	} else if parent != nil {
		fr.unroll = parent.unroll
	}
	st := &State{vals: map[ssa.Value]Val{}, mem: mem.clone()}
	for i, p := range fn.Params {
		st.vals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.vals[p] = binds[i]
	}
	for k, v := range x.inherit {
		st.vals[k] = v
	}
	x.inherit = nil
	loops := findLoops(fn)
	for _, b := range fn.Blocks {
		if b.Index == 0 || b == fn.Recover {
			continue
		}
		for _, s := range b.Succs {
			if l := loops[s]; l != nil && l.body[b] && s.Dominates(b) {
				continue
			}
			_ = s
		}
	}
	// unfolded CFG
	ctxOf := func(b *ssa.BasicBlock, cnt map[int]int) string {
		var ks []int
		for h, l := range loops {
			if l.body[b] && cnt[h.Index] > 0 {
				ks = append(ks, h.Index)
			}
		}
		sort.Ints(ks)
		s := ""
		for _, k := range ks {
			s += fmt.Sprintf("%d:%d,", k, cnt[k])
		}
		return s
	}
	parseCtx := func(s string) map[int]int {
		m := map[int]int{}
		for _, p := range strings.Split(s, ",") {
			if p == "" {
				continue
			}
			a, b, _ := strings.Cut(p, ":")
			ai, _ := strconv.Atoi(a)
			bi, _ := strconv.Atoi(b)
			m[ai] = bi
		}
		return m
	}
	type succT struct {
		to   node
		kind string // "", back, unwind
	}
	succs := func(n node) []succT {
		var out []succT
		for _, s := range n.b.Succs {
			cnt := parseCtx(n.ctx)
			if l := loops[s]; l != nil && s.Dominates(n.b) {
				if fr.unroll == 0 {
					out = append(out, succT{node{s, ctxOf(s, cnt)}, "back"})
					continue
				}
				cnt[s.Index]++
				// reset inner loop counters
				for h, il := range loops {
					if h != s && l.body[h] {
						_ = il
						delete(cnt, h.Index)
					}
				}
				if cnt[s.Index] > fr.unroll {
					out = append(out, succT{node{s, ""}, "unwind"})
					continue
				}
			}
			out = append(out, succT{node{s, ctxOf(s, cnt)}, ""})
		}
		return out
	}
	var order []node
	seen := map[node]int{}
	var dfs func(n node)
	dfs = func(n node) {
		seen[n] = 1
		for _, s := range succs(n) {
			if s.kind != "" {
				continue
			}
			if seen[s.to] == 1 {
				panic(unsup("irreducible control flow in %s", fn))
			}
			if seen[s.to] == 0 {
				dfs(s.to)
			}
		}
		seen[n] = 2
		order = append(order, n)
	}
	entry := node{fn.Blocks[0], ""}
	dfs(entry)
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	in := map[node][]edge{entry: {{nil, reach, st}}}
	var rets []retRec
	hdrState := map[*ssa.BasicBlock]*loopRec{}
	for _, n := range order {
		es := in[n]
		delete(in, n)
		var live []edge
		for _, e := range es {
			if e.cond.S != "false" {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		st, rc := x.mergeEdges(n.b, live)
		if l := loops[n.b]; l != nil && fr.unroll == 0 {
			hdrState[n.b] = x.enterLoop(fr, l, st, rc)
		}
		// deferred state
		fr.state = st
		x.frames[len(x.frames)-1] = fr
		outs, ret := x.runBlock(fr, n.b, st, rc)
		if ret != nil {
			rets = append(rets, *ret)
		}
		ss := succs(n)
		for i, o := range outs {
			if o.S == "false" {
				continue
			}
			e := edge{from: n.b, cond: x.g.def("c", o), st: st}
			if i < len(outs)-1 {
				e.st = st.clone()
			}
			switch ss[i].kind {
			case "":
				in[ss[i].to] = append(in[ss[i].to], e)
			case "back":
				x.backEdge(fr, loops[ss[i].to.b], hdrState[ss[i].to.b], e)
			case "unwind":
				x.g.oblige("unwind", x.oname(fr, "unwind"), "loop bounded by operand width", e.cond, tFalse)
				x.g.assume(tNot(e.cond))
			}
		}
	}
	if len(rets) == 0 {
		return nil, mem, tFalse
	}
	var conds []T
	var mems []*Mem
	for _, r := range rets {
		conds = append(conds, r.cond)
		mems = append(mems, r.mem)
	}
	nres := fn.Signature.Results().Len()
	res := make([]Val, nres)
	for i := 0; i < nres; i++ {
		vs := make([]Val, len(rets))
		for j, r := range rets {
			vs[j] = r.res[i]
		}
		res[i] = x.mergeVals(conds, vs, "r")
	}
	return res, x.mergeMem(conds, mems), x.g.def("ret", tOr(conds...))
}

func (x *Exec) fname(fn *ssa.Function) string {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	if f.Pkg == x.pkg || (f.Pkg == nil && f.Parent() != nil && f.Parent().Pkg == x.pkg) {
		return f.RelString(x.pkg.Pkg)
	}
	return f.String()
}

func (x *Exec) oname(fr *Frame, kind string) string {
	return fr.path + "/" + kind
}

var errMerge = "«unmergeable»"

type poison struct{ why string }

func (x *Exec) mergeVals(conds []T, vs []Val, p string) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	switch v0 := vs[0].(type) {
	case T:
		t, ok := vs[len(vs)-1].(T)
		if !ok {
			break
		}
		for i := len(vs) - 2; i >= 0; i-- {
			vi, ok := vs[i].(T)
			if !ok || vi.Sort != t.Sort {
				return poison{"merge"}
			}
			if t.Sort == "Slice" && vi.S != t.S {
				r1, o1, l1, c1 := x.sl(vi)
				r2, o2, l2, c2 := x.sl(t)
				t = app("Slice", "mkslice", tIte(conds[i], r1, r2), tIte(conds[i], o1, o2), tIte(conds[i], l1, l2), tIte(conds[i], c1, c2))
				continue
			}
			t = tIte(conds[i], vi, t)
		}
		return x.def(p, t)
	case *LV:
		for _, v := range vs[1:] {
			l, ok := v.(*LV)
			if !ok || l.id() != v0.id() {
				return poison{"merge of addresses"}
			}
		}
		return v0
	case *Clo:
		for _, v := range vs[1:] {
			if c, ok := v.(*Clo); !ok || c != v0 {
				return poison{"merge of closures"}
			}
		}
		return v0
	case Tuple:
		out := make(Tuple, len(v0))
		for k := range v0 {
			var col []Val
			for _, v := range vs {
				tv, ok := v.(Tuple)
				if !ok {
					return poison{"merge"}
				}
				col = append(col, tv[k])
			}
			out[k] = x.mergeVals(conds, col, p)
		}
		return out
	case *Iter:
		for _, v := range vs[1:] {
			if v != vs[0] {
				return poison{"merge of iterators"}
			}
		}
		return v0
	}
	return poison{"merge"}
}

func sameVal(a, b Val) bool {
	switch av := a.(type) {
	case T:
		bv, ok := b.(T)
		return ok && av.S == bv.S
	case *LV:
		bv, ok := b.(*LV)
		return ok && (av == bv || av.id() == bv.id())
	case Tuple:
		bv, ok := b.(Tuple)
		if !ok || len(av) != len(bv) {
			return false
		}
		for i := range av {
			if !sameVal(av[i], bv[i]) {
				return false
			}
		}
		return true
	case poison:
		_, ok := b.(poison)
		return ok
	}
	return a == b
}

func (x *Exec) mergeEdges(b *ssa.BasicBlock, es []edge) (*State, T) {
	var conds []T
	var mems []*Mem
	for _, e := range es {
		conds = append(conds, e.cond)
		mems = append(mems, e.st.mem)
	}
	rc := x.g.def("b", tOr(conds...))
	st := &State{vals: map[ssa.Value]Val{}}
	if len(es) == 1 {
		st.vals = make(map[ssa.Value]Val, len(es[0].st.vals))
		for k, v := range es[0].st.vals {
			st.vals[k] = v
		}
	} else {
		// deterministic iteration
		type kv struct {
			k ssa.Value
			n string
		}
		var ks []kv
		for k := range es[0].st.vals {
			ks = append(ks, kv{k, k.Name()})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].n < ks[j].n })
		for _, k := range ks {
			vs := make([]Val, len(es))
			okAll, same := true, true
			for i, e := range es {
				v, ok := e.st.vals[k.k]
				if !ok {
					okAll = false
					break
				}
				vs[i] = v
				if i > 0 && !sameVal(vs[0], v) {
					same = false
				}
			}
			if !okAll {
				continue
			}
			if same {
				st.vals[k.k] = vs[0]
			} else {
				st.vals[k.k] = x.mergeVals(conds, vs, k.n)
			}
		}
	}
	// phis
	phiVals := map[ssa.Value]Val{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]Val, len(es))
		for i, e := range es {
			for pi, p := range b.Preds {
				if p == e.from {
					vs[i] = x.val(e.st, phi.Edges[pi])
					break
				}
			}
		}
		phiVals[phi] = x.mergeVals(conds, vs, phi.Name()+"_"+phi.Comment)
	}
	for k, v := range phiVals {
		st.vals[k] = v
	}
	st.mem = x.mergeMem(conds, mems)
	return st, rc
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.zero(c.Type())
		}
		if _, ok := c.Type().Underlying().(*types.Interface); ok {
			panic(unsup("interface constant"))
		}
		return x.constVal(c.Value, c.Type())
	case *ssa.Global:
		el := c.Type().Underlying().(*types.Pointer).Elem()
		k := "G:" + c.RelString(x.pkg.Pkg)
		if a, ok := el.Underlying().(*types.Array); ok {
			// arrays live in the element heap
			_ = a
			nm := "garr_" + sanitize(k)
			x.g.hdecl(nm, "(declare-const "+nm+" Int)\n(assert (< "+nm+" 0))")
			return T{nm, "Int"}
		}
		x.reg[k] = func(x *Exec) { x.setKeySort(k, x.sortOf(el)) }
		x.setKeySort(k, x.sortOf(el))
		return &LV{kind: "cell", key: k, rtyp: el, typ: el}
	case *ssa.Function:
		return &Clo{fn: c}
	case *ssa.Builtin:
		return c
	}
	r, ok := st.vals[v]
	if !ok {
		panic(unsup("value %s (%T) undefined in %s", v.Name(), v, v.Parent()))
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) T {
	return x.toTerm(x.val(st, v), v.Type())
}

func (x *Exec) toTerm(r Val, typ types.Type) T {
	switch t := r.(type) {
	case T:
		return t
	case *Clo:
		if len(t.binds) > 0 { // each evaluation of the function literal is a value of its own
			if t.id == nil {
				id := x.g.fresh("clo", "Int")
				x.g.assume(tNot(tEq(id, intT(0))))
				t.id = &id
			}
			return *t.id
		}
		nm := "fn_" + sanitize(t.fn.String())
		x.g.hdecl(nm, "(declare-const "+nm+" Int)\n(assert (not (= "+nm+" 0)))")
		return T{nm, "Int"}
	case poison:
		panic(unsup("value with unmergeable definitions used (%s)", t.why))
	case *LV:
		if t.kind == "heap" && len(t.path) == 0 {
			return t.ref
		}
		panic(unsup("interior or local address used as a first-class value (%s)", t.key))
	}
	panic(unsup("not a first-class term: %T", r))
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (x *Exec) safe(fr *Frame, kind string, reach, goal T) {
	if goal.S == "true" {
		return
	}
	if x.safety {
		x.g.oblige("safety", x.oname(fr, kind), "no run-time panic", reach, goal)
	}
	x.g.assume(tImp(reach, goal))
}

// runBlock executes the non-phi instructions; returns out-edge conditions.
func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, rc T) ([]T, *retRec) {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.term(st, i.Cond)
			return []T{tAnd(rc, c), tAnd(rc, tNot(c))}, nil
		case *ssa.Jump:
			return []T{rc}, nil
		case *ssa.Return:
			r := &retRec{cond: rc, mem: st.mem}
			for _, v := range i.Results {
				r.res = append(r.res, x.val(st, v))
			}
			return nil, r
		case *ssa.Panic:
			if x.safety {
				x.g.oblige("safety", x.oname(fr, "panic"), "explicit panic unreachable", rc, tFalse)
			}
			x.g.assume(tNot(rc))
			return nil, nil
		case *ssa.RunDefers:
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				both := x.g.def("dc", tAnd(rc, d.cond))
				sv := st.mem.clone()
				x.callVals(fr, st, both, d.call, d.fv, d.args, nil, d.pos)
				if d.cond.S != "true" {
					st.mem = x.mergeMem([]T{d.cond, tTrue}, []*Mem{st.mem, sv})
				}
			}
		case *ssa.Defer:
			var args []Val
			for _, a := range i.Call.Args {
				args = append(args, x.val(st, a))
			}
			var fv Val
			if i.Call.IsInvoke() {
				fv = x.term(st, i.Call.Value)
			} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				fv = x.val(st, i.Call.Value)
			}
			fr.defers = append(fr.defers, &deferRec{cond: rc, call: &i.Call, args: args, fv: fv, pos: i})
		case *ssa.Store:
			pv := x.val(st, i.Addr)
			el := deref(i.Addr.Type())
			if at, ok := el.Underlying().(*types.Array); ok {
				ref := x.toTerm(pv, i.Addr.Type())
				k := x.ekey(at.Elem())
				st.mem.m[k] = x.g.def("e", sto(x.get(st.mem, k), ref, x.term(st, i.Val)))
				continue
			}
			if t, ok := pv.(T); ok {
				x.safe(fr, "nil", rc, tNot(tEq(t, intT(0))))
			}
			lv := x.lvOf(pv, el)
			v := x.val(st, i.Val)
			if lv.kind == "cell" {
				delete(st.vals, cellClo{lv.key})
				if len(lv.path) == 0 {
					switch v.(type) {
					case *Clo, *LV:
						st.vals[cellClo{lv.key}] = v
					}
				}
			}
			x.storeLV(lv, st.mem, x.toTerm(v, i.Val.Type()))
		case *ssa.MapUpdate:
			m := x.term(st, i.Map)
			x.safe(fr, "nilmap", rc, tNot(tEq(m, intT(0))))
			x.mapUpdate(st.mem, i.Map.Type(), m, x.term(st, i.Key), x.term(st, i.Value))
		case *ssa.Go:
			if !x.spec.allowGo {
				panic(unsup("go statement in %s", fr.fn))
			}
			if x.spec.inlineGo { // the goroutine runs to completion where it is started
				var args []Val
				for _, a := range i.Call.Args {
					args = append(args, x.val(st, a))
				}
				var fv Val
				if i.Call.IsInvoke() {
					fv = x.term(st, i.Call.Value)
				} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
					fv = x.val(st, i.Call.Value)
				}
				x.callVals(fr, st, rc, &i.Call, fv, args, nil, i)
			}
		case *ssa.Send, *ssa.Select:
			panic(unsup("channel operation in %s", fr.fn))
		case ssa.Value:
			v := x.evalInstr(fr, st, rc, ins, i)
			if t, ok := v.(T); ok {
				v = x.def(i.Name(), t)
			}
			st.vals[i] = v
			if c, ok := ins.(*ssa.Call); ok && x.callNeverReturns(c) {
				return nil, nil
			}
		default:
			panic(unsup("instruction %T", ins))
		}
	}
	return nil, nil
}

// cellClo is a pseudo SSA value naming "the closure held in this cell".
type cellClo struct{ key string }

func (cellClo) Name() string                  { return "cellclo" }
func (cellClo) String() string                { return "cellclo" }
func (cellClo) Type() types.Type              { return types.Typ[types.Invalid] }
func (cellClo) Parent() *ssa.Function         { return nil }
func (cellClo) Referrers() *[]ssa.Instruction { return nil }
func (cellClo) Pos() token.Pos                { return token.NoPos }

func (x *Exec) callNeverReturns(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	s := f.String()
	return s == "os.Exit" || s == "log.Fatalf" || s == "log.Fatal"
}

func (x *Exec) mapUpdate(mem *Mem, mt types.Type, m, k, v T) {
	md, mv, ml := x.mkeys(mt)
	D, V, L := x.get(mem, md), x.get(mem, mv), x.get(mem, ml)
	was := x.g.def("was", sel(sel(D, m), k))
	mem.m[ml] = x.g.def("ml", sto(L, m, tIte(was, sel(L, m), x.iadd(sel(L, m), x.idxLit(1)))))
	mem.m[md] = x.g.def("md", sto(D, m, sto(sel(D, m), k, tTrue)))
	mem.m[mv] = x.g.def("mv", sto(V, m, sto(sel(V, m), k, v)))
}

func (x *Exec) mapDelete(mem *Mem, mt types.Type, m, k T) {
	md, _, ml := x.mkeys(mt)
	D, L := x.get(mem, md), x.get(mem, ml)
	was := x.g.def("was", sel(sel(D, m), k))
	mem.m[ml] = x.g.def("ml", sto(L, m, tIte(was, x.isub(sel(L, m), x.idxLit(1)), sel(L, m))))
	mem.m[md] = x.g.def("md", sto(D, m, sto(sel(D, m), k, tFalse)))
}

func (x *Exec) mapLen(mem *Mem, mt types.Type, m T) T {
	md, _, ml := x.mkeys(mt)
	l := x.g.def("mlen", sel(x.get(mem, ml), m))
	d := sel(x.get(mem, md), m)
	x.g.assume(x.ile(x.idxLit(0), l))
	x.g.assume(tEq(tEq(l, x.idxLit(0)), tEq(d, constArr(d.Sort, tFalse))))
	return l
}

func (x *Exec) isRegionAlloc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// escapes reports whether the address of a local is used other than by load/store/field/index/closure capture.
func escapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if i.Val == v {
				return true
			}
		case *ssa.FieldAddr:
			if escapes(i, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if escapes(i, seen) {
				return true
			}
		case *ssa.MakeClosure:
			fn := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == v && escapes(fn.FreeVars[k], seen) {
					return true
				}
			}
		case *ssa.Call:
			// passing the address to a static callee that does not itself leak it keeps it a local cell
			if f := i.Call.StaticCallee(); f != nil && i.Call.Value != v {
				if len(f.Blocks) > 0 {
					for k, a := range i.Call.Args {
						if a == v && (k >= len(f.Params) || escapes(f.Params[k], seen)) {
							return true
						}
					}
				}
				continue
			}
			if i.Call.IsInvoke() {
				return true
			}
		case *ssa.Defer:
		default:
			return true
		}
	}
	return false
}
