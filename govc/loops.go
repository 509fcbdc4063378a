package main

import (
	"os"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokenADD = token.ADD
	tokenLSS = token.LSS
	tokenLEQ = token.LEQ
)

type binder struct {
	desc  string
	typ   types.Type
	phi   *ssa.Phi // loop-carried
	plus  int64
	val   Val    // loop-constant value
	cell  string // mem key (cell contents)
	local bool
	vis   string // visited set of a map iteration
	dom0  T
	outer bool // loop-carried by an enclosing loop
	src   ssa.Value
}

type cand struct {
	key   string
	eval  func(c *lctx) T
}

type lctx struct {
	st  *State
	mem *Mem
}

type loopRec struct {
	key      string
	entryMem *Mem
	hdrMem   *Mem
	cands    []*cand
	l        *loopInfo
}

func (x *Exec) bval(b *binder, c *lctx) SV {
	switch {
	case b.vis != "":
		return SV{t: x.get(c.mem, b.vis)}
	case b.cell != "":
		return SV{t: x.get(c.mem, b.cell), typ: b.typ}
	case b.phi != nil:
		v := c.st.vals[b.phi]
		t, ok := v.(T)
		if !ok {
			panic(unsup("loop-carried non-term"))
		}
		if b.plus != 0 {
			t = x.iadd(t, x.idxLit(b.plus))
		}
		return SV{t: t, typ: b.typ}
	}
	if t, ok := b.val.(T); ok && b.plus != 0 {
		return x.svOf(x.iadd(t, x.idxLit(b.plus)), b.typ)
	}
	return x.svOf(b.val, b.typ)
}

func (x *Exec) enterLoop(fr *Frame, l *loopInfo, st *State, rc T) *loopRec {
	key := fr.path + "#L" + fmt.Sprint(l.header.Index)
	rec := &loopRec{key: key, entryMem: st.mem.clone(), l: l}
	x.loopsSeen[key] = true
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	mods := x.loopMods[key]
	// make sure modified keys exist before the loop (lazily created initial values)
	var mk []string
	for k := range mods {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		if k == "*" || strings.HasPrefix(k, "cell:") || strings.HasPrefix(k, "vis:") {
			continue
		}
		if _, ok := x.keySort[k]; !ok && x.reg[k] != nil {
			x.reg[k](x)
		}
		x.get(st.mem, k) // unknown sort: unsupported, never "unmodified"
	}
	rec.entryMem = st.mem.clone()
	if !x.nocand {
		rec.cands = x.candidates(fr, rec, l, phis, st, mk)
	}
	// initialisation obligations
	ec := &lctx{st: st, mem: st.mem}
	for _, c := range rec.cands {
		x.oblCand("hinit", c, rc, x.tryEval(c, ec))
	}
	// havoc
	alloc0 := x.curAlloc(st.mem)
	for _, k := range mk {
		if k == "*" {
			x.havocAll(st.mem, false)
			continue
		}
		if _, ok := st.mem.m[k]; !ok {
			continue
		}
		nv := x.g.fresh("L_"+sanitize(k), x.keySort[k])
		st.mem.m[k] = nv
		if k == "alloc" {
			x.g.assume(app("Bool", "<=", alloc0, nv))
		}
		if strings.HasPrefix(k, "MD:") {
			_, es, _ := arrParts(nv.Sort)
			x.g.assume(tEq(sel(nv, intT(0)), constArr(es, tFalse)))
		}
		if strings.HasPrefix(k, "ML:") {
			x.g.assume(tEq(sel(nv, intT(0)), x.idxLit(0)))
		}
		if strings.HasPrefix(k, "cell:") {
			delete(st.vals, cellClo{k})
			if nv.Sort == "Slice" {
				r, o, ln, c := x.sl(nv)
				st.mem.m[k] = app("Slice", "mkslice", x.g.def("r", r), x.g.def("o", o), x.g.def("l", ln), x.g.def("c", c))
			}
		}
	}
	al := x.curAlloc(st.mem)
	for _, k := range mk {
		if strings.HasPrefix(k, "cell:") {
			if t, ok := x.cellTypes(k); ok {
				if v, ok := st.mem.m[k]; ok {
					x.g.assume(x.rangeFact(v, t, al))
				}
			}
		}
	}
	for _, p := range phis {
		cur, ok := st.vals[p].(T)
		if !ok {
			continue
		}
		nv := x.g.fresh("phi_"+p.Name()+"_"+p.Comment, cur.Sort)
		if nv.Sort == "Slice" {
			r, o, ln, c := x.sl(nv)
			nv = app("Slice", "mkslice", x.g.def("r", r), x.g.def("o", o), x.g.def("l", ln), x.g.def("c", c))
		}
		x.g.assume(x.rangeFact(nv, p.Type(), al))
		st.vals[p] = nv
	}
	hc := &lctx{st: st, mem: st.mem}
	for _, c := range rec.cands {
		if t := x.tryEval(c, hc); t.S != "" {
			x.g.assume(tImp(rc, t))
		}
	}
	rec.hdrMem = st.mem.clone()
	return rec
}

func (x *Exec) tryEval(c *cand, lc *lctx) (r T) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				x.dropped[c.key] = true
				if os.Getenv("GOVC_DEBUG") == "h" {
					fmt.Fprintln(os.Stderr, "drop unsupported", c.key, e)
				}
				x.restart = true
				r = T{}
				return
			}
			panic(e)
		}
	}()
	return c.eval(lc)
}

func (x *Exec) oblCand(kind string, c *cand, rc, goal T) {
	if goal.S == "" || goal.S == "true" {
		return
	}
	x.g.oblige(kind, c.key, "", rc, goal)
	x.g.obls[len(x.g.obls)-1].Cand = c.key
}

func (x *Exec) backEdge(fr *Frame, l *loopInfo, rec *loopRec, e edge) {
	// phi values along the back edge
	st := &State{vals: map[ssa.Value]Val{}, mem: e.st.mem}
	for k, v := range e.st.vals {
		st.vals[k] = v
	}
	upd := map[ssa.Value]Val{}
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for pi, pr := range l.header.Preds {
			if pr == e.from {
				upd[p] = x.val(e.st, p.Edges[pi])
			}
		}
	}
	for k, v := range upd {
		if _, isT := e.st.vals[k].(T); !isT && !sameVal(e.st.vals[k], v) {
			st.vals[k] = poison{"loop-carried"}
			continue
		}
		st.vals[k] = v
	}
	// modified keys
	mods := x.loopMods[rec.key]
	if mods == nil {
		mods = map[string]bool{}
		x.loopMods[rec.key] = mods
	}
	if e.st.mem.epoch != rec.hdrMem.epoch && !mods["*"] {
		mods["*"] = true
		x.restart = true
	}
	for _, k := range e.st.mem.keys() {
		h, ok := rec.hdrMem.m[k]
		if !ok {
			if strings.HasPrefix(k, "cell:") || strings.HasPrefix(k, "vis:") {
				continue
			}
			if e.st.mem.epoch != rec.hdrMem.epoch {
				continue
			}
			h = x.get(rec.hdrMem, k)
		}
		if h.S != e.st.mem.m[k].S && !mods[k] {
			mods[k] = true
			x.restart = true
		}
	}
	bc := &lctx{st: st, mem: st.mem}
	for _, c := range rec.cands {
		x.oblCand("hpres", c, e.cond, x.tryEval(c, bc))
	}
}

func (x *Exec) cellTypes(k string) (types.Type, bool) {
	t, ok := x.cellTyp[k]
	return t, ok
}

// ranges reports whether p counts through a slice of the type: it, or it plus one, is compared with the slice's length.
func (x *Exec) ranges(p *ssa.Phi, want string) (int64, bool) {
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && x.typeMatches(c.Call.Args[0].Type(), want)
	}
	cmp := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			if o, ok := r.(*ssa.BinOp); ok && o.Op == token.LSS && o.X == v && isLen(o.Y) {
				return true
			}
		}
		return false
	}
	if cmp(p) {
		return 0, true
	}
	for _, r := range *p.Referrers() {
		o, ok := r.(*ssa.BinOp)
		if !ok || o.Op != token.ADD || o.X != ssa.Value(p) || o.Block() != p.Block() {
			continue
		}
		if cmp(o) {
			return 1, true
		}
	}
	return 0, false
}

// binders collects the candidate values of each type in scope at a loop header.
func (x *Exec) binders(fr *Frame, l *loopInfo, phis []*ssa.Phi, st *State, mk []string) []*binder {
	var out []*binder
	for _, p := range phis {
		if _, ok := st.vals[p].(T); !ok {
			continue
		}
		out = append(out, &binder{desc: "phi." + p.Name(), typ: p.Type(), phi: p})
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	modSet := map[string]bool{}
	for _, k := range mk {
		modSet[k] = true
	}
	seen := map[string]*binder{}
	addVals := func(f *Frame, s *State) {
		var vs []ssa.Value
		for v := range s.vals {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if isPhi[v] {
				continue
			}
			t, ok := s.vals[v].(T)
			if !ok {
				continue
			}
			id := t.S + "|" + x.u.tstr(v.Type())
			_, ph := v.(*ssa.Phi)
			if b := seen[id]; b != nil {
				b.outer = b.outer || ph
				continue
			}
			b := &binder{desc: f.path + "." + v.Name(), typ: v.Type(), val: t, outer: ph, local: f == fr, src: v}
			seen[id] = b
			out = append(out, b)
		}
	}
	addVals(fr, st)
	for f := fr.parent; f != nil; f = f.parent {
		if f.state != nil {
			addVals(f, f.state)
		}
	}
	for _, k := range st.mem.keys() {
		if strings.HasPrefix(k, "cell:") {
			if t, ok := x.cellTyp[k]; ok {
				same := false
				if !modSet[k] { // an unmodified cell holding a known value adds nothing
					same = seen[st.mem.m[k].S+"|"+x.u.tstr(t)] != nil
				}
				if same {
					continue
				}
				out = append(out, &binder{desc: k, typ: t, cell: k})
			}
		}
	}
	return out
}

func (x *Exec) candidates(fr *Frame, rec *loopRec, l *loopInfo, phis []*ssa.Phi, st *State, mk []string) []*cand {
	bs := x.binders(fr, l, phis, st, mk)
	var out []*cand
	add := func(key string, f func(c *lctx) T) {
		key = rec.key + "::" + key
		if x.dropped[key] {
			return
		}
		out = append(out, &cand{key: key, eval: f})
	}
	modSet := map[string]bool{}
	for _, k := range mk {
		modSet[k] = true
	}
	loopVar := func(b *binder) bool { return b.phi != nil || (b.cell != "" && modSet[b.cell]) || b.vis != "" }
	// iterators of this loop
	var iters []*binder
	for _, ins := range l.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if it, ok := st.vals[nx.Iter].(*Iter); ok && !it.str {
				iters = append(iters, &binder{desc: "vis", vis: it.key, dom0: it.dom0})
			}
		}
	}
	// iterators of enclosing loops
	for v, val := range st.vals {
		if it, ok := val.(*Iter); ok && !it.str {
			dup := false
			for _, b := range iters {
				if b.vis == it.key {
					dup = true
				}
			}
			if !dup {
				iters = append(iters, &binder{desc: "vis." + v.Name(), vis: it.key, dom0: it.dom0})
			}
		}
	}
	sort.Slice(iters, func(i, j int) bool { return iters[i].desc < iters[j].desc })
	// user templates
	var tpls []*Template
	ctNames := []*Contract{x.root}
	if c := x.spec.funcs[x.fname(fr.fn)]; c != nil && c != x.root {
		ctNames = append(ctNames, c)
	}
	for _, c := range ctNames {
		tpls = append(tpls, c.LoopInv...)
	}
	for ti, t := range tpls {
		var rec2 func(i int, bound []*binder)
		n := 0
		rec2 = func(i int, bound []*binder) {
			if n > 4000 {
				return
			}
			if i == len(t.Vars) {
				n++
				bb := append([]*binder{}, bound...)
				// a template must involve something that changes or memory; otherwise it is constant
				var ds []string
				for _, b := range bb {
					ds = append(ds, fmt.Sprintf("%s+%d", b.desc, b.plus))
				}
				add(fmt.Sprintf("T%d[%s]", ti, strings.Join(ds, ",")), func(c *lctx) T {
					env := &Env{x: x, vars: map[string]SV{}, mem: c.mem, old: x.entryMem}
					env.pre = rec.entryMem
					for k, v := range x.rootVars {
						env.vars[k] = v
					}
					for k, v := range t.Vars {
						env.vars[v.Name] = x.bval(bb[k], c)
						if bb[k].vis != "" {
							env.vars[v.Name+"_dom"] = SV{t: bb[k].dom0}
						}
					}
					return env.eval(t.E).t
				})
				return
			}
			tv := t.Vars[i]
			switch {
			case strings.HasPrefix(tv.Typ, "index over "), strings.HasPrefix(tv.Typ, "outer index over "):
				// the number of elements done of a loop over a slice of the type
				out, want := strings.HasPrefix(tv.Typ, "outer "), tv.Typ[strings.Index(tv.Typ, "over ")+5:]
				for _, b := range bs {
					p := b.phi
					if out {
						p, _ = b.src.(*ssa.Phi)
						if !b.outer {
							p = nil
						}
					}
					if p == nil || x.u.tstr(b.typ) != "int" {
						continue
					}
					if plus, ok := x.ranges(p, want); ok {
						b2 := *b
						b2.plus = plus
						rec2(i+1, append(bound, &b2))
					}
				}
			case tv.Typ == "index": // loop-carried int, also +1
				for _, b := range bs {
					if loopVar(b) && x.u.tstr(b.typ) == "int" {
						rec2(i+1, append(bound, b))
						b2 := *b
						if b.phi != nil {
							b2.plus = 1
							rec2(i+1, append(bound, &b2))
						}
					}
				}
			case strings.HasPrefix(tv.Typ, "index:"): // loop-carried integer of a given type
				for _, b := range bs {
					if loopVar(b) && x.u.tstr(b.typ) == tv.Typ[6:] {
						rec2(i+1, append(bound, b))
					}
				}
			case tv.Typ == "visited":
				for _, b := range iters {
					if b.desc == "vis" {
						rec2(i+1, append(bound, b))
					}
				}
			case tv.Typ == "anyvisited":
				for _, b := range iters {
					rec2(i+1, append(bound, b))
				}
			case tv.Typ == "outer index": // loop-carried int of an enclosing loop, also +1
				for _, b := range bs {
					if b.outer && x.u.tstr(b.typ) == "int" {
						b2 := *b
						b2.plus = 1
						rec2(i+1, append(bound, b))
						rec2(i+1, append(bound, &b2))
					}
				}
			case strings.HasPrefix(tv.Typ, "local "): // a value of the function the loop is in (not of its callers)
				for _, b := range bs {
					if (b.local || b.phi != nil) && x.typeMatches(b.typ, tv.Typ[6:]) {
						rec2(i+1, append(bound, b))
					}
				}
			case strings.HasPrefix(tv.Typ, "outer "):
				for _, b := range bs {
					if b.outer && x.typeMatches(b.typ, tv.Typ[6:]) {
						rec2(i+1, append(bound, b))
					}
				}
			case strings.HasPrefix(tv.Typ, "loop "): // loop-carried of a type
				for _, b := range bs {
					if loopVar(b) && x.typeMatches(b.typ, tv.Typ[5:]) {
						rec2(i+1, append(bound, b))
					}
				}
			default:
				for _, b := range bs {
					if x.typeMatches(b.typ, tv.Typ) {
						rec2(i+1, append(bound, b))
					}
				}
			}
		}
		rec2(0, nil)
	}
	if x.root.NoAuto {
		return out
	}
	// automatic candidates
	intType := func(b *binder) bool { return b.typ != nil && x.sortOf(b.typ) == x.u.idx() && isIntType(b.typ) }
	var slices []*binder
	near := func(b *binder) bool { return !x.spec.localAuto || b.local || b.phi != nil || b.cell != "" }
	for _, b := range bs {
		if b.typ != nil && near(b) {
			if _, ok := b.typ.Underlying().(*types.Slice); ok {
				slices = append(slices, b)
			}
		}
	}
	slen := func(b *binder, c *lctx) T {
		_, _, ln, _ := x.sl(x.bval(b, c).t)
		return ln
	}
	for _, b := range bs {
		b := b
		if !loopVar(b) {
			continue
		}
		if intType(b) {
			_, sg, _ := typeInt(b.typ)
			for _, lo := range []int64{0, -1} {
				lo := lo
				if lo < 0 && !sg {
					continue
				}
				add(fmt.Sprintf("%s>=%d", b.desc, lo), func(c *lctx) T { return x.le(x.idxLit(lo), x.bval(b, c).t, sg) })
			}
			for _, s := range slices {
				s := s
				add(fmt.Sprintf("%s<=len(%s)", b.desc, s.desc), func(c *lctx) T { return x.le(x.bval(b, c).t, slen(s, c), sg) })
				add(fmt.Sprintf("%s<len(%s)", b.desc, s.desc), func(c *lctx) T { return x.lt(x.bval(b, c).t, slen(s, c), sg) })
				if loopVar(s) {
					add(fmt.Sprintf("len(%s)==%s", s.desc, b.desc), func(c *lctx) T { return tEq(x.bval(b, c).t, slen(s, c)) })
					add(fmt.Sprintf("len(%s)==%s+1", s.desc, b.desc), func(c *lctx) T { return tEq(x.iadd(x.bval(b, c).t, x.idxLit(1)), slen(s, c)) })
					add(fmt.Sprintf("len(%s)<=%s", s.desc, b.desc), func(c *lctx) T { return x.le(slen(s, c), x.bval(b, c).t, sg) })
					add(fmt.Sprintf("len(%s)<=%s+1", s.desc, b.desc), func(c *lctx) T { return x.le(slen(s, c), x.iadd(x.bval(b, c).t, x.idxLit(1)), sg) })
				}
			}
			n := 0
			for _, o := range bs {
				o := o
				if o == b || !intType(o) || n > 24 || !near(o) {
					continue
				}
				n++
				add(fmt.Sprintf("%s<=%s", b.desc, o.desc), func(c *lctx) T { return x.le(x.bval(b, c).t, x.bval(o, c).t, sg) })
				if !loopVar(o) {
					add(fmt.Sprintf("%s>=%s", b.desc, o.desc), func(c *lctx) T { return x.le(x.bval(o, c).t, x.bval(b, c).t, sg) })
				}
			}
		}
		if b.typ == nil {
			continue
		}
		switch b.typ.Underlying().(type) {
		case *types.Slice:
			rf := func(c *lctx) T { r, _, _, _ := x.sl(x.bval(b, c).t); return r }
			ea := x.entryAl
			la := x.curAlloc(rec.entryMem)
			add(b.desc+" nil or fresh", func(c *lctx) T { return tOr(tEq(rf(c), intT(0)), app("Bool", "<=", ea, rf(c))) })
			add(b.desc+" nil or loopfresh", func(c *lctx) T { return tOr(tEq(rf(c), intT(0)), app("Bool", "<=", la, rf(c))) })
			add(b.desc+" fresh", func(c *lctx) T { return app("Bool", "<=", ea, rf(c)) })
			if b.phi != nil {
				if iv, ok := st.vals[b.phi].(T); ok {
					ir, io, il, ic := x.sl(iv)
					add(b.desc+" same ref", func(c *lctx) T { return tEq(rf(c), ir) })
					add(b.desc+" same off", func(c *lctx) T { _, o, _, _ := x.sl(x.bval(b, c).t); return tEq(o, io) })
					add(b.desc+" len grows", func(c *lctx) T { return x.ile(il, slen(b, c)) })
					add(b.desc+" same cap", func(c *lctx) T { _, _, _, cc := x.sl(x.bval(b, c).t); return tEq(cc, ic) })
					add(b.desc+" ref same or fresh", func(c *lctx) T { return tOr(tEq(rf(c), ir), app("Bool", "<=", la, rf(c))) })
				}
			}
			add(b.desc+" off0", func(c *lctx) T { _, o, _, _ := x.sl(x.bval(b, c).t); return tEq(o, x.idxLit(0)) })
		case *types.Interface:
			add(b.desc+"==nil", func(c *lctx) T { return tEq(x.bval(b, c).t, T{"nilIface", "Iface"}) })
		case *types.Pointer, *types.Map:
			add(b.desc+"!=0", func(c *lctx) T { return tNot(tEq(x.bval(b, c).t, intT(0))) })
			ea := x.entryAl
			add(b.desc+" nil or fresh", func(c *lctx) T { return tOr(tEq(x.bval(b, c).t, intT(0)), app("Bool", "<=", ea, x.bval(b, c).t)) })
		}
	}
	// frames for modified memory
	la := x.curAlloc(rec.entryMem)
	for _, k := range mk {
		k := k
		if k == "*" || k == "alloc" || strings.HasPrefix(k, "cell:") || strings.HasPrefix(k, "vis:") || strings.HasPrefix(k, "ghost:") {
			continue
		}
		em, ok := rec.entryMem.m[k]
		if !ok {
			continue
		}
		is, _, isArr := arrParts(em.Sort)
		if !isArr || is != "Int" {
			continue
		}
		q := T{"q!r", "Int"}
		frame := func(base T, lim T, excl func(c *lctx) []T) func(c *lctx) T {
			return func(c *lctx) T {
				cur := x.get(c.mem, k)
				g := app("Bool", "<", q, lim)
				if excl != nil {
					for _, t := range excl(c) {
						g = tAnd(g, tNot(tEq(q, t)))
					}
				}
				body := tImp(g, tEq(sel(cur, q), sel(base, q)))
				if body.S == "true" {
					return tTrue
				}
				return T{fmt.Sprintf("(forall ((q!r Int)) (! %s :pattern (%s)))", body.S, sel(cur, q).S), "Bool"}
			}
		}
		add("frame "+k, frame(em, la, nil))
		ekey := x.get(x.entryMem, k)
		add("frame0 "+k, frame(ekey, x.entryAl, nil))
		for _, b := range bs {
			b := b
			if b.typ == nil {
				continue
			}
			switch bt := b.typ.Underlying().(type) {
			case *types.Slice:
				if k == "E:"+x.u.tstr(bt.Elem()) {
					add("frame "+k+" except "+b.desc, frame(em, la, func(c *lctx) []T { r, _, _, _ := x.sl(x.bval(b, c).t); return []T{r} }))
				}
			case *types.Map:
				if strings.HasSuffix(k, ":"+x.u.tstr(bt)) && k[0] == 'M' {
					add("frame "+k+" except "+b.desc, frame(em, la, func(c *lctx) []T { return []T{x.bval(b, c).t} }))
				}
			case *types.Pointer:
				if k == "H:"+x.u.tstr(bt.Elem()) {
					add("frame "+k+" except "+b.desc, frame(em, la, func(c *lctx) []T { return []T{x.bval(b, c).t} }))
				}
			}
		}
	}
	for _, b := range iters {
		b := b
		add(b.desc+" subset dom", func(c *lctx) T {
			v := x.get(c.mem, b.vis)
			is, _, _ := arrParts(v.Sort)
			q := T{"q!k", is}
			return T{fmt.Sprintf("(forall ((q!k %s)) (! (=> %s %s) :pattern (%s)))", is, sel(v, q).S, sel(b.dom0, q).S, sel(v, q).S), "Bool"}
		})
	}
	return out
}

func isIntType(t types.Type) bool {
	_, _, ok := typeInt(t)
	return ok
}

func (x *Exec) typeMatches(t types.Type, s string) bool {
	if t == nil {
		return false
	}
	if x.u.tstr(t) == s {
		return true
	}
	return x.u.tstr(t.Underlying()) == s || types.TypeString(types.Unalias(t), func(p *types.Package) string {
		if p == x.u.pkg {
			return ""
		}
		return p.Name()
	}) == s
}
