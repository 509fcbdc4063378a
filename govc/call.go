package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st *State, rc T, c *ssa.Call) Val {
	var args []Val
	for _, a := range c.Call.Args {
		args = append(args, x.val(st, a))
	}
	var fv Val
	if c.Call.IsInvoke() {
		fv = x.term(st, c.Call.Value)
	} else if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
		fv = x.val(st, c.Call.Value)
	}
	return x.callVals(fr, st, rc, &c.Call, fv, args, c.Type(), c)
}

func tupleOf(res []Val, t types.Type) Val {
	if len(res) == 1 {
		return res[0]
	}
	return Tuple(res)
}

func (x *Exec) callVals(fr *Frame, st *State, rc T, cc *ssa.CallCommon, fv Val, args []Val, rt types.Type, at ssa.Instruction) Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return x.builtin(fr, st, rc, b, cc, args)
	}
	if cc.IsInvoke() {
		recv := fv.(T)
		x.safe(fr, "nil", rc, tNot(tEq(recv, T{"nilIface", "Iface"})))
		nm := x.u.tstr(cc.Value.Type()) + "." + cc.Method.Name()
		all := append([]Val{recv}, args...)
		ats := []types.Type{cc.Value.Type()}
		sig := cc.Method.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			ats = append(ats, sig.Params().At(i).Type())
		}
		ct := x.spec.lookup(nm)
		if ct == nil {
			ct = x.spec.lookup("*." + cc.Method.Name())
		}
		return tupleOf(x.applyContract(fr, st, rc, ct, nm, all, ats, sig, at), sig.Results())
	}
	clo, ok := fv.(*Clo)
	if !ok {
		// unknown function value
		sig := cc.Signature()
		nm := "func value " + x.u.tstr(cc.Value.Type())
		var ct *Contract
		if p, isP := cc.Value.(*ssa.Parameter); isP {
			ct = x.spec.lookup("callback " + x.fname(p.Parent()) + "." + p.Name())
		}
		if ct == nil {
			ct = x.spec.lookup("callback " + x.u.tstr(cc.Value.Type().Underlying()))
		}
		var ats []types.Type
		for i := 0; i < sig.Params().Len(); i++ {
			ats = append(ats, sig.Params().At(i).Type())
		}
		if ct != nil && ct.WithSelf {
			if t, ok := fv.(T); ok {
				args = append([]Val{t}, args...)
				ats = append([]types.Type{cc.Value.Type()}, ats...)
			}
		}
		return tupleOf(x.applyContract(fr, st, rc, ct, nm, args, ats, sig, at), sig.Results())
	}
	fn := clo.fn
	nm := x.fname(fn)
	sig := fn.Signature
	var ats []types.Type
	for _, p := range fn.Params {
		ats = append(ats, p.Type())
	}
	if len(fn.Params) == 0 && len(args) > 0 { // external: no params materialised
		if sig.Recv() != nil {
			ats = append(ats, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ats = append(ats, sig.Params().At(i).Type())
		}
	}
	ct := x.spec.lookup(nm)
	if ct != nil && !ct.Inline && !(ct.Optional && ct.failed) {
		if len(fn.FreeVars) > 0 {
			if len(ct.Params) < len(fn.FreeVars) {
				panic(unsup("contract of %s does not name the captured variables", nm))
			}
			var ca []Val
			var ca0 []types.Type
			for _, p := range ct.Params[:len(fn.FreeVars)] {
				for k, fv := range fn.FreeVars {
					if fv.Name() == p {
						v := x.captured(st.mem, clo, k)
						ca, ca0 = append(ca, v.t), append(ca0, v.typ)
					}
				}
			}
			args, ats = append(ca, args...), append(ca0, ats...)
		}
		return tupleOf(x.applyContract(fr, st, rc, ct, nm, args, ats, sig, at), sig.Results())
	}
	if len(fn.Blocks) > 0 && (fn.Pkg == x.pkg || fn.Pkg == nil) && !x.spec.noInline[nm] {
		// inline
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				panic(unsup("recursive function %s needs a contract", nm))
			}
		}
		x.inlined[nm] = true
		path := fr.path + ">" + nm
		if at != nil {
			path += fmt.Sprintf("@%d", instrOrd(at))
		}
		// closures held in local cells stay known inside the callee, and after it unless it wrote the cell
		x.inherit = map[ssa.Value]Val{}
		for k, v := range st.vals {
			if _, ok := k.(cellClo); ok {
				x.inherit[k] = v
			}
		}
		res, mem, ret := x.runFunc(fn, args, clo.binds, st.mem, rc, path, fr)
		x.frames[len(x.frames)-1] = fr
		for k := range st.vals {
			if c, ok := k.(cellClo); ok && st.mem.m[c.key].S != mem.m[c.key].S {
				delete(st.vals, k)
			}
		}
		st.mem = mem
		if ret.S != rc.S {
			x.g.assume(tImp(rc, ret)) // non-returning paths have been cut
		}
		if ret.S == "false" {
			x.g.assume(tNot(rc))
			var out []Val
			for i := 0; i < sig.Results().Len(); i++ {
				out = append(out, x.g.fresh("dead", x.sortOf(sig.Results().At(i).Type())))
			}
			return tupleOf(out, sig.Results())
		}
		return tupleOf(res, sig.Results())
	}
	return tupleOf(x.applyContract(fr, st, rc, nil, nm, args, ats, sig, at), sig.Results())
}

func instrOrd(at ssa.Instruction) int {
	n := 0
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			if i == at {
				return n
			}
			n++
		}
	}
	return -1
}

// applyContract models a call through a contract (nil contract: unknown effect on the modelled heap).
func (x *Exec) applyContract(fr *Frame, st *State, rc T, ct *Contract, nm string, args []Val, ats []types.Type, sig *types.Signature, at ssa.Instruction) []Val {
	pre := st.mem.clone()
	// closures handed to unknown code must be effect free
	for _, a := range args {
		if c, ok := a.(*Clo); ok {
			x.checkPureClosure(c, nm)
		}
	}
	if ct == nil {
		x.assumed["(no contract: result and heap unconstrained) "+nm] = true
		if !x.spec.pureDefault(nm) {
			x.havocAll(st.mem, true)
			for i, a := range args {
				if lv, ok := a.(*LV); ok && i < len(ats) {
					x.havocLV(st, lv)
				}
			}
		}
	} else if ct.Assumed {
		x.assumed[nm] = true
	} else {
		x.used[nm] = true
	}
	env := &Env{x: x, vars: map[string]SV{}, mem: pre, old: pre}
	if ct != nil {
		for i, p := range ct.Params {
			if i < len(args) && p != "_" {
				env.vars[p] = x.svOf(args[i], ats[i])
			}
		}
		for i, r := range ct.Requires {
			g := env.boolE(r)
			x.g.oblige("pre", x.oname(fr, "pre:"+shortName(nm)+fmt.Sprintf(".%d", i)), r.Src, rc, g)
			x.g.assume(tImp(rc, g))
		}
		for _, m := range ct.Modifies {
			x.havocTarget(st, env, m)
		}
		if ct.HavocAll {
			x.havocAll(st.mem, false)
		}
	}
	if (ct == nil || ct.Allocs || !ct.Det) && sig.Results().Len() > 0 {
		a := x.curAlloc(st.mem)
		needs := false
		for i := 0; i < sig.Results().Len(); i++ {
			switch sig.Results().At(i).Type().Underlying().(type) {
			case *types.Basic, *types.Interface:
			default:
				needs = true
			}
		}
		if needs || (ct != nil && ct.Allocs) {
			na := x.g.fresh("alloc", "Int")
			x.g.assume(app("Bool", "<=", a, na))
			st.mem.m["alloc"] = na
		}
	}
	res := make([]Val, sig.Results().Len())
	for i := range res {
		t := sig.Results().At(i).Type()
		var r T
		if ct != nil && ct.Det {
			var ta []T
			good := true
			for k, a := range args {
				if _, isIt := a.(*Clo); isIt {
					good = false
					break
				}
				tt, ok := x.tryTerm(a, ats[k])
				if !ok {
					good = false
					break
				}
				if tt.Sort == "Slice" {
					el := ats[k].Underlying().(*types.Slice).Elem()
					ref, off, ln, _ := x.sl(tt)
					tt = x.uf("view_"+x.u.tstr(el), "Int", sel(x.get(pre, x.ekey(el)), ref), off, ln)
				}
				ta = append(ta, tt)
			}
			if good {
				r = x.g.def("det", x.uf(fmt.Sprintf("det_%s_%d", nm, i), x.sortOf(t), ta...))
			}
		}
		if r.S == "" {
			r = x.g.fresh("res_"+shortName(nm), x.sortOf(t))
		}
		if r.Sort == "Slice" {
			ref, off, ln, cp := x.sl(r)
			r = app("Slice", "mkslice", x.g.def("r", ref), x.g.def("o", off), x.g.def("l", ln), x.g.def("c", cp))
		}
		x.g.assume(x.rangeFact(r, t, x.curAlloc(st.mem)))
		res[i] = r
	}
	if ct != nil {
		post := &Env{x: x, vars: map[string]SV{}, mem: st.mem, old: pre}
		for k, v := range env.vars {
			post.vars[k] = v
		}
		for i, n := range ct.Results {
			if i < len(res) && n != "_" {
				post.vars[n] = x.svOf(res[i], sig.Results().At(i).Type())
			}
		}
		for _, e := range ct.Ensures {
			x.g.assume(tImp(rc, post.boolE(e)))
		}
		for _, e := range ct.Assumes {
			x.assumed["assumed postcondition of "+nm+": "+e.Src] = true
			x.g.assume(tImp(rc, post.boolE(e)))
		}
	}
	return res
}

func (x *Exec) tryTerm(v Val, t types.Type) (r T, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	return x.toTerm(v, t), true
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (x *Exec) checkPureClosure(c *Clo, callee string) {
	for _, b := range c.fn.Blocks {
		for _, i := range b.Instrs {
			switch s := i.(type) {
			case *ssa.Store:
				if a, ok := s.Addr.(*ssa.FreeVar); ok {
					panic(unsup("closure passed to %s writes captured variable %s", callee, a.Name()))
				}
				if _, ok := s.Addr.(*ssa.Alloc); ok {
					continue
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.Alloc); ok {
						continue
					}
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						continue
					}
				}
				panic(unsup("closure passed to %s writes memory", callee))
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				panic(unsup("closure passed to %s has side effects", callee))
			}
		}
	}
}

func (x *Exec) havocLV(st *State, lv *LV) {
	v := x.g.fresh("hv", x.sortOf(lv.typ))
	x.g.assume(x.rangeFact(v, lv.typ, x.curAlloc(st.mem)))
	x.storeLV(lv, st.mem, v)
}

// havocTarget havocs one modifies clause.
func (x *Exec) havocTarget(st *State, env *Env, m ModTarget) {
	switch m.Kind {
	case "ghost":
		k := "ghost:" + m.Name
		s, ok := x.spec.ghosts[m.Name]
		if !ok {
			panic(unsup("unknown ghost %s", m.Name))
		}
		x.setKeySort(k, s)
		st.mem.m[k] = x.g.fresh(m.Name, s)
	case "deref": // *p
		sv := env.eval(m.Expr)
		if sv.lv != nil {
			x.havocLV(st, sv.lv)
			return
		}
		lv := x.lvOf(sv.t, deref(sv.typ))
		x.havocLV(st, lv)
	case "elems": // s[*]
		sv := env.eval(m.Expr)
		if pt, ok := sv.typ.Underlying().(*types.Slice); ok {
			ref, _, _, _ := x.sl(sv.t)
			k := x.ekey(pt.Elem())
			h := x.get(st.mem, k)
			_, as, _ := arrParts(h.Sort)
			st.mem.m[k] = x.g.def("e", sto(h, ref, x.g.fresh("el", as)))
			return
		}
		if mt, ok := sv.typ.Underlying().(*types.Map); ok {
			_ = mt
			md, mv, ml := x.mkeys(sv.typ)
			for _, k := range []string{md, mv, ml} {
				h := x.get(st.mem, k)
				_, as, _ := arrParts(h.Sort)
				st.mem.m[k] = x.g.def("e", sto(h, sv.t, x.g.fresh("mm", as)))
			}
			return
		}
		panic(unsup("modifies %s[*]: not a slice or map", m.Name))
	case "heap":
		for _, k := range x.heapKeys(m.Name) {
			st.mem.m[k] = x.g.fresh("hh", x.keySort[k])
			if strings.HasPrefix(k, "MD:") {
				_, es, _ := arrParts(x.keySort[k])
				x.g.assume(tEq(sel(st.mem.m[k], intT(0)), constArr(es, tFalse)))
			}
		}
	case "all":
		x.havocAll(st.mem, false)
	}
}

// heapKeys resolves heap(T): every mem key of the given Go type text.
func (x *Exec) heapKeys(name string) []string {
	var out []string
	for k := range x.keySort {
		i := strings.IndexByte(k, ':')
		if i > 0 && (k[i+1:] == name) && k[:i] != "cell" && k[:i] != "vis" && k[:i] != "ghost" {
			out = append(out, k)
		}
	}
	return out
}

func (x *Exec) builtin(fr *Frame, st *State, rc T, b *ssa.Builtin, cc *ssa.CallCommon, args []Val) Val {
	tm := func(i int) T { return x.toTerm(args[i], cc.Args[i].Type()) }
	switch b.Name() {
	case "len":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			_, _, l, _ := x.sl(tm(0))
			return l
		case *types.Map:
			return x.mapLen(st.mem, cc.Args[0].Type(), tm(0))
		case *types.Basic:
			return x.strLen(tm(0))
		case *types.Array:
			return x.idxLit(t.Len())
		case *types.Pointer:
			return x.idxLit(t.Elem().Underlying().(*types.Array).Len())
		}
		return x.g.fresh("len", x.u.idx())
	case "cap":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			_, _, _, c := x.sl(tm(0))
			return c
		}
		return x.g.fresh("cap", x.u.idx())
	case "append":
		return x.append(st, rc, cc, tm(0), tm(1))
	case "copy":
		return x.copySl(st, rc, cc, tm(0), tm(1))
	case "delete":
		x.mapDelete(st.mem, cc.Args[0].Type(), tm(0), tm(1))
		return Tuple{}
	case "min", "max":
		r := tm(0)
		_, sg, ok := typeInt(cc.Args[0].Type())
		if !ok {
			panic(unsup("min/max on non-integers"))
		}
		for i := 1; i < len(args); i++ {
			o := tm(i)
			if b.Name() == "min" {
				r = tIte(x.lt(o, r, sg), o, r)
			} else {
				r = tIte(x.lt(r, o, sg), o, r)
			}
		}
		return x.g.def("mm", r)
	case "recover":
		return T{"nilIface", "Iface"}
	case "print", "println", "close":
		return Tuple{}
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			md, _, ml := x.mkeys(cc.Args[0].Type())
			D := x.get(st.mem, md)
			_, ds, _ := arrParts(D.Sort)
			m := tm(0)
			st.mem.m[md] = x.g.def("md", sto(D, m, constArr(ds, tFalse)))
			st.mem.m[ml] = x.g.def("ml", sto(x.get(st.mem, ml), m, x.idxLit(0)))
			return Tuple{}
		}
	case "ssa:wrapnilchk":
		return args[0]
	case "String": // unsafe.String(ptr, len): view of the bytes at ptr
		lv, ok := args[0].(*LV)
		if !ok || lv.kind != "elem" || len(lv.path) != 0 {
			panic(unsup("unsafe.String of non-element pointer"))
		}
		arr := sel(x.get(st.mem, lv.key), lv.ref)
		return x.strOfArr(arr, lv.idx, tm(1))
	case "real", "imag", "complex":
		var ts []T
		for i := range args {
			ts = append(ts, tm(i))
		}
		rs := "Flt"
		x.g.hdecl("sort Flt", "(declare-sort Flt 0)")
		if b.Name() == "complex" {
			rs = "Cplx"
			x.g.hdecl("sort Cplx", "(declare-sort Cplx 0)")
		}
		return x.uf("c"+b.Name(), rs, ts...)
	}
	panic(unsup("builtin %s", b.Name()))
}

func (x *Exec) append(st *State, rc T, cc *ssa.CallCommon, s, t T) Val {
	stt := cc.Args[0].Type().Underlying().(*types.Slice)
	k := x.ekey(stt.Elem())
	E := x.get(st.mem, k)
	ref, off, ln, cp := x.sl(s)
	var tref, toff, tln T
	var srcArr T
	if t.Sort == "Slice" {
		tref, toff, tln, _ = x.sl(t)
		srcArr = sel(E, tref)
	} else { // append([]byte, string...)
		tln = x.strLen(t)
		toff = x.idxLit(0)
		as := arrSort(x.u.idx(), x.byteSort())
		srcArr = x.g.def("sb", x.uf("bytesof_"+as, as, t))
		if t.Sort == "Str" {
			x.g.assume(T{fmt.Sprintf("(forall ((q!i %s)) (! (= (select %s q!i) (strat %s q!i)) :pattern ((select %s q!i))))", x.u.idx(), srcArr.S, t.S, srcArr.S), "Bool"})
		}
	}
	nl := x.g.def("nl", x.iadd(ln, tln))
	grow := x.g.def("grow", x.ilt(cp, nl))
	newref := x.alloc(st.mem)
	rref := x.g.def("ar", tIte(tOr(grow, tEq(ref, intT(0))), newref, ref))
	base := sel(E, ref)
	var arr T
	if n, ok := litVal(tln.S); ok && n.IsInt64() && n.Int64() <= 8 {
		arr = base
		for i := int64(0); i < n.Int64(); i++ {
			arr = sto(arr, x.ixadd(off, x.iadd(ln, x.idxLit(i))), sel(srcArr, x.ixadd(toff, x.idxLit(i))))
		}
		arr = x.g.def("aa", arr)
	} else if w := bvWidth(tln.Sort); w > 0 && strings.HasPrefix(tln.S, "(_ bv1 ") {
		arr = x.g.def("aa", sto(base, x.ixadd(off, ln), sel(srcArr, x.ixadd(toff, x.idxLit(0)))))
	} else {
		b := x.g.def("ab", base)
		sa := x.g.def("as", srcArr)
		arr = x.g.fresh("aa", b.Sort)
		st0 := x.g.def("st", x.iadd(off, ln))
		q := T{"q!i", x.u.idx()}
		inR := tAnd(x.ile(st0, q), x.ilt(q, x.iadd(st0, tln)))
		x.g.assume(T{fmt.Sprintf("(forall ((q!i %s)) (! (= %s (ite %s %s %s)) :pattern (%s)))", x.u.idx(), sel(arr, q).S, inR.S, sel(sa, x.iadd(toff, x.isub(q, st0))).S, sel(b, q).S, sel(arr, q).S), "Bool"})
		// second trigger: from the source side
		x.g.assume(T{fmt.Sprintf("(forall ((q!i %s)) (! (=> %s (= %s %s)) :pattern (%s)))", x.u.idx(), tAnd(x.ile(x.idxLit(0), q), x.ilt(q, tln)).S, sel(arr, x.iadd(st0, q)).S, sel(sa, x.ixadd(toff, q)).S, sel(sa, x.ixadd(toff, q)).S), "Bool"})
	}
	// appending nothing to a nil slice yields nil
	isNil := tAnd(tEq(ref, intT(0)), tEq(tln, x.idxLit(0)))
	nc := x.g.fresh("ncap", x.u.idx())
	lim := x.idxLit(1 << 40)
	if !x.u.BV {
		lim = x.idxLit(1 << 61)
	}
	x.g.assume(tAnd(x.ile(nl, nc), x.ile(nc, lim)))
	rcap := tIte(grow, nc, cp)
	if isNil.S != "false" {
		rref = x.g.def("ar", tIte(isNil, intT(0), rref))
		st.mem.m[k] = x.g.def("e", tIte(isNil, E, sto(E, rref, arr)))
		rcap = tIte(isNil, x.idxLit(0), rcap)
	} else {
		st.mem.m[k] = x.g.def("e", sto(E, rref, arr))
	}
	return app("Slice", "mkslice", rref, off, nl, x.g.def("cap", rcap))
}

func (x *Exec) copySl(st *State, rc T, cc *ssa.CallCommon, d, s T) Val {
	dt := cc.Args[0].Type().Underlying().(*types.Slice)
	k := x.ekey(dt.Elem())
	E := x.get(st.mem, k)
	dref, doff, dln, _ := x.sl(d)
	var sa, soff, sln T
	if s.Sort == "Slice" {
		var sref T
		sref, soff, sln, _ = x.sl(s)
		sa = x.g.def("as", sel(E, sref))
	} else {
		sln = x.strLen(s)
		soff = x.idxLit(0)
		as := arrSort(x.u.idx(), x.byteSort())
		sa = x.g.def("sb", x.uf("bytesof_"+as, as, s))
		if s.Sort == "Str" {
			x.g.assume(T{fmt.Sprintf("(forall ((q!i %s)) (! (= (select %s q!i) (strat %s q!i)) :pattern ((select %s q!i))))", x.u.idx(), sa.S, s.S, sa.S), "Bool"})
		}
	}
	n := x.g.def("cn", tIte(x.ilt(dln, sln), dln, sln))
	b := x.g.def("ab", sel(E, dref))
	arr := x.g.fresh("ca", b.Sort)
	q := T{"q!i", x.u.idx()}
	inR := tAnd(x.ile(doff, q), x.ilt(q, x.iadd(doff, n)))
	x.g.assume(T{fmt.Sprintf("(forall ((q!i %s)) (! (= %s (ite %s %s %s)) :pattern (%s)))", x.u.idx(), sel(arr, q).S, inR.S, sel(sa, x.iadd(soff, x.isub(q, doff))).S, sel(b, q).S, sel(arr, q).S), "Bool"})
	st.mem.m[k] = x.g.def("e", sto(E, dref, arr))
	return n
}
