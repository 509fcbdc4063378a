package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) curAlloc(mem *Mem) T {
	x.keySort["alloc"] = "Int"
	return x.get(mem, "alloc")
}

// loaded names a loaded value and assumes its type invariant.
func (x *Exec) loaded(st *State, t T, typ types.Type) T {
	d := x.g.def("ld", t)
	if d.Sort == "Slice" {
		r, o, l, c := x.sl(d)
		d = app("Slice", "mkslice", x.g.def("r", r), x.g.def("o", o), x.g.def("l", l), x.g.def("c", c))
	}
	x.g.assume(x.rangeFact(d, typ, x.curAlloc(st.mem)))
	return d
}

func (x *Exec) evalInstr(fr *Frame, st *State, rc T, ins ssa.Instruction, v ssa.Value) Val {
	switch i := v.(type) {
	case *ssa.Alloc:
		el := deref(i.Type())
		if at, ok := el.Underlying().(*types.Array); ok {
			ref := x.alloc(st.mem)
			k := x.ekey(at.Elem())
			st.mem.m[k] = x.g.def("e", sto(x.get(st.mem, k), ref, x.zero(el)))
			return ref
		}
		if !escapes(i, map[ssa.Value]bool{}) {
			k := "cell:" + fr.path + ":" + i.Name()
			x.setKeySort(k, x.sortOf(el))
			x.cellTyp[k] = el
			st.mem.m[k] = x.zero(el)
			delete(st.vals, cellClo{k})
			return &LV{kind: "cell", key: k, rtyp: el, typ: el}
		}
		ref := x.alloc(st.mem)
		k := x.hkey(el)
		st.mem.m[k] = x.g.def("h", sto(x.get(st.mem, k), ref, x.zero(el)))
		return ref
	case *ssa.FieldAddr:
		base := x.val(st, i.X)
		stt := deref(i.X.Type())
		ft := stt.Underlying().(*types.Struct).Field(i.Field).Type()
		if t, ok := base.(T); ok {
			x.safe(fr, "nil", rc, tNot(tEq(t, intT(0))))
		}
		lv := x.lvOf(base, stt)
		if _, ok := ft.Underlying().(*types.Array); ok {
			if lv.kind == "heap" && len(lv.path) == 0 {
				// array embedded in a heap object: its storage is a region of its own
				f := fmt.Sprintf("region_%s_%d", sanitize(x.u.tstr(stt)), i.Field)
				c := x.regionID(f)
				x.g.hdecl(f, fmt.Sprintf("(define-fun %s ((r Int)) Int (- (- 0 (* 64 r)) %d))", f, c))
				return app("Int", f, lv.ref)
			}
			if lv.kind == "cell" {
				f := "cellregion_" + sanitize(lv.key) + fmt.Sprint(i.Field)
				x.g.hdecl(f, "(declare-const "+f+" Int)\n(assert (< "+f+" 0))")
				return T{f, "Int"}
			}
			panic(unsup("array inside interior struct"))
		}
		n := *lv
		n.path = append(append([]stepT{}, lv.path...), stepT{field: i.Field, typ: stt})
		n.typ = ft
		return &n
	case *ssa.IndexAddr:
		idx := x.toIdx(st, i.Index)
		switch xt := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(st, i.X)
			ref, off, ln, _ := x.sl(s)
			x.safe(fr, "index", rc, tAnd(x.ile(x.idxLit(0), idx), x.ilt(idx, ln)))
			return &LV{kind: "elem", key: x.ekey(xt.Elem()), ref: ref, idx: x.g.def("ix", x.ixadd(off, idx)), rtyp: xt.Elem(), typ: xt.Elem()}
		case *types.Pointer:
			at := xt.Elem().Underlying().(*types.Array)
			x.safe(fr, "index", rc, tAnd(x.ile(x.idxLit(0), idx), x.ilt(idx, x.idxLit(at.Len()))))
			ref := x.term(st, i.X)
			return &LV{kind: "elem", key: x.ekey(at.Elem()), ref: ref, idx: idx, rtyp: at.Elem(), typ: at.Elem()}
		}
		panic(unsup("IndexAddr on %s", i.X.Type()))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p := x.val(st, i.X)
			el := deref(i.X.Type())
			if at, ok := el.Underlying().(*types.Array); ok {
				ref := x.toTerm(p, i.X.Type())
				return sel(x.get(st.mem, x.ekey(at.Elem())), ref)
			}
			if t, ok := p.(T); ok {
				x.safe(fr, "nil", rc, tNot(tEq(t, intT(0))))
			}
			lv := x.lvOf(p, el)
			if lv.kind == "cell" && len(lv.path) == 0 {
				if c, ok := st.vals[cellClo{lv.key}]; ok {
					return c
				}
			}
			return x.loaded(st, x.loadLV(lv, st.mem), el)
		case token.NOT:
			return tNot(x.term(st, i.X))
		case token.SUB:
			a := x.term(st, i.X)
			if bvWidth(a.Sort) > 0 {
				return app(a.Sort, "bvneg", a)
			}
			if a.Sort == "Int" {
				w, sg, _ := typeInt(i.Type())
				return x.arithWrap(fr, rc, app("Int", "-", a), w, sg)
			}
			return x.uf("neg_"+a.Sort, a.Sort, a)
		case token.XOR:
			a := x.term(st, i.X)
			if bvWidth(a.Sort) > 0 {
				return app(a.Sort, "bvnot", a)
			}
			w, sg, _ := typeInt(i.Type())
			return x.wrap(app("Int", "-", app("Int", "-", a), intT(1)), w, sg)
		case token.ARROW:
			panic(unsup("channel receive"))
		}
	case *ssa.BinOp:
		return x.binop(fr, st, rc, i)
	case *ssa.ChangeType:
		return x.val(st, i.X)
	case *ssa.ChangeInterface:
		return x.val(st, i.X)
	case *ssa.Convert:
		return x.convert(fr, st, rc, i.X, i.Type())
	case *ssa.MultiConvert:
		return x.convert(fr, st, rc, i.X, i.Type())
	case *ssa.MakeInterface:
		return x.box(x.val(st, i.X), i.X.Type())
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, rc, i)
	case *ssa.Extract:
		tv := x.val(st, i.Tuple)
		t, ok := tv.(Tuple)
		if !ok {
			panic(unsup("extract from %T", tv))
		}
		return t[i.Index]
	case *ssa.Field:
		return x.loaded(st, x.getField(x.term(st, i.X), i.X.Type(), i.Field), i.Type())
	case *ssa.Index:
		switch i.X.Type().Underlying().(type) {
		case *types.Array:
			idx := x.toIdx(st, i.Index)
			return sel(x.term(st, i.X), idx)
		default:
			return x.strIndex(fr, st, rc, i.X, i.Index)
		}
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			return x.strIndex(fr, st, rc, i.X, i.Index)
		}
		m := x.term(st, i.X)
		k := x.term(st, i.Index)
		md, mv, _ := x.mkeys(i.X.Type())
		has := x.g.def("has", sel(sel(x.get(st.mem, md), m), k))
		mt := i.X.Type().Underlying().(*types.Map)
		val := x.loaded(st, tIte(has, sel(sel(x.get(st.mem, mv), m), k), x.zero(mt.Elem())), mt.Elem())
		if i.CommaOk {
			return Tuple{val, has}
		}
		return val
	case *ssa.Slice:
		return x.slice(fr, st, rc, i)
	case *ssa.MakeSlice:
		ln := x.toIdx(st, i.Len)
		cp := x.toIdx(st, i.Cap)
		x.safe(fr, "makelen", rc, tAnd(x.ile(x.idxLit(0), ln), x.ile(ln, cp)))
		if x.root != nil && x.root.AllocBound.S != "" {
			x.g.oblige("alloc", x.oname(fr, "allocbound"), "allocation bounded", rc, x.ile(cp, x.root.AllocBound))
		}
		el := i.Type().Underlying().(*types.Slice).Elem()
		ref := x.alloc(st.mem)
		k := x.ekey(el)
		h := x.get(st.mem, k)
		_, as, _ := arrParts(h.Sort)
		st.mem.m[k] = x.g.def("e", sto(h, ref, constArr(as, x.zero(el))))
		return app("Slice", "mkslice", ref, x.idxLit(0), ln, cp)
	case *ssa.MakeMap:
		ref := x.alloc(st.mem)
		md, _, ml := x.mkeys(i.Type())
		D := x.get(st.mem, md)
		_, ds, _ := arrParts(D.Sort)
		st.mem.m[md] = x.g.def("md", sto(D, ref, constArr(ds, tFalse)))
		st.mem.m[ml] = x.g.def("ml", sto(x.get(st.mem, ml), ref, x.idxLit(0)))
		return ref
	case *ssa.MakeClosure:
		c := &Clo{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, x.val(st, b))
		}
		x.closureFacts(st, i, c, rc)
		return c
	case *ssa.MakeChan:
		return x.alloc(st.mem)
	case *ssa.Range:
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			m := x.term(st, i.X)
			k := "vis:" + fr.path + ":" + i.Name()
			s := arrSort(x.sortOf(mt.Key()), "Bool")
			x.setKeySort(k, s)
			st.mem.m[k] = constArr(s, tFalse)
			md, _, _ := x.mkeys(i.X.Type())
			return &Iter{m: m, typ: i.X.Type(), key: k, dom0: x.g.def("dom0", sel(x.get(st.mem, md), m))}
		}
		return &Iter{str: true, typ: i.X.Type(), m: x.term(st, i.X)}
	case *ssa.Next:
		it, ok := x.val(st, i.Iter).(*Iter)
		if !ok {
			panic(unsup("iterator"))
		}
		okv := x.g.fresh("more", "Bool")
		if it.str {
			idx := x.g.fresh("si", x.u.idx())
			r := x.g.fresh("rune", x.sortOf(types.Typ[types.Int32]))
			x.g.assume(x.rangeFact(r, types.Typ[types.Int32], intT(0)))
			x.g.assume(tImp(okv, tAnd(x.ile(x.idxLit(0), idx), x.ilt(idx, x.strLen(it.m)))))
			return Tuple{okv, idx, r}
		}
		mt := it.typ.Underlying().(*types.Map)
		k := x.g.fresh("key", x.sortOf(mt.Key()))
		md, mv, ml := x.mkeys(it.typ)
		dom := sel(x.get(st.mem, md), it.m)
		vis := x.get(st.mem, it.key)
		x.g.assume(tImp(tAnd(rc, okv), tAnd(sel(dom, k), tNot(sel(vis, k)))))
		x.g.assume(tImp(okv, x.rangeFact(k, mt.Key(), x.curAlloc(st.mem))))
		// end of iteration: every key present since the start has been visited
		q := T{"q!k", k.Sort}
		x.g.assume(tImp(tAnd(rc, tNot(okv)), T{fmt.Sprintf("(forall ((q!k %s)) (! (=> (and %s %s) %s) :pattern (%s) :pattern (%s)))", k.Sort, sel(dom, q).S, sel(it.dom0, q).S, sel(vis, q).S, sel(dom, q).S, sel(vis, q).S), "Bool"}))
		if x.spec.cardinal {
			c := x.visCard(it.key, vis)
			ln := sel(x.get(st.mem, ml), it.m)
			x.g.assume(tImp(tAnd(rc, tNot(okv), tEq(dom, it.dom0)), tEq(c, ln)))
		}
		nvis := x.g.def("vis", sto(vis, k, tTrue))
		st.mem.m[it.key] = x.g.def("vism", tIte(okv, nvis, vis))
		val := x.loaded(st, sel(sel(x.get(st.mem, mv), it.m), k), mt.Elem())
		return Tuple{okv, k, val}
	case *ssa.Call:
		return x.call(fr, st, rc, i)
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	}
	panic(unsup("value instruction %T", v))
}

func (x *Exec) visCard(key string, vis T) T {
	f := "card_" + sanitize(vis.Sort)
	ks, _, _ := arrParts(vis.Sort)
	one, zero := x.idxLit(1).S, x.idxLit(0).S
	add := x.iadd(T{"(" + f + " s)", x.u.idx()}, T{"(ite (select s k) " + zero + " " + one + ")", x.u.idx()}).S
	x.g.hdecl(f, "(declare-fun "+f+" ("+vis.Sort+") "+x.u.idx()+")\n"+
		"(assert (= ("+f+" "+constArr(vis.Sort, tFalse).S+") "+zero+"))\n"+
		"(assert (forall ((s "+vis.Sort+") (k "+ks+")) (! (= ("+f+" (store s k true)) "+add+") :pattern (("+f+" (store s k true))))))")
	return app(x.u.idx(), f, vis)
}

func (x *Exec) regionID(f string) int {
	if id, ok := x.regions[f]; ok {
		return id
	}
	if x.regions == nil {
		x.regions = map[string]int{}
	}
	x.regions[f] = len(x.regions) + 1
	if len(x.regions) > 60 {
		panic(unsup("too many array regions"))
	}
	return x.regions[f]
}

func (x *Exec) uf(name, sort string, args ...T) T {
	name = sanitize(name)
	s := "(declare-fun " + name + " ("
	for _, a := range args {
		s += a.Sort + " "
	}
	x.g.hdecl("uf "+name, s+") "+sort+")")
	return app(sort, name, args...)
}

// toIdx evaluates an integer value as an index-sorted term (Go permits any integer type as index).
func (x *Exec) toIdx(st *State, v ssa.Value) T {
	t := x.term(st, v)
	if w := bvWidth(t.Sort); w > 0 && w != 64 {
		_, sg, _ := typeInt(v.Type())
		if sg {
			return app(bvSort(64), fmt.Sprintf("(_ sign_extend %d)", 64-w), t)
		}
		return app(bvSort(64), fmt.Sprintf("(_ zero_extend %d)", 64-w), t)
	}
	return t
}

func (x *Exec) arithWrap(fr *Frame, rc T, v T, w int, signed bool) T {
	if w == 64 {
		// 64-bit arithmetic is treated as mathematical unless the contract asks for overflow checks
		if x.root != nil && x.root.Overflow {
			lo, hi := typeRange(w, signed)
			v = x.g.def("ar", v)
			x.g.oblige("overflow", x.oname(fr, "overflow"), "no 64-bit overflow", rc, tAnd(app("Bool", "<=", T{bigLit(lo), "Int"}, v), app("Bool", "<=", v, T{bigLit(hi), "Int"})))
		}
		return v
	}
	return x.wrap(v, w, signed)
}

func (x *Exec) binop(fr *Frame, st *State, rc T, i *ssa.BinOp) Val {
	xt := i.X.Type()
	if i.Op == token.EQL || i.Op == token.NEQ {
		var r T
		isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }
		a0, b0 := x.val(st, i.X), x.val(st, i.Y)
		if _, ok := a0.(*LV); ok && isNil(i.Y) {
			r = tFalse
		} else if _, ok := a0.(*Clo); ok && isNil(i.Y) {
			r = tFalse
		} else {
			a, b := x.toTerm(a0, xt), x.toTerm(b0, i.Y.Type())
			if _, ok := xt.Underlying().(*types.Slice); ok {
				ra, _, _, _ := x.sl(a)
				rb, _, _, _ := x.sl(b)
				r = tEq(ra, rb)
			} else if a.Sort == "Flt" || a.Sort == "Flt32" || a.Sort == "Cplx" {
				r = x.uf("feq_"+a.Sort, "Bool", a, b)
			} else {
				if a.Sort != b.Sort && a.Sort == "Iface" {
					b = x.box(b, i.Y.Type()).(T)
				} else if a.Sort != b.Sort && b.Sort == "Iface" {
					a = x.box(a, xt).(T)
				}
				r = tEq(a, b)
			}
		}
		if i.Op == token.NEQ {
			return tNot(r)
		}
		return r
	}
	a, b := x.term(st, i.X), x.term(st, i.Y)
	if a.Sort == "Str" || a.Sort == "String" {
		return x.strBin(i.Op, a, b)
	}
	if a.Sort == "Flt" || a.Sort == "Flt32" || a.Sort == "Cplx" {
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return x.uf("f"+sanitize(opName(i.Op))+a.Sort, "Bool", a, b)
		}
		return x.uf("f"+sanitize(opName(i.Op))+a.Sort, a.Sort, a, b)
	}
	if a.Sort == "Bool" {
		switch i.Op {
		case token.AND:
			return tAnd(a, b)
		case token.OR:
			return tOr(a, b)
		}
	}
	w, sg, ok := typeInt(xt)
	if !ok {
		panic(unsup("binop %s on %s", i.Op, xt))
	}
	switch i.Op {
	case token.LSS:
		return x.lt(a, b, sg)
	case token.LEQ:
		return x.le(a, b, sg)
	case token.GTR:
		return x.lt(b, a, sg)
	case token.GEQ:
		return x.le(b, a, sg)
	}
	if i.Op == token.QUO || i.Op == token.REM {
		z := x.intConst(new(big.Int), xt)
		x.safe(fr, "divzero", rc, tNot(tEq(b, z)))
	}
	if x.u.BV {
		switch i.Op {
		case token.ADD:
			return app(a.Sort, "bvadd", a, b)
		case token.SUB:
			return app(a.Sort, "bvsub", a, b)
		case token.MUL:
			return app(a.Sort, "bvmul", a, b)
		case token.QUO:
			if sg {
				return app(a.Sort, "bvsdiv", a, b)
			}
			return app(a.Sort, "bvudiv", a, b)
		case token.REM:
			if sg {
				return app(a.Sort, "bvsrem", a, b)
			}
			return app(a.Sort, "bvurem", a, b)
		case token.AND:
			return app(a.Sort, "bvand", a, b)
		case token.OR:
			return app(a.Sort, "bvor", a, b)
		case token.XOR:
			return app(a.Sort, "bvxor", a, b)
		case token.AND_NOT:
			return app(a.Sort, "bvand", a, app(b.Sort, "bvnot", b))
		case token.SHL, token.SHR:
			// shift count may have another width; Go: counts >= width give 0 (or sign)
			bw := bvWidth(b.Sort)
			cnt := b
			var big T = tFalse
			if bw < w {
				cnt = app(a.Sort, fmt.Sprintf("(_ zero_extend %d)", w-bw), b)
			} else if bw > w {
				big = app("Bool", "bvuge", b, bvLit(bigOf(int64(w)), bw))
				cnt = app(a.Sort, fmt.Sprintf("(_ extract %d 0)", w-1), b)
			}
			_, bsg, _ := typeInt(i.Y.Type())
			if bsg {
				x.safe(fr, "shift", rc, app("Bool", "bvsge", b, bvLit(bigOf(0), bw)))
			}
			var r, ov T
			if i.Op == token.SHL {
				r = app(a.Sort, "bvshl", a, cnt)
				ov = bvLit(bigOf(0), w)
			} else if sg {
				r = app(a.Sort, "bvashr", a, cnt)
				ov = app(a.Sort, "bvashr", a, bvLit(bigOf(int64(w-1)), w))
			} else {
				r = app(a.Sort, "bvlshr", a, cnt)
				ov = bvLit(bigOf(0), w)
			}
			return tIte(big, ov, r)
		}
		panic(unsup("bv binop %s", i.Op))
	}
	switch i.Op {
	case token.ADD:
		return x.arithWrap(fr, rc, x.iadd(a, b), w, sg)
	case token.SUB:
		if !sg && w == 64 {
			// unsigned subtraction wraps
			d := x.g.def("sub", app("Int", "-", a, b))
			return T{fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", d.S, d.S, pow2(64), d.S), "Int"}
		}
		return x.arithWrap(fr, rc, x.isub(a, b), w, sg)
	case token.MUL:
		return x.arithWrap(fr, rc, app("Int", "*", a, b), w, sg)
	case token.QUO:
		if !sg {
			return app("Int", "div", a, b)
		}
		return T{fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.S, a.S, b.S, a.S, b.S), "Int"}
	case token.REM:
		if !sg {
			return app("Int", "mod", a, b)
		}
		return T{fmt.Sprintf("(ite (>= %s 0) (mod %s (abs %s)) (- (mod (- %s) (abs %s))))", a.S, a.S, b.S, a.S, b.S), "Int"}
	case token.SHL:
		if l, ok := litVal(b.S); ok && l.IsInt64() && l.Int64() < 64 {
			return x.wrap(app("Int", "*", a, T{pow2(int(l.Int64())).String(), "Int"}), w, sg)
		}
	case token.SHR:
		if l, ok := litVal(b.S); ok && l.IsInt64() && l.Int64() < 64 {
			return app("Int", "div", a, T{pow2(int(l.Int64())).String(), "Int"})
		}
	case token.AND:
		for k := 0; k < 2; k++ {
			if l, ok := litVal(b.S); ok {
				n := new(big.Int).Add(l, big.NewInt(1))
				if n.BitLen() > 0 && new(big.Int).And(n, l).Sign() == 0 && l.Sign() >= 0 {
					return app("Int", "mod", a, T{n.String(), "Int"})
				}
				if l.Sign() > 0 && new(big.Int).And(l, new(big.Int).Sub(l, big.NewInt(1))).Sign() == 0 && !sg {
					bit := app("Int", "mod", app("Int", "div", a, T{l.String(), "Int"}), T{"2", "Int"})
					return app("Int", "*", bit, T{l.String(), "Int"})
				}
			}
			a, b = b, a
		}
	}
	r := x.g.def("bit", x.uf(fmt.Sprintf("bit%s_%d_%v", opName(i.Op), w, sg), "Int", a, b))
	x.g.assume(x.rangeFact(r, xt, intT(0)))
	return r
}

func bigOf(v int64) *big.Int { return big.NewInt(v) }

func opName(op token.Token) string {
	switch op {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "quo"
	case token.REM:
		return "rem"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	case token.LSS:
		return "lt"
	case token.LEQ:
		return "le"
	case token.GTR:
		return "gt"
	case token.GEQ:
		return "ge"
	}
	return "op"
}

func (x *Exec) strLen(s T) T {
	if s.Sort == "String" {
		return app("Int", "str.len", s)
	}
	x.needStr()
	return app(x.u.idx(), "strlen", s)
}

func (x *Exec) strBin(op token.Token, a, b T) T {
	smt := a.Sort == "String"
	lt := func(a, b T) T {
		if smt {
			return app("Bool", "str.<", a, b)
		}
		x.needStr()
		return app("Bool", "strlt", a, b)
	}
	switch op {
	case token.ADD:
		if smt {
			return app("String", "str.++", a, b)
		}
		e := x.strLit("").S
		if a.S == e {
			return b
		}
		if b.S == e {
			return a
		}
		return app("Str", "strcat", a, b)
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return tOr(tEq(a, b), lt(a, b))
	case token.GEQ:
		return tOr(tEq(a, b), lt(b, a))
	}
	panic(unsup("string op %s", op))
}

func (x *Exec) strIndex(fr *Frame, st *State, rc T, s, i ssa.Value) Val {
	sv := x.term(st, s)
	idx := x.toIdx(st, i)
	x.safe(fr, "index", rc, tAnd(x.ile(x.idxLit(0), idx), x.ilt(idx, x.strLen(sv))))
	if sv.Sort == "String" {
		r := x.g.def("ch", app("Int", "str.to_code", app("String", "str.at", sv, idx)))
		return r
	}
	r := x.g.def("ch", app(x.byteSort(), "strat", sv, idx))
	x.g.assume(x.rangeFact(r, types.Typ[types.Uint8], intT(0)))
	return r
}

func (x *Exec) subStr(s, lo, hi T) T {
	if s.Sort == "String" {
		return app("String", "str.substr", s, lo, app("Int", "-", hi, lo))
	}
	x.needStr()
	r := x.g.def("sub", app("Str", "strsub", s, lo, hi))
	x.g.assume(tImp(tAnd(x.ile(x.idxLit(0), lo), x.ile(lo, hi), x.ile(hi, x.strLen(s))), tEq(x.strLen(r), x.isub(hi, lo))))
	x.g.assume(tImp(tAnd(tEq(lo, x.idxLit(0)), tEq(hi, x.strLen(s))), tEq(r, s)))
	if !x.u.BV {
		x.g.assume(T{fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 %s) (<= 0 q!i) (< q!i (- %s %s)) (<= %s %s)) (= (strat %s q!i) (strat %s (+ %s q!i)))) :pattern ((strat %s q!i))))",
			lo.S, hi.S, lo.S, hi.S, x.strLen(s).S, r.S, s.S, lo.S, r.S), "Bool"})
	}
	return r
}

func (x *Exec) slice(fr *Frame, st *State, rc T, i *ssa.Slice) Val {
	lo := x.idxLit(0)
	if i.Low != nil {
		lo = x.toIdx(st, i.Low)
	}
	switch xt := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := x.term(st, i.X)
		hi := x.strLen(s)
		if i.High != nil {
			hi = x.toIdx(st, i.High)
		}
		x.safe(fr, "slice", rc, tAnd(x.ile(x.idxLit(0), lo), x.ile(lo, hi), x.ile(hi, x.strLen(s))))
		return x.subStr(s, lo, hi)
	case *types.Slice:
		s := x.term(st, i.X)
		ref, off, ln, cp := x.sl(s)
		hi := ln
		if i.High != nil {
			hi = x.toIdx(st, i.High)
		}
		mx := cp
		if i.Max != nil {
			mx = x.toIdx(st, i.Max)
		}
		x.safe(fr, "slice", rc, tAnd(x.ile(x.idxLit(0), lo), x.ile(lo, hi), x.ile(hi, mx), x.ile(mx, cp)))
		return app("Slice", "mkslice", ref, x.iadd(off, lo), x.isub(hi, lo), x.isub(mx, lo))
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		ref := x.term(st, i.X)
		hi := x.idxLit(at.Len())
		cp := hi
		if i.High != nil {
			hi = x.toIdx(st, i.High)
		}
		mx := cp
		if i.Max != nil {
			mx = x.toIdx(st, i.Max)
		}
		x.safe(fr, "slice", rc, tAnd(x.ile(x.idxLit(0), lo), x.ile(lo, hi), x.ile(hi, mx), x.ile(mx, cp)))
		return app("Slice", "mkslice", ref, lo, x.isub(hi, lo), x.isub(mx, lo))
	}
	panic(unsup("slice of %s", i.X.Type()))
}

func (x *Exec) convert(fr *Frame, st *State, rc T, v ssa.Value, to types.Type) Val {
	from := v.Type()
	fw, fs, fok := typeInt(from)
	tw, ts, tok := typeInt(to)
	if fok && tok {
		return x.convInt(x.term(st, v), fw, fs, tw, ts)
	}
	a := x.val(st, v)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if (fb != nil && fb.Kind() == types.UnsafePointer) || (tb != nil && tb.Kind() == types.UnsafePointer) {
		return a
	}
	at := x.toTerm(a, from)
	ts2 := x.sortOf(to)
	if at.Sort == ts2 && at.Sort != "Int" {
		return at
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			ref, off, ln, _ := x.sl(at)
			arr := sel(x.get(st.mem, x.ekey(sl.Elem())), ref)
			return x.strOfArr(arr, off, ln)
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			ref := x.alloc(st.mem)
			k := x.ekey(sl.Elem())
			h := x.get(st.mem, k)
			_, as, _ := arrParts(h.Sort)
			arr := x.g.def("sb", x.uf("bytesof_"+as, as, at))
			st.mem.m[k] = x.g.def("e", sto(h, ref, arr))
			ln := x.strLen(at)
			if w, _, ok := typeInt(sl.Elem()); ok && w == 8 {
				if at.Sort == "Str" {
					x.g.assume(T{fmt.Sprintf("(forall ((q!i %s)) (! (= (select %s q!i) (strat %s q!i)) :pattern ((select %s q!i))))", x.u.idx(), arr.S, at.S, arr.S), "Bool"})
				}
				x.g.assume(tEq(x.strOfArr(arr, x.idxLit(0), ln), at))
			} else {
				ln = x.g.fresh("runes", x.u.idx())
				x.g.assume(tAnd(x.ile(x.idxLit(0), ln), x.ile(ln, x.strLen(at))))
			}
			return app("Slice", "mkslice", ref, x.idxLit(0), ln, ln)
		}
	}
	r := x.g.def("cv", x.uf("conv_"+at.Sort+"_to_"+x.u.tstr(to), ts2, at))
	x.g.assume(x.rangeFact(r, to, x.curAlloc(st.mem)))
	return r
}

// strOfArr: the string whose bytes are arr[off..off+ln)
func (x *Exec) strOfArr(arr, off, ln T) T {
	ss := x.u.strSort()
	r := x.g.def("str", x.uf("strof_"+arr.Sort, ss, arr, off, ln))
	x.g.assume(tImp(x.ile(x.idxLit(0), ln), tEq(x.strLen(r), ln)))
	if ss == "Str" {
		x.g.assume(T{fmt.Sprintf("(forall ((q!i %s)) (! (=> (and %s %s) (= (strat %s q!i) (select %s %s))) :pattern ((strat %s q!i))))", x.u.idx(),
			x.ile(x.idxLit(0), T{"q!i", x.u.idx()}).S, x.ilt(T{"q!i", x.u.idx()}, ln).S, r.S, arr.S, x.ixadd(off, T{"q!i", x.u.idx()}).S, r.S), "Bool"})
	}
	return r
}

func (x *Exec) convInt(a T, fw int, fs bool, tw int, ts bool) T {
	if x.u.BV {
		switch {
		case fw == tw:
			return a
		case fw > tw:
			return app(bvSort(tw), fmt.Sprintf("(_ extract %d 0)", tw-1), a)
		case fs:
			return app(bvSort(tw), fmt.Sprintf("(_ sign_extend %d)", tw-fw), a)
		default:
			return app(bvSort(tw), fmt.Sprintf("(_ zero_extend %d)", tw-fw), a)
		}
	}
	flo, fhi := typeRange(fw, fs)
	tlo, thi := typeRange(tw, ts)
	if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
		return a
	}
	if fw == 64 && tw == 64 {
		a = x.g.def("cv", a)
		if ts { // uint64 -> int64
			return T{fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", a.S, pow2(63), a.S, a.S, pow2(64)), "Int"}
		}
		return T{fmt.Sprintf("(ite (>= %s 0) %s (+ %s %s))", a.S, a.S, a.S, pow2(64)), "Int"}
	}
	return x.wrap(a, tw, ts)
}

func (x *Exec) boxFn(t types.Type) (string, string, int) {
	id := x.u.typeID(t)
	s := x.sortOf(t)
	x.needIface()
	nm := fmt.Sprintf("%d_%s", id, sanitize(x.u.tstr(t)))
	if len(nm) > 40 {
		nm = nm[:40]
	}
	x.g.hdecl("box"+nm, fmt.Sprintf("(declare-fun box_%s (%s) Iface)\n(declare-fun unbox_%s (Iface) %s)", nm, s, nm, s))
	return "box_" + nm, "unbox_" + nm, id
}

func (x *Exec) box(v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	var a T
	if lv, ok := v.(*LV); ok && (lv.kind != "heap" || len(lv.path) > 0) {
		x.needIface()
		r := x.g.fresh("boxptr", "Iface")
		_, _, id := x.boxFn(t)
		x.g.assume(tEq(app("Int", "tag", r), intT(int64(id))))
		return r
	}
	a = x.toTerm(v, t)
	b, u, id := x.boxFn(t)
	r := x.g.def("box", app("Iface", b, a))
	x.g.assume(tEq(app(a.Sort, u, r), a))
	x.g.assume(tEq(app("Int", "tag", r), intT(int64(id))))
	return r
}

func (x *Exec) unbox(v T, t types.Type) (val, is T) {
	b, u, id := x.boxFn(t)
	s := x.sortOf(t)
	is = tEq(app("Int", "tag", v), intT(int64(id)))
	val = x.g.def("unb", app(s, u, v))
	x.g.assume(tImp(is, tEq(app("Iface", b, val), v)))
	return val, is
}

func (x *Exec) typeAssert(fr *Frame, st *State, rc T, i *ssa.TypeAssert) Val {
	v := x.term(st, i.X)
	if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		ok := x.g.def("ta", tAnd(tNot(tEq(v, T{"nilIface", "Iface"})), x.uf(fmt.Sprintf("implements_%d", x.u.typeID(i.AssertedType)), "Bool", app("Int", "tag", v))))
		if i.CommaOk {
			return Tuple{tIte(ok, v, T{"nilIface", "Iface"}), ok}
		}
		x.safe(fr, "typeassert", rc, ok)
		return v
	}
	val, is := x.unbox(v, i.AssertedType)
	x.g.assume(tImp(is, x.rangeFact(val, i.AssertedType, x.curAlloc(st.mem))))
	if i.CommaOk {
		return Tuple{x.def("tv", tIte(is, val, x.zero(i.AssertedType))), is}
	}
	x.safe(fr, "typeassert", rc, is)
	return val
}

// closureFacts assumes what the spec's closure clause defines about a function literal created here, in terms of the
// values of the variables it captures (which must not change afterwards).
func (x *Exec) closureFacts(st *State, i *ssa.MakeClosure, c *Clo, rc T) {
	ct := x.spec.lookup("closure " + x.fname(c.fn))
	if ct == nil {
		return
	}
	env := &Env{x: x, vars: map[string]SV{}, mem: st.mem, old: st.mem}
	for k, fv := range c.fn.FreeVars {
		if !setOnce(i.Bindings[k]) {
			panic(unsup("closure clause of %s: captured variable %s is assigned more than once", ct.Name, fv.Name()))
		}
		env.vars[fv.Name()] = x.captured(st.mem, c, k)
	}
	if len(ct.Params) != len(c.fn.FreeVars) || len(ct.Results) != 1 {
		panic(unsup("closure clause of %s names %d variables, it captures %d", ct.Name, len(ct.Params), len(c.fn.FreeVars)))
	}
	for _, p := range ct.Params {
		if _, ok := env.vars[p]; !ok {
			panic(unsup("closure clause of %s: no captured variable %s", ct.Name, p))
		}
	}
	env.vars[ct.Results[0]] = SV{t: x.toTerm(c, i.Type()), typ: i.Type()}
	for _, e := range ct.Ensures {
		x.g.assume(tImp(rc, env.boolE(e)))
	}
}

// captured reads the k-th captured variable of a closure.
func (x *Exec) captured(mem *Mem, c *Clo, k int) SV {
	t := deref(c.fn.FreeVars[k].Type())
	switch b := c.binds[k].(type) {
	case *LV:
		return SV{t: x.loadLV(b, mem), typ: t}
	case T:
		return SV{t: x.loadLV(&LV{kind: "heap", key: x.hkey(t), ref: b, rtyp: t, typ: t}, mem), typ: t}
	}
	panic(unsup("captured variable %s", c.fn.FreeVars[k].Name()))
}

// setOnce reports whether a captured variable is assigned exactly once, by the function that declares it.
func setOnce(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *a.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr != v {
				return false
			}
			n++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := s.Fn.(*ssa.Function)
			for k, b := range s.Bindings {
				if b != v {
					continue
				}
				for _, r := range *fn.FreeVars[k].Referrers() {
					switch r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return n == 1
}
