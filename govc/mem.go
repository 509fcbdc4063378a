package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Tuple []Val

type Clo struct {
	fn    *ssa.Function
	binds []Val
	id    *T // as a first-class value
}

type Iter struct {
	m    T // map ref, or string
	typ  types.Type
	key  string // visited mem key
	dom0 T      // domain at range start
	str  bool
}

type stepT struct {
	field int
	idx   T // array index when field < 0
	typ   types.Type
}

// LV is a symbolic address.
type LV struct {
	kind string // cell, heap, elem
	key  string // mem key
	ref  T
	idx  T
	path []stepT    // each step's typ is the container type it applies to
	rtyp types.Type // type stored at root
	typ  types.Type // pointee type
}

func (l *LV) id() string {
	s := l.kind + "/" + l.key + "/" + l.ref.S + "/" + l.idx.S
	for _, p := range l.path {
		s += fmt.Sprintf("/%d%s", p.field, p.idx.S)
	}
	return s
}

type Mem struct {
	m     map[string]T
	epoch int
}

func (m *Mem) clone() *Mem {
	n := &Mem{m: make(map[string]T, len(m.m)), epoch: m.epoch}
	for k, v := range m.m {
		n.m[k] = v
	}
	return n
}

func (m *Mem) keys() []string {
	var ks []string
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *Exec) setKeySort(key, s string) {
	if o, ok := x.keySort[key]; ok && o != s {
		panic(unsup("mem key %s has sorts %s and %s", key, o, s))
	}
	x.keySort[key] = s
	if (strings.HasPrefix(key, "G:") || strings.HasPrefix(key, "ghost:")) && x.reg[key] == nil {
		x.reg[key] = func(x *Exec) { x.keySort[key] = s }
	}
}

func (x *Exec) setKeyT(k string, t types.Type) {
	if x.keyT == nil {
		x.keyT = map[string]types.Type{}
	}
	x.keyT[k] = t
}

func (x *Exec) get(mem *Mem, key string) T {
	if t, ok := mem.m[key]; ok {
		return t
	}
	s, ok := x.keySort[key]
	if !ok {
		panic(unsup("unknown mem key %s", key))
	}
	nm := fmt.Sprintf("m%d_%s", mem.epoch, sanitize(key))
	t := T{nm, s}
	txt := "(declare-const " + nm + " " + s + ")"
	if len(key) > 3 && key[:3] == "MD:" {
		_, es, _ := arrParts(s)
		txt += "\n(assert (= (select " + nm + " 0) " + constArr(es, tFalse).S + "))"
	}
	if len(key) > 3 && key[:3] == "ML:" {
		txt += "\n(assert (= (select " + nm + " 0) " + x.idxLit(0).S + "))"
	}
	if key == "alloc" {
		txt += "\n(assert (<= 1 " + nm + "))"
	}
	if x.spec.heapWF && mem.epoch == 0 && len(key) > 2 {
		txt += x.wfAxiom(mem, key, t)
	}
	x.g.hdecl("memc "+nm, txt)
	mem.m[key] = t
	return t
}

// wfAxiom: the entry heap holds only allocated references (Go's memory safety), stated for every object at once.
func (x *Exec) wfAxiom(mem *Mem, key string, t T) string {
	vt := x.keyT[key]
	if vt == nil {
		return ""
	}
	al := x.entryAl
	if al.S == "" {
		return ""
	}
	switch key[:2] {
	case "H:":
		v := sel(t, T{"w!r", "Int"})
		f := x.refFact(v, vt, al)
		if f.S == "true" {
			return ""
		}
		return fmt.Sprintf("\n(assert (forall ((w!r Int)) (! (=> (< w!r %s) %s) :pattern (%s))))", al.S, f.S, v.S)
	case "MV":
		_, es, _ := arrParts(t.Sort)
		ks, _, _ := arrParts(es)
		v := sel(sel(t, T{"w!r", "Int"}), T{"w!k", ks})
		f := x.refFact(v, vt, al)
		if f.S == "true" {
			return ""
		}
		return fmt.Sprintf("\n(assert (forall ((w!r Int) (w!k %s)) (! (=> (< w!r %s) %s) :pattern (%s))))", ks, al.S, f.S, v.S)
	case "E:":
		_, es, _ := arrParts(t.Sort)
		ks, _, _ := arrParts(es)
		v := sel(sel(t, T{"w!r", "Int"}), T{"w!k", ks})
		f := x.refFact(v, vt, al)
		if f.S == "true" {
			return ""
		}
		return fmt.Sprintf("\n(assert (forall ((w!r Int) (w!k %s)) (! (=> (< w!r %s) %s) :pattern (%s))))", ks, al.S, f.S, v.S)
	}
	return ""
}

// refFact is the part of the type invariant about references: they lie below the allocation mark.
func (x *Exec) refFact(v T, t types.Type, alloc T) T {
	switch tt := t.Underlying().(type) {
	case *types.Slice:
		return x.rangeFact(v, t, alloc)
	case *types.Pointer, *types.Map, *types.Chan:
		return x.rangeFact(v, t, alloc)
	case *types.Struct:
		if x.isOpaque(t) {
			return tTrue
		}
		var fs []T
		for i := 0; i < tt.NumFields(); i++ {
			fs = append(fs, x.refFact(x.getField(v, t, i), tt.Field(i).Type(), alloc))
		}
		return tAnd(fs...)
	}
	return tTrue
}

func (x *Exec) hkey(t types.Type) string {
	k := "H:" + x.u.tstr(t)
	x.setKeySort(k, arrSort("Int", x.sortOf(t)))
	x.setKeyT(k, t)
	x.reg[k] = func(x *Exec) { x.hkey(t) }
	return k
}

func (x *Exec) ekey(elem types.Type) string {
	k := "E:" + x.u.tstr(elem)
	x.setKeySort(k, arrSort("Int", arrSort(x.u.idx(), x.sortOf(elem))))
	x.setKeyT(k, elem)
	x.reg[k] = func(x *Exec) { x.ekey(elem) }
	return k
}

func (x *Exec) mkeys(t types.Type) (md, mv, ml string) {
	m := t.Underlying().(*types.Map)
	s := x.u.tstr(m)
	ks, vs := x.sortOf(m.Key()), x.sortOf(m.Elem())
	x.setKeySort("MD:"+s, arrSort("Int", arrSort(ks, "Bool")))
	x.setKeySort("MV:"+s, arrSort("Int", arrSort(ks, vs)))
	x.setKeyT("MV:"+s, m.Elem())
	x.setKeySort("ML:"+s, arrSort("Int", x.u.idx()))
	for _, p := range []string{"MD:", "MV:", "ML:"} {
		x.reg[p+s] = func(x *Exec) { x.mkeys(t) }
	}
	return "MD:" + s, "MV:" + s, "ML:" + s
}

func (x *Exec) loadLV(lv *LV, mem *Mem) T {
	var t T
	switch lv.kind {
	case "cell":
		t = x.get(mem, lv.key)
	case "heap":
		t = sel(x.get(mem, lv.key), lv.ref)
	case "elem":
		t = sel(sel(x.get(mem, lv.key), lv.ref), lv.idx)
	}
	for _, s := range lv.path {
		if s.field >= 0 {
			t = x.getField(t, s.typ, s.field)
		} else {
			t = sel(t, s.idx)
		}
	}
	return t
}

func (x *Exec) storeLV(lv *LV, mem *Mem, v T) {
	var root T
	switch lv.kind {
	case "cell":
		if len(lv.path) > 0 {
			root = x.get(mem, lv.key)
		}
	case "heap":
		root = sel(x.get(mem, lv.key), lv.ref)
	case "elem":
		root = sel(sel(x.get(mem, lv.key), lv.ref), lv.idx)
	}
	var upd func(cur T, p []stepT) T
	upd = func(cur T, p []stepT) T {
		if len(p) == 0 {
			return v
		}
		if p[0].field >= 0 {
			c := cur
			if len(p) > 1 {
				c = x.getField(cur, p[0].typ, p[0].field)
			}
			return x.setField(cur, p[0].typ, p[0].field, upd(c, p[1:]))
		}
		c := cur
		if len(p) > 1 {
			c = sel(cur, p[0].idx)
		}
		return sto(cur, p[0].idx, upd(c, p[1:]))
	}
	if len(lv.path) > 0 {
		root = x.def("old", root)
	}
	nv := upd(root, lv.path)
	switch lv.kind {
	case "cell":
		mem.m[lv.key] = x.def("cell", nv)
	case "heap":
		h := x.get(mem, lv.key)
		mem.m[lv.key] = x.def("h", sto(h, lv.ref, nv))
	case "elem":
		h := x.get(mem, lv.key)
		mem.m[lv.key] = x.def("e", sto(h, lv.ref, sto(sel(h, lv.ref), lv.idx, nv)))
	}
}

// def names a term; slice constructors keep their constructor form.
func (x *Exec) def(p string, t T) T {
	if t.Sort == "Slice" {
		r, o, l, c := x.sl(t)
		if len(t.S) > 9 && t.S[:9] == "(mkslice " {
			return app("Slice", "mkslice", x.g.def(p+"r", r), x.g.def(p+"o", o), x.g.def(p+"l", l), x.g.def(p+"c", c))
		}
	}
	return x.g.def(p, t)
}

func (x *Exec) alloc(mem *Mem) T {
	x.keySort["alloc"] = "Int"
	a := x.get(mem, "alloc")
	mem.m["alloc"] = x.g.def("alloc", app("Int", "+", a, intT(1)))
	return a
}

// addrOf turns a pointer value into an LV for its pointee of type t.
func (x *Exec) lvOf(v Val, elem types.Type) *LV {
	switch p := v.(type) {
	case *LV:
		return p
	case T:
		if _, ok := elem.Underlying().(*types.Array); ok {
			panic(unsup("direct array lvalue"))
		}
		return &LV{kind: "heap", key: x.hkey(elem), ref: p, rtyp: elem, typ: elem}
	}
	panic(unsup("not a pointer value: %T", v))
}

// merge of memories under edge conditions
func (x *Exec) mergeMem(conds []T, mems []*Mem) *Mem {
	if len(mems) == 1 {
		return mems[0].clone()
	}
	ep := mems[0].epoch
	same := true
	for _, m := range mems {
		if m.epoch != ep {
			same = false
		}
	}
	ks := map[string]bool{}
	for _, m := range mems {
		for k := range m.m {
			ks[k] = true
		}
	}
	var keys []string
	for k := range ks {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := &Mem{m: map[string]T{}, epoch: ep}
	if !same {
		x.epochs++
		out.epoch = x.epochs
	}
	for _, k := range keys {
		if len(k) > 5 && k[:5] == "cell:" || len(k) > 4 && k[:4] == "vis:" {
			// cells not yet allocated on some path are irrelevant there
			var t T
			have := 0
			for i := len(mems) - 1; i >= 0; i-- {
				if v, ok := mems[i].m[k]; ok {
					if have == 0 {
						t = v
					} else {
						t = tIte(conds[i], v, t)
					}
					have++
				}
			}
			out.m[k] = x.join("mc", t)
			continue
		}
		t := x.get(mems[len(mems)-1], k)
		for i := len(mems) - 2; i >= 0; i-- {
			t = tIte(conds[i], x.get(mems[i], k), t)
		}
		out.m[k] = x.join("mm", t)
	}
	return out
}

// havocAll forgets everything in memory except local cells and ghosts of iteration.
func (x *Exec) havocAll(mem *Mem, keepGhost bool) {
	x.epochs++
	old := mem.m
	mem.m = map[string]T{}
	mem.epoch = x.epochs
	for k, v := range old {
		if len(k) > 5 && k[:5] == "cell:" || len(k) > 4 && k[:4] == "vis:" || (keepGhost && len(k) > 6 && k[:6] == "ghost:") {
			mem.m[k] = v
		}
	}
	if a, ok := old["alloc"]; ok {
		na := x.g.fresh("alloc", "Int")
		x.g.assume(app("Bool", "<=", a, na))
		mem.m["alloc"] = na
	}
}

// join names a merged memory: as a definition, or (mode joins) as a constant with an equation, which keeps quantifier triggers free of if-then-else.
func (x *Exec) join(p string, t T) T {
	if !x.spec.joins || !strings.Contains(t.S, "(ite ") {
		return x.def(p, t)
	}
	n := x.g.fresh(p, t.Sort)
	x.g.assume(tEq(n, t))
	return n
}
