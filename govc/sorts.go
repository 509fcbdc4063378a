package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// Unit holds per-verification-unit configuration.
type Unit struct {
	BV      bool // machine integers as bit vectors (else mathematical integers, wrapped on conversion)
	SMTStr  bool // strings as SMT String
	pkg     *types.Package
	strLits map[string]T
	typeIDs map[string]int
}

func (u *Unit) qual(p *types.Package) string {
	if p == u.pkg {
		return ""
	}
	return p.Path()
}

func (u *Unit) tstr(t types.Type) string { return types.TypeString(types.Unalias(t), u.qual) }

func (u *Unit) typeID(t types.Type) int {
	s := u.tstr(t)
	if id, ok := u.typeIDs[s]; ok {
		return id
	}
	id := len(u.typeIDs) + 1
	u.typeIDs[s] = id
	return id
}

func (u *Unit) idx() string {
	if u.BV {
		return bvSort(64)
	}
	return "Int"
}

func (u *Unit) strSort() string {
	if u.SMTStr {
		return "String"
	}
	return "Str"
}

func intInfo(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		if b.Kind() == types.UntypedRune {
			return 32, true, true
		}
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeInt(t types.Type) (w int, signed bool, ok bool) {
	if b, k := t.Underlying().(*types.Basic); k {
		return intInfo(b)
	}
	return 0, false, false
}

func (x *Exec) sortOf(t types.Type) string {
	u := x.u
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg() != u.pkg {
			if st, ok := n.Underlying().(*types.Struct); ok && !x.spec.transparent[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
				_ = st
				s := "O_" + sanitize(n.Obj().Pkg().Path()+"."+n.Obj().Name())
				x.g.hdecl("sort "+s, "(declare-sort "+s+" 0)")
				return s
			}
		}
	}
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case tt.Info()&types.IsBoolean != 0:
			return "Bool"
		case tt.Info()&types.IsInteger != 0:
			if u.BV {
				w, _, _ := intInfo(tt)
				return bvSort(w)
			}
			return "Int"
		case tt.Info()&types.IsString != 0:
			return u.strSort()
		case tt.Info()&types.IsFloat != 0:
			if tt.Kind() == types.Float32 {
				x.g.hdecl("sort Flt32", "(declare-sort Flt32 0)")
				return "Flt32"
			}
			x.g.hdecl("sort Flt", "(declare-sort Flt 0)")
			return "Flt"
		case tt.Info()&types.IsComplex != 0:
			x.g.hdecl("sort Cplx", "(declare-sort Cplx 0)")
			return "Cplx"
		case tt.Kind() == types.UnsafePointer:
			return "Int"
		case tt.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		x.needSlice()
		return "Slice"
	case *types.Interface:
		x.needIface()
		return "Iface"
	case *types.Array:
		return arrSort(u.idx(), x.sortOf(tt.Elem()))
	case *types.Struct:
		return x.structSort(t, tt)
	case *types.Tuple:
		return "Tuple"
	}
	panic(unsup("no sort for type %s", t))
}

func (x *Exec) needSlice() {
	i := x.u.idx()
	x.g.hdecl("Slice", "(declare-datatypes ((Slice 0)) (((mkslice (sref Int) (soff "+i+") (slen "+i+") (scap "+i+")))))")
}

func (x *Exec) needIface() {
	x.g.hdecl("Iface", "(declare-sort Iface 0)\n(declare-fun tag (Iface) Int)\n(declare-const nilIface Iface)\n(assert (= (tag nilIface) 0))\n(assert (forall ((x Iface)) (! (=> (= (tag x) 0) (= x nilIface)) :pattern ((tag x)))))")
}

func (x *Exec) structName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		nm := "S_" + sanitize(n.Obj().Name())
		if n.TypeArgs() != nil && n.TypeArgs().Len() > 0 {
			nm += fmt.Sprintf("_%d", x.u.typeID(t))
		}
		return nm
	}
	return fmt.Sprintf("S_anon%d", x.u.typeID(t))
}

func (x *Exec) structSort(t types.Type, st *types.Struct) string {
	nm := x.structName(t)
	if x.g.declared["struct "+nm] {
		return nm
	}
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, fmt.Sprintf("(%s.%s %s)", nm, fieldName(st, i), x.sortOf(st.Field(i).Type())))
	}
	if len(fs) == 0 {
		x.g.hdecl("struct "+nm, "(declare-datatypes (("+nm+" 0)) (((mk"+nm+"))))")
	} else {
		x.g.hdecl("struct "+nm, "(declare-datatypes (("+nm+" 0)) (((mk"+nm+" "+strings.Join(fs, " ")+"))))")
	}
	return nm
}

func fieldName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return sanitize(n)
}

func (x *Exec) isOpaque(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && strings.HasPrefix(x.sortOf(t), "O_")
}

func (x *Exec) getField(v T, t types.Type, i int) T {
	st := t.Underlying().(*types.Struct)
	if x.isOpaque(t) {
		panic(unsup("field of opaque type %s", t))
	}
	nm := x.structSort(t, st)
	return app(x.sortOf(st.Field(i).Type()), nm+"."+fieldName(st, i), v)
}

func (x *Exec) setField(v T, t types.Type, i int, nv T) T {
	st := t.Underlying().(*types.Struct)
	nm := x.structSort(t, st)
	args := make([]T, st.NumFields())
	for k := range args {
		if k == i {
			args[k] = nv
		} else {
			args[k] = x.getField(v, t, k)
		}
	}
	return app(nm, "mk"+nm, args...)
}

func (x *Exec) zero(t types.Type) T {
	s := x.sortOf(t)
	if strings.HasPrefix(s, "O_") {
		x.g.hdecl("zero "+s, "(declare-const zero_"+s+" "+s+")")
		return T{"zero_" + s, s}
	}
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		switch s {
		case "Bool":
			return tFalse
		case "Int":
			return intT(0)
		case "Str", "String":
			return x.strLit("")
		case "Flt", "Flt32", "Cplx":
			x.g.hdecl("zero "+s, "(declare-const zero_"+s+" "+s+")")
			return T{"zero_" + s, s}
		}
		if w := bvWidth(s); w > 0 {
			return bvLit(new(big.Int), w)
		}
	case *types.Slice:
		return x.nilSlice()
	case *types.Interface:
		return T{"nilIface", "Iface"}
	case *types.Array:
		return constArr(s, x.zero(tt.Elem()))
	case *types.Struct:
		var args []T
		for i := 0; i < tt.NumFields(); i++ {
			args = append(args, x.zero(tt.Field(i).Type()))
		}
		return app(s, "mk"+s, args...)
	}
	return intT(0)
}

func (x *Exec) nilSlice() T {
	x.needSlice()
	z := x.idxLit(0)
	return app("Slice", "mkslice", intT(0), z, z, z)
}

func (x *Exec) idxLit(v int64) T {
	if x.u.BV {
		return bvLit(big.NewInt(v), 64)
	}
	return intT(v)
}

func (x *Exec) strLit(s string) T {
	if x.u.SMTStr {
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c == '"' {
				b.WriteString(`""`)
			} else if c >= 32 && c < 127 && c != '\\' {
				b.WriteByte(c)
			} else {
				fmt.Fprintf(&b, "\\u{%x}", c)
			}
		}
		b.WriteByte('"')
		return T{b.String(), "String"}
	}
	x.needStr()
	if t, ok := x.u.strLits[s]; ok {
		return t
	}
	n := len(x.u.strLits)
	nm := fmt.Sprintf("lit%d_%s", n, sanitize(s))
	if len(nm) > 30 {
		nm = nm[:30]
	}
	t := T{nm, "Str"}
	x.u.strLits[s] = t
	txt := "(declare-const " + nm + " Str)\n(assert (= (strid " + nm + ") " + fmt.Sprint(n) + "))\n(assert (= (strlen " + nm + ") " + x.idxLit(int64(len(s))).S + "))"
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			txt += fmt.Sprintf("\n(assert (= (strat %s %s) %s))", nm, x.idxLit(int64(i)).S, x.byteLit(s[i]).S)
		}
	}
	x.g.hdecl("lit "+nm, txt)
	return t
}

func (x *Exec) byteLit(b byte) T {
	if x.u.BV {
		return bvLit(big.NewInt(int64(b)), 8)
	}
	return intT(int64(b))
}

func (x *Exec) byteSort() string {
	if x.u.BV {
		return bvSort(8)
	}
	return "Int"
}

func (x *Exec) needStr() {
	if x.u.SMTStr || x.g.declared["Str"] {
		return
	}
	i := x.u.idx()
	le, lt := "<=", "<"
	if x.u.BV {
		le, lt = "bvule", "bvult"
	}
	mx := x.idxLit(1 << 62).S
	if x.u.BV {
		mx = x.idxLit(1 << 40).S
	}
	x.g.hdecl("Str", "(declare-sort Str 0)\n(declare-fun strid (Str) Int)\n(declare-fun strlen (Str) "+i+")\n(declare-fun strat (Str "+i+") "+x.byteSort()+
		")\n(declare-fun strcat (Str Str) Str)\n(declare-fun strsub (Str "+i+" "+i+") Str)\n(declare-fun strlt (Str Str) Bool)"+
		"\n(assert (forall ((s Str)) (! (and ("+le+" "+x.idxLit(0).S+" (strlen s)) ("+lt+" (strlen s) "+mx+")) :pattern ((strlen s)))))")
	x.strLit("")
	if !x.u.BV {
		e := x.u.strLits[""].S
		x.g.hdecl("Str2", "(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s "+e+")) :pattern ((strlen s)))))\n"+
			"(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))")
	}
}

// ---- integers ----

func (x *Exec) intConst(v *big.Int, t types.Type) T {
	w, _, ok := typeInt(t)
	if !ok {
		w = 64
	}
	if x.u.BV {
		return bvLit(v, w)
	}
	return T{bigLit(v), "Int"}
}

func (x *Exec) constVal(c constant.Value, t types.Type) T {
	s := x.sortOf(t)
	switch {
	case s == "Bool":
		if constant.BoolVal(c) {
			return tTrue
		}
		return tFalse
	case s == "Str" || s == "String":
		return x.strLit(constant.StringVal(c))
	case s == "Flt" || s == "Flt32" || s == "Cplx":
		nm := s + "c_" + sanitize(c.ExactString())
		x.g.hdecl(nm, "(declare-const "+nm+" "+s+")")
		return T{nm, s}
	default:
		iv := constant.ToInt(c)
		b, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			panic(unsup("constant %s", c))
		}
		return x.intConst(b, t)
	}
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func typeRange(w int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(w), big.NewInt(1))
}

// wrap reduces a mathematical value to the range of an integer type (math mode).
func (x *Exec) wrap(v T, w int, signed bool) T {
	if l, ok := litVal(v.S); ok {
		m := new(big.Int).Mod(l, pow2(w))
		if signed && m.Cmp(pow2(w-1)) >= 0 {
			m.Sub(m, pow2(w))
		}
		return T{bigLit(m), "Int"}
	}
	m := fmt.Sprintf("(mod %s %s)", v.S, pow2(w))
	if !signed {
		return T{m, "Int"}
	}
	d := x.g.def("wm", T{m, "Int"})
	return T{fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", d.S, pow2(w-1), d.S, d.S, pow2(w)), "Int"}
}

func (x *Exec) lt(a, b T, signed bool) T {
	if w := bvWidth(a.Sort); w > 0 {
		if signed {
			return app("Bool", "bvslt", a, b)
		}
		return app("Bool", "bvult", a, b)
	}
	if la, ok := litVal(a.S); ok {
		if lb, ok := litVal(b.S); ok {
			if la.Cmp(lb) < 0 {
				return tTrue
			}
			return tFalse
		}
	}
	return app("Bool", "<", a, b)
}

func (x *Exec) le(a, b T, signed bool) T {
	if w := bvWidth(a.Sort); w > 0 {
		if signed {
			return app("Bool", "bvsle", a, b)
		}
		return app("Bool", "bvule", a, b)
	}
	if la, ok := litVal(a.S); ok {
		if lb, ok := litVal(b.S); ok {
			if la.Cmp(lb) <= 0 {
				return tTrue
			}
			return tFalse
		}
	}
	return app("Bool", "<=", a, b)
}

// index-sort arithmetic (int type)
// ixadd: position of element i of a slice starting at off; an uninterpreted function defined by an axiom in
// "mode ix", so that quantifier patterns over elements match every index term.
func (x *Exec) ixadd(off, i T) T {
	if x.u.BV || !x.spec.ix {
		return x.iadd(off, i)
	}
	if l, ok := litVal(off.S); ok && l.Sign() == 0 {
		return i
	}
	x.g.hdecl("ix", "(declare-fun ix (Int Int) Int)\n(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))")
	return app("Int", "ix", off, i)
}

func (x *Exec) iadd(a, b T) T {
	if x.u.BV {
		return app(a.Sort, "bvadd", a, b)
	}
	if la, ok := litVal(a.S); ok {
		if lb, ok := litVal(b.S); ok {
			return T{bigLit(new(big.Int).Add(la, lb)), "Int"}
		}
		if la.Sign() == 0 {
			return b
		}
	}
	if lb, ok := litVal(b.S); ok && lb.Sign() == 0 {
		return a
	}
	return app("Int", "+", a, b)
}

func (x *Exec) isub(a, b T) T {
	if x.u.BV {
		return app(a.Sort, "bvsub", a, b)
	}
	if la, ok := litVal(a.S); ok {
		if lb, ok := litVal(b.S); ok {
			return T{bigLit(new(big.Int).Sub(la, lb)), "Int"}
		}
	}
	if lb, ok := litVal(b.S); ok && lb.Sign() == 0 {
		return a
	}
	return app("Int", "-", a, b)
}

func (x *Exec) ilt(a, b T) T { return x.lt(a, b, true) }
func (x *Exec) ile(a, b T) T { return x.le(a, b, true) }

// rangeFact is the type invariant of a value of type t (what Go's type system guarantees about it).
func (x *Exec) rangeFact(v T, t types.Type, alloc T) T {
	switch tt := t.Underlying().(type) {
	case *types.Basic:
		if w, sg, ok := intInfo(tt); ok && !x.u.BV && tt.Kind() != types.UnsafePointer {
			lo, hi := typeRange(w, sg)
			return tAnd(app("Bool", "<=", T{bigLit(lo), "Int"}, v), app("Bool", "<=", v, T{bigLit(hi), "Int"}))
		}
	case *types.Slice:
		ref, off, ln, cp := x.sl(v)
		z := x.idxLit(0)
		lim := x.idxLit(1 << 40)
		if !x.u.BV {
			lim = x.idxLit(1 << 61)
		}
		return tAnd(app("Bool", "<", ref, alloc), x.ile(z, off), x.ile(z, ln), x.ile(ln, cp), x.ile(cp, lim), x.ile(off, lim),
			tImp(tEq(ref, intT(0)), tAnd(tEq(ln, z), tEq(cp, z))))
	case *types.Pointer:
		if _, ok := tt.Elem().Underlying().(*types.Array); ok {
			return app("Bool", "<", v, alloc)
		}
		return tAnd(app("Bool", "<=", intT(0), v), app("Bool", "<", v, alloc))
	case *types.Map, *types.Chan:
		return tAnd(app("Bool", "<=", intT(0), v), app("Bool", "<", v, alloc))
	case *types.Struct:
		if x.isOpaque(t) {
			return tTrue
		}
		var fs []T
		for i := 0; i < tt.NumFields(); i++ {
			f := x.rangeFact(x.getField(v, t, i), tt.Field(i).Type(), alloc)
			fs = append(fs, f)
		}
		return tAnd(fs...)
	}
	return tTrue
}

func (x *Exec) sl(v T) (ref, off, ln, cp T) {
	if strings.HasPrefix(v.S, "(mkslice ") {
		parts := splitSexp(v.S[9 : len(v.S)-1])
		if len(parts) == 4 {
			return T{parts[0], "Int"}, T{parts[1], x.u.idx()}, T{parts[2], x.u.idx()}, T{parts[3], x.u.idx()}
		}
	}
	return app("Int", "sref", v), app(x.u.idx(), "soff", v), app(x.u.idx(), "slen", v), app(x.u.idx(), "scap", v)
}

func splitSexp(s string) []string {
	var out []string
	d, st := 0, -1
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '|':
			if st < 0 {
				st = i
			}
			j := strings.IndexByte(s[i+1:], '|')
			i += j + 1
		case c == '"':
			if st < 0 {
				st = i
			}
			j := strings.IndexByte(s[i+1:], '"')
			i += j + 1
		case c == '(':
			if d == 0 && st < 0 {
				st = i
			}
			d++
		case c == ')':
			d--
		case c == ' ' || c == '\n':
			if d == 0 && st >= 0 {
				out = append(out, s[st:i])
				st = -1
			}
		default:
			if st < 0 {
				st = i
			}
		}
	}
	if st >= 0 {
		out = append(out, s[st:])
	}
	return out
}
