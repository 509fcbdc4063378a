package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"unicode"
)

// Ex is a specification expression.
type Ex struct {
	Op   string // lit, str, id, call, sel, idx, un, bin, quant, old
	S    string
	Args []*Ex
	Vars []TplVar
	Trig []*Ex
}

type lexer struct {
	toks []string
	p    int
}

func lex(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || unicode.IsLetter(rune(s[j]))) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>"}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, o)
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, string(c))
				i++
			}
		}
	}
	return out, nil
}

func parseExpr(s string) (e *Ex, err error) {
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	l := &lexer{toks: toks}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parse %q: %v", s, r)
		}
	}()
	e = l.expr(0)
	if l.p != len(l.toks) {
		return nil, fmt.Errorf("parse %q: trailing %q", s, l.toks[l.p:])
	}
	return e, nil
}

func (l *lexer) peek() string {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.p++; return t }
func (l *lexer) expect(s string) {
	if t := l.next(); t != s {
		panic(fmt.Sprintf("expected %q got %q", s, t))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7}

func (l *lexer) expr(min int) *Ex {
	lhs := l.unary()
	for {
		op := l.peek()
		p, ok := prec[op]
		if !ok || p < min {
			return lhs
		}
		l.next()
		var rhs *Ex
		if op == "==>" {
			rhs = l.expr(p)
		} else {
			rhs = l.expr(p + 1)
		}
		lhs = &Ex{Op: "bin", S: op, Args: []*Ex{lhs, rhs}}
	}
}

func (l *lexer) unary() *Ex {
	switch l.peek() {
	case "!", "-", "*":
		op := l.next()
		return &Ex{Op: "un", S: op, Args: []*Ex{l.unary()}}
	case "forall", "exists":
		q := l.next()
		e := &Ex{Op: "quant", S: q}
		for {
			nm := l.next()
			ty := ""
			for l.peek() != "," && l.peek() != "::" && l.peek() != "{" && l.peek() != "" {
				t := l.next()
				if t == "(" { // raw sort
					d := 1
					ty += "("
					for d > 0 {
						t = l.next()
						if t == "(" {
							d++
						}
						if t == ")" {
							d--
						}
						if ty != "(" && t != ")" && !strings.HasSuffix(ty, "(") {
							ty += " "
						}
						ty += t
					}
					continue
				}
				ty += t
			}
			e.Vars = append(e.Vars, TplVar{nm, ty})
			if l.peek() == "," {
				l.next()
				continue
			}
			break
		}
		for l.peek() == "{" {
			l.next()
			var grp []*Ex
			for {
				grp = append(grp, l.expr(0))
				if l.peek() == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("}")
			e.Trig = append(e.Trig, &Ex{Op: "grp", Args: grp})
		}
		l.expect("::")
		e.Args = []*Ex{l.expr(0)}
		return e
	}
	return l.postfix(l.primary())
}

func (l *lexer) postfix(e *Ex) *Ex {
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &Ex{Op: "sel", S: l.next(), Args: []*Ex{e}}
		case "[":
			l.next()
			i := l.expr(0)
			l.expect("]")
			e = &Ex{Op: "idx", Args: []*Ex{e, i}}
		case "(":
			if e.Op != "id" {
				return e
			}
			l.next()
			var as []*Ex
			for l.peek() != ")" {
				as = append(as, l.expr(0))
				if l.peek() == "," {
					l.next()
				}
			}
			l.expect(")")
			if e.S == "old" || e.S == "pre" {
				e = &Ex{Op: e.S, Args: as}
			} else {
				e = &Ex{Op: "call", S: e.S, Args: as}
			}
		default:
			return e
		}
	}
}

func (l *lexer) primary() *Ex {
	t := l.next()
	switch {
	case t == "(":
		e := l.expr(0)
		l.expect(")")
		return e
	case t == "":
		panic("unexpected end")
	case t[0] == '"':
		s, err := strconv.Unquote(t)
		if err != nil {
			panic(err)
		}
		return &Ex{Op: "str", S: s}
	case t[0] >= '0' && t[0] <= '9':
		return &Ex{Op: "lit", S: t}
	case t == "true" || t == "false":
		return &Ex{Op: "bool", S: t}
	case unicode.IsLetter(rune(t[0])) || t[0] == '_' || t[0] == '$':
		return &Ex{Op: "id", S: t}
	}
	panic("unexpected token " + t)
}

// SV is a specification value.
type SV struct {
	t   T
	typ types.Type
	lv  *LV
	num *big.Int // untyped integer constant
	nil_ bool
	clo *Clo
}

type Env struct {
	x    *Exec
	vars map[string]SV
	mem  *Mem
	old  *Mem
	pre  *Mem
	deps map[string]bool
}

func (x *Exec) svOf(v Val, t types.Type) SV {
	switch a := v.(type) {
	case T:
		return SV{t: a, typ: t}
	case *LV:
		if a.kind == "heap" && len(a.path) == 0 {
			return SV{t: a.ref, typ: t}
		}
		return SV{typ: t, lv: a}
	case *Clo:
		return SV{clo: a, typ: t, t: x.toTerm(a, t)}
	}
	return SV{typ: t}
}

func (e *Env) boolE(c *Clause) T {
	v := e.eval(c.E)
	if v.t.Sort != "Bool" {
		panic(unsup("spec %q is not boolean (%s)", c.Src, v.t.Sort))
	}
	return v.t
}

func (e *Env) sub(name string, v SV) *Env {
	n := &Env{x: e.x, mem: e.mem, old: e.old, pre: e.pre, vars: map[string]SV{}}
	for k, a := range e.vars {
		n.vars[k] = a
	}
	n.vars[name] = v
	return n
}

// coerce makes an SV a term of a given sort.
func (e *Env) coerce(v SV, sort string) T {
	if v.num != nil {
		if w := bvWidth(sort); w > 0 {
			return bvLit(v.num, w)
		}
		return T{bigLit(v.num), "Int"}
	}
	if v.nil_ {
		switch sort {
		case "Iface":
			e.x.needIface()
			return T{"nilIface", "Iface"}
		case "Slice":
			return e.x.nilSlice()
		}
		return intT(0)
	}
	if v.lv != nil {
		return e.x.loadLV(v.lv, e.mem)
	}
	return v.t
}

func (e *Env) tm(v SV) T {
	if v.num != nil {
		return e.coerce(v, e.x.u.idx())
	}
	return e.coerce(v, v.t.Sort)
}

func (e *Env) pair(a, b SV) (T, T) {
	switch {
	case a.num != nil && b.num != nil:
		return e.tm(a), e.tm(b)
	case a.num != nil || a.nil_:
		bt := e.tm(b)
		return e.coerce(a, bt.Sort), bt
	case b.num != nil || b.nil_:
		at := e.tm(a)
		return at, e.coerce(b, at.Sort)
	}
	return e.tm(a), e.tm(b)
}

func (e *Env) signed(a, b SV) bool {
	for _, v := range []SV{a, b} {
		if v.typ != nil {
			if _, sg, ok := typeInt(v.typ); ok {
				return sg
			}
		}
	}
	return true
}

func (e *Env) eval(n *Ex) SV {
	x := e.x
	switch n.Op {
	case "lit":
		v, ok := new(big.Int).SetString(n.S, 0)
		if !ok {
			panic(unsup("bad literal %s", n.S))
		}
		return SV{num: v}
	case "bool":
		return SV{t: T{n.S, "Bool"}, typ: types.Typ[types.Bool]}
	case "str":
		return SV{t: x.strLit(n.S), typ: types.Typ[types.String]}
	case "id":
		if v, ok := e.vars[n.S]; ok {
			return v
		}
		if n.S == "nil" {
			return SV{nil_: true}
		}
		if srt, ok := x.spec.ghosts[n.S]; ok {
			k := "ghost:" + n.S
			x.setKeySort(k, srt)
			return SV{t: x.get(e.mem, k)}
		}
		if n.S == "alloc" {
			return SV{t: x.curAlloc(e.mem)}
		}
		if r, ok := x.spec.sigRes[n.S]; ok && len(x.spec.sigs[n.S]) == 0 {
			return SV{t: T{n.S, r}}
		}
		// package-level constant
		if o := x.pkg.Pkg.Scope().Lookup(n.S); o != nil {
			if c, ok := o.(*types.Const); ok {
				if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					v, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
					return SV{num: v}
				}
				return SV{t: x.constVal(c.Val(), c.Type()), typ: c.Type()}
			}
			if g, ok := o.(*types.Var); ok {
				k := "G:" + n.S
				x.reg[k] = func(x *Exec) { x.setKeySort(k, x.sortOf(g.Type())) }
				x.setKeySort(k, x.sortOf(g.Type()))
				return SV{t: x.get(e.mem, k), typ: g.Type()}
			}
		}
		panic(unsup("spec: unknown identifier %s", n.S))
	case "pre":
		if e.pre == nil {
			panic(unsup("pre() outside a loop invariant"))
		}
		o := &Env{x: x, vars: e.vars, mem: e.pre, old: e.old, pre: e.pre}
		return o.eval(n.Args[0])
	case "old":
		o := &Env{x: x, vars: e.vars, mem: e.old, old: e.old}
		v := o.eval(n.Args[0])
		if v.lv != nil {
			v = SV{t: x.loadLV(v.lv, e.old), typ: v.typ}
		}
		return v
	case "un":
		switch n.S {
		case "!":
			return SV{t: tNot(e.tm(e.eval(n.Args[0]))), typ: types.Typ[types.Bool]}
		case "-":
			a := e.eval(n.Args[0])
			if a.num != nil {
				return SV{num: new(big.Int).Neg(a.num)}
			}
			if bvWidth(a.t.Sort) > 0 {
				return SV{t: app(a.t.Sort, "bvneg", a.t), typ: a.typ}
			}
			return SV{t: app("Int", "-", a.t), typ: a.typ}
		case "*":
			a := e.eval(n.Args[0])
			el := deref(a.typ)
			if a.lv != nil {
				return SV{t: x.loadLV(a.lv, e.mem), typ: el}
			}
			return SV{t: x.loadLV(x.lvOf(a.t, el), e.mem), typ: el}
		}
	case "quant":
		env := e
		var bs []string
		var guards []T
		for _, v := range n.Vars {
			typ, srt := x.specType(v.Typ)
			nm := "q!" + v.Name
			env = env.sub(v.Name, SV{t: T{nm, srt}, typ: typ})
			bs = append(bs, "("+nm+" "+srt+")")
			_ = guards
		}
		b := env.eval(n.Args[0])
		body := b.t.S
		if len(n.Trig) > 0 {
			body = "(! " + body
			for _, g := range n.Trig {
				body += " :pattern ("
				for _, t := range g.Args {
					body += env.tm(env.eval(t)).S + " "
				}
				body += ")"
			}
			body += ")"
		}
		return SV{t: T{"(" + n.S + " (" + strings.Join(bs, " ") + ") " + body + ")", "Bool"}, typ: types.Typ[types.Bool]}
	case "sel":
		return e.field(e.eval(n.Args[0]), n.S)
	case "idx":
		return e.index(e.eval(n.Args[0]), e.eval(n.Args[1]))
	case "call":
		return e.callE(n)
	case "bin":
		return e.binE(n)
	}
	panic(unsup("spec: cannot evaluate %s", n.Op))
}

func (e *Env) field(a SV, f string) SV {
	x := e.x
	if a.typ == nil {
		panic(unsup("spec: field %s of untyped value", f))
	}
	t := a.typ
	var base T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		el := p.Elem()
		if a.lv != nil {
			base = x.loadLV(a.lv, e.mem)
		} else {
			base = x.loadLV(x.lvOf(a.t, el), e.mem)
		}
		t = el
	} else {
		base = e.tm(a)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsup("spec: field %s of %s", f, t))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return SV{t: x.getField(base, t, i), typ: st.Field(i).Type()}
		}
	}
	// promoted through embedded structs
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if s2, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				for k := 0; k < s2.NumFields(); k++ {
					if s2.Field(k).Name() == f {
						return e.field(SV{t: x.getField(base, t, i), typ: st.Field(i).Type()}, f)
					}
				}
			}
		}
	}
	panic(unsup("spec: no field %s in %s", f, t))
}

func (e *Env) index(a, i SV) SV {
	x := e.x
	if a.typ != nil {
		switch t := a.typ.Underlying().(type) {
		case *types.Slice:
			ref, off, _, _ := x.sl(e.tm(a))
			return SV{t: sel(sel(x.get(e.mem, x.ekey(t.Elem())), ref), x.ixadd(off, e.coerce(i, x.u.idx()))), typ: t.Elem()}
		case *types.Map:
			_, mv, _ := x.mkeys(a.typ)
			return SV{t: sel(sel(x.get(e.mem, mv), e.tm(a)), e.coerce(i, x.sortOf(t.Key()))), typ: t.Elem()}
		case *types.Array:
			return SV{t: sel(e.tm(a), e.coerce(i, x.u.idx())), typ: t.Elem()}
		case *types.Basic:
			return SV{t: app(x.byteSort(), "strat", e.tm(a), e.coerce(i, x.u.idx())), typ: types.Typ[types.Uint8]}
		}
	}
	at := e.tm(a)
	is, _, ok := arrParts(at.Sort)
	if !ok {
		panic(unsup("spec: index of %s", at.Sort))
	}
	return SV{t: sel(at, e.coerce(i, is))}
}

// specType resolves a type name used in a quantifier or template: a Go type or a raw sort.
func (x *Exec) specType(s string) (types.Type, string) {
	if s == "Ref" {
		return nil, "Int"
	}
	if b, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		t := b.Type()
		return t, x.sortOf(t)
	}
	if strings.HasPrefix(s, "*") {
		if t, _ := x.goType(s[1:]); t != nil {
			pt := types.NewPointer(t)
			return pt, x.sortOf(pt)
		}
	}
	if strings.HasPrefix(s, "[]") {
		if t, _ := x.goType(s[2:]); t != nil {
			pt := types.NewSlice(t)
			return pt, x.sortOf(pt)
		}
	}
	if t, ok := x.goType(s); ok {
		return t, x.sortOf(t)
	}
	return nil, s
}

func (x *Exec) goType(s string) (types.Type, bool) {
	tv, err := types.Eval(x.prog.Fset, x.pkg.Pkg, 0, s)
	if err != nil && strings.Contains(s, ".") { // a type of an imported package
		p := types.NewPackage("spec", "spec")
		for _, n := range x.pkg.Pkg.Scope().Names() {
			p.Scope().Insert(x.pkg.Pkg.Scope().Lookup(n))
		}
		for _, i := range x.pkg.Pkg.Imports() {
			p.Scope().Insert(types.NewPkgName(0, p, i.Name(), i))
		}
		tv, err = types.Eval(x.prog.Fset, p, 0, s)
	}
	if err != nil || !tv.IsType() {
		return nil, false
	}
	return tv.Type, true
}

func (e *Env) callE(n *Ex) SV {
	x := e.x
	arg := func(i int) SV { return e.eval(n.Args[i]) }
	boolSV := func(t T) SV { return SV{t: t, typ: types.Typ[types.Bool]} }
	if m, ok := x.spec.macros[n.S]; ok {
		if len(m.Params) != len(n.Args) {
			panic(unsup("macro %s arity", n.S))
		}
		env := &Env{x: x, mem: e.mem, old: e.old, pre: e.pre, vars: map[string]SV{}}
		for k, v := range e.vars {
			env.vars[k] = v
		}
		for i, p := range m.Params {
			env.vars[p] = arg(i)
		}
		return env.eval(m.E)
	}
	switch n.S {
	case "len":
		a := arg(0)
		switch a.typ.Underlying().(type) {
		case *types.Slice:
			_, _, l, _ := x.sl(e.tm(a))
			return SV{t: l, typ: types.Typ[types.Int]}
		case *types.Map:
			_, _, ml := x.mkeys(a.typ)
			return SV{t: sel(x.get(e.mem, ml), e.tm(a)), typ: types.Typ[types.Int]}
		case *types.Basic:
			return SV{t: x.strLen(e.tm(a)), typ: types.Typ[types.Int]}
		}
		panic(unsup("spec: len"))
	case "cap":
		_, _, _, c := x.sl(e.tm(arg(0)))
		return SV{t: c, typ: types.Typ[types.Int]}
	case "ref": // region of a slice
		a := arg(0)
		if _, ok := a.typ.Underlying().(*types.Slice); ok {
			r, _, _, _ := x.sl(e.tm(a))
			return SV{t: r}
		}
		return SV{t: e.tm(a)}
	case "off":
		_, o, _, _ := x.sl(e.tm(arg(0)))
		return SV{t: o, typ: types.Typ[types.Int]}
	case "arr": // whole backing array of a slice, as an SMT array
		a := arg(0)
		r, _, _, _ := x.sl(e.tm(a))
		return SV{t: sel(x.get(e.mem, x.ekey(a.typ.Underlying().(*types.Slice).Elem())), r)}
	case "dom":
		a := arg(0)
		md, _, _ := x.mkeys(a.typ)
		return SV{t: sel(x.get(e.mem, md), e.tm(a))}
	case "vals":
		a := arg(0)
		_, mv, _ := x.mkeys(a.typ)
		return SV{t: sel(x.get(e.mem, mv), e.tm(a))}
	case "has": // has(m, k)
		a, k := arg(0), arg(1)
		md, _, _ := x.mkeys(a.typ)
		return boolSV(sel(sel(x.get(e.mem, md), e.tm(a)), e.coerce(k, x.sortOf(a.typ.Underlying().(*types.Map).Key()))))
	case "fresh": // allocated since entry
		a := arg(0)
		r := e.tm(a)
		if r.Sort == "Slice" {
			r, _, _, _ = x.sl(r)
		}
		return boolSV(app("Bool", ">=", r, x.curAlloc(e.old)))
	case "ite":
		a, b := e.pair(arg(1), arg(2))
		s1 := arg(1)
		if s1.typ == nil {
			s1 = arg(2)
		}
		return SV{t: tIte(e.tm(arg(0)), a, b), typ: s1.typ}
	case "typeis": // typeis(v, "T")
		t, ok := x.goType(n.Args[1].S)
		if !ok {
			panic(unsup("spec: type %s", n.Args[1].S))
		}
		_, _, id := x.boxFn(t)
		return boolSV(tEq(app("Int", "tag", e.tm(arg(0))), intT(int64(id))))
	case "unbox":
		t, ok := x.goType(n.Args[1].S)
		if !ok {
			panic(unsup("spec: type %s", n.Args[1].S))
		}
		_, u, _ := x.boxFn(t)
		return SV{t: app(x.sortOf(t), u, e.tm(arg(0))), typ: t}
	case "box":
		a := arg(0)
		bt := a.typ
		if len(n.Args) > 1 {
			bt, _ = x.goType(n.Args[1].S)
		}
		b, _, _ := x.boxFn(bt)
		return SV{t: app("Iface", b, e.coerce(a, x.sortOf(bt)))}
	case "det": // det("pkg.F", i, args...)
		i := 0
		if v := arg(1); v.num != nil {
			i = int(v.num.Int64())
		}
		var ts []T
		for k := 2; k < len(n.Args); k++ {
			ts = append(ts, e.tm(arg(k)))
		}
		rs := "Bool"
		rt := types.Type(types.Typ[types.Bool])
		if r, ok := x.spec.sigRes["det:"+n.Args[0].S]; ok {
			rt, rs = x.specType(r)
		}
		return SV{t: x.uf(fmt.Sprintf("det_%s_%d", n.Args[0].S, i), rs, ts...), typ: rt}
	case "int":
		a := arg(0)
		t := e.tm(a)
		return SV{t: t, typ: types.Typ[types.Int]}
	case "uint64", "int64", "uint32", "uint8", "int32", "uint":
		a := arg(0)
		to := types.Universe.Lookup(n.S).Type()
		if a.num != nil {
			return SV{t: x.intConst(a.num, to), typ: to}
		}
		fw, fs := 64, true
		if a.typ != nil {
			if w, s, ok := typeInt(a.typ); ok {
				fw, fs = w, s
			}
		} else if w := bvWidth(a.t.Sort); w > 0 {
			fw, fs = w, false
		}
		tw, ts, _ := typeInt(to)
		return SV{t: x.convInt(e.tm(a), fw, fs, tw, ts), typ: to}
	case "zext": // zext(v) to 64 bits
		a := e.tm(arg(0))
		if w := bvWidth(a.Sort); w > 0 && w < 64 {
			a = app(bvSort(64), fmt.Sprintf("(_ zero_extend %d)", 64-w), a)
		}
		return SV{t: a, typ: types.Typ[types.Uint64]}
	case "lit":
		// literal of a sort: lit(5, "uint8")
		t, s := x.specType(n.Args[1].S)
		return SV{t: e.coerce(arg(0), s), typ: t}
	case "store":
		a := e.tm(arg(0))
		is, es, _ := arrParts(a.Sort)
		return SV{t: sto(a, e.coerce(arg(1), is), e.coerce(arg(2), es))}
	case "strcat":
		return SV{t: x.strBin(tokenADD, e.tm(arg(0)), e.tm(arg(1))), typ: types.Typ[types.String]}
	case "card":
		v := e.tm(arg(0))
		return SV{t: x.visCard("", v), typ: types.Typ[types.Int]}
	case "mk": // mk("T", fields...)
		t, ok := x.goType(n.Args[0].S)
		if !ok {
			panic(unsup("spec: type %s", n.Args[0].S))
		}
		st := t.Underlying().(*types.Struct)
		nm := x.structSort(t, st)
		var ts []T
		for i := 1; i < len(n.Args); i++ {
			ts = append(ts, e.coerce(arg(i), x.sortOf(st.Field(i-1).Type())))
		}
		return SV{t: app(nm, "mk"+nm, ts...), typ: t}
	}
	if as, ok := x.spec.sigs[n.S]; ok {
		var ts []T
		for i := range n.Args {
			srt := as[i]
			if srt == "_" {
				ts = append(ts, e.tm(arg(i)))
				continue
			}
			ts = append(ts, e.coerce(arg(i), srt))
		}
		r := x.spec.sigRes[n.S]
		typ, srt := x.specType(r)
		return SV{t: app(srt, n.S, ts...), typ: typ}
	}
	panic(unsup("spec: unknown function %s", n.S))
}

func (e *Env) binE(n *Ex) SV {
	x := e.x
	bsv := func(t T) SV { return SV{t: t, typ: types.Typ[types.Bool]} }
	switch n.S {
	case "&&":
		return bsv(tAnd(e.tm(e.eval(n.Args[0])), e.tm(e.eval(n.Args[1]))))
	case "||":
		return bsv(tOr(e.tm(e.eval(n.Args[0])), e.tm(e.eval(n.Args[1]))))
	case "==>":
		return bsv(tImp(e.tm(e.eval(n.Args[0])), e.tm(e.eval(n.Args[1]))))
	case "<==>":
		return bsv(tEq(e.tm(e.eval(n.Args[0])), e.tm(e.eval(n.Args[1]))))
	}
	a, b := e.eval(n.Args[0]), e.eval(n.Args[1])
	switch n.S {
	case "in":
		if b.typ != nil {
			if mt, ok := b.typ.Underlying().(*types.Map); ok {
				md, _, _ := x.mkeys(b.typ)
				return bsv(sel(sel(x.get(e.mem, md), e.tm(b)), e.coerce(a, x.sortOf(mt.Key()))))
			}
		}
		bt := e.tm(b)
		is, _, _ := arrParts(bt.Sort)
		return bsv(sel(bt, e.coerce(a, is)))
	case "==", "!=":
		var r T
		isSl := func(v SV) bool {
			if v.typ == nil {
				return false
			}
			_, ok := v.typ.Underlying().(*types.Slice)
			return ok
		}
		if (isSl(a) && b.nil_) || (isSl(b) && a.nil_) {
			s := a
			if a.nil_ {
				s = b
			}
			rf, _, _, _ := x.sl(e.tm(s))
			r = tEq(rf, intT(0))
		} else if a.lv != nil && b.nil_ {
			r = tFalse
		} else {
			ta, tb := e.pair(a, b)
			r = tEq(ta, tb)
		}
		if n.S == "!=" {
			r = tNot(r)
		}
		return bsv(r)
	}
	if a.num != nil && b.num != nil {
		z := new(big.Int)
		switch n.S {
		case "+":
			return SV{num: z.Add(a.num, b.num)}
		case "-":
			return SV{num: z.Sub(a.num, b.num)}
		case "*":
			return SV{num: z.Mul(a.num, b.num)}
		}
	}
	ta, tb := e.pair(a, b)
	typ := a.typ
	if typ == nil {
		typ = b.typ
	}
	sg := e.signed(a, b)
	bv := bvWidth(ta.Sort) > 0
	mk := func(iop, bop string) SV {
		if bv {
			return SV{t: app(ta.Sort, bop, ta, tb), typ: typ}
		}
		if ta.Sort == "Str" || ta.Sort == "String" {
			return SV{t: x.strBin(tokenADD, ta, tb), typ: typ}
		}
		if n.S == "+" {
			return SV{t: x.iadd(ta, tb), typ: typ}
		}
		if n.S == "-" {
			return SV{t: x.isub(ta, tb), typ: typ}
		}
		return SV{t: app("Int", iop, ta, tb), typ: typ}
	}
	str := ta.Sort == "Str" || ta.Sort == "String"
	switch n.S {
	case "<":
		if str {
			return bsv(x.strBin(tokenLSS, ta, tb))
		}
		return bsv(x.lt(ta, tb, sg))
	case "<=":
		if str {
			return bsv(x.strBin(tokenLEQ, ta, tb))
		}
		return bsv(x.le(ta, tb, sg))
	case ">":
		if str {
			return bsv(x.strBin(tokenLSS, tb, ta))
		}
		return bsv(x.lt(tb, ta, sg))
	case ">=":
		if str {
			return bsv(x.strBin(tokenLEQ, tb, ta))
		}
		return bsv(x.le(tb, ta, sg))
	case "+":
		return mk("+", "bvadd")
	case "-":
		return mk("-", "bvsub")
	case "*":
		return mk("*", "bvmul")
	case "/":
		return mk("div", "bvudiv")
	case "%":
		return mk("mod", "bvurem")
	case "&":
		return mk("?", "bvand")
	case "|":
		return mk("?", "bvor")
	case "^":
		return mk("?", "bvxor")
	case "<<":
		return mk("?", "bvshl")
	case ">>":
		if sg && a.typ != nil {
			return mk("?", "bvashr")
		}
		return mk("?", "bvlshr")
	}
	panic(unsup("spec: operator %s", n.S))
}
