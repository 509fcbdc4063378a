package main

import (
	"fmt"
	"math/big"
	"strings"
)

// T is an SMT term with its sort.
type T struct {
	S    string
	Sort string
}

func (t T) ok() bool { return t.S != "" }

var (
	tTrue  = T{"true", "Bool"}
	tFalse = T{"false", "Bool"}
)

func tNot(a T) T {
	switch a.S {
	case "true":
		return tFalse
	case "false":
		return tTrue
	}
	if strings.HasPrefix(a.S, "(not ") && balanced(a.S[5:len(a.S)-1]) {
		return T{a.S[5 : len(a.S)-1], "Bool"}
	}
	return T{"(not " + a.S + ")", "Bool"}
}

func balanced(s string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d < 0 {
				return false
			}
		case '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return false
			}
			i += j + 1
		case ' ':
			if d == 0 {
				return false
			}
		}
	}
	return d == 0
}

func tAnd(as ...T) T {
	var out []string
	seen := map[string]bool{}
	for _, a := range as {
		if a.S == "true" || seen[a.S] {
			continue
		}
		if a.S == "false" {
			return tFalse
		}
		seen[a.S] = true
		out = append(out, a.S)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return T{out[0], "Bool"}
	}
	return T{"(and " + strings.Join(out, " ") + ")", "Bool"}
}

func tOr(as ...T) T {
	var out []string
	seen := map[string]bool{}
	for _, a := range as {
		if a.S == "false" || seen[a.S] {
			continue
		}
		if a.S == "true" {
			return tTrue
		}
		seen[a.S] = true
		out = append(out, a.S)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return T{out[0], "Bool"}
	}
	return T{"(or " + strings.Join(out, " ") + ")", "Bool"}
}

func tImp(a, b T) T {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return tTrue
	}
	if b.S == "false" {
		return tNot(a)
	}
	return T{"(=> " + a.S + " " + b.S + ")", "Bool"}
}

func tEq(a, b T) T {
	if a.S == b.S {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(unsup("sort mismatch in equality: %s:%s vs %s:%s", a.S, a.Sort, b.S, b.Sort))
	}
	if a.Sort == "Bool" {
		if a.S == "true" {
			return b
		}
		if b.S == "true" {
			return a
		}
		if a.S == "false" {
			return tNot(b)
		}
		if b.S == "false" {
			return tNot(a)
		}
	}
	if isLit(a.S) && isLit(b.S) && a.S != b.S {
		return tFalse
	}
	return T{"(= " + a.S + " " + b.S + ")", "Bool"}
}

func isLit(s string) bool {
	if s == "" {
		return false
	}
	if strings.HasPrefix(s, "(- ") {
		s = s[3 : len(s)-1]
	}
	if strings.HasPrefix(s, "(_ bv") {
		return true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func litVal(s string) (*big.Int, bool) {
	neg := false
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		neg = true
		s = s[3 : len(s)-1]
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
	}
	v, ok := new(big.Int).SetString(s, 10)
	if ok && neg {
		v.Neg(v)
	}
	return v, ok
}

func tIte(c, a, b T) T {
	if c.S == "true" {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.S == b.S {
		return a
	}
	if a.Sort != b.Sort {
		panic(unsup("sort mismatch in ite: %s vs %s", a.Sort, b.Sort))
	}
	if a.Sort == "Bool" {
		if a.S == "true" && b.S == "false" {
			return c
		}
		if a.S == "false" && b.S == "true" {
			return tNot(c)
		}
	}
	return T{"(ite " + c.S + " " + a.S + " " + b.S + ")", a.Sort}
}

func app(sort, f string, args ...T) T {
	if len(args) == 0 {
		return T{f, sort}
	}
	var b strings.Builder
	b.WriteString("(")
	b.WriteString(f)
	for _, a := range args {
		b.WriteString(" ")
		b.WriteString(a.S)
	}
	b.WriteString(")")
	return T{b.String(), sort}
}

func arrSort(i, e string) string { return "(Array " + i + " " + e + ")" }

// arrElem returns index and element sort of an array sort.
func arrParts(s string) (string, string, bool) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", "", false
	}
	in := s[7 : len(s)-1]
	d, n := 0, len(in)
	for i := 0; i < n; i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case '|':
			j := strings.IndexByte(in[i+1:], '|')
			i += j + 1
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:], true
			}
		}
	}
	return "", "", false
}

func sel(a, i T) T {
	is, es, ok := arrParts(a.Sort)
	if !ok {
		panic(unsup("select on non-array %s", a.Sort))
	}
	if is != i.Sort {
		panic(unsup("select index sort %s want %s (%s)", i.Sort, is, i.S))
	}
	return T{"(select " + a.S + " " + i.S + ")", es}
}

func sto(a, i, v T) T {
	is, es, ok := arrParts(a.Sort)
	if !ok || is != i.Sort || es != v.Sort {
		panic(unsup("store sort mismatch: %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	return T{"(store " + a.S + " " + i.S + " " + v.S + ")", a.Sort}
}

func constArr(sort string, v T) T {
	return T{"((as const " + sort + ") " + v.S + ")", sort}
}

func bigLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func intT(v int64) T { return T{bigLit(big.NewInt(v)), "Int"} }

func bvLit(v *big.Int, w int) T {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	return T{fmt.Sprintf("(_ bv%s %d)", x.String(), w), bvSort(w)}
}

func bvSort(w int) string { return fmt.Sprintf("(_ BitVec %d)", w) }

func bvWidth(s string) int {
	var w int
	if n, _ := fmt.Sscanf(s, "(_ BitVec %d)", &w); n == 1 {
		return w
	}
	return 0
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsup(f string, a ...any) unsupported {
	return unsupported{fmt.Sprintf(f, a...)}
}

// Obl is one proof obligation: under the items before pos and the path condition, goal holds.
type Obl struct {
	Name  string
	Kind  string // ensures, pre, safety, frame, unwind, hinit, hpres, cover
	Cand  string // houdini candidate key
	Reach T
	Goal  T
	Pos   int
	Desc  string
	Res   string // unsat, sat, unknown
	Solver string
	Ms    int64
	Model map[string]string
}

type Gen struct {
	header   []string
	items    []string
	declared map[string]bool
	n        int
	obls     []*Obl
	mute     bool
	names    map[string]int
}

func newGen() *Gen {
	return &Gen{declared: map[string]bool{}, names: map[string]int{}}
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (g *Gen) name(p string) string {
	g.n++
	return fmt.Sprintf("%s!%d", sanitize(p), g.n)
}

func (g *Gen) hdecl(key, text string) {
	if g.declared[key] {
		return
	}
	g.declared[key] = true
	g.header = append(g.header, text)
}

func (g *Gen) fresh(p, sort string) T {
	n := g.name(p)
	g.items = append(g.items, "(declare-const "+n+" "+sort+")")
	return T{n, sort}
}

func (g *Gen) def(p string, t T) T {
	if len(t.S) < 24 && !strings.Contains(t.S, "(") || isLit(t.S) {
		return t
	}
	n := g.name(p)
	g.items = append(g.items, "(define-fun "+n+" () "+t.Sort+" "+t.S+")")
	return T{n, t.Sort}
}

func (g *Gen) assume(t T) {
	if t.S == "true" {
		return
	}
	g.items = append(g.items, "(assert "+t.S+")")
}

func (g *Gen) oblige(kind, name, desc string, reach, goal T) {
	if reach.S == "false" {
		return
	}
	g.names[name]++
	if k := g.names[name]; k > 1 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	g.obls = append(g.obls, &Obl{Name: name, Kind: kind, Reach: reach, Goal: goal, Pos: len(g.items), Desc: desc})
}
