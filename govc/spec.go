package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type ModTarget struct {
	Kind string // ghost, deref, elems, heap, all
	Name string
	Expr *Ex
}

type Clause struct {
	Src string
	E   *Ex
}

type TplVar struct{ Name, Typ string }

type Template struct {
	Src  string
	Vars []TplVar
	E    *Ex
}

type Contract struct {
	Name        string
	Params      []string
	Results     []string
	Requires    []*Clause
	Ensures     []*Clause
	Assumes     []*Clause // unverified postconditions (listed as assumptions)
	Modifies    []ModTarget
	ModAll      bool
	LoopInv     []*Template
	Covers      []*Clause
	Assumed     bool // contract is trusted (extern / assume)
	Verify      bool
	Det         bool
	Allocs      bool
	HavocAll    bool
	NoPanic     bool
	Overflow    bool
	Inline      bool
	Optional    bool // helper contract: ignored when the function no longer exists
	WithSelf    bool
	Unroll      int
	AllocBoundE *Ex
	AllocBound  T
	Replay      []string
	Timeout     int
	First       string
	NoAuto      bool
	Cex         []string
	failed      bool
	File        string
	BV          *bool
}

type Spec struct {
	BV, SMTStr  bool
	funcs       map[string]*Contract
	order       []*Contract
	smt         []string // raw SMT prelude (emitted after sorts are declared)
	sigs        map[string][]string
	sigRes      map[string]string
	ghosts      map[string]string
	ghostOrder  []string
	macros      map[string]*Macro
	transparent map[string]bool
	noInline    map[string]bool
	pureList    []string
	allowGo     bool
	inlineGo    bool
	localAuto   bool
	joins       bool
	ix          bool
	cardinal    bool
	heapWF      bool
	axioms      []*Clause // typed axioms over ghost functions (assumed, listed)
	lemmas      []*Lemma
	defs        []string
	needTypes   []string // Go types whose sorts must be declared before the prelude
	files       []string
}

type Macro struct {
	Params []string
	E      *Ex
}

type Lemma struct {
	Name string
	Src  string
	Vars []TplVar
	Hyp  *Ex
	E    *Ex
	Ind  string // induction variable
	Thm  bool   // proved but not assumed elsewhere
}

func newSpec() *Spec {
	return &Spec{funcs: map[string]*Contract{}, sigs: map[string][]string{}, sigRes: map[string]string{}, ghosts: map[string]string{},
		macros: map[string]*Macro{}, transparent: map[string]bool{}, noInline: map[string]bool{}}
}

func (s *Spec) lookup(n string) *Contract { return s.funcs[n] }

func (s *Spec) pureDefault(n string) bool {
	for _, p := range s.pureList {
		if p == n || strings.HasSuffix(p, "*") && strings.HasPrefix(n, p[:len(p)-1]) {
			return true
		}
	}
	return false
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// parseHeader parses "name(a, b) (r, err)".
func parseHeader(h string) (name string, ps, rs []string, err error) {
	h = strings.TrimSpace(h)
	start := 0
	if strings.HasPrefix(h, "(") { // method receiver form (*T).m
		start = strings.IndexByte(h, ')') + 1
	} else if strings.HasPrefix(h, "\"") { // quoted name: a function type
		start = 1 + strings.IndexByte(h[1:], '"')
	}
	i := strings.IndexByte(h[start:], '(')
	if i < 0 {
		return "", nil, nil, fmt.Errorf("bad header %q", h)
	}
	i += start
	name = strings.Trim(strings.TrimSpace(h[:i]), "\"")
	j := strings.IndexByte(h[i:], ')')
	if j < 0 {
		return "", nil, nil, fmt.Errorf("bad header %q", h)
	}
	j += i
	split := func(s string) []string {
		var o []string
		for _, p := range strings.Split(s, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				o = append(o, p)
			}
		}
		return o
	}
	ps = split(h[i+1 : j])
	rest := strings.TrimSpace(h[j+1:])
	rest = strings.Trim(rest, "()")
	rs = split(rest)
	return name, ps, rs, nil
}

func (s *Spec) load(path string) error {
	for _, f := range s.files {
		if f == path {
			return nil
		}
	}
	s.files = append(s.files, path)
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	type line struct {
		n int
		s string
	}
	var lines []line
	n := 0
	for sc.Scan() {
		n++
		t := sc.Text()
		if !strings.HasPrefix(strings.TrimSpace(t), "//@") {
			continue
		}
		t = strings.TrimSpace(t)
		t = strings.TrimPrefix(t, "//@")
		t = strings.TrimRight(t, " \t")
		if strings.TrimSpace(t) == "" || strings.HasPrefix(strings.TrimSpace(t), "#") {
			continue
		}
		if strings.HasPrefix(t, "    ") && len(lines) > 0 { // continuation
			lines[len(lines)-1].s += "\n" + strings.TrimSpace(t)
			continue
		}
		lines = append(lines, line{n, strings.TrimSpace(t)})
	}
	var cur *Contract
	for _, l := range lines {
		kw, rest, _ := strings.Cut(l.s, " ")
		rest = strings.TrimSpace(rest)
		fail := func(err error) error { return fmt.Errorf("%s:%d: %w", path, l.n, err) }
		clause := func() (*Clause, error) {
			e, err := parseExpr(rest)
			if err != nil {
				return nil, fail(err)
			}
			return &Clause{Src: strings.ReplaceAll(rest, "\n", " "), E: e}, nil
		}
		switch kw {
		case "import":
			if err := s.load(filepath.Join(filepath.Dir(path), strings.Trim(rest, `"`))); err != nil {
				return err
			}
		case "mode":
			switch rest {
			case "bv":
				s.BV = true
			case "int":
			case "smtstrings":
				s.SMTStr = true
			case "go":
				s.allowGo = true
			case "local":
				s.localAuto = true
			case "spawn":
				s.allowGo, s.inlineGo = true, true
			case "wf":
				s.heapWF = true
			case "ix":
				s.ix = true
			case "joins":
				s.joins = true
			case "card":
				s.cardinal = true
			default:
				return fail(fmt.Errorf("mode %s", rest))
			}
		case "transparent":
			s.transparent[rest] = true
		case "noinline":
			s.noInline[rest] = true
		case "pure":
			s.pureList = append(s.pureList, strings.Fields(rest)...)
		case "types":
			for _, t := range strings.Split(rest, ";") {
				s.needTypes = append(s.needTypes, strings.TrimSpace(t))
			}
		case "smt":
			s.smt = append(s.smt, rest)
		case "sig": // sig f(Sort; Sort) Sort
			i, j := strings.IndexByte(rest, '('), strings.LastIndex(rest, ") ")
			if i < 0 || j < 0 {
				return fail(fmt.Errorf("bad sig"))
			}
			nm := strings.TrimSpace(rest[:i])
			var as []string
			for _, a := range strings.Split(rest[i+1:j], ";") {
				if a = strings.TrimSpace(a); a != "" {
					as = append(as, a)
				}
			}
			s.sigs[nm] = as
			s.sigRes[nm] = strings.TrimSpace(rest[j+1:])
		case "ghost":
			nm, srt, _ := strings.Cut(rest, " ")
			s.ghosts[nm] = strings.TrimSpace(srt)
			s.ghostOrder = append(s.ghostOrder, nm)
		case "macro": // macro name(a,b) = expr
			h, e, ok := strings.Cut(rest, " = ")
			if !ok {
				return fail(fmt.Errorf("bad macro"))
			}
			nm, ps, _, err := parseHeader(h)
			if err != nil {
				return fail(err)
			}
			ex, err := parseExpr(e)
			if err != nil {
				return fail(err)
			}
			s.macros[nm] = &Macro{ps, ex}
		case "axiom":
			c, err := clause()
			if err != nil {
				return err
			}
			s.axioms = append(s.axioms, c)
		case "lemma", "theorem": // lemma name (v T, w T) [induction n] :: expr
			nm, r2, _ := strings.Cut(rest, " ")
			h, e, ok := strings.Cut(r2, "::")
			if !ok {
				return fail(fmt.Errorf("bad lemma"))
			}
			i := strings.IndexByte(h, '(')
			j := i + matchParen(h[i:])
			lm := &Lemma{Name: nm, Thm: kw == "theorem", Src: strings.ReplaceAll(r2, "\n", " ")}
			for _, p := range splitTop(h[i+1:j], ',') {
				f := strings.SplitN(strings.TrimSpace(p), " ", 2)
				lm.Vars = append(lm.Vars, TplVar{f[0], strings.TrimSpace(f[1])})
			}
			if r3 := strings.Fields(h[j+1:]); len(r3) == 2 && r3[0] == "induction" {
				lm.Ind = r3[1]
			}
			ex, err := parseExpr(e)
			if err != nil {
				return fail(err)
			}
			lm.E = ex
			s.lemmas = append(s.lemmas, lm)
		case "func", "extern", "assume", "callback", "closure":
			nm, ps, rs, err := "", []string(nil), []string(nil), error(nil)
			nm, ps, rs, err = parseHeader(rest)
			if err != nil {
				return fail(err)
			}
			if kw == "callback" {
				nm = "callback " + nm
			} else if kw == "closure" {
				nm = "closure " + nm
			}
			cur = &Contract{Name: nm, Params: ps, Results: rs, Assumed: kw != "func", Verify: kw == "func", File: filepath.Base(path)}
			s.funcs[nm] = cur
			s.order = append(s.order, cur)
		case "requires", "ensures", "cover", "assumes":
			c, err := clause()
			if err != nil {
				return err
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "assumes":
				cur.Assumes = append(cur.Assumes, c)
			case "cover":
				cur.Covers = append(cur.Covers, c)
			}
		case "modifies":
			for _, m := range strings.Split(rest, ",") {
				m = strings.TrimSpace(m)
				switch {
				case m == "":
				case m == "all":
					cur.Modifies = append(cur.Modifies, ModTarget{Kind: "all"})
					cur.ModAll = true
				case strings.HasPrefix(m, "*"):
					e, err := parseExpr(m[1:])
					if err != nil {
						return fail(err)
					}
					cur.Modifies = append(cur.Modifies, ModTarget{Kind: "deref", Name: m, Expr: e})
				case strings.HasSuffix(m, "[*]"):
					e, err := parseExpr(m[:len(m)-3])
					if err != nil {
						return fail(err)
					}
					cur.Modifies = append(cur.Modifies, ModTarget{Kind: "elems", Name: m, Expr: e})
				case strings.HasPrefix(m, "heap("):
					cur.Modifies = append(cur.Modifies, ModTarget{Kind: "heap", Name: m[5 : len(m)-1]})
				default:
					cur.Modifies = append(cur.Modifies, ModTarget{Kind: "ghost", Name: m})
				}
			}
		case "loopinv":
			t := &Template{Src: strings.ReplaceAll(rest, "\n", " ")}
			body := rest
			if strings.HasPrefix(rest, "(") {
				i := matchParen(rest)
				after := strings.TrimSpace(rest[i+1:])
				if strings.HasPrefix(after, "::") {
					for _, p := range splitTop(rest[1:i], ',') {
						f := strings.SplitN(strings.TrimSpace(p), " ", 2)
						if len(f) != 2 {
							return fail(fmt.Errorf("bad template var %q", p))
						}
						t.Vars = append(t.Vars, TplVar{f[0], strings.TrimSpace(f[1])})
					}
					body = after[2:]
				}
			}
			e, err := parseExpr(body)
			if err != nil {
				return fail(err)
			}
			t.E = e
			cur.LoopInv = append(cur.LoopInv, t)
		case "first":
			cur.First = strings.TrimSpace(rest)
		case "allocbound":
			e, err := parseExpr(rest)
			if err != nil {
				return fail(err)
			}
			cur.AllocBoundE = e
		case "nopanic":
			cur.NoPanic = true
		case "overflow":
			cur.Overflow = true
		case "det":
			cur.Det = true
		case "allocs":
			cur.Allocs = true
		case "havoc":
			cur.HavocAll = true
		case "inline":
			cur.Inline = true
		case "optional":
			cur.Optional = true
		case "self":
			cur.WithSelf = true
		case "noauto":
			cur.NoAuto = true
		case "unroll":
			cur.Unroll, _ = strconv.Atoi(rest)
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(rest)
		case "cex":
			cur.Cex = strings.Fields(rest)
		default:
			return fail(fmt.Errorf("unknown keyword %q", kw))
		}
	}
	return nil
}

func matchParen(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(s) - 1
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}
