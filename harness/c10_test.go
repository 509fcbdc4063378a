package lens

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
)

// c10Gen writes random functions with returns in every kind of nested statement.
type c10Gen struct {
	r    *rand.Rand
	n    int
	res  int // shape of the results
	lits int
}

var c10Results = []string{"", "int", "(int, error)", "(n int, err error)", "(x any)", "(_ int, s string)", "func() int"}

func (g *c10Gen) ret() string {
	e := []string{"a", "7", "a + 1", "len(b)", "f0(a)", "-a"}[g.r.Intn(6)]
	switch g.res {
	case 0:
		return "return"
	case 1:
		return "return " + e
	case 2:
		return []string{"return " + e + ", nil", "return two(a)", "return " + e + ", errV"}[g.r.Intn(3)]
	case 3:
		return []string{"return", "return " + e + ", nil", "return two(a)", "return n, err"}[g.r.Intn(4)]
	case 4:
		return []string{"return " + e, "return nil", "return", "return b", "return \"q\""}[g.r.Intn(5)]
	case 5:
		return []string{"return", "return " + e + ", b"}[g.r.Intn(2)]
	}
	return "return func() int { return " + e + " }"
}

func (g *c10Gen) stmts(d int, ind string) string {
	var b strings.Builder
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		b.WriteString(g.stmt(d, ind))
	}
	if g.r.Intn(3) == 0 {
		b.WriteString(ind + g.ret() + "\n")
	}
	return b.String()
}

func (g *c10Gen) stmt(d int, ind string) string {
	g.n++
	v := fmt.Sprintf("v%d", g.n)
	in := ind + "\t"
	if d == 0 {
		switch g.r.Intn(5) {
		case 0:
			return ind + v + " := a\n" + ind + "_ = " + v + "\n"
		case 1:
			return ind + "var " + v + " = len(b)\n" + ind + "_ = " + v + "\n"
		case 2:
			g.lits++
			return ind + "_ = func(q int) int { if q > 1 { return q }; return a }(2)\n"
		case 3:
			return ind + "a++\n"
		}
		return ind + "b += \"x\"\n"
	}
	switch g.r.Intn(10) {
	case 0:
		return ind + "if a > 0 {\n" + g.stmts(d-1, in) + ind + "}\n"
	case 1: // else-if chain
		s := ind + "if " + v + " := a; " + v + " > 3 {\n" + g.stmts(d-1, in) + ind + "}"
		for k := g.r.Intn(4); k > 0; k-- {
			s += " else if a == " + strconv.Itoa(k) + " {\n" + g.stmts(d-1, in) + ind + "}"
		}
		if g.r.Intn(2) == 0 {
			s += " else {\n" + g.stmts(d-1, in) + ind + "}"
		}
		return s + "\n"
	case 2:
		return ind + "for " + v + " := 0; " + v + " < a; " + v + "++ {\n" + g.stmts(d-1, in) + ind + "}\n"
	case 3:
		return ind + "for " + v + " := range b {\n" + in + "_ = " + v + "\n" + g.stmts(d-1, in) + ind + "}\n"
	case 4:
		s := ind + "switch a {\n"
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			s += ind + "case " + strconv.Itoa(k) + ":\n" + g.stmts(d-1, in)
		}
		if g.r.Intn(2) == 0 {
			s += ind + "default:\n" + g.stmts(d-1, in)
		}
		return s + ind + "}\n"
	case 5:
		return ind + "switch " + v + " := any(a).(type) {\n" + ind + "case int:\n" + in + "_ = " + v + "\n" + g.stmts(d-1, in) + ind + "case string:\n" + in + "_ = " + v + "\n" + ind + "}\n"
	case 6:
		return ind + "select {\n" + ind + "case " + v + " := <-c:\n" + in + "_ = " + v + "\n" + g.stmts(d-1, in) + ind + "case c <- a:\n" + g.stmts(d-1, in) + ind + "default:\n" + g.stmts(d-1, in) + ind + "}\n"
	case 7:
		return ind + "L" + v + ":\n" + ind + "for {\n" + g.stmts(d-1, in) + in + "if a > 5 {\n" + in + "\tbreak L" + v + "\n" + in + "}\n" + in + "a++\n" + ind + "}\n"
	case 8:
		return ind + "{\n" + g.stmts(d-1, in) + ind + "}\n"
	}
	return g.stmt(0, ind)
}

func (g *c10Gen) fn(i int) (decl, ident string) {
	g.res = g.r.Intn(len(c10Results))
	recv, name := "", fmt.Sprintf("F%d", i)
	ident = "p:" + name
	if g.r.Intn(3) == 0 {
		recv = "(t *T) "
	}
	body := g.stmts(g.r.Intn(4), "\t")
	if g.res != 0 || g.r.Intn(2) == 0 {
		body += "\t" + g.ret() + "\n"
	}
	if g.r.Intn(8) == 0 && g.res != 0 {
		body = "\tpanic(a)\n"
	}
	return fmt.Sprintf("func %s%s(a int, b string, c chan int) %s {\n%s}\n", recv, name, c10Results[g.res], body), name
}

const c10Support = "package p\n\nimport \"errors\"\n\ntype T struct{}\n\nvar errV = errors.New(\"e\")\n\nfunc f0(a int) int { return a }\n\nfunc two(a int) (int, error) { return a, nil }\n"
const c10Stub = "package p\n\ntype lensMonitorFieldSnapshot struct {\n\tName string\n\tVal interface{}\n}\n\nfunc sendLensPointMessage(id uint32) {}\n\nfunc sendLensPointStateMessage(id uint32, snaps ...lensMonitorFieldSnapshot) {}\n\nfunc sendLensPointRecoveryMessage(id uint32, r interface{}) {}\n"

type c10Imp struct{ pkgs map[string]*types.Package }

func (i *c10Imp) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, p, "s", types.Typ[types.String])), types.NewTuple(types.NewVar(0, p, "", types.Universe.Lookup("error").Type())), false)
	p.Scope().Insert(types.NewFunc(0, p, "New", sig))
	p.MarkComplete()
	return p, nil
}

func c10Check(files map[string]string) (map[string]*ast.File, error) {
	fset := token.NewFileSet()
	out := map[string]*ast.File{}
	var l []*ast.File
	for n, s := range files {
		f, err := parser.ParseFile(fset, n, s, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		out[n] = f
		l = append(l, f)
	}
	_, err := (&types.Config{Importer: &c10Imp{}}).Check("p", fset, l, nil)
	return out, err
}

// c10Returns: return statements outside function literals.
func c10Returns(body *ast.BlockStmt) int {
	n := 0
	ast.Inspect(body, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			n++
		}
		return true
	})
	return n
}

func c10Calls(body ast.Node, name string) []uint64 {
	var out []uint64
	ast.Inspect(body, func(x ast.Node) bool {
		if c, ok := x.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == name && len(c.Args) > 0 {
				if l, ok := c.Args[0].(*ast.BasicLit); ok {
					v, _ := strconv.ParseUint(l.Value, 10, 64)
					out = append(out, v)
				}
			}
		}
		return true
	})
	return out
}

func TestVerif(t *testing.T) {
	h := newVH(t, "id sequences from several goroutines at preset counters up to exhaustion; generated packages whose functions return from every kind of nested statement, instrumented with return, panic, entry and finish points in random order, re-parsed and type-checked; return lists merged; oracle: the ids written in the source, one per return statement; non-trivial: at least two points")
	r := h.r
	log.SetOutput(io.Discard)

	ids := func(start uint32, workers, each int, desc string) {
		m := &ASTModifier{}
		m.currPointId.Store(start)
		var mu sync.Mutex
		var got []uint32
		errs := 0
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < each; i++ {
					id, err := m.nextPointId()
					mu.Lock()
					if err != nil {
						errs++
					} else {
						got = append(got, id)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		h.ev(desc, workers*each > 1)
		seen := map[uint32]bool{}
		for _, id := range got {
			if id == 0 || seen[id] || id < start {
				h.fail("c10.unique", desc, "ids that are new, not zero and not below the counter", fmt.Sprint(id, " again, zero or below"))
			}
			seen[id] = true
		}
		left := int(math.MaxUint32 - max(start, 1))
		h.check("c10.exhausted", errs == max(0, workers*each-left), desc, fmt.Sprint(max(0, workers*each-left), " errors"), fmt.Sprint(errs))
	}
	for _, s := range []uint32{0, 1, 2, 255, 1<<16 - 1, 1 << 31, math.MaxUint32 - 5, math.MaxUint32 - 1, math.MaxUint32} {
		for _, w := range []int{1, 4, 8} {
			ids(s, w, 40, fmt.Sprintf("counter %d, %d goroutines, 40 ids each", s, w))
		}
	}

	for n := 0; n < 400; n++ {
		var in []FunctionReturn
		sum := map[uint32]uint32{}
		for k := r.Intn(30); k > 0; k-- {
			x := FunctionReturn{Line: uint32(r.Intn(1 + r.Intn(20))), CallCount: uint32(r.Intn(4))}
			in = append(in, x)
			sum[x.Line] += x.CallCount
		}
		desc := fmt.Sprint("merge ", in)
		h.ev(desc, len(in) > 1)
		out := mergeReturnInfos(in)
		ok := len(out) == len(sum)
		for i, x := range out {
			w, have := sum[x.Line]
			ok = ok && have && w == x.CallCount && (i == 0 || out[i-1].Line < x.Line)
		}
		h.check("c10.merge", ok, desc, fmt.Sprint("one entry per line with its call sum: ", sum), fmt.Sprint(out))
	}

	for n := 0; h.more(n, 100000); n++ {
		dir, err := os.MkdirTemp("", "c10")
		if err != nil {
			t.Fatal(err)
		}
		g := &c10Gen{r: r}
		files := map[string]string{"support.go": c10Support}
		type target struct {
			file, name string
			ret        []uint32
			panics     []uint32
			points     []uint32
			did        bool
			returns    int
		}
		var targets []*target
		for fi := 0; fi < 2; fi++ {
			name := fmt.Sprintf("f%d.go", fi)
			src := "package p\n\n"
			for k := 1 + r.Intn(3); k > 0; k-- {
				d, fn := g.fn(len(targets))
				src += d + "\n"
				targets = append(targets, &target{file: name, name: fn})
			}
			files[name] = src
		}
		orig, err := c10Check(files)
		if err != nil { // not valid Go: nothing to say
			os.RemoveAll(dir)
			continue
		}
		for name, src := range files {
			if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
				t.Fatal(err)
			}
		}
		decl := func(f *ast.File, name string) *ast.FuncDecl {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == name {
					return fd
				}
			}
			return nil
		}
		m := &ASTModifier{}
		start := uint32(0)
		if r.Intn(3) == 0 {
			start = uint32(r.Intn(1 << 20))
			m.currPointId.Store(start)
		}
		desc := files["f0.go"] + "\n----\n" + files["f1.go"]
		h.ev(desc, true)
		bad := ""
		pan := h.catch(func() {
			order := r.Perm(len(targets))
			for _, ti := range order {
				tg := targets[ti]
				fd := decl(orig[tg.file], tg.name)
				tg.returns = c10Returns(fd.Body)
				fn := &Function{FilePath: filepath.Join(dir, tg.file), PackageName: "p", FunctionName: tg.name, FunctionIdent: MakeFunctionIdent("p", fd)}
				if _, _, endsInPanic := AnalyzeASTFunctionReturnPoints(token.NewFileSet(), fd); endsInPanic {
					id, err := m.InjectFuncPointEntry(fn)
					if err != nil {
						bad = err.Error()
						return
					}
					tg.points = append(tg.points, id)
					continue
				}
				got, err := m.InjectFuncPointReturnStates(fn)
				if err != nil {
					bad = err.Error()
					return
				}
				tg.ret, tg.did = got, true
				if r.Intn(2) == 0 {
					id, err := m.InjectFuncPointPanic(fn)
					if err != nil {
						bad = err.Error()
						return
					}
					tg.panics = append(tg.panics, id)
				}
				if r.Intn(2) == 0 {
					f := m.InjectFuncPointEntry
					if r.Intn(2) == 0 {
						f = m.InjectFuncPointFinish
					}
					id, err := f(fn)
					if err != nil {
						bad = err.Error()
						return
					}
					tg.points = append(tg.points, id)
				}
				if r.Intn(4) == 0 { // a second request adds nothing
					again, err := m.InjectFuncPointReturnStates(fn)
					if err != nil || len(again) != 0 {
						bad = fmt.Sprint("instrumented twice: ", again, err)
						return
					}
				}
				if r.Intn(4) == 0 {
					if err := m.CommitFile(fn.FilePath); err != nil {
						bad = err.Error()
						return
					}
				}
			}
			if err := m.Commit(); err != nil {
				bad = err.Error()
			}
		})
		if bad != "" || pan != "" {
			h.fail("c10.inject", desc, "every function is instrumented", bad+pan)
			os.RemoveAll(dir)
			continue
		}
		now := map[string]string{"stub.go": c10Stub}
		for name := range files {
			b, _ := os.ReadFile(filepath.Join(dir, name))
			now[name] = string(b)
		}
		os.RemoveAll(dir)
		inst, err := c10Check(now)
		if err != nil {
			h.fail("c10.compiles", desc, "instrumented source type-checks", err.Error()+"\n"+now["f0.go"]+"\n----\n"+now["f1.go"])
			continue
		}
		all := map[uint64]int{}
		for _, tg := range targets {
			fd := decl(inst[tg.file], tg.name)
			cmp := func(kind string, ids []uint32, call string) {
				var w []uint64
				for _, id := range ids {
					w = append(w, uint64(id))
					all[uint64(id)]++
				}
				g := c10Calls(fd.Body, call)
				sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
				sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
				h.check("c10.written", fmt.Sprint(w) == fmt.Sprint(g), tg.name+" "+kind+" in\n"+desc, fmt.Sprint("the reported ids ", w), fmt.Sprint("in the source: ", g))
			}
			cmp("state", tg.ret, "sendLensPointStateMessage")
			cmp("panic", tg.panics, "sendLensPointRecoveryMessage")
			cmp("point", tg.points, "sendLensPointMessage")
			if tg.did {
				h.check("c10.returns", len(tg.ret) == max(1, tg.returns), tg.name+" in\n"+desc, fmt.Sprint(max(1, tg.returns), " state points"), fmt.Sprint(len(tg.ret)))
			}
			if tg.did && tg.returns > 0 { // each return directly follows its own point
				loose := 0
				var walk func(l []ast.Stmt)
				walk = func(l []ast.Stmt) {
					for i, s := range l {
						if _, ok := s.(*ast.ReturnStmt); ok {
							if i == 0 || len(c10Calls(l[i-1], "sendLensPointStateMessage")) != 1 {
								loose++
							}
						}
					}
				}
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					switch x := x.(type) {
					case *ast.FuncLit:
						return false
					case *ast.BlockStmt:
						walk(x.List)
					case *ast.CaseClause:
						walk(x.Body)
					case *ast.CommClause:
						walk(x.Body)
					}
					return true
				})
				h.check("c10.before", loose == 0, tg.name+" in\n"+desc, "each return directly after its state point", fmt.Sprint(loose, " without"))
			}
		}
		for id, k := range all {
			h.check("c10.unique", k == 1 && id > 0 && id >= uint64(start), desc, "ids used once", fmt.Sprint(id, " used ", k, " times"))
		}
	}
	h.done()
}
