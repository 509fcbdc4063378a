package lens

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"golang.org/x/tools/go/callgraph"
)

// c09Fn is one function of a generated project; calls are indexes.
type c09Fn struct {
	pkg, name, file string // pkg: import path
	decl, ident     string // decl: receiver and name, with %s for the body
	calls           []int
	how             []int
	mod, root, test bool
	generic, method bool
	iface           bool // called through an interface as well
	hidden          bool // in a generated file
	needT           bool // takes a *testing.T
}

type c09Proj struct {
	fns   []*c09Fn
	files map[string]string // path relative to the scratch root
	text  string
}

func c09Make(r *rand.Rand, tests bool) *c09Proj {
	p := &c09Proj{files: map[string]string{}}
	add := func(f *c09Fn) *c09Fn {
		p.fns = append(p.fns, f)
		return f
	}
	id := func() int { return len(p.fns) }
	mods := 2 + r.Intn(3)
	for i := 0; i < mods; i++ {
		f := add(&c09Fn{pkg: "mod.test/m", file: "m/m.go", mod: true})
		n := id()
		if r.Intn(3) == 0 {
			f.name, f.ident, f.decl, f.method = fmt.Sprintf("M%d", n), fmt.Sprintf("mod.test/m:*T.M%d", n), fmt.Sprintf("func (t *T) M%d() {%%s}", n), true
		} else {
			f.name, f.ident, f.decl = fmt.Sprintf("M%d", n), fmt.Sprintf("mod.test/m:M%d", n), fmt.Sprintf("func M%d() {%%s}", n)
		}
	}
	if r.Intn(2) == 0 { // a directory next to the project, with its name as prefix
		n := id() + 1
		add(&c09Fn{pkg: "side.test/s", file: "project-side/s.go", mod: true, name: fmt.Sprintf("S%d", n), ident: fmt.Sprintf("side.test/s:S%d", n), decl: fmt.Sprintf("func S%d() {%%s}", n)})
	}
	pkgs := []struct{ path, dir string }{{"proj.test/p/sub", "project/sub"}, {"proj.test/p", "project"}}
	for _, pk := range pkgs {
		for i := 2 + r.Intn(4); i > 0; i-- {
			n := id() + 1
			f := &c09Fn{pkg: pk.path, file: pk.dir + "/" + []string{"a.go", "b.go", "z_gen.go"}[r.Intn(3)]}
			f.hidden = strings.HasSuffix(f.file, "_gen.go")
			f.name = fmt.Sprintf("F%d", n)
			switch r.Intn(6) {
			case 0:
				f.ident, f.decl, f.method = fmt.Sprintf("%s:*T.F%d", pk.path, n), fmt.Sprintf("func (t *T) F%d() {%%s}", n), true
				f.iface = r.Intn(2) == 0
			case 1:
				f.ident, f.decl, f.method = fmt.Sprintf("%s:T.F%d", pk.path, n), fmt.Sprintf("func (t T) F%d() {%%s}", n), true
			case 2:
				f.ident, f.decl, f.generic = fmt.Sprintf("%s:F%d", pk.path, n), fmt.Sprintf("func F%d[X any](x X) {%%s}", n), true
			default:
				f.ident, f.decl = fmt.Sprintf("%s:F%d", pk.path, n), fmt.Sprintf("func F%d() {%%s}", n)
			}
			add(f)
		}
		if r.Intn(2) == 0 {
			add(&c09Fn{pkg: pk.path, file: pk.dir + "/a.go", name: "init", ident: pk.path + ":init", decl: "func init() {%s}", root: true})
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		n := id() + 1
		add(&c09Fn{pkg: "proj.test/p/cmd", file: "project/cmd/main.go", name: fmt.Sprintf("F%d", n), ident: fmt.Sprintf("proj.test/p/cmd:F%d", n), decl: fmt.Sprintf("func F%d() {%%s}", n)})
	}
	add(&c09Fn{pkg: "proj.test/p/cmd", file: "project/cmd/main.go", name: "main", ident: "proj.test/p/cmd:main", decl: "func main() {%s}", root: true})
	if tests {
		for _, pk := range pkgs {
			for i := 1 + r.Intn(3); i > 0; i-- {
				n := id() + 1
				f := &c09Fn{pkg: pk.path, file: pk.dir + "/t_test.go"}
				f.name = fmt.Sprintf("Test%d", n)
				f.decl, f.root, f.test = fmt.Sprintf("func Test%d(t *testing.T) {%%s}", n), true, true
				if r.Intn(3) == 0 {
					f.name = fmt.Sprintf("help%d", n)
					f.decl, f.root, f.test = fmt.Sprintf("func help%d() {%%s}", n), false, false
				} else if r.Intn(4) == 0 { // looks like a test but is none
					f.name = fmt.Sprintf("Testing%d", n)
					f.decl, f.root, f.test, f.needT = fmt.Sprintf("func Testing%d(t *testing.T) {%%s}", n), false, false, true
				}
				f.ident = pk.path + ":" + f.name
				add(f)
			}
		}
	}
	// calls: only into packages the caller's package imports
	ok := func(a, b *c09Fn) bool {
		if b.name == "init" || b.test || (b.root && a.pkg != b.pkg) {
			return b.test && a.test && a.pkg == b.pkg && a != b
		}
		if a.pkg == b.pkg {
			return !strings.HasSuffix(b.file, "_test.go") || strings.HasSuffix(a.file, "_test.go")
		}
		if strings.HasSuffix(b.file, "_test.go") {
			return false
		}
		order := map[string]int{"side.test/s": 0, "mod.test/m": 1, "proj.test/p/sub": 2, "proj.test/p": 3, "proj.test/p/cmd": 4}
		return order[b.pkg] < order[a.pkg]
	}
	tOf := func(a, b *c09Fn) bool { return !b.needT || a.test || a.needT }
	for _, a := range p.fns {
		for k := r.Intn(4); k > 0; k-- {
			j := r.Intn(len(p.fns))
			if ok(a, p.fns[j]) && tOf(a, p.fns[j]) {
				a.calls = append(a.calls, j)
				a.how = append(a.how, r.Intn(6))
			}
		}
	}
	// source
	body := map[string]*strings.Builder{}
	imports := map[string]map[string]bool{}
	ifaces := map[string]bool{}
	for _, f := range p.fns {
		if body[f.file] == nil {
			body[f.file], imports[f.file] = &strings.Builder{}, map[string]bool{}
		}
		s := ""
		for i, j := range f.calls {
			c := p.fns[j]
			q, t := "", "T"
			if c.pkg != f.pkg {
				q = map[string]string{"mod.test/m": "m.", "side.test/s": "s.", "proj.test/p/sub": "sub.", "proj.test/p": "p."}[c.pkg]
				imports[f.file][c.pkg] = true
				t = q + "T"
			}
			call := q + c.name + "()"
			if c.generic {
				call = q + c.name + "(" + []string{"1", "\"s\""}[r.Intn(2)] + ")"
			}
			if c.test || c.needT {
				call = c.name + "(t)"
			}
			if c.method {
				call = fmt.Sprintf("(&%s{}).%s()", t, c.name)
				if c.iface && f.how[i] == 4 {
					call = fmt.Sprintf("func() %sI%s { return &%s{} }().%s()", q, c.name, t, c.name)
					ifaces[c.pkg+" "+c.name] = true
				}
			}
			switch f.how[i] {
			case 0:
				call = "func() { " + call + " }()"
			case 1:
				call = "defer " + call
			case 2:
				call = "if 1 > 0 { " + call + " }"
			case 3:
				call = "go func() { " + call + " }()"
			}
			s += "\n\t" + call
		}
		if s != "" {
			s += "\n"
		}
		fmt.Fprintf(body[f.file], f.decl+"\n\n", s)
	}
	for _, f := range p.fns {
		if f.iface && f.method {
			fmt.Fprintf(body[f.file], "type I%s interface{ %s() }\n\n", f.name, f.name)
		}
	}
	for file, b := range body {
		pkg := map[string]string{"m": "m", "project-side": "s", "project/sub": "sub", "project": "p", "project/cmd": "main"}[filepath.ToSlash(filepath.Dir(file))]
		src := "package " + pkg + "\n\n"
		var im []string
		for i := range imports[file] {
			im = append(im, i)
		}
		sort.Strings(im)
		for _, i := range im {
			src += fmt.Sprintf("import %s %q\n", map[string]string{"mod.test/m": "m", "side.test/s": "s", "proj.test/p/sub": "sub", "proj.test/p": "p"}[i], i)
		}
		if strings.Contains(b.String(), "*testing.T") {
			src += "import \"testing\"\n"
		}
		p.files[file] = src + "\n" + b.String()
	}
	p.files["project/sub/t.go"] = "package sub\n\ntype T struct{}\n"
	p.files["project/t.go"] = "package p\n\ntype T struct{}\n"
	p.files["m/t.go"] = "package m\n\ntype T struct{}\n"
	p.files["project-side/t.go"] = "package s\n"
	p.files["m/go.mod"] = "module mod.test/m\n\ngo 1.24\n\nrequire side.test/s v1.0.0\n"
	p.files["project-side/go.mod"] = "module side.test/s\n\ngo 1.24\n"
	p.files["project/go.mod"] = "module proj.test/p\n\ngo 1.24\n\nrequire mod.test/m v1.0.0\n\nrequire side.test/s v1.0.0\n\nreplace mod.test/m => ../m\n\nreplace side.test/s => ../project-side\n"
	var names []string
	for n := range p.files {
		if strings.HasSuffix(n, ".go") && filepath.Base(n) != "t.go" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		p.text += "== " + n + "\n" + p.files[n]
	}
	return p
}

// reach: functions with a path to target that passes through no root in between (target itself included).
func (p *c09Proj) reach(target int) map[int]bool {
	in := map[int]bool{target: true}
	for again := true; again; {
		again = false
		for i, f := range p.fns {
			if in[i] {
				continue
			}
			for _, c := range f.calls {
				if in[c] && !p.fns[c].root {
					in[i], again = true, true
				}
			}
		}
	}
	return in
}

func TestVerif(t *testing.T) {
	h := newVH(t, "random call graphs (cycles, self calls, parallel edges, missing callers, several roots) searched from every node, also with a visitor that fails; generated modules with methods, interfaces, generics, closures, generated files, main, init and test functions analysed through the go command; oracle: a fixpoint over the generated edges; non-trivial: at least one edge")
	r := h.r
	log.SetOutput(io.Discard)

	for n := 0; h.more(n, 3000); n++ {
		k := 1 + r.Intn(9)
		nodes := make([]*callgraph.Node, k)
		for i := range nodes {
			nodes[i] = &callgraph.Node{ID: i}
		}
		desc := ""
		edges := [][2]int{}
		for e := r.Intn(3 * k); e > 0; e-- {
			a, b := r.Intn(k), r.Intn(k)
			edges = append(edges, [2]int{a, b})
			desc += fmt.Sprintf(" %d>%d", a, b)
			ed := &callgraph.Edge{Caller: nodes[a], Callee: nodes[b]}
			nodes[a].Out = append(nodes[a].Out, ed)
			nodes[b].In = append(nodes[b].In, ed)
		}
		if r.Intn(6) == 0 {
			b := r.Intn(k)
			nodes[b].In = append([]*callgraph.Edge{{Callee: nodes[b]}}, nodes[b].In...)
			desc += fmt.Sprintf(" nil>%d", b)
		}
		roots := map[*callgraph.Node]bool{}
		rs := map[int]bool{}
		for i := range nodes {
			if r.Intn(4) == 0 {
				rs[i] = true
				roots[nodes[i]] = true
				desc += fmt.Sprintf(" root%d", i)
			} else if r.Intn(6) == 0 {
				roots[nodes[i]] = false
			}
		}
		for s := range nodes {
			want := map[int]bool{s: true}
			for again := true; again; {
				again = false
				for _, e := range edges {
					if want[e[1]] && !rs[e[1]] && !want[e[0]] {
						want[e[0]], again = true, true
					}
				}
			}
			d := fmt.Sprintf("start %d edges%s", s, desc)
			h.ev(d, len(edges) > 0)
			got := map[int]int{}
			h.cur(d)
			if !h.within(5*time.Second, func() {
				pan := h.catch(func() {
					err := reverseDFS(nodes[s], roots, func(chain []*callgraph.Node) error {
						got[chain[len(chain)-1].ID]++
						if len(got) > 100 {
							return errors.New("too many")
						}
						return nil
					})
					h.check("c09.search", err == nil, d, "no error", fmt.Sprint(err))
				})
				h.check("c09.search", pan == "", d, "no panic", pan)
			}) {
				h.fail("c09.search", d, "the search ends", "still running after 5 s")
				h.done()
				return
			}
			ok := len(got) == len(want)
			for i, c := range got {
				ok = ok && want[i] && c == 1
			}
			h.check("c09.search", ok, d, fmt.Sprint("each once: ", want), fmt.Sprint(got))
			// a failing visitor ends the search
			stop, calls, boom := 1+r.Intn(k), 0, errors.New("boom")
			err := reverseDFS(nodes[s], roots, func(chain []*callgraph.Node) error {
				if calls++; calls == stop {
					return boom
				}
				return nil
			})
			if stop <= len(want) {
				h.check("c09.stop", err == boom && calls == stop, d, fmt.Sprintf("stops with the visitor's error after %d calls", stop), fmt.Sprint(err, " after ", calls))
			} else {
				h.check("c09.stop", err == nil && calls == len(want), d, "no error", fmt.Sprint(err, " after ", calls))
			}
		}
	}

	root, err := os.MkdirTemp("", "c09")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	root, _ = filepath.EvalSymlinks(root)
	for k, v := range map[string]string{"GOCACHE": filepath.Join(root, "cache"), "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local"} {
		os.Setenv(k, v)
	}
	rounds := 30
	if h.thorough {
		rounds = 120
	}
	start := time.Now()
	for n := 0; n < rounds && (h.thorough || time.Since(start) < 60*time.Second); n++ {
		tests := n%2 == 1
		p := c09Make(r, tests)
		dir := filepath.Join(root, fmt.Sprint("w", n))
		for name, src := range p.files {
			f := filepath.Join(dir, name)
			_ = os.MkdirAll(filepath.Dir(f), 0o755)
			if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
				t.Fatal(err)
			}
		}
		proj := filepath.Join(dir, "project")
		var changes []*ModuleFunction
		want := map[string]map[string]bool{} // caller -> changed functions it reaches
		reachable := map[string]bool{}
		for i, f := range p.fns {
			if !f.mod || r.Intn(4) == 0 {
				continue
			}
			changes = append(changes, &ModuleFunction{Function: Function{FunctionIdent: f.ident, PackageName: f.pkg, FunctionName: f.name}})
			for j := range p.reach(i) {
				c := p.fns[j]
				if c.mod || c.root || c.hidden || strings.HasSuffix(c.file, "_test.go") {
					continue
				}
				if want[c.ident] == nil {
					want[c.ident] = map[string]bool{}
				}
				want[c.ident][f.ident] = true
				reachable[f.ident] = true
			}
		}
		changes = append(changes, &ModuleFunction{Function: Function{FunctionIdent: "mod.test/m:Nowhere", PackageName: "mod.test/m", FunctionName: "Nowhere"}})
		h.ev(p.text, true)
		show := func(m map[string]map[string]bool) string {
			var l []string
			for k, v := range m {
				var s []string
				for x := range v {
					s = append(s, x)
				}
				sort.Strings(s)
				l = append(l, fmt.Sprint(k, s))
			}
			sort.Strings(l)
			return strings.Join(l, "\n")
		}
		callers, reach, _, _, _, err := CallerStaticAnalysis(changes, proj, "", "")
		if err != nil {
			h.fail("c09.callers", p.text, "an analysis", err.Error())
			continue
		}
		got := map[string]map[string]bool{}
		for _, c := range callers {
			if got[c.FunctionIdent] != nil {
				h.fail("c09.callers", p.text, "each caller once", c.FunctionIdent+" twice")
			}
			got[c.FunctionIdent] = map[string]bool{}
			for _, m := range c.ChangeFunctions {
				if got[c.FunctionIdent][m.FunctionIdent] {
					h.fail("c09.callers", p.text, "each change once per caller", c.FunctionIdent+" has "+m.FunctionIdent+" twice")
				}
				got[c.FunctionIdent][m.FunctionIdent] = true
			}
		}
		h.check("c09.callers", show(got) == show(want), p.text, show(want), show(got))
		gr := map[string]bool{}
		for id, m := range reach {
			gr[id] = m != nil && m.FunctionIdent == id
		}
		h.check("c09.reachable", fmt.Sprint(gr) == fmt.Sprint(reachable), p.text, fmt.Sprint(reachable), fmt.Sprint(gr))
		if !tests {
			continue
		}
		wantT := map[string]map[string]bool{}
		var targets []*CallerFunction
		for i, f := range p.fns {
			if f.mod || f.root || strings.HasSuffix(f.file, "_test.go") || r.Intn(3) == 0 {
				continue
			}
			targets = append(targets, &CallerFunction{Function: Function{FunctionIdent: f.ident, PackageName: f.pkg, FunctionName: f.name}})
			for j := range p.reach(i) {
				if c := p.fns[j]; c.test {
					if wantT[c.ident] == nil {
						wantT[c.ident] = map[string]bool{}
					}
					wantT[c.ident][f.ident] = true
				}
			}
		}
		tfs, err := TestStaticAnalysis(targets, proj, "", "")
		if err != nil {
			h.fail("c09.tests", p.text, "an analysis", err.Error())
			continue
		}
		gotT := map[string]map[string]bool{}
		for _, f := range tfs {
			if gotT[f.FunctionIdent] != nil {
				h.fail("c09.tests", p.text, "each test once", f.FunctionIdent+" twice")
			}
			gotT[f.FunctionIdent] = map[string]bool{}
			for _, m := range f.Targets {
				if gotT[f.FunctionIdent][m.FunctionIdent] {
					h.fail("c09.tests", p.text, "each target once per test", m.FunctionIdent+" twice")
				}
				gotT[f.FunctionIdent][m.FunctionIdent] = true
			}
		}
		h.check("c09.tests", show(gotT) == show(wantT), p.text, show(wantT), show(gotT))
	}
	h.done()
}
