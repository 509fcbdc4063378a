package lens

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

type c18Tok struct {
	tok       token.Token
	lit       string
	line, end int // physical lines, 1-based
	auto      bool
}

// c18Scan: the tokens of src with physical lines, comments included on request.
func c18Scan(src string, comments bool) []c18Tok {
	fset := token.NewFileSet()
	f := fset.AddFile("x.go", -1, len(src))
	var sc scanner.Scanner
	sc.Init(f, []byte(src), nil, scanner.ScanComments)
	var out []c18Tok
	for {
		pos, tok, lit := sc.Scan()
		if tok == token.EOF {
			return out
		}
		if tok == token.COMMENT && !comments {
			continue
		}
		line := 1 + strings.Count(src[:f.Offset(pos)], "\n")
		t := c18Tok{tok: tok, lit: lit, line: line, end: line, auto: tok == token.SEMICOLON && lit == "\n"}
		if tok == token.STRING || tok == token.COMMENT {
			t.end += strings.Count(lit, "\n")
		}
		out = append(out, t)
	}
}

func c18Body(r *rand.Rand, d int, ind string) string {
	s := ""
	for k := r.Intn(5); k >= 0; k-- {
		switch n := r.Intn(19); {
		case n == 0:
			s += ind + "x := `one\n" + ind + "two`\n" + ind + "_ = x\n"
		case n == 1:
			s += ind + "g(`a\n\tb`, `c\n` + \"d\" + `\n\te`)\n"
		case n == 2:
			s += ind + "/* a\n" + ind + "b */ a++\n"
		case n == 3:
			s += ind + "a++ /* x\n y\n */\n"
		case n == 4:
			s += ind + "// only a comment\n"
		case n == 5:
			s += "\n"
		case n == 6 && d > 0:
			s += ind + "if a > 1 {\n" + c18Body(r, d-1, ind+"\t") + ind + "} else if a == 3 {\n" + c18Body(r, d-1, ind+"\t") + ind + "}\n"
		case n == 7 && d > 0:
			s += ind + "for a < 9 {\n" + c18Body(r, d-1, ind+"\t") + ind + "}\n"
		case n == 8 && d > 0:
			s += ind + "switch a {\n" + ind + "case 1:\n" + c18Body(r, d-1, ind+"\t") + ind + "default:\n" + ind + "}\n"
		case n == 9:
			s += ind + "g(\n" + ind + "\t\"x\",\n" + ind + "\t'c',\n" + ind + ")\n"
		case n == 10:
			s += ind + "_ = []int{\n" + ind + "\t1,\n" + ind + "\t2,\n" + ind + "}\n"
		case n == 11:
			s += ind + "func() {\n" + ind + "\ta++\n" + ind + "}()\n"
		case n == 12:
			s += ind + "a += 1 +\n" + ind + "\t2\n"
		case n == 13:
			s += "a--\n"
		case n == 14:
			s += ind + "g(`}\n//`)\n"
		case n == 15:
			s += ind + "g(`\n`)\n"
		case n == 16:
			s += ind + "\n"
		case n == 17:
			s += ind + "return\n"
		default:
			s += ind + "a = a*2 // note\n"
		}
	}
	return s
}

func TestVerif(t *testing.T) {
	h := newVH(t, "generated files (raw strings and comments over several lines, line directives, CRLF, one-line and bodyless functions, functions sharing a name or prefix, no final newline, earlier pending edits) with a visitor that inserts before random lines and stops at random; oracle: an independent token scan by physical line; non-trivial: something is inserted")
	r := h.r
	log.SetOutput(io.Discard)
	dir, err := os.MkdirTemp("", "c18")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)

	for n := 0; h.more(n, 60000); n++ {
		src := "package p\n\n"
		if r.Intn(5) == 0 {
			src = "// Package p /* is\npackage p\n\nimport (\n\t_ \"fmt\"\n)\n\n"
		}
		names := []string{"Foo", "Foo2", "Fo", "(t *T) Foo", "(t T) Bar", "Foo_"}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		directive := r.Intn(6) == 0
		for _, nm := range names[:1+r.Intn(4)] {
			if directive && r.Intn(2) == 0 {
				src += fmt.Sprintf("//line gram.y:%d\n", []int{1, 7, 300, 5000}[r.Intn(4)])
			}
			switch r.Intn(12) {
			case 0:
				src += "func " + nm + "(a int) {}\n\n"
			case 1:
				src += "func " + nm + "(a int) {\n}\n\n"
			case 2:
				src += "func " + nm + "(a int)\n\n"
			case 3:
				src += "func " + nm + "(a int) { g(`q\n\tr`)\n\ta++\n\ta++ }\n\n"
			case 4:
				src += "func " + nm + "(\n\ta int,\n) (\n\tn int,\n) {\n" + c18Body(r, 2, "\t") + "\treturn 1\n}\n\n"
			default:
				src += "// doc\nfunc " + nm + "(a int) {\n" + c18Body(r, 2, []string{"\t", "    ", ""}[r.Intn(3)]) + "}\n\n"
			}
			if directive && r.Intn(3) == 0 {
				src += "//line x.go:1\n"
			}
			if r.Intn(5) == 0 {
				src += "var v" + fmt.Sprint(r.Intn(1e9)) + " = `x\ny`\n\n"
			}
		}
		src = strings.ReplaceAll(src, "func Foo(a int)", "func Foo(a int)")
		if r.Intn(6) == 0 {
			src = strings.ReplaceAll(src, "\n", "\r\n")
		}
		if r.Intn(4) == 0 {
			src = strings.TrimRight(src, "\r\n")
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
		if err != nil {
			continue
		}
		var decls []*ast.FuncDecl
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				decls = append(decls, fd)
			}
		}
		fd := decls[r.Intn(len(decls))]
		path := filepath.Join(dir, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(path, []byte(src), 0o644); err != nil {
			t.Fatal(err)
		}
		fn := &Function{FilePath: path, PackageName: "p", FunctionName: fd.Name.Name, FunctionIdent: MakeFunctionIdent("p", fd)}
		missing := r.Intn(12) == 0
		if missing {
			fn.FunctionIdent = []string{"p:Fo0", "p:oo", "q:Foo", "p:*T.Foo2", ""}[r.Intn(5)]
		}
		prob, stop := r.Intn(4), r.Intn(3) == 0
		stopAt := r.Intn(6)
		type call struct {
			i    int
			line string
			text string
		}
		var calls []call
		m := &ASTModifier{}
		var got error
		pan := h.catch(func() {
			got = m.InsertFuncLines(fn, func(i int, line string) (string, bool) {
				text := ""
				if r.Intn(4) <= prob {
					text = fmt.Sprintf("// ins%d", len(calls))
				}
				calls = append(calls, call{i, line, text})
				return text, !(stop && len(calls)-1 >= stopAt)
			})
		})
		b, _ := os.ReadFile(path)
		out := string(b)
		_ = os.Remove(path)
		_ = os.Remove(path + ".bkp")
		desc := fmt.Sprintf("%s in %q", fn.FunctionIdent, src)
		any := false
		for _, c := range calls {
			any = any || c.text != ""
		}
		h.ev(desc+fmt.Sprint(calls), any)
		if pan != "" {
			h.fail("c18.panic", desc, "no panic", pan)
			continue
		}
		if missing || fd.Body == nil {
			h.check("c18.missing", got != nil && out == src && len(calls) == 0, desc, "an error and the file as it was", fmt.Sprintf("%v, %d calls, %q", got, len(calls), out))
			continue
		}
		if got != nil {
			h.fail("c18.insert", desc, "no error", got.Error())
			continue
		}
		phys := func(p token.Pos) int { return fset.PositionFor(p, false).Line }
		start, first, last := phys(fd.Pos()), phys(fd.Body.Lbrace)+1, phys(fd.Body.Rbrace)-1
		lines := strings.Split(src, "\n")
		code, inside := map[int]bool{}, map[int]bool{}
		for _, tk := range c18Scan(src, true) {
			for l := tk.line + 1; l <= tk.end; l++ {
				inside[l] = true
			}
			switch tk.tok {
			case token.COMMENT, token.LBRACE, token.RBRACE, token.LPAREN, token.RPAREN, token.LBRACK, token.RBRACK:
			case token.STRING:
				if tk.line == tk.end {
					code[tk.line] = true
				}
			default:
				if !tk.auto {
					code[tk.line] = true
				}
			}
		}
		// the visitor: lines of the body, in order, each code line outside strings and comments offered
		prev := first - 1
		bad := ""
		for k, c := range calls {
			l := c.i + start
			if l <= prev || l > last {
				bad = fmt.Sprintf("call %d for line %d after %d, body %d to %d", k, l, prev, first, last)
				break
			}
			if c.line != lines[l-1] {
				bad = fmt.Sprintf("call %d has text %q, line %d is %q", k, c.line, l, lines[l-1])
				break
			}
			if inside[l] {
				bad = fmt.Sprintf("line %d starts inside a string or comment", l)
				break
			}
			for j := prev + 1; j < l; j++ {
				if code[j] && !inside[j] {
					bad = fmt.Sprintf("line %d was not offered", j)
				}
			}
			prev = l
		}
		if bad == "" && !(stop && len(calls) > stopAt) {
			for j := prev + 1; j <= last; j++ {
				if code[j] && !inside[j] {
					bad = fmt.Sprintf("line %d was not offered", j)
				}
			}
		}
		if stop && len(calls) > stopAt+1 {
			bad = "visited after being told to stop"
		}
		h.check("c18.visit", bad == "", desc, "every code line of the body in order, none inside a string or comment", bad)
		// the file: the text above its line, everything else as it was
		at := map[int]string{}
		for _, c := range calls {
			if c.text != "" {
				at[c.i+start] = c.text
			}
		}
		var w []string
		for k, l := range lines {
			if s := at[k+1]; s != "" {
				w = append(w, l[:len(l)-len(strings.TrimLeft(l, " \t"))]+s)
			}
			w = append(w, l)
		}
		want := strings.Join(w, "\n")
		if !h.check("c18.insert", out == want, desc, fmt.Sprintf("%q", want), fmt.Sprintf("%q", out)) {
			continue
		}
		a, z := c18Scan(src, false), c18Scan(out, false)
		same := len(a) == len(z)
		for i := 0; same && i < len(a); i++ {
			same = a[i].tok == z[i].tok && a[i].lit == z[i].lit
		}
		h.check("c18.program", same, desc, "the same tokens as before", fmt.Sprintf("%q", out))
	}
	h.done()
}
