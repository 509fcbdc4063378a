package lens

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/pmezard/go-difflib/difflib"
)

// c08Want marks line by line from the edit script.
func c08Want(a, b []string, newSide bool, radius int) []bool {
	n := len(a)
	if newSide {
		n = len(b)
	}
	out := make([]bool, n)
	for _, op := range difflib.NewMatcher(a, b).GetOpCodes() {
		if op.Tag == 'e' {
			continue
		}
		for i := range out {
			if newSide {
				in := i >= op.J1 && i < op.J2
				if op.Tag == 'i' && radius > 0 && op.J1 < op.J2 {
					in = i >= op.J1-radius && i < op.J2+radius
				}
				out[i] = out[i] || in
			} else if op.Tag == 'i' {
				out[i] = out[i] || (i >= op.I1-radius && i < op.I1+radius)
			} else {
				out[i] = out[i] || (i >= op.I1 && i < op.I2)
			}
		}
	}
	return out
}

func c08Bits(b []bool) string {
	var s strings.Builder
	for _, x := range b {
		if x {
			s.WriteByte('X')
		} else {
			s.WriteByte('.')
		}
	}
	return s.String()
}

func TestVerif(t *testing.T) {
	h := newVH(t, "random pairs of line lists (edits of one another) with radius 0..4 and both sides, oracle: marks computed line by line from the edit script, and common subsequence check; plus generated module version pairs, oracle: the functions whose text was changed; non-trivial: texts differ and share a line")
	r := h.r
	lines := func(n int) []string {
		out := make([]string, n)
		for i := range out {
			out[i] = string(rune('a' + r.Intn(6)))
			if r.Intn(8) == 0 {
				out[i] = ""
			}
		}
		return out
	}
	one := func(a, b []string, radius int) {
		olds, news := strings.Join(a, "\n"), strings.Join(b, "\n")
		for _, side := range []bool{false, true} {
			in := fmt.Sprintf("old %q new %q newSide %v radius %d", olds, news, side, radius)
			var got []bool
			if !h.noPanic("panic", in, func() { got = computeChangeLineBitmap(olds, news, side, radius) }) {
				return
			}
			want := c08Want(a, b, side, radius)
			h.check("bitmap", c08Bits(got) == c08Bits(want), in, c08Bits(want), c08Bits(got))
			if radius == 0 && len(got) == len(want) {
				mine, other := a, b
				if side {
					mine, other = b, a
				}
				p := 0
				for i, l := range mine {
					if got[i] {
						continue
					}
					for p < len(other) && other[p] != l {
						p++
					}
					if !h.check("subsequence", p < len(other), in, "unmarked lines appear in order in the other version", fmt.Sprintf("line %d (%q) does not", i, l)) {
						break
					}
					p++
				}
			}
		}
		h.ev(fmt.Sprintf("%q/%q/%d", olds, news, radius), olds != news)
	}
	for n := 0; n <= 3; n++ { // small exhaustive part
		for m := 0; m <= 3; m++ {
			for i := 0; i < 1<<n; i++ {
				for j := 0; j < 1<<m; j++ {
					a, b := make([]string, n), make([]string, m)
					for k := range a {
						a[k] = string(rune('a' + i>>k&1))
					}
					for k := range b {
						b[k] = string(rune('a' + j>>k&1))
					}
					if n == 0 {
						a = []string{""}
					}
					if m == 0 {
						b = []string{""}
					}
					for rad := -1; rad <= 3; rad++ {
						one(a, b, rad)
					}
				}
			}
		}
	}
	for it := 0; h.more(it, 20000); it++ {
		a := lines(1 + r.Intn(14))
		if r.Intn(400) == 0 {
			a = lines(200 + r.Intn(60)) // popular lines are skipped by the matcher above 200
		}
		b := append([]string{}, a...)
		for k := r.Intn(4); k >= 0; k-- {
			p := r.Intn(len(b) + 1)
			switch r.Intn(3) {
			case 0:
				b = append(b[:p], append(lines(1+r.Intn(3)), b[p:]...)...)
			case 1:
				if p < len(b) && len(b) > 1 {
					b = append(b[:p], b[p+1:]...)
				}
			default:
				if p < len(b) {
					b[p] = "changed"
				}
			}
		}
		one(a, b, r.Intn(5))
	}

	// which functions of a module are reported as changed
	for it := 0; h.more(it*16, 16*40); it++ {
		cache := t.TempDir()
		proj := t.TempDir()
		mod := []string{"example.com/mod", "example.com/Upper", "example.com/m/v2"}[r.Intn(3)]
		ver := [2]string{"v1.0.0", []string{"v1.1.0", "v1.1.0-RC1", "v1.0.1-0.20240101000000-abcdefabcdef", "v1.2.0+incompatible"}[r.Intn(4)]}
		if mod == "example.com/m/v2" {
			ver = [2]string{"v2.0.0", "v2.0.1-Beta.1"}
		}
		esc := func(s string) string {
			var o strings.Builder
			for _, c := range s {
				if c >= 'A' && c <= 'Z' {
					o.WriteByte('!')
					c += 32
				}
				o.WriteRune(c)
			}
			return o.String()
		}
		type fn struct{ key, decl, body, pkg string }
		pk := mod + "/p"
		fns := []fn{
			{pk + ":A", "func A() int", "1", "p"}, {pk + ":B", "func B() int", "2", "p"}, {pk + ":A1", "func A1() int", "3", "p"},
			{pk + ":*T.A", "func (t *T) A() int", "4", "p"}, {pk + ":T.B", "func (t T) B() int", "5", "p"}, {pk + ":*U.A", "func (u *U) A() int", "6", "p"},
			{pk + ":G", "func G[K any](k K) int", "7", "p"}, {pk + ":U.B", "func (U) B() int", "8", "p"}, {mod + ":A", "func A() int", "9", ""}, {mod + ":T.A", "func (t T) A() int", "10", ""},
		}
		state := make([]int, len(fns)) // 0 same, 1 changed, 2 only old, 3 only new, 4 comment changed, 5 line inserted, 6 moved to another file
		want := map[string]bool{}
		for i := range fns {
			state[i] = []int{0, 0, 1, 1, 2, 3, 4, 5, 6}[r.Intn(9)]
			if state[i] == 1 || state[i] == 5 {
				want[fns[i].key] = true
			}
		}
		for v := 0; v < 2; v++ {
			dir := filepath.Join(cache, esc(mod)+"@"+esc(ver[v]))
			_ = os.MkdirAll(filepath.Join(dir, "p"), 0o755)
			_ = os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo 1.21\n"), 0o644)
			files := map[string]string{"p/a.go": "package p\n\ntype T struct{}\ntype U struct{}\n", "p/b.go": "package p\n", "a.go": "package root\n\ntype T struct{}\n", "b.go": "package root\n"}
			for i, f := range fns {
				if state[i] == 2 && v == 1 || state[i] == 3 && v == 0 {
					continue
				}
				src := "\n// doc\n" + f.decl + " {\n\tx := 0\n\tx++\n\treturn x + " + f.body + "\n}\n"
				if v == 1 {
					switch state[i] {
					case 1:
						src = strings.Replace(src, "x++", "x--", 1)
					case 4:
						src = strings.Replace(src, "// doc", "// other doc\n// more", 1)
						src = strings.Replace(src, "x++\n", "x++ // comment\n", 1)
					case 5:
						src = strings.Replace(src, "\treturn", "\tx += 2\n\treturn", 1)
					}
				}
				name := "a.go"
				if state[i] == 6 && v == 1 {
					name = "b.go"
				}
				if f.pkg != "" {
					name = f.pkg + "/" + name
				}
				files[name] += src
			}
			for n, s := range files {
				_ = os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644)
			}
		}
		_ = os.WriteFile(filepath.Join(proj, "go.mod"), []byte("module example.com/proj\n\ngo 1.21\n"), 0o644)
		in := fmt.Sprintf("module %s %v, function states %v (1, 5 changed)", mod, ver, state)
		mc := &ModuleChange{Name: mod, PriorVersion: ver[0], NewVersion: ver[1]}
		res, _, err := AnalyzeModuleChanges(cache, false, proj, []*ModuleChange{mc}, 1)
		if !h.check("analyze", err == nil, in, "no error", fmt.Sprint(err)) {
			continue
		}
		var got, exp []string
		for _, f := range res[mod] {
			got = append(got, f.FunctionIdent)
			bits := c08Bits(f.LineChangeBitmap)
			wb := "..X.."
			if state[c08Find(fns, func(x fn) bool { return x.key == f.FunctionIdent })] == 5 {
				wb = "..XX."
			}
			h.check("changed-lines", bits == wb, in+" "+f.FunctionIdent, wb, bits+"\n"+f.Definition)
		}
		for k := range want {
			exp = append(exp, k)
		}
		sort.Strings(got)
		sort.Strings(exp)
		h.check("changed-functions", fmt.Sprint(got) == fmt.Sprint(exp), in, fmt.Sprint(exp), fmt.Sprint(got))
		h.ev(in, len(exp) > 0)
	}
	h.done()
}

func c08Find[T any](xs []T, f func(T) bool) int {
	for i, x := range xs {
		if f(x) {
			return i
		}
	}
	return 0
}
