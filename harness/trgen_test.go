package lens

import (
	"fmt"
	"sort"
	"strings"
)

// trGen generates test results.
type trGen struct{ h *vh }

var trNames = []string{"a", "b", "c", "d", "err", "x.y", "n", "", "…"}

func (g *trGen) val() string {
	r := g.h.r
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("long value ", 1+r.Intn(6))
	case 2:
		return string([]byte{byte(r.Intn(256)), byte(r.Intn(256))})
	}
	return []string{"0", "1", "2", "true", "<nil>", "a", "b"}[r.Intn(7)]
}

func (g *trGen) fields(depth int) FieldValues {
	r := g.h.r
	out := FieldValues{}
	for k := r.Intn(5); k > 0; k-- {
		n := trNames[r.Intn(len(trNames))]
		fv := &FieldValue{}
		if depth > 0 && r.Intn(3) == 0 {
			fv.Children = g.fields(depth - 1)
			if len(fv.Children) == 0 {
				fv.Children = nil
				fv.Value = g.val()
			}
		} else {
			fv.Value = g.val()
		}
		out[n] = fv
	}
	return out
}

func (g *trGen) stack() []StackFrame {
	r := g.h.r
	var out []StackFrame
	for k := r.Intn(5); k > 0; k-- {
		out = append(out, StackFrame{File: []string{"./a.go", "./b.go", "./vendor/v/v.go", "ext@v1/x.go", "./sub/c.go"}[r.Intn(5)], Line: uint32(r.Intn(3)), Function: "p.F" + fmt.Sprint(r.Intn(3))})
	}
	return out
}

func (g *trGen) frames(idents []string) map[string][]CallFrame {
	r := g.h.r
	out := map[string][]CallFrame{}
	for _, id := range idents {
		if r.Intn(5) == 0 {
			continue
		}
		stacks := [][]StackFrame{g.stack(), g.stack()}
		var fs []CallFrame
		for k := r.Intn(5); k > 0; k-- {
			fs = append(fs, CallFrame{FieldValues: g.fields(3), Stack: append([]StackFrame{}, stacks[r.Intn(2)]...), TimeMillis: uint32(r.Intn(6))})
		}
		out[id] = fs
	}
	return out
}

func (g *trGen) panics() map[string][]string {
	r := g.h.r
	out := map[string][]string{}
	for _, id := range []string{"p.A", "p.B", "p.C"} {
		if r.Intn(2) == 0 {
			continue
		}
		for k := r.Intn(4); k > 0; k-- {
			out[id] = append(out[id], []string{"boom", "nil map", "x"}[r.Intn(3)])
		}
	}
	return out
}

func (g *trGen) result() TestResult {
	r := g.h.r
	return TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "p.TestX", FunctionName: "TestX"},
		CallerResults: g.frames([]string{"p.A", "p.B", "p.C"}), ExtensionFrames: g.frames([]string{"ext:one", "p.A"}),
		ProjectPanics: g.panics(), ModulePanics: g.panics(), ModuleChangesHit: r.Intn(4), TestFailure: r.Intn(4) == 0}
}

func cloneFV(f FieldValues) FieldValues {
	if f == nil {
		return nil
	}
	out := FieldValues{}
	for k, v := range f {
		out[k] = &FieldValue{Value: v.Value, Children: cloneFV(v.Children)}
	}
	return out
}

func cloneFrames(m map[string][]CallFrame) map[string][]CallFrame {
	if m == nil {
		return nil
	}
	out := map[string][]CallFrame{}
	for k, fs := range m {
		var o []CallFrame
		if fs != nil {
			o = []CallFrame{}
		}
		for _, f := range fs {
			o = append(o, CallFrame{FieldValues: cloneFV(f.FieldValues), Stack: append([]StackFrame(nil), f.Stack...), TimeMillis: f.TimeMillis})
		}
		out[k] = o
	}
	return out
}

func cloneTR(t TestResult) TestResult {
	cp := func(m map[string][]string) map[string][]string {
		if m == nil {
			return nil
		}
		o := map[string][]string{}
		for k, v := range m {
			o[k] = append([]string(nil), v...)
		}
		return o
	}
	o := t
	o.CallerResults, o.ExtensionFrames = cloneFrames(t.CallerResults), cloneFrames(t.ExtensionFrames)
	o.ProjectPanics, o.ModulePanics = cp(t.ProjectPanics), cp(t.ModulePanics)
	return o
}

// perturbFV changes a few fields.
func (g *trGen) perturbFV(f FieldValues, p int) {
	r := g.h.r
	for k, v := range f {
		if r.Intn(p) == 0 {
			switch r.Intn(5) {
			case 0:
				delete(f, k)
			case 1:
				f[k] = &FieldValue{Value: g.val()}
			case 2:
				f[k] = &FieldValue{Children: FieldValues{"q": {Value: g.val()}}}
			case 3:
				f[trNames[r.Intn(len(trNames))]] = &FieldValue{Value: g.val()}
			case 4:
				f[k] = &FieldValue{Value: v.Value + "'"}
			}
			return
		}
		g.perturbFV(v.Children, p)
		if v.Children != nil && len(v.Children) == 0 {
			v.Children = nil
		}
	}
}

func (g *trGen) perturb(t TestResult) TestResult {
	r := g.h.r
	o := cloneTR(t)
	for _, m := range []map[string][]CallFrame{o.CallerResults, o.ExtensionFrames} {
		for id, fs := range m {
			for i := range fs {
				if r.Intn(2) == 0 {
					g.perturbFV(fs[i].FieldValues, 3)
				}
				if r.Intn(8) == 0 {
					fs[i].TimeMillis = uint32(r.Intn(6))
				}
				if r.Intn(8) == 0 {
					fs[i].Stack = g.stack()
				}
				if r.Intn(3) == 0 {
					for k := range fs[i].Stack {
						fs[i].Stack[k].Line += 7
					}
				}
			}
			switch r.Intn(10) {
			case 0:
				delete(m, id)
			case 1:
				if len(fs) > 0 {
					m[id] = fs[1:]
				}
			case 2:
				m[id] = append(fs, CallFrame{FieldValues: g.fields(2), Stack: g.stack(), TimeMillis: 9})
			case 3:
				r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			}
		}
	}
	for _, m := range []map[string][]string{o.ProjectPanics, o.ModulePanics} {
		for id, l := range m {
			switch r.Intn(6) {
			case 0:
				delete(m, id)
			case 1:
				m[id] = append(l, "boom")
			case 2:
				if len(l) > 0 {
					m[id] = l[:len(l)-1]
				}
			}
		}
	}
	if r.Intn(6) == 0 {
		o.TestFailure = !o.TestFailure
	}
	return o
}

// leaves lists every leaf by its path of names (not dot-joined, so it cannot collide).
func leaves(f FieldValues, prefix string, out map[string]string) {
	for k, v := range f {
		p := prefix + "\x00/" + k
		if len(v.Children) == 0 {
			out[p] = v.Value
		} else {
			leaves(v.Children, p, out)
		}
	}
}

func fvString(f FieldValues) string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteByte('{')
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(' ')
		}
		v := f[k]
		if v == nil {
			fmt.Fprintf(&b, "%q:nil", k)
		} else if len(v.Children) > 0 {
			fmt.Fprintf(&b, "%q:", k)
			if v.Value != "" {
				fmt.Fprintf(&b, "%q+", v.Value)
			}
			b.WriteString(fvString(v.Children))
		} else {
			fmt.Fprintf(&b, "%q:%q", k, v.Value)
		}
	}
	b.WriteByte('}')
	return b.String()
}

func trString(t TestResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v hit=%d fail=%v", t.TestFunction, t.ModuleChangesHit, t.TestFailure)
	for n, m := range []map[string][]CallFrame{t.CallerResults, t.ExtensionFrames} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, " %d:%s[", n, k)
			for _, f := range m[k] {
				fmt.Fprintf(&b, "(t%d %v %s)", f.TimeMillis, f.Stack, fvString(f.FieldValues))
			}
			b.WriteByte(']')
		}
	}
	fmt.Fprintf(&b, " panics %v %v", t.ProjectPanics, t.ModulePanics)
	return b.String()
}

// c03Key identifies a call stack by file and function (lines move with the instrumentation), optionally project frames only.
func c03Key(st []StackFrame, project bool) string {
	var b strings.Builder
	for _, f := range st {
		if project && (!strings.HasPrefix(f.File, "./") || strings.HasPrefix(f.File, "./vendor/")) {
			continue
		}
		fmt.Fprintf(&b, "\x01%s\x02%s", f.File, f.Function)
	}
	return b.String()
}
