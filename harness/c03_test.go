package lens

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
)

// c03Oracle: what every one of the runs agreed on, matching frames of one caller by call stack and occurrence.
func c03Oracle(runs []map[string][]CallFrame, project bool) map[string][]string {
	want := map[string][]string{}
	for ident, fs := range runs[0] {
		in := true
		grouped := make([]map[string][]CallFrame, len(runs))
		for i, r := range runs {
			f, ok := r[ident]
			if !ok {
				in = false
				break
			}
			f = append([]CallFrame{}, f...)
			sort.SliceStable(f, func(a, b int) bool { return f[a].TimeMillis < f[b].TimeMillis })
			grouped[i] = map[string][]CallFrame{}
			for _, x := range f {
				k := c03Key(x.Stack, project)
				grouped[i][k] = append(grouped[i][k], x)
			}
		}
		if !in {
			continue
		}
		out := []string{}
		fs = append([]CallFrame{}, fs...)
		sort.SliceStable(fs, func(a, b int) bool { return fs[a].TimeMillis < fs[b].TimeMillis })
		used := map[string]int{}
		for _, f := range fs {
			k := c03Key(f.Stack, project)
			n := used[k]
			used[k]++
			common := map[string]string{}
			leaves(f.FieldValues, "", common)
			all := true
			for _, g := range grouped[1:] {
				if n >= len(g[k]) {
					all = false
					break
				}
				o := map[string]string{}
				leaves(g[k][n].FieldValues, "", o)
				for p, v := range common {
					if w, ok := o[p]; !ok || w != v {
						delete(common, p)
					}
				}
			}
			if all {
				out = append(out, fmt.Sprintf("%s#%d %v t%d %v", strings.ReplaceAll(k, "\x01", "|"), n, f.Stack, f.TimeMillis, sortedMap(common)))
			}
		}
		want[ident] = out
	}
	return want
}

func sortedMap(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, fmt.Sprintf("%q=%q", k, m[k]))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func c03View(m map[string][]CallFrame, project bool) map[string][]string {
	out := map[string][]string{}
	for id, fs := range m {
		used := map[string]int{}
		l := []string{}
		for _, f := range fs {
			k := c03Key(f.Stack, project)
			lv := map[string]string{}
			leaves(f.FieldValues, "", lv)
			l = append(l, fmt.Sprintf("%s#%d %v t%d %v", strings.ReplaceAll(k, "\x01", "|"), used[k], f.Stack, f.TimeMillis, sortedMap(lv)))
			used[k]++
		}
		out[id] = l
	}
	return out
}

func c03Panics(runs []map[string][]string) map[string]string {
	out := map[string]string{}
	for id := range runs[0] {
		min := map[string]int{}
		for i, r := range runs {
			c := map[string]int{}
			for _, m := range r[id] {
				c[m]++
			}
			if i == 0 {
				min = c
				continue
			}
			for m := range min {
				if c[m] < min[m] {
					min[m] = c[m]
				}
			}
		}
		var l []string
		for m, n := range min {
			for ; n > 0; n-- {
				l = append(l, m)
			}
		}
		if len(l) > 0 {
			sort.Strings(l)
			out[id] = fmt.Sprintf("%q", l)
		}
	}
	return out
}

func c03PanicView(m map[string][]string) map[string]string {
	out := map[string]string{}
	for id, l := range m {
		if len(l) > 0 {
			l = append([]string{}, l...)
			sort.Strings(l)
			out[id] = fmt.Sprintf("%q", l)
		}
	}
	return out
}

// emptyNodes reports whether a kept tree has a container with nothing in it or a value next to children.
func emptyNodes(f FieldValues) bool {
	for _, v := range f {
		if v == nil || v.Children != nil && (len(v.Children) == 0 || v.Value != "" || emptyNodes(v.Children)) {
			return true
		}
	}
	return false
}

func TestVerif(t *testing.T) {
	h := newVH(t, "2 to 4 generated repetitions of one test folded pairwise; oracle: set of leaf paths, frames and panics present and equal in every repetition; non-trivial: at least one captured frame")
	g := &trGen{h}
	for i := 0; h.more(i, 60000); i++ {
		base := g.result()
		n := 2 + h.r.Intn(3)
		runs := []TestResult{base}
		for len(runs) < n {
			runs = append(runs, g.perturb(runs[h.r.Intn(len(runs))]))
		}
		in := ""
		for k, r := range runs {
			in += fmt.Sprintf("run%d: %s; ", k, trString(r))
		}
		var cs, es []map[string][]CallFrame
		var pp, mp []map[string][]string
		fail := false
		for _, r := range runs {
			c := cloneTR(r)
			cs, es = append(cs, c.CallerResults), append(es, c.ExtensionFrames)
			pp, mp = append(pp, c.ProjectPanics), append(mp, c.ModulePanics)
			fail = fail || r.TestFailure
		}
		var got TestResult
		if !h.noPanic("stable", in, func() {
			got = cloneTR(runs[0])
			for _, r := range runs[1:] {
				got = testResultStableFields(got, cloneTR(r))
			}
		}) {
			continue
		}
		h.ev(in, len(base.CallerResults) > 0)
		cmp := func(key string, want, have any) {
			if !reflect.DeepEqual(want, have) {
				h.fail(key, in, fmt.Sprint(want), fmt.Sprint(have))
			}
		}
		cmp("caller-frames", c03Oracle(cs, true), c03View(got.CallerResults, true))
		cmp("extension-frames", c03Oracle(es, false), c03View(got.ExtensionFrames, false))
		cmp("project-panics", c03Panics(pp), c03PanicView(got.ProjectPanics))
		cmp("module-panics", c03Panics(mp), c03PanicView(got.ModulePanics))
		cmp("failure", fail, got.TestFailure)
		cmp("identity", base.TestFunction, got.TestFunction)
		for _, fs := range got.CallerResults {
			for _, f := range fs {
				if emptyNodes(f.FieldValues) {
					h.fail("empty-node", in, "only values every run agreed on", fvString(f.FieldValues))
				}
			}
		}
		// order of the repetitions: the same values survive
		if n == 2 {
			var sw TestResult
			if h.noPanic("swap", in, func() { sw = testResultStableFields(cloneTR(runs[1]), cloneTR(runs[0])) }) {
				vs := func(m map[string][]CallFrame, project bool) map[string][]string {
					o := map[string][]string{}
					for id, fs := range m {
						used := map[string]int{}
						for _, f := range fs {
							k := c03Key(f.Stack, project)
							lv := map[string]string{}
							leaves(f.FieldValues, "", lv)
							o[id] = append(o[id], fmt.Sprintf("%q#%d %s", k, used[k], sortedMap(lv)))
							used[k]++
						}
						sort.Strings(o[id])
					}
					return o
				}
				cmp("order", vs(got.CallerResults, true), vs(sw.CallerResults, true))
				cmp("order-panics", c03PanicView(got.ProjectPanics), c03PanicView(sw.ProjectPanics))
			}
		}
		// pairs of field trees directly
		f1 := g.fields(3)
		f2 := cloneFV(f1)
		g.perturbFV(f2, 2)
		want, o, have := map[string]string{}, map[string]string{}, map[string]string{}
		leaves(f1, "", want)
		leaves(f2, "", o)
		for p, v := range want {
			if w, ok := o[p]; !ok || w != v {
				delete(want, p)
			}
		}
		fin := fvString(f1) + " / " + fvString(f2)
		var st FieldValues
		if h.noPanic("fields", fin, func() { st = stableFieldValues(f1, f2) }) {
			leaves(st, "", have)
			h.check("fields", reflect.DeepEqual(want, have) && !emptyNodes(st), fin, sortedMap(want), fvString(st))
			h.check("fields-input", fvString(f1)+" / "+fvString(f2) == fin, fin, "inputs unchanged", fvString(f1)+" / "+fvString(f2))
		}
		h.ev(fin, len(f1) > 0)
	}
	h.done()
}
