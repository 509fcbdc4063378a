package lens

import (
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
)

type c04Want struct {
	same, diff int
	changed    map[string]map[string]bool // caller -> field -> value changed in some call
	times      map[string]bool            // caller -> a call interval moved by more than the multiplier
	timeOK     map[string]bool            // caller/pre/post intervals that may be reported
	regress    int
}

func c04Flat(f FieldValues) map[string]string {
	m := map[string]string{}
	leaves(f, "", m)
	out := map[string]string{}
	for k, v := range m {
		out[strings.ReplaceAll(strings.TrimPrefix(k, "\x00/"), "\x00/", ".")] = v
	}
	return out
}

func c04Oracle(pre, post TestResult, mult int) c04Want {
	w := c04Want{changed: map[string]map[string]bool{}, times: map[string]bool{}, timeOK: map[string]bool{}}
	for id, fs := range pre.CallerResults {
		groups := map[string][]CallFrame{}
		for _, f := range post.CallerResults[id] {
			groups[c03Key(f.Stack, true)] = append(groups[c03Key(f.Stack, true)], f)
		}
		var lastPre, lastPost uint64
		for _, f := range fs {
			k := c03Key(f.Stack, true)
			flat := c04Flat(f.FieldValues)
			if len(groups[k]) == 0 {
				w.diff += len(flat)
				continue
			}
			o := groups[k][0]
			groups[k] = groups[k][1:]
			of := c04Flat(o.FieldValues)
			for n, v := range flat {
				if nv, ok := of[n]; ok && nv == v {
					w.same++
					continue
				} else if ok {
					if w.changed[id] == nil {
						w.changed[id] = map[string]bool{}
					}
					w.changed[id][n] = true
				}
				w.diff++
			}
			a, b := uint64(f.TimeMillis), uint64(o.TimeMillis)
			if a > 0 && b > 0 && a >= lastPre && b >= lastPost {
				pi, qi := a-lastPre, b-lastPost
				if max(1, pi)*uint64(mult) < qi || pi > max(1, qi)*uint64(mult) {
					w.times[id] = true
					w.timeOK[fmt.Sprint(id, pi, "/", qi)] = true
				}
			}
			lastPre, lastPost = a, b
		}
	}
	pan := func(a, b map[string][]string) {
		c := map[string]int{}
		for id, l := range a {
			for _, m := range l {
				c[id+"\x00"+m]++
			}
		}
		for id, l := range b {
			for _, m := range l {
				c[id+"\x00"+m]--
			}
		}
		for _, n := range c {
			if n < 0 {
				n = -n
			}
			w.diff += n
		}
	}
	pan(pre.ProjectPanics, post.ProjectPanics)
	pan(pre.ModulePanics, post.ModulePanics)
	if !pre.TestFailure && post.TestFailure {
		w.regress = 1
	}
	return w
}

// plainNames rewrites field names so that no name holds the separator (captured names are identifiers and indexes).
func plainNames(t TestResult) TestResult {
	var fix func(f FieldValues) FieldValues
	fix = func(f FieldValues) FieldValues {
		out := FieldValues{}
		for k, v := range f {
			k = strings.ReplaceAll(k, ".", "_")
			if k == "" {
				k = "e"
			}
			out[k] = &FieldValue{Value: v.Value, Children: fix(v.Children)}
			if len(v.Children) == 0 {
				out[k].Children = nil
			}
		}
		return out
	}
	t = cloneTR(t)
	for _, m := range []map[string][]CallFrame{t.CallerResults, t.ExtensionFrames} {
		for _, fs := range m {
			for i := range fs {
				fs[i].FieldValues = fix(fs[i].FieldValues)
			}
		}
	}
	return t
}

func TestVerif(t *testing.T) {
	h := newVH(t, "1 to 4 generated tests stored before and after (after = a perturbed copy, sometimes missing on one side), compared with a random multiplier; oracle: per-field, per-panic and per-interval count over paired calls; non-trivial: at least one captured frame")
	log.SetOutput(io.Discard)
	so := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	defer func() { os.Stdout = so }()
	g := &trGen{h}
	d := &DefaultTestResultAnalyzer{}
	for i := 0; h.more(i, 40000); i++ {
		n := 1 + h.r.Intn(4)
		pre, post := NewMemStorage(), NewMemStorage()
		mult := 1 + h.r.Intn(10)
		in := fmt.Sprintf("mult %d; ", mult)
		wants := map[string]c04Want{}
		pres, posts := map[string]TestResult{}, map[string]TestResult{}
		ok := true
		for k := 0; k < n; k++ {
			id := fmt.Sprintf("p.Test%d", h.r.Intn(100))
			a := plainNames(g.result())
			a.TestFunction = MinimumTestFunction{FunctionIdent: id, FunctionName: id[2:]}
			b := cloneTR(a)
			for p := h.r.Intn(3); p > 0; p-- {
				b = plainNames(g.perturb(b))
			}
			// call times
			for side, m := range []map[string][]CallFrame{a.CallerResults, b.CallerResults} {
				for _, fs := range m {
					t := uint32(h.r.Intn(30))
					for i := range fs {
						if h.r.Intn(6) == 0 {
							t = uint32(h.r.Intn(100))
						}
						step := uint32(h.r.Intn(20))
						if h.r.Intn(6) == 0 {
							step *= uint32(h.r.Intn(100))
						}
						if h.r.Intn(40) == 0 {
							step = h.r.Uint32() / uint32(1+side)
						}
						if t+step >= t {
							t += step
						}
						if h.r.Intn(4) > 0 {
							fs[i].TimeMillis = t
						}
					}
				}
			}
			save := func(s Storage, m map[string]TestResult, tr TestResult) {
				blob, err := tr.MarshalMsgpack()
				if err != nil {
					ok = false
					return
				}
				_ = s.SaveState(id, blob)
				m[id] = tr
			}
			if h.r.Intn(8) > 0 {
				save(pre, pres, a)
				in += "pre " + trString(a) + "; "
			}
			if h.r.Intn(8) > 0 {
				save(post, posts, b)
				in += "post " + trString(b) + "; "
			}
		}
		var names []string
		var ws, wd int
		for id := range posts {
			if _, has := pres[id]; has {
				names = append(names, id)
				wants[id] = c04Oracle(pres[id], posts[id], mult)
				ws += wants[id].same
				wd += wants[id].diff
			}
		}
		sort.Strings(names)
		if !ok {
			continue
		}
		var same, diff int
		var reps []TestReport
		var err error
		if !h.noPanic("compare", in, func() { same, diff, reps, err = d.CompareTestResults(pre, post, mult) }) {
			continue
		}
		h.ev(in, len(names) > 0)
		if err != nil {
			h.fail("error", in, "no error", err.Error())
			continue
		}
		h.check("totals", same == ws && diff == wd, in, fmt.Sprintf("same %d diff %d", ws, wd), fmt.Sprintf("same %d diff %d", same, diff))
		var got []string
		for _, r := range reps {
			got = append(got, r.PostUpdateResult.TestFunction.FunctionIdent)
		}
		if !h.check("tests", fmt.Sprintf("%q", got) == fmt.Sprintf("%q", names), in, fmt.Sprintf("%q", names), fmt.Sprintf("%q", got)) {
			continue
		}
		for i, r := range reps {
			w := wants[names[i]]
			h.check("identity", r.OriginalResult.TestFunction == pres[names[i]].TestFunction && r.PostUpdateResult.TestFunction == posts[names[i]].TestFunction, in, names[i], fmt.Sprint(r.OriginalResult.TestFunction, r.PostUpdateResult.TestFunction))
			h.check("result-flags", r.OriginalResult.TestFailure == pres[names[i]].TestFailure && r.PostUpdateResult.TestFailure == posts[names[i]].TestFailure &&
				r.OriginalResult.ModuleChangesHit == pres[names[i]].ModuleChangesHit && r.PostUpdateResult.ModuleChangesHit == posts[names[i]].ModuleChangesHit, in, "failure flags and hit counts of both sides", names[i])
			h.check("counts", r.SameFieldCount == w.same && r.DiffFieldCount == w.diff, in, fmt.Sprintf("%s same %d diff %d", names[i], w.same, w.diff), fmt.Sprintf("same %d diff %d", r.SameFieldCount, r.DiffFieldCount))
			h.check("regression", r.TestRegressionCount == w.regress, in, fmt.Sprint(names[i], w.regress), fmt.Sprint(r.TestRegressionCount))
			ch := map[string]map[string]bool{}
			for c, m := range r.CallerFieldChanges {
				if len(m) > 0 {
					ch[c] = map[string]bool{}
				}
				for f, txt := range m {
					ch[c][f] = true
					h.check("diff-text", txt != "", in, "a description of the change of "+f, "empty text")
				}
			}
			h.check("field-changes", reflect.DeepEqual(ch, w.changed), in, fmt.Sprint(names[i], w.changed), fmt.Sprint(ch))
			tc := map[string]bool{}
			for c, x := range r.CallerTimeChanges {
				tc[c] = true
				h.check("time-change", w.timeOK[fmt.Sprint(c, uint64(x.PreTimeMs), "/", uint64(x.PostTimeMs))] && x.TimeDiff == time.Duration(int64(x.PostTimeMs)-int64(x.PreTimeMs))*time.Millisecond, in, fmt.Sprint(names[i], w.timeOK), fmt.Sprint(c, x))
			}
			h.check("time-changes", reflect.DeepEqual(tc, w.times), in, fmt.Sprint(names[i], w.times), fmt.Sprint(tc))
		}
		// equal results are identical
		if i%4 == 0 {
			s2, d2, _, err := d.CompareTestResults(pre, pre, mult)
			h.check("self", err == nil && d2 == 0 && s2 >= same, in, "comparing results with themselves finds no difference", fmt.Sprint(s2, d2, err))
		}
	}
	c04Diff(h, d)
	h.done()
}

// c04Diff: two different captured values never give an empty or identical-looking description.
func c04Diff(h *vh, d *DefaultTestResultAnalyzer) {
	g := &trGen{h}
	for i := 0; h.more(i, 4000); i++ {
		a, b := g.val(), g.val()
		if h.r.Intn(2) == 0 {
			b = a + []string{"\n", " ", "x", "\nx"}[h.r.Intn(4)]
		}
		if a == b {
			continue
		}
		in := fmt.Sprintf("DiffValues(%q, %q)", a, b)
		h.ev(in, true)
		h.noPanic("diff-values", in, func() {
			h.check("diff-values", d.DiffValues(a, b) != "", in, "non-empty", "empty")
		})
	}
}
