package lens

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"image"
	"image/png"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

type c15Case struct {
	changed             []*ModuleChange
	checked             []string
	total, hit, skipped int
	points              int
	callers             []*CallerFunction
	tests               []*TestFunction
	same, diff          int
	reports             []TestReport
	mut                 MutationResult
	durs                [4]time.Duration
}

func c15Gen(h *vh) c15Case {
	r := h.r
	var c c15Case
	for i := r.Intn(4); i > 0; i-- {
		c.changed = append(c.changed, &ModuleChange{Name: fmt.Sprint("ex.com/m", i), PriorVersion: fmt.Sprint("v1.", r.Intn(9), ".0"),
			NewVersion: fmt.Sprint("v2.", r.Intn(9), ".0"), Indirect: r.Intn(2) == 0})
		c.checked = append(c.checked, fmt.Sprint("ex.com/m", i))
	}
	nf := r.Intn(3) * r.Intn(9)
	var mods []*ModuleFunction
	for i := 0; i < nf; i++ {
		mods = append(mods, &ModuleFunction{Function: Function{FunctionIdent: fmt.Sprint("ex.com/m:f", (i*5)%nf), FunctionName: fmt.Sprint("f", i)}})
	}
	reach := map[string]bool{}
	for i := 1 + r.Intn(6); i > 0; i-- {
		cf := &CallerFunction{Function: Function{FunctionIdent: fmt.Sprint("p/c.go:C", r.Intn(5))}}
		for j := r.Intn(4); j > 0 && nf > 0; j-- {
			m := mods[r.Intn(nf)]
			cf.ChangeFunctions = append(cf.ChangeFunctions, m)
			reach[m.FunctionIdent] = true
		}
		c.callers = append(c.callers, cf)
	}
	c.total = len(reach) + r.Intn(4)
	if len(reach) > 0 {
		c.hit = r.Intn(len(reach) + 1)
		c.skipped = r.Intn(len(reach) - c.hit + 1)
	}
	c.points = r.Intn(100)
	nt := r.Intn(14)
	if r.Intn(4) == 0 {
		nt = 0
	}
	for i := 0; i < nt; i++ {
		name := fmt.Sprint("Test", string(rune('A'+(i*11)%26)))
		if r.Intn(4) == 0 {
			name = GeneratedTestFunctionPrefix + name
		}
		ident := "p/x_test.go:" + name
		c.tests = append(c.tests, &TestFunction{Function: Function{FunctionIdent: ident, FunctionName: name}})
		if r.Intn(8) == 0 {
			continue // no result recorded for it
		}
		tr := TestReport{
			OriginalResult:   TestResult{TestFunction: MinimumTestFunction{FunctionIdent: ident, FunctionName: name}, TestFailure: r.Intn(3) == 0, ModuleChangesHit: r.Intn(4)},
			PostUpdateResult: TestResult{TestFunction: MinimumTestFunction{FunctionIdent: ident, FunctionName: name}, TestFailure: r.Intn(3) == 0},
			SameFieldCount:   r.Intn(50), CallerFieldChanges: map[string]map[string]string{}, CallerTimeChanges: map[string]PerformanceTimeChange{}}
		for k := r.Intn(6); k > 0 && r.Intn(2) == 0; k-- {
			fm := map[string]string{}
			for q := 1 + r.Intn(3); q > 0; q-- {
				fm[fmt.Sprint("v", r.Intn(5))] = []string{"\t-1 +2\n", "-a", "  x y "}[r.Intn(3)]
			}
			tr.CallerFieldChanges[fmt.Sprint("p/c.go:C", k)] = fm
		}
		for _, fm := range tr.CallerFieldChanges {
			tr.DiffFieldCount += len(fm)
		}
		if r.Intn(3) == 0 {
			tr.DiffFieldCount += r.Intn(20)
		}
		for k := r.Intn(5); k > 0 && r.Intn(2) == 0; k-- {
			a, b := uint32(r.Intn(400)), uint32(r.Intn(400))
			if r.Intn(5) == 0 {
				a, b = a*uint32(r.Intn(2000)), b*uint32(r.Intn(2000))
			}
			tr.CallerTimeChanges[fmt.Sprint("p/c.go:C", k)] = PerformanceTimeChange{TimeDiff: time.Duration(int64(b)-int64(a)) * time.Millisecond, PreTimeMs: a, PostTimeMs: b}
		}
		c.same += tr.SameFieldCount
		c.diff += tr.DiffFieldCount
		c.reports = append(c.reports, tr)
	}
	if r.Intn(3) == 0 && c.diff == 0 {
		c.same = r.Intn(2)
	}
	if r.Intn(8) == 0 {
		c.same += 3000 * r.Intn(9)
	}
	if r.Intn(3) > 0 {
		c.mut.MutationCount = r.Intn([]int{1, 5, 40, 9000}[r.Intn(4)] + 1)
		c.mut.SquashedCount = r.Intn(c.mut.MutationCount + 1)
		if r.Intn(3) == 0 {
			c.mut.SquashedCount = max(0, c.mut.MutationCount-r.Intn(2))
		}
	}
	for i := range c.durs {
		c.durs[i] = time.Duration(r.Intn(1 << 30))
	}
	r.Shuffle(len(c.reports), func(i, j int) { c.reports[i], c.reports[j] = c.reports[j], c.reports[i] })
	r.Shuffle(len(c.tests), func(i, j int) { c.tests[i], c.tests[j] = c.tests[j], c.tests[i] })
	return c
}

func c15Clone(rs []TestReport) []TestReport {
	out := make([]TestReport, len(rs))
	for i, t := range rs {
		out[i] = t
		out[i].CallerFieldChanges = map[string]map[string]string{}
		for k, m := range t.CallerFieldChanges {
			n := map[string]string{}
			for a, b := range m {
				n[a] = b
			}
			out[i].CallerFieldChanges[k] = n
		}
		out[i].CallerTimeChanges = map[string]PerformanceTimeChange{}
		for k, v := range t.CallerTimeChanges {
			out[i].CallerTimeChanges[k] = v
		}
	}
	return out
}

func c15Desc(c c15Case) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "changed functions %d, hit %d, untracked %d, same %d, diff %d, mutations %+v, points %d, modules", c.total, c.hit, c.skipped, c.same, c.diff, c.mut, c.points)
	for _, m := range c.changed {
		fmt.Fprintf(&sb, " %s(indirect %v)", m.Name, m.Indirect)
	}
	sb.WriteString(", callers")
	for _, f := range c.callers {
		fmt.Fprintf(&sb, " %s->", f.FunctionIdent)
		for _, m := range f.ChangeFunctions {
			sb.WriteString(m.FunctionIdent + "|")
		}
	}
	for _, t := range c.reports {
		fmt.Fprintf(&sb, "; %s baselineFail %v postFail %v diff %d fields %v times %v", t.OriginalResult.TestFunction.FunctionName,
			t.OriginalResult.TestFailure, t.PostUpdateResult.TestFailure, t.DiffFieldCount, t.CallerFieldChanges, t.CallerTimeChanges)
	}
	return sb.String()
}

func c15Write(c c15Case, dir, ext string) (raw, chart []byte, err error) {
	j, s := filepath.Join(dir, "r.json"), filepath.Join(dir, "r"+ext)
	_, _ = os.Remove(j), os.Remove(s)
	var w ReportWriter = &DefaultReportWriter{}
	if err = w.WriteReportFiles(j, s, time.Unix(1700000000, 0), c.durs[0], c.durs[1], c.durs[2], c.durs[3],
		c.changed, c.checked, c.total, c.hit, c.skipped, c.points, c.callers, c.tests, c.same, c.diff, c15Clone(c.reports), c.mut); err != nil {
		return nil, nil, err
	}
	if raw, err = os.ReadFile(j); err != nil {
		return
	}
	chart, err = os.ReadFile(s)
	return
}

func c15Sorted(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func c15Eq(a, b []string) bool {
	return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
}

var c15Text = regexp.MustCompile(`<text[^>]*>([^<]*)</text>`)

func c15Check(h *vh, c c15Case, dir string, images bool) {
	in := c15Desc(c)
	raw, svg, err := c15Write(c, dir, ".svg")
	if !h.check("report written", err == nil, in, "no error", fmt.Sprint(err)) {
		return
	}
	var m ReportMetrics
	if !h.check("report parses", json.Unmarshal(raw, &m) == nil, in, "a saved report", string(raw)) {
		return
	}
	is := func(what string, got, want any) {
		h.check(what, reflect.DeepEqual(got, want), in, fmt.Sprint(what, " = ", want), fmt.Sprint(got))
	}
	// lists and counts
	reach, proj := map[string]bool{}, map[string]bool{}
	for _, f := range c.callers {
		proj[f.FunctionIdent] = true
		for _, x := range f.ChangeFunctions {
			reach[x.FunctionIdent] = true
		}
	}
	var tests []string
	gen := 0
	for _, t := range c.tests {
		tests = append(tests, t.FunctionIdent)
		if strings.HasPrefix(t.FunctionName, "TestGen_") {
			gen++
		}
	}
	sort.Strings(tests)
	lst := func(what string, got []string, n int, want []string) {
		h.check(what, c15Eq(got, want), in, fmt.Sprintf("%s: %q", what, want), fmt.Sprintf("%q", got))
		h.check(what+" count", n == len(want), in, fmt.Sprintf("%s count %d", what, len(want)), fmt.Sprint(n))
	}
	lst("reachable changed functions", m.Module.ReachableChangedFunctions, m.Module.ReachableChangedFuncCount, c15Sorted(reach))
	lst("relevant project functions", m.Validation.RelevantProjectFunctions, m.Validation.RelevantProjectFuncCount, c15Sorted(proj))
	lst("relevant tests", m.Validation.RelevantTestFunctions, m.Validation.RelevantTestFuncCount, tests)
	lst("changed modules", m.Module.ChangedModules, m.Module.ChangedModuleCount, c.checked)
	is("changed function count", m.Module.ChangeFuncCount, c.total)
	is("untracked function count", m.Module.UntrackedModuleFuncCount, c.skipped)
	is("module changes hit", m.Validation.ModuleChangeHitInTestCount, c.hit)
	is("field check points", m.Validation.ProjectFieldCheckPoints, c.points)
	is("matching fields", m.Validation.TestFieldMatchCount, c.same)
	is("differing fields", m.Validation.TestFieldDiffCount, c.diff)
	is("generated tests", m.Validation.GeneratedTestFuncCount, gen)
	is("mutations", m.Validation.MutationCount, c.mut.MutationCount)
	is("mutations squashed", m.Validation.MutationsSquashed, c.mut.SquashedCount)
	is("durations", []int64{m.AnalysisDuration, m.TestDiscoveryDuration, m.FieldCheckDuration, m.MutationDuration},
		[]int64{c.durs[0].Milliseconds(), c.durs[1].Milliseconds(), c.durs[2].Milliseconds(), c.durs[3].Milliseconds()})
	var root ModuleChange
	direct := 0
	for _, x := range c.changed {
		if !x.Indirect {
			direct++
			root = *x
		}
	}
	if len(c.changed) == 1 {
		root = *c.changed[0]
	} else if direct != 1 {
		root = ModuleChange{}
	}
	is("root module", []string{m.Module.RootModuleName, m.Module.RootModuleStartVersion, m.Module.RootModuleUpdateVersion},
		[]string{root.Name, root.PriorVersion, root.NewVersion})
	// details per test
	by := append([]TestReport(nil), c.reports...)
	sort.Slice(by, func(i, j int) bool {
		return by[i].OriginalResult.TestFunction.FunctionIdent < by[j].OriginalResult.TestFunction.FunctionIdent
	})
	var wantD []TestDetail
	var wantP []PerformanceChange
	var pre, post float64
	for _, t := range by {
		fc := map[string]map[string]string{}
		for k, x := range t.CallerFieldChanges {
			fc[k] = map[string]string{}
			for a, b := range x {
				fc[k][a] = strings.TrimSpace(b)
			}
		}
		o := t.OriginalResult
		wantD = append(wantD, TestDetail{TestFunctionIdent: o.TestFunction.FunctionIdent, TestFunctionName: o.TestFunction.FunctionName,
			BaselineFailure: o.TestFailure, PassRegression: t.PostUpdateResult.TestFailure && !o.TestFailure,
			DiffFieldCount: t.DiffFieldCount, ModuleChangeHitCount: o.ModuleChangesHit, FieldChanges: fc})
		ks := map[string]bool{}
		for k := range t.CallerTimeChanges {
			ks[k] = true
		}
		for _, k := range c15Sorted(ks) {
			x := t.CallerTimeChanges[k]
			pre, post = pre+float64(x.PreTimeMs), post+float64(x.PostTimeMs)
			wantP = append(wantP, PerformanceChange{TestFunctionIdent: o.TestFunction.FunctionIdent, TestFunctionName: o.TestFunction.FunctionName,
				CallerIdent: k, TimeDiffMs: int64(x.PostTimeMs) - int64(x.PreTimeMs), PreTimeMs: x.PreTimeMs, PostTimeMs: x.PostTimeMs})
		}
	}
	h.check("test details", len(m.Validation.TestDetails) == len(wantD) && (len(wantD) == 0 || reflect.DeepEqual(m.Validation.TestDetails, wantD)), in,
		fmt.Sprintf("%+v", wantD), fmt.Sprintf("%+v", m.Validation.TestDetails))
	gotP := append([]PerformanceChange(nil), m.Validation.PerformanceChanges...)
	sort.SliceStable(gotP, func(i, j int) bool { // as a set: its order is checked by the repetition below
		if gotP[i].TestFunctionIdent != gotP[j].TestFunctionIdent {
			return gotP[i].TestFunctionIdent < gotP[j].TestFunctionIdent
		}
		return gotP[i].CallerIdent < gotP[j].CallerIdent
	})
	h.check("performance changes", len(gotP) == len(wantP) && (len(wantP) == 0 || reflect.DeepEqual(gotP, wantP)), in,
		fmt.Sprintf("%+v", wantP), fmt.Sprintf("%+v", gotP))

	// the figures in the charts
	var texts []string
	for _, x := range c15Text.FindAllStringSubmatch(string(svg), -1) {
		texts = append(texts, html.UnescapeString(x[1]))
	}
	all := strings.Join(texts, "; ")
	h.check("chart labels are numbers", !strings.Contains(all, "NaN") && !strings.Contains(all, "Inf"), in, "no NaN in a label", all)
	at := func(title string) int {
		for i, x := range texts {
			if strings.HasPrefix(x, title) {
				return i
			}
		}
		return -1
	}
	label := func(title, next string, num, den float64, capped bool) {
		i, j := at(title), at(next)
		if !h.check("chart present", i >= 0 && j > i, in, title, all) {
			return
		}
		got := ""
		for _, x := range texts[i:j] {
			if strings.HasSuffix(x, "%") {
				got = x
			}
		}
		if den == 0 {
			return // no percentage of nothing; "NaN" is rejected above
		}
		want := 100 * num / den
		v, err := strconv.ParseFloat(strings.ReplaceAll(strings.TrimSuffix(got, "%"), ",", ""), 64)
		ok := err == nil && v >= want-0.051 && v <= want+0.051 && v >= 0 && v <= 100
		if capped && num < den && want > 99.9 {
			ok = err == nil && v > 99.8 && v < 100
		}
		h.check("percentage: "+title, ok, in, fmt.Sprintf("%s %.3f%%", title, want), got)
	}
	nr := float64(len(reach))
	label("Module Change Impact", "Changed Module Function Coverage", nr, float64(c.total), false)
	label("Changed Module Function Coverage", "Field Stability", float64(c.hit+c.skipped), nr, false)
	label("Field Stability", "Mutations Squashed", float64(c.same), float64(c.same+c.diff), true)
	label("Mutations Squashed", "Performance Change", float64(c.mut.SquashedCount), float64(c.mut.MutationCount), true)
	end := at("Risky Tests")
	if end < 0 {
		end = at("No Risky Tests")
	}
	if i := at("Performance Change"); h.check("chart present", i >= 0 && end > i, in, "Performance Change", all) && pre > 0 {
		got, want := "", 0.0
		for _, x := range texts[i:end] {
			if strings.Contains(x, "%") {
				got = x
			}
		}
		suffix := "% faster"
		if post > pre {
			suffix, want = "% slower", 100*(post-pre)/pre
		} else {
			want = 100 * (pre - post) / pre
		}
		v, err := strconv.ParseFloat(strings.ReplaceAll(strings.TrimSuffix(got, suffix), ",", ""), 64)
		h.check("performance label", err == nil && v >= want-0.051 && v <= want+0.051, in, fmt.Sprintf("%.3f%s", want, suffix), got)
	}
	// the table of risky tests
	type row struct {
		name, reg string
		n         int
		rank      [3]int
		fields    map[string]map[string]string
	}
	var rows []row
	for _, t := range by {
		reg := t.PostUpdateResult.TestFailure && !t.OriginalResult.TestFailure
		if !reg && t.DiffFieldCount == 0 {
			continue
		}
		x := row{name: t.OriginalResult.TestFunction.FunctionName, reg: "Pass", n: t.DiffFieldCount, fields: t.CallerFieldChanges}
		if reg {
			x.reg = "FAIL"
		} else if t.OriginalResult.TestFailure {
			x.reg = "Baseline FAIL"
		}
		if strings.HasPrefix(x.name, "TestGen_") {
			x.rank[0] = 1
		}
		if !reg {
			x.rank[1] = 1
		}
		x.rank[2] = -x.n
		rows = append(rows, x)
	}
	less := func(a, b [3]int) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	if len(rows) == 0 {
		h.check("no risky tests", at("No Risky Tests") >= 0, in, "No Risky Tests Identified", all)
	} else if i := at("Risky Tests"); h.check("risky tests", i >= 0, in, "a table of risky tests", all) {
		known := map[string]row{}
		for _, x := range rows {
			known[x.name] = x
		}
		var shown []row
		tab := texts[i+1:]
		for k := 0; k < len(tab); k++ {
			x, ok := known[tab[k]]
			if !ok {
				continue
			}
			shown = append(shown, x)
			delete(known, x.name)
			e := k + 1
			for e < len(tab) {
				if _, nx := known[tab[e]]; nx {
					break
				}
				e++
			}
			cells := tab[k+1 : e]
			h.check("risky test row", len(cells) >= 2 && cells[0] == x.reg && cells[1] == strconv.Itoa(x.n), in, fmt.Sprint(x.name, " ", x.reg, " ", x.n), fmt.Sprint(cells))
			// each caller shown with its fields, and the number of fields not shown
			left, got := 0, strings.Join(cells, "\n")
			for caller, fm := range x.fields {
				fs := map[string]bool{}
				for f := range fm {
					fs[f] = true
				}
				if !strings.Contains(got, caller+"["+strings.Join(c15Sorted(fs), "|")+"]") {
					left += len(fm)
				}
			}
			more := fmt.Sprintf("(%d more field differences)", left)
			h.check("risky test fields", (left == 0) == !strings.Contains(got, "more field differences") && (left == 0 || strings.Contains(got, more)), in,
				x.name+" "+fmt.Sprint(x.fields)+" "+more, got)
		}
		h.check("risky test rows", len(shown) == min(10, len(rows)), in, fmt.Sprint(min(10, len(rows)), " rows"), fmt.Sprint(len(shown)))
		for k := 1; k < len(shown); k++ {
			h.check("risky test order", !less(shown[k].rank, shown[k-1].rank), in, shown[k].name+" before "+shown[k-1].name, all)
		}
		if len(shown) > 0 {
			for _, x := range known {
				h.check("riskiest tests shown", !less(x.rank, shown[len(shown)-1].rank), in, x.name+" is shown", all)
			}
		}
	}
	// the same results give the same report, and the saved report the same charts
	raw2, svg2, err := c15Write(c, dir, ".svg")
	if err == nil {
		var m2 ReportMetrics
		_ = json.Unmarshal(raw2, &m2)
		m1 := m
		m1.RunDuration, m2.RunDuration = 0, 0
		h.check("same results, same report", reflect.DeepEqual(m1, m2), in, fmt.Sprintf("%+v", m1), fmt.Sprintf("%+v", m2))
		h.check("same results, same charts", bytes.Equal(svg, svg2), in, "equal charts", "different charts")
	}
	if !images {
		return
	}
	_, direct1, err := c15Write(c, dir, ".png")
	if !h.check("report written", err == nil, in, "no error", fmt.Sprint(err)) {
		return
	}
	saved, err := RenderReportChartsFromJson(m)
	if !h.check("saved report renders", err == nil, in, "no error", fmt.Sprint(err)) {
		return
	}
	a, err1 := png.Decode(bytes.NewReader(direct1))
	b, err2 := png.Decode(bytes.NewReader(saved))
	if h.check("charts are images", err1 == nil && err2 == nil, in, "png", fmt.Sprint(err1, err2)) {
		d := c15Diff(a, b)
		h.check("saved report gives the same charts", d == "", in, "equal pixels", d)
	}
}

// c15Diff compares the part both pictures have (the saved report is rendered on a lower canvas).
func c15Diff(a, b image.Image) string {
	w, hh := min(a.Bounds().Dx(), b.Bounds().Dx()), min(a.Bounds().Dy(), b.Bounds().Dy())
	ca, ok1 := a.(*image.RGBA)
	cb, ok2 := b.(*image.RGBA)
	for y := 0; y < hh; y++ {
		if ok1 && ok2 {
			if bytes.Equal(ca.Pix[y*ca.Stride:y*ca.Stride+4*w], cb.Pix[y*cb.Stride:y*cb.Stride+4*w]) {
				continue
			}
			return fmt.Sprint("pixel row ", y, " of ", a.Bounds(), b.Bounds())
		}
		for x := 0; x < w; x++ {
			r1, g1, b1, a1 := a.At(x, y).RGBA()
			r2, g2, b2, a2 := b.At(x, y).RGBA()
			if r1 != r2 || g1 != g2 || b1 != b2 || a1 != a2 {
				return fmt.Sprint("pixel ", x, ",", y, " of ", a.Bounds(), b.Bounds())
			}
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	log.SetOutput(io.Discard)
	h := newVH(t, "a case is a set of module changes, callers, tests and per-test results; distinct by their description, nontrivial when some test has a result")
	defer h.done()
	dir := t.TempDir()
	run := func(c c15Case, images bool) {
		h.noPanic("no panic", c15Desc(c), func() { c15Check(h, c, dir, images) })
		h.ev(c15Desc(c), len(c.reports) > 0)
	}
	run(c15Case{}, true)
	for n := 0; h.more(n*16, 16*400); n++ {
		run(c15Gen(h), n%4 == 0)
	}
}
