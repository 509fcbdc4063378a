package lens

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
)

var c14Re = regexp.MustCompile(`^(\d+)\.(\d+)(?:\.(\d+))?(?:(alpha|beta|rc)(\d+))?$`)

// c14Key: numeric order of the parts; a pre-release precedes its release; a missing patch is zero.
func c14Key(v string) [5]int {
	m := c14Re.FindStringSubmatch(v)
	n := func(s string) int { i, _ := strconv.Atoi(s); return i }
	kind := map[string]int{"alpha": 0, "beta": 1, "rc": 2, "": 3}[m[4]]
	return [5]int{n(m[1]), n(m[2]), n(m[3]), kind, n(m[5])}
}

func c14Cmp(a, b string) int {
	x, y := c14Key(a), c14Key(b)
	for i := range x {
		if x[i] != y[i] {
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func TestVerif(t *testing.T) {
	h := newVH(t, "all pairs of generated Go versions (releases, patch releases, pre-releases, two-digit parts), oracle: numeric comparison of the parsed parts; random module function sets for the filter; generated module trees for the oldest version; non-trivial: the versions differ")
	r := h.r
	var vs []string
	for _, minor := range []int{0, 1, 2, 9, 10, 11, 12, 13, 14, 18, 20, 21, 22, 99, 100} {
		b := fmt.Sprintf("1.%d", minor)
		vs = append(vs, b, b+".0", b+".1", b+".2", b+".9", b+".10", b+".13", b+"rc1", b+"rc2", b+"rc10", b+"beta1", b+"beta2")
	}
	vs = append(vs, "2.0", "2.1", "10.0", "1.13.99")
	for _, a := range vs {
		for _, b := range vs {
			in := a + " / " + b
			want := c14Cmp(a, b)
			got := compareGoVersions(a, b)
			h.check("compare", got == want, in, fmt.Sprint(want), fmt.Sprint(got))
			old := olderGoVersion(a, b)
			h.check("older", (old == a || old == b) && c14Cmp(old, a) <= 0 && c14Cmp(old, b) <= 0, in, "the older of the two", old)
			h.ev(in, a != b)
		}
		h.check("older-empty", olderGoVersion(a, "") == a && olderGoVersion("", a) == a, a, a, olderGoVersion(a, "")+olderGoVersion("", a))
		h.check("minimum", IsGoVersionBelowMinimum(a) == (c14Cmp(a, MinGoVersion) < 0), a, fmt.Sprint(c14Cmp(a, MinGoVersion) < 0), fmt.Sprint(IsGoVersionBelowMinimum(a)))
	}
	h.check("minimum-empty", !IsGoVersionBelowMinimum("") && olderGoVersion("", "") == "", "empty version", "no constraint", "")
	// filtering partitions
	for it := 0; h.more(it, 3000); it++ {
		n := r.Intn(12)
		mods := []*ModuleChange{nil}
		for i := 0; i < 4; i++ {
			v := vs[r.Intn(len(vs))]
			if r.Intn(4) == 0 {
				v = ""
			}
			mods = append(mods, &ModuleChange{Name: fmt.Sprint("m", i%3), GoVersion: v})
		}
		in := ReachableModuleChange{}
		var desc []string
		want := map[*ModuleFunction]bool{}
		skip := 0
		for i := 0; i < n; i++ {
			f := &ModuleFunction{Module: mods[r.Intn(len(mods))]}
			f.FunctionIdent = fmt.Sprint("f", i)
			in[f.FunctionIdent] = f
			ver := ""
			if f.Module != nil {
				ver = f.Module.GoVersion
			}
			if ver != "" && c14Cmp(ver, MinGoVersion) < 0 {
				skip++
			} else {
				want[f] = true
			}
			desc = append(desc, ver)
		}
		got, gs := FilterModulesByGoVersion(in)
		ok := gs == skip && len(got) == len(want)
		seen := map[*ModuleFunction]bool{}
		for _, f := range got {
			ok = ok && want[f] && !seen[f]
			seen[f] = true
		}
		h.check("filter", ok, fmt.Sprint("versions ", desc), fmt.Sprint(len(want), " kept ", skip, " skipped"), fmt.Sprint(len(got), " kept ", gs, " skipped"))
		h.ev("filter "+strings.Join(desc, ","), skip > 0 && skip < n)
	}
	// the oldest version over a project's module files
	root := t.TempDir()
	for it := 0; h.more(it, 300); it++ {
		d := filepath.Join(root, fmt.Sprint(it))
		var all, used []string
		work := "go 1.21\n"
		for i := 0; i < 1+r.Intn(4); i++ {
			v := vs[r.Intn(len(vs))]
			sub := fmt.Sprint("m", i)
			_ = os.MkdirAll(filepath.Join(d, sub), 0o755)
			txt := "module example.com/" + sub + "\n"
			if r.Intn(5) > 0 {
				txt += "\ngo " + v + "\n"
				used = append(used, v)
			}
			all = append(all, txt)
			_ = os.WriteFile(filepath.Join(d, sub, "go.mod"), []byte(txt), 0o644)
			work += "use ./" + sub + "\n"
		}
		_ = os.WriteFile(filepath.Join(d, "go.work"), []byte(work), 0o644)
		sort.Slice(used, func(i, j int) bool { return c14Cmp(used[i], used[j]) < 0 })
		_, got, err := parseProjectDeps(d, false)
		ok := err == nil && (len(used) == 0 && got == "" || len(used) > 0 && got != "" && c14Cmp(got, used[0]) == 0)
		h.check("project-oldest", ok, fmt.Sprintf("%q", all), fmt.Sprint(used), fmt.Sprint(got, err))
		h.ev(fmt.Sprint("tree ", all), len(used) > 1)
		_ = os.RemoveAll(d)
	}
	h.done()
}
