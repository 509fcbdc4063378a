package lens

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
)

// c12Module: name and version of a module argument, split at the first "@".
func c12Module(s string) (TargetModule, bool) {
	i := strings.Index(s, "@")
	if i <= 0 || i == len(s)-1 {
		return TargetModule{}, false
	}
	n, v := s[:i], s[i+1:]
	return TargetModule{Name: n, Version: v}, strings.ContainsAny(n, "/.")
}

func TestVerif(t *testing.T) {
	h := newVH(t, "random configurations near validity (each field valid, at a range bound, just outside, or missing; files present, missing, directories, unwritable), oracle: the documented conditions evaluated field by field; non-trivial: the configuration is accepted or a single field decides")
	r := h.r
	base := t.TempDir()
	_ = os.WriteFile(base+"/go.mod", []byte("module x\n"), 0o644)
	_ = os.WriteFile(base+"/go.work", []byte("go 1.21\n"), 0o644)
	_ = os.WriteFile(base+"/noread", []byte("x"), 0o000)
	_ = os.MkdirAll(base+"/dir", 0o755)
	_ = os.MkdirAll(base+"/ro", 0o555)
	_ = os.WriteFile(base+"/plain", []byte("x"), 0o644)
	_ = os.MkdirAll(base+"/out", 0o755)
	_ = os.WriteFile(base+"/out/.write_test", []byte("user data"), 0o644)
	_ = os.WriteFile(base+"/out/old.json", []byte("old report"), 0o644)
	readable := map[string]bool{"": true, base + "/go.mod": true, base + "/go.work": true, base + "/noread": false, base + "/dir": false, base + "/missing": false}
	if f, err := os.Open(base + "/noread"); err == nil { // running with privileges
		_ = f.Close()
		readable[base+"/noread"] = true
	}
	roW := false
	if f, err := os.Create(base + "/ro/x"); err == nil {
		_ = f.Close()
		_ = os.Remove(base + "/ro/x")
		roW = true
	}
	writable := map[string]bool{"": true, base + "/out/r.json": true, base + "/out/old.json": true, base + "/new/sub/r.png": true, base + "/ro/r.png": roW, base + "/plain/r.json": false}
	pick := func(good []string, bad []string) string {
		if r.Intn(12) == 0 {
			return bad[r.Intn(len(bad))]
		}
		return good[r.Intn(len(good))]
	}
	num := func(lo, hi int) (int, bool) {
		switch r.Intn(24) {
		case 0:
			return lo - 1, false
		case 1:
			return hi + 1, false
		case 2:
			return 0, lo <= 0
		case 3:
			return -lo, false
		case 4:
			return 1 << 40, false
		case 5, 6, 7:
			return lo, true
		case 8, 9, 10:
			return hi, true
		}
		return lo + r.Intn(hi-lo+1), true
	}
	mods := []string{"github.com/a/b@v1.0.0", "x.y@v2", "a/b@latest", "g.com/x@v1@v2", "g.com/x@", "@v1", "plain@v1", "g.com/x", "g.com/ x@v1", "", " g.com/s@v1 ", "a.b@v", "/@v", ".@v1", "@"}
	for it := 0; h.more(it, 8000); it++ {
		c := &Config{TmpCopy: r.Intn(2) == 0, CustomFlags: map[string]string{"k": "v"}, Gopath: "/gp", Gomodcache: "/mc"}
		ok := true
		why := ""
		need := func(b bool, s string) {
			if !b {
				ok = false
				why += s + " "
			}
		}
		c.ProjectDir = pick([]string{base, ".", "a/../b", base + "/", "/"}, []string{""})
		need(c.ProjectDir != "", "project")
		var want []TargetModule
		if r.Intn(6) == 0 {
			c.TargetModules = make([]TargetModule, 1, 4)
			c.TargetModules[0] = TargetModule{"pre.set/m", "v0"}
			want = append(want, c.TargetModules...)
		}
		if r.Intn(3) != 0 {
			c.ModuleVersionFlag = pick(mods[:4], mods)
			if c.ModuleVersionFlag != "" {
				m, good := c12Module(c.ModuleVersionFlag)
				need(good, "module")
				want = append(want, m)
			}
		}
		if r.Intn(3) == 0 {
			var l []string
			for i := 1 + r.Intn(4); i > 0; i-- {
				l = append(l, pick(append([]string{"\tq.w/e@v3\n", " g.com/s@v1 "}, mods[:4]...), mods))
			}
			c.ModulesVersionFlag = strings.Join(l, ",")
			if c.ModulesVersionFlag != "" {
				for _, e := range l {
					m, good := c12Module(strings.TrimSpace(e))
					need(good, "modules")
					want = append(want, m)
				}
			}
		}
		if r.Intn(4) == 0 {
			c.UpdatedGoModFile = pick([]string{base + "/go.mod", ""}, []string{base + "/noread", base + "/dir", base + "/missing"})
		}
		if r.Intn(4) == 0 {
			c.UpdatedGoWorkFile = pick([]string{base + "/go.work", ""}, []string{base + "/noread", base + "/dir", base + "/missing"})
		}
		need(readable[c.UpdatedGoModFile] && readable[c.UpdatedGoWorkFile], "file")
		need(c.UpdatedGoModFile == "" || c.UpdatedGoWorkFile == "", "both files")
		need(c.ModuleVersionFlag != "" || c.ModulesVersionFlag != "" || c.UpdatedGoModFile != "" || c.UpdatedGoWorkFile != "", "no source")
		for _, f := range []struct {
			p      *int
			lo, hi int
			n      string
		}{{&c.AstMonitorPort, 1024, 65535, "port"}, {&c.MaxFieldRecurse, 1, 100, "recurse"}, {&c.MaxFieldLen, 1, 1048576, "len"}, {&c.CacheMB, 1, 10240, "cache"}, {&c.TimeMultiplier, 1, 100, "time"}} {
			var good bool
			*f.p, good = num(f.lo, f.hi)
			need(good, f.n)
		}
		enum := func(p *string, n string, vals ...string) {
			*p = vals[r.Intn(len(vals))]
			if r.Intn(14) == 0 {
				*p = []string{"", "Line", "lines", "full ", "none,line", "fast", "function", "targeted", "area", "full"}[r.Intn(10)]
			}
			good := false
			for _, v := range vals {
				good = good || *p == v
			}
			need(good, n)
		}
		enum(&c.MutationScope, "scope", "function", "line", "area", "none")
		enum(&c.MutationMode, "mode", "full", "fast")
		enum(&c.MutationTests, "tests", "full", "targeted")
		c.ReportJsonFile = pick([]string{"", base + "/out/r.json", base + "/out/old.json", base + "/new/sub/r.png"}, []string{base + "/ro/r.png", base + "/plain/r.json"})
		c.ReportChartsFile = pick([]string{"", base + "/out/r.json", base + "/new/sub/r.png"}, []string{base + "/ro/r.png", base + "/plain/r.json"})
		need(writable[c.ReportJsonFile] && writable[c.ReportChartsFile], "report path")
		before := *c
		before.TargetModules = append([]TargetModule(nil), c.TargetModules...)
		in := fmt.Sprintf("%+v", before)
		var err error
		if !h.noPanic("panic", in, func() { err = c.Prepare() }) {
			continue
		}
		if !h.check("accept", (err == nil) == ok, in, fmt.Sprintf("accepted: %v (%s)", ok, why), fmt.Sprint("error: ", err)) {
			continue
		}
		abs, _ := filepath.Abs(before.ProjectDir)
		if ok {
			h.check("targets", len(want) == len(c.TargetModules) && (len(want) == 0 || reflect.DeepEqual(want, c.TargetModules)), in, fmt.Sprint(want), fmt.Sprint(c.TargetModules))
			h.check("abs", c.AbsProjDir == abs, in, abs, c.AbsProjDir)
			h.check("twice", c.Prepare() != nil, in, "an error for a second preparation", "accepted")
			h.check("targets-twice", len(want) == len(c.TargetModules), in, fmt.Sprint(want), fmt.Sprint(c.TargetModules))
		} else {
			h.check("rejected-targets", len(c.TargetModules) == len(before.TargetModules), in, "target modules as before", fmt.Sprint(c.TargetModules))
			// correcting the settings afterwards gives the configuration a fresh one would
			if before.ModuleVersionFlag != "" {
				c.ProjectDir, c.ModuleVersionFlag, c.ModulesVersionFlag, c.UpdatedGoModFile, c.UpdatedGoWorkFile = base, "g.com/x@v1", "", "", ""
				c.AstMonitorPort, c.MaxFieldRecurse, c.MaxFieldLen, c.CacheMB, c.TimeMultiplier = 4000, 5, 5, 5, 5
				c.MutationScope, c.MutationMode, c.MutationTests, c.ReportJsonFile, c.ReportChartsFile = "line", "fast", "full", "", ""
				err := c.Prepare()
				n := len(before.TargetModules) + 1
				h.check("corrected", err == nil && len(c.TargetModules) == n, in, fmt.Sprint(n, " target modules"), fmt.Sprint(err, c.TargetModules))
				h.ev(in, strings.Count(why, " ") == 1)
				continue
			}
		}
		a := *c
		a.TargetModules, a.AbsProjDir, a.prepared = before.TargetModules, before.AbsProjDir, before.prepared
		h.check("unchanged", reflect.DeepEqual(a, before), in, in, fmt.Sprintf("%+v", a))
		h.ev(in, ok || strings.Count(why, " ") == 1)
	}
	data, _ := os.ReadFile(base + "/out/.write_test")
	old, _ := os.ReadFile(base + "/out/old.json")
	ents, _ := os.ReadDir(base + "/out")
	h.check("user-files", string(data) == "user data" && string(old) == "old report" && len(ents) == 2, "report directory with files of the user", "files unchanged, none added", fmt.Sprintf("%q %q %d entries", data, old, len(ents)))
	for _, m := range mods {
		w, ok := c12Module(m)
		got, err := parseTargetModule(m)
		h.check("module-argument", (err == nil) == ok && (!ok || got == w), fmt.Sprintf("%q", m), fmt.Sprint(w, ok), fmt.Sprint(got, err))
		h.ev("module "+m, ok)
	}
	h.done()
}
