package lens

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"golang.org/x/tools/go/packages"
)

// c13Comps: the components of a path made absolute against cwd, parent references resolved.
func c13Comps(cwd, p string) []string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	var out []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return out
}

func c13Inside(f, d []string) bool {
	if len(f) < len(d) {
		return false
	}
	for i := range d {
		if f[i] != d[i] {
			return false
		}
	}
	return true
}

type c13Provider struct{ f func(Config) }

func (p *c13Provider) AnalyzeModuleChanges(config Config, _ bool, _ []*ModuleChange, _ int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	p.f(config)
	return nil, nil, errors.New("stop here")
}
func (p *c13Provider) Cleanup() {}

func c13Tree(dir string) string {
	var b strings.Builder
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err == nil && !d.IsDir() {
			data, _ := os.ReadFile(p)
			fmt.Fprintf(&b, "%s=%s;", rel, data)
		} else if err == nil {
			fmt.Fprintf(&b, "%s/;", rel)
		}
		return nil
	})
	return b.String()
}

func TestVerif(t *testing.T) {
	h := newVH(t, "random pairs of paths built from component names that are prefixes of each other, parent references, dotted names and redundant separators, oracle: component-wise prefix of the resolved paths; stack file trimming likewise; temporary environments with the module cache inside, beside and below GOPATH; non-trivial: the two paths share a textual prefix")
	r := h.r
	cwd, _ := os.Getwd()
	names := []string{"a", "ab", "a b", "..", ".", "..a", "...", ".a", "a..", "", "b", "pkg", "mod", "go", "vendor", "A"}
	rp := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += "/" + names[r.Intn(len(names))]
		}
		if r.Intn(8) == 0 {
			s = strings.TrimLeft(s, "/")
		} else if s == "" {
			s = "/"
		}
		if r.Intn(4) == 0 {
			s += "/"
		}
		return s
	}
	for it := 0; h.more(it, 60000); it++ {
		d := rp(r.Intn(5))
		var f string
		switch r.Intn(4) {
		case 0:
			f = rp(r.Intn(6))
		case 1:
			f = d + names[r.Intn(len(names))]
		default:
			f = d + rp(1+r.Intn(3))
		}
		if d == "" || f == "" {
			continue
		}
		in := fmt.Sprintf("file %q dir %q", f, d)
		want := c13Inside(c13Comps(cwd, f), c13Comps(cwd, d))
		var got bool
		var err error
		h.noPanic("within-panic", in, func() { got, err = fileWithinDir(f, d) })
		h.check("within", err == nil && got == want, in, fmt.Sprint(want), fmt.Sprint(got, err))
		h.ev(in, strings.HasPrefix(f, d))
	}
	// stack file trimming: clean absolute files, directories as a user may give them
	segs := []string{"a", "ab", "..a", "src", "pkg/mod", "m@v1.0.0", "b.go", "a b", "vendor", "pkg", "mod"}
	cp := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += "/" + segs[r.Intn(len(segs))]
		}
		return s
	}
	messy := func(d string) string {
		switch r.Intn(5) {
		case 0:
			return d + "/"
		case 1:
			return "/" + d
		case 2:
			return d + "/x/.."
		case 3:
			return d + "/./"
		}
		return d
	}
	for it := 0; h.more(it, 60000); it++ {
		proj, root := cp(1+r.Intn(3)), cp(1+r.Intn(3))
		var file string
		switch r.Intn(5) {
		case 0:
			file = proj + cp(1+r.Intn(3))
		case 1:
			file = root + cp(1+r.Intn(3))
		case 2:
			file = proj + "x" + cp(1)
		case 3:
			file = root + "x" + cp(1)
		default:
			file = cp(1 + r.Intn(4))
		}
		if r.Intn(10) == 0 { // built with -trimpath
			file = strings.TrimPrefix(file, "/")
		}
		if r.Intn(6) == 0 {
			root = ""
		}
		mp, mr := messy(proj), root
		if root != "" {
			mr = messy(root)
		}
		in := fmt.Sprintf("project %q goroot %q file %q", mp, mr, file)
		fc := c13Comps(cwd, file)
		pc, gc := c13Comps(cwd, proj), c13Comps(cwd, root)
		var want string
		if strings.HasPrefix(file, "/") && c13Inside(fc, pc) {
			want = "./" + strings.Join(fc[len(pc):], "/")
			if len(fc) == len(pc) {
				want = "./."
			}
		} else {
			want = file
			if root != "" && strings.HasPrefix(file, "/") && c13Inside(fc, gc) {
				want = "/" + strings.Join(fc[len(gc):], "/")
				if len(fc) == len(gc) {
					continue
				}
			}
			if i := strings.Index(want, "/pkg/mod/"); i >= 0 {
				want = want[i+len("/pkg/mod/"):]
			}
		}
		var got string
		h.noPanic("trim-panic", in, func() { got = trimStackFile(mp, mr, file) })
		h.check("trim", got == want, in, want, got)
		inProject := len(ProjectFrames([]StackFrame{{File: got}})) == 1
		wantProj := strings.HasPrefix(want, "./") && !strings.HasPrefix(want, "./vendor/")
		h.check("project-frame", inProject == wantProj, in, fmt.Sprint(wantProj), fmt.Sprint(inProject))
		h.ev(in, want != file)
	}
	// the temporary environment
	for _, lay := range [][2]string{{"gopath", "gopath/pkg/mod"}, {"gopath", "gopath/cache"}, {"gopath", "gopath/..mod"}, {"gopath", "gopath2"},
		{"gopath", "gopath2/pkg/mod"}, {"gopath", "mods"}, {"gopath", "gopath"}, {"g/../gopath", "gopath/pkg/mod"}, {"gopath/", "gopath//pkg/mod/x"}, {"go path", "go path/pkg/mod"}, {"a/gopath", "a"}} {
		base := t.TempDir()
		tmp := filepath.Join(base, "tmp")
		t.Setenv("TMPDIR", tmp)
		w := func(p, s string) {
			p = filepath.Join(base, p)
			_ = os.MkdirAll(filepath.Dir(p), 0o755)
			_ = os.WriteFile(p, []byte(s), 0o644)
		}
		_ = os.MkdirAll(tmp, 0o755)
		w("proj/go.mod", "module x.com/p\n\ngo 1.20\n\nrequire x.com/dep v1.0.0\n")
		w("proj/sub/..odd/f.go", "package odd\n")
		gp, mc := base+"/"+lay[0], base+"/"+lay[1]
		w(filepath.Clean(lay[0])+"/bin/tool", "tool")
		_ = os.MkdirAll(base+"/g", 0o755)
		w(filepath.Clean(lay[1])+"/x.com/dep@v1.0.0/go.mod", "module x.com/dep\n")
		orig := map[string]string{"proj": c13Tree(base + "/proj"), "gp": c13Tree(gp), "mc": c13Tree(mc)}
		in := fmt.Sprintf("GOPATH %s GOMODCACHE %s", lay[0], lay[1])
		called := false
		cfg := &Config{ProjectDir: base + "/proj", ModuleVersionFlag: "x.com/dep@v1.1.0", AstMonitorPort: 4000, MaxFieldRecurse: 1, MaxFieldLen: 1, CacheMB: 1,
			TimeMultiplier: 1, MutationScope: "none", MutationMode: "full", MutationTests: "full", TmpCopy: true, Gopath: gp, Gomodcache: mc}
		err := NewAnalysisEngineWithProviders(cfg, &c13Provider{func(c Config) {
			called = true
			for _, p := range []string{c.AbsProjDir, c.Gopath, c.Gomodcache} {
				h.check("temp-inside", c13Inside(c13Comps(cwd, p), c13Comps(cwd, tmp)), in, "inside the temporary directory", p)
			}
			h.check("temp-project", c13Tree(c.AbsProjDir) == orig["proj"], in, orig["proj"], c13Tree(c.AbsProjDir))
			h.check("temp-gopath", c13Tree(c.Gopath) == orig["gp"], in, orig["gp"], c13Tree(c.Gopath))
			h.check("temp-modcache", c13Tree(c.Gomodcache) == orig["mc"], in, orig["mc"], c13Tree(c.Gomodcache))
			// what the analysis writes stays in the copy
			for _, p := range []string{c.AbsProjDir, c.Gopath, c.Gomodcache} {
				if c13Inside(c13Comps(cwd, p), c13Comps(cwd, tmp)) {
					_ = os.WriteFile(filepath.Join(p, "written"), []byte("x"), 0o444)
				}
			}
		}}, nil, nil, nil, nil, nil, nil, nil).Run()
		h.check("temp-run", called && err != nil, in, "provider called", fmt.Sprint(called, err))
		h.check("temp-original", c13Tree(base+"/proj") == orig["proj"] && c13Tree(gp) == orig["gp"] && c13Tree(mc) == orig["mc"], in, "originals unchanged", "changed")
		left, _ := os.ReadDir(tmp)
		h.check("temp-removed", len(left) == 0, in, "temporary directory removed", fmt.Sprint(len(left), " left"))
		h.ev(in, true)
	}
	for _, miss := range []string{"gopath", "mods"} {
		base := t.TempDir()
		tmp := filepath.Join(base, "tmp")
		t.Setenv("TMPDIR", tmp)
		for _, d := range []string{"tmp", "proj", "gopath", "mods"} {
			if d != miss {
				_ = os.MkdirAll(filepath.Join(base, d), 0o755)
			}
		}
		for i := 0; i < 40; i++ {
			_ = os.WriteFile(filepath.Join(base, "proj", fmt.Sprint("f", i)), make([]byte, 1<<12), 0o644)
		}
		cfg := &Config{ProjectDir: base + "/proj", ModuleVersionFlag: "x.com/dep@v1.1.0", AstMonitorPort: 4000, MaxFieldRecurse: 1, MaxFieldLen: 1, CacheMB: 1,
			TimeMultiplier: 1, MutationScope: "none", MutationMode: "full", MutationTests: "full", TmpCopy: true, Gopath: base + "/gopath", Gomodcache: base + "/mods"}
		err := NewAnalysisEngine(cfg).Run()
		left, _ := os.ReadDir(tmp)
		h.check("temp-error", err != nil && len(left) == 0, "missing "+miss, "an error and no temporary directory left", fmt.Sprint(err, len(left)))
		h.ev("missing "+miss, true)
	}
	h.done()
}
