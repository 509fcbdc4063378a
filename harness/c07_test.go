package lens

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"golang.org/x/mod/semver"
)

type c07Req struct {
	path, ver string
	indirect  bool
}

type c07Mod struct {
	name  string
	goVer string
	reqs  []c07Req
}

var c07Names = []string{"example.com/a", "example.com/a/b", "example.com/ab", "example.com/A", "github.com/x/y", "github.com/x/y/v2", "gopkg.in/yaml.v3", "golang.org/x/mod", "example.com/a-b", "example.com/z"}
var c07Vers = []string{"v0.1.0", "v0.2.0", "v0.10.0", "v0.9.1", "v1.0.0", "v1.0.0-rc1", "v1.0.0-rc.10", "v1.2.3", "v1.10.0", "v0.0.0-20240101000000-abcdefabcdef"}

func c07Ver(r *rand.Rand, path string) string {
	switch {
	case strings.HasSuffix(path, "/v2"):
		return []string{"v2.0.0", "v2.0.1", "v2.10.0", "v2.1.0-beta"}[r.Intn(4)]
	case strings.HasSuffix(path, ".v3"):
		return []string{"v3.0.0", "v3.0.1", "v3.10.0"}[r.Intn(3)]
	}
	return c07Vers[r.Intn(len(c07Vers))]
}

func c07GenMod(r *rand.Rand, name string) c07Mod {
	m := c07Mod{name: name, goVer: []string{"", "1.18", "1.20", "1.21", "1.9", "1.21.3", "1.21rc1", "1.22rc2", "1.22.0"}[r.Intn(9)]}
	for _, i := range r.Perm(len(c07Names))[:r.Intn(len(c07Names))] {
		p := c07Names[i]
		m.reqs = append(m.reqs, c07Req{p, c07Ver(r, p), r.Intn(3) == 0})
	}
	return m
}

func (m c07Mod) text(r *rand.Rand) string {
	var b strings.Builder
	fmt.Fprintf(&b, "module %s\n\n", m.name)
	if m.goVer != "" {
		fmt.Fprintf(&b, "go %s\n\n", m.goVer)
	}
	i := 0
	line := func(q c07Req) string {
		s := q.path + " " + q.ver
		if q.indirect {
			s += " // indirect"
		} else if r.Intn(6) == 0 {
			s += " // note"
		}
		return s
	}
	for i < len(m.reqs) {
		if r.Intn(2) == 0 {
			fmt.Fprintf(&b, "require %s\n", line(m.reqs[i]))
			i++
			continue
		}
		b.WriteString("require (\n")
		for n := r.Intn(4); n >= 0 && i < len(m.reqs); n-- {
			if r.Intn(5) == 0 {
				b.WriteString("\t// a comment\n")
			}
			fmt.Fprintf(&b, "\t%s\n", line(m.reqs[i]))
			i++
		}
		b.WriteString(")\n")
	}
	if r.Intn(4) == 0 {
		fmt.Fprintf(&b, "\nexclude example.com/a v0.3.0\n")
	}
	return b.String()
}

func c07Put(dir, name, text string) string {
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, name)
	_ = os.WriteFile(p, []byte(text), 0o644)
	return p
}

func c07Diff(a, b c07Mod) []string {
	var out []string
	old := map[string]string{}
	for _, q := range a.reqs {
		old[q.path] = q.ver
	}
	for _, q := range b.reqs {
		if v, ok := old[q.path]; ok && v != q.ver {
			out = append(out, fmt.Sprint(q.path, " ", v, " ", q.ver, " ", q.indirect))
		}
	}
	sort.Strings(out)
	return out
}

func c07Show(cs []*ModuleChange) []string {
	var out []string
	for _, c := range cs {
		if c == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, fmt.Sprint(c.Name, " ", c.PriorVersion, " ", c.NewVersion, " ", c.Indirect))
	}
	sort.Strings(out)
	return out
}

func TestVerif(t *testing.T) {
	h := newVH(t, "generated go.mod and go.work trees (several layouts, versions, name shapes), oracle: the generator's own requirement lists; non-trivial: at least one requirement differs")
	r := h.r
	root := t.TempDir()
	for it := 0; h.more(it, 3000); it++ {
		d := filepath.Join(root, fmt.Sprint(it))
		a, b := c07GenMod(r, "example.com/proj"), c07GenMod(r, "example.com/proj")
		if r.Intn(2) == 0 { // related files
			b.reqs = append([]c07Req{}, a.reqs...)
			for k := range b.reqs {
				if r.Intn(4) == 0 {
					b.reqs[k].ver = c07Ver(r, b.reqs[k].path)
				}
				if r.Intn(6) == 0 {
					b.reqs[k].indirect = !b.reqs[k].indirect
				}
			}
			r.Shuffle(len(b.reqs), func(i, j int) { b.reqs[i], b.reqs[j] = b.reqs[j], b.reqs[i] })
		}
		ta, tb := a.text(r), b.text(r)
		pa, pb := c07Put(filepath.Join(d, "old"), "go.mod", ta), c07Put(filepath.Join(d, "new"), "go.mod", tb)
		in := fmt.Sprintf("old:\n%s\nnew:\n%s", ta, tb)
		got, err := DiffModulesFromGoModFiles(pa, pb)
		want := c07Diff(a, b)
		h.check("gomod-diff", err == nil && fmt.Sprint(c07Show(got)) == fmt.Sprint(want), in, fmt.Sprint(want), fmt.Sprint(c07Show(got), err))
		for _, n := range append([]string{"example.com/none", "example.com", "example.com/proj", ""}, c07Names...) {
			var wv string
			var wi bool
			for _, q := range a.reqs {
				if q.path == n {
					wv, wi = q.ver, q.indirect
				}
			}
			gv, gi, err := FindModuleVersionInGoMod(pa, n)
			h.check("version-lookup", err == nil && gv == wv && gi == wi, fmt.Sprintf("module %q in\n%s", n, ta), fmt.Sprint(wv, wi), fmt.Sprint(gv, gi, err))
			gv, gi, err = FindModuleVersion(filepath.Join(d, "old"), n)
			h.check("version-lookup-project", err == nil && gv == wv && gi == wi, fmt.Sprintf("module %q in\n%s", n, ta), fmt.Sprint(wv, wi), fmt.Sprint(gv, gi, err))
		}
		if _, err := DiffModulesFromGoModFiles(pa, filepath.Join(d, "none")); err == nil {
			h.fail("missing-file", "missing new go.mod", "an error", "none")
		}
		h.ev(in, len(want) > 0)
		_ = os.RemoveAll(d)
	}
	layouts := [][]string{{"a", "b"}, {"a", "ab", "a/b"}, {"m/x", "m/y/z", "n"}, {"a"}, {"..x", "a"}}
	for it := 0; h.more(it, 1500); it++ {
		d := filepath.Join(root, fmt.Sprint("w", it))
		dirs := layouts[r.Intn(len(layouts))]
		rootMod := r.Intn(3) == 0
		abs := r.Intn(6) == 0
		type side struct {
			root  string
			use   map[string]bool
			files map[string]c07Mod
			work  string
		}
		var s [2]side
		var in strings.Builder
		glob := r.Intn(4)
		for k := 0; k < 2; k++ {
			s[k] = side{root: filepath.Join(d, []string{"old", "new"}[k]), use: map[string]bool{}, files: map[string]c07Mod{}}
			all := append([]string{}, dirs...)
			if rootMod {
				all = append(all, ".")
			}
			for _, x := range all {
				if r.Intn(8) == 0 {
					continue // directory without module file
				}
				m := c07GenMod(r, "example.com/w/"+strings.ReplaceAll(strings.Trim(x, "."), "/", "-")+"m")
				if k == 1 {
					if o, ok := s[0].files[x]; ok && r.Intn(3) > 0 {
						m.reqs = append([]c07Req{}, o.reqs...)
						for i := range m.reqs {
							if r.Intn(4) == 0 {
								m.reqs[i].ver = c07Ver(r, m.reqs[i].path)
							}
						}
					}
				}
				s[k].files[x] = m
				tx := m.text(r)
				c07Put(filepath.Join(s[k].root, x), "go.mod", tx)
				fmt.Fprintf(&in, "[%d] %s/go.mod\n%s\n", k, x, tx)
			}
			w := "go 1.21\n\n"
			var uses []string
			switch {
			case glob == 0 && k == 0 || glob == 0: // recursive
				uses = append(uses, "./...")
				for x := range s[k].files {
					s[k].use[x] = true
				}
			case glob == 1: // wildcard: first level
				uses = append(uses, "./?*")
				for _, x := range dirs {
					if !strings.Contains(x, "/") && s[k].files[x].name != "" {
						s[k].use[x] = true
					}
				}
			default:
				for _, x := range all {
					if r.Intn(6) == 0 {
						continue
					}
					s[k].use[x] = true
					u := "./" + x
					if abs && k == 0 {
						u = filepath.Join(s[k].root, x)
					} else if r.Intn(4) == 0 && x != "." {
						u = x
						if strings.HasPrefix(x, "..") || !strings.Contains(x, "/") {
							u = "./" + x + "/"
						}
					}
					uses = append(uses, u)
				}
			}
			for _, u := range uses {
				w += "use " + u + "\n"
			}
			s[k].work = c07Put(s[k].root, "go.work", w)
			fmt.Fprintf(&in, "[%d] go.work\n%s\n", k, w)
		}
		// member module files of the old side
		var wantMods []string
		for x := range s[0].files {
			if s[0].use[x] || x == "." {
				wantMods = append(wantMods, filepath.Join(s[0].root, x, "go.mod"))
			}
		}
		sort.Strings(wantMods)
		mods, err := ProjectGoModFiles(s[0].root)
		h.check("members", err == nil && fmt.Sprint(mods) == fmt.Sprint(wantMods), in.String(), fmt.Sprint(wantMods), fmt.Sprint(mods, err))
		pats, err := ProjectPackagePatterns(s[0].root)
		var wantPats, gotPats []string
		for _, m := range wantMods {
			wantPats = append(wantPats, filepath.Dir(m)+"/...")
		}
		for _, p := range pats { // a relative pattern has to start with a dot to be a directory pattern
			if !filepath.IsAbs(p) && strings.HasPrefix(p, "./") {
				p = filepath.Join(s[0].root, p)
			}
			gotPats = append(gotPats, p)
		}
		h.check("patterns", err == nil && fmt.Sprint(gotPats) == fmt.Sprint(wantPats), in.String(), fmt.Sprint(wantPats), fmt.Sprint(pats, err))
		// dependency collection: every requirement, the smallest or largest version
		for _, newest := range []bool{false, true} {
			want := map[string]string{}
			for x, m := range s[0].files {
				if !s[0].use[x] && x != "." {
					continue
				}
				for _, q := range m.reqs {
					if v, ok := want[q.path]; !ok || newest && semver.Compare(q.ver, v) > 0 || !newest && semver.Compare(q.ver, v) < 0 {
						want[q.path] = q.ver
					}
				}
			}
			deps, _, err := parseProjectDeps(s[0].root, newest)
			if len(wantMods) == 0 {
				h.check("no-modules", err != nil, in.String(), "an error", fmt.Sprint(deps))
			} else {
				h.check("deps", err == nil && fmt.Sprint(deps) == fmt.Sprint(want), fmt.Sprint("newest ", newest, "\n", in.String()), fmt.Sprint(want), fmt.Sprint(deps, err))
			}
		}
		// lookup over the members in path order
		for _, n := range c07Names {
			var found bool
			vers := map[string]bool{}
			for x, m := range s[0].files {
				if s[0].use[x] || x == "." {
					for _, q := range m.reqs {
						if q.path == n {
							found = true
							vers[fmt.Sprint(q.ver, q.indirect)] = true
						}
					}
				}
			}
			if len(wantMods) == 0 {
				continue
			}
			v, ind, err := FindModuleVersion(s[0].root, n)
			h.check("version-lookup-work", err == nil && (v != "") == found && (!found || vers[fmt.Sprint(v, ind)]), n+"\n"+in.String(), fmt.Sprint(found, vers), fmt.Sprint(v, ind, err))
		}
		// workspace comparison: members named on either side with a module file on both
		if !abs {
			want := map[string]bool{}
			for x := range s[0].files {
				if _, ok := s[1].files[x]; ok && (s[0].use[x] || s[1].use[x]) {
					for _, c := range c07Diff(s[0].files[x], s[1].files[x]) {
						want[c] = true
					}
				}
			}
			got, err := DiffModulesFromGoWorkFiles(s[0].root, s[1].work)
			gs := map[string]bool{}
			for _, c := range c07Show(got) {
				gs[c] = true
			}
			h.check("gowork-diff", err == nil && fmt.Sprint(gs) == fmt.Sprint(want), in.String(), fmt.Sprint(want), fmt.Sprint(gs, err))
			h.ev(in.String(), len(want) > 0)
		}
		_ = os.RemoveAll(d)
	}
	h.done()
}
