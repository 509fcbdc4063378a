package lens

import (
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
)

// c11Tree: every entry below dir with its type, mode and bytes or link target.
func c11Tree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(dir, path)
		if err != nil {
			out[rel] = "error " + err.Error()
			return nil
		}
		info, err := os.Lstat(path)
		switch {
		case err != nil:
			out[rel] = "error " + err.Error()
		case info.Mode()&fs.ModeSymlink != 0:
			target, _ := os.Readlink(path)
			out[rel] = "link " + target
		case info.IsDir():
			out[rel] = "dir " + info.Mode().String()
		default:
			data, err := os.ReadFile(path)
			if err != nil {
				_ = os.Chmod(path, 0o600)
				data, _ = os.ReadFile(path)
				_ = os.Chmod(path, info.Mode())
			}
			out[rel] = "file " + info.Mode().String() + "\n" + string(data)
		}
		return nil
	})
	return out
}

func c11Diff(want, got map[string]string) string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, "missing "+k)
		} else if g != v {
			out = append(out, fmt.Sprintf("%s: %.150q, was %.150q", k, g, v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			out = append(out, "added "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func c11Source(r *rand.Rand, pkg string, i int) string {
	s := "package " + pkg + "\n\nimport \"errors\"\n\n"
	if r.Intn(3) == 0 {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	for k := 0; k < 2; k++ {
		s += fmt.Sprintf("// F%d%d is   badly formatted.\nfunc F%d%d(a int)(int , error){\n\tif a>%d {\n\t\treturn a,nil\n\t}\n\n\tb := a*2\n\treturn b,errors.New( \"x\" )\n}\n\n", i, k, i, k, r.Intn(9))
	}
	switch r.Intn(4) {
	case 0:
		s = strings.TrimRight(s, "\n") // no newline at the end
	case 1:
		s += "// trailing   \n\n\n"
	}
	return s
}

var c11Modes = []fs.FileMode{0o644, 0o644, 0o600, 0o755, 0o664, 0o640, 0o666, 0o700, 0o444}

// c11FakeGo puts a go command first on PATH: it appends to module files, or fails as told by files in ctl.
func c11FakeGo(t *testing.T, root string) (ctl string) {
	bin := filepath.Join(root, "bin")
	ctl = filepath.Join(root, "ctl")
	_ = os.MkdirAll(bin, 0o755)
	_ = os.MkdirAll(ctl, 0o755)
	script := `#!/bin/sh
ctl='` + ctl + `'
n=0
[ -f "$ctl/n" ] && read n <"$ctl/n"
n=$((n+1))
echo $n >"$ctl/n"
if [ "$1" = clean ]; then
	[ -f "$ctl/failclean" ] && exit 1
	exit 0
fi
if [ "$1" = get ] || [ "$1" = mod ]; then
	[ -f "$ctl/add" ] && for f in $(cat "$ctl/add"); do
		case "$f" in
			rewrite) x=$(cat go.mod); echo "$x // r $n" >go.mod;;
			*) echo "// $* $n" >>"$f";;
		esac
	done
fi
[ -f "$ctl/fail" ] && read k <"$ctl/fail" && [ "$n" -ge "$k" ] && exit 1
exit 0
`
	_ = os.WriteFile(filepath.Join(bin, "go"), []byte(script), 0o755)
	t.Setenv("PATH", bin+string(os.PathListSeparator)+os.Getenv("PATH"))
	return ctl
}

func TestVerif(t *testing.T) {
	log.SetOutput(io.Discard)
	h := newVH(t, "non-trivial: at least two operations on the modifier, or an update analysis with at least one module")
	defer h.done()
	root := t.TempDir()
	if mem, err := os.MkdirTemp("/dev/shm", "c11"); err == nil { // fsync is cheap there
		root = mem
		defer func() { _ = os.RemoveAll(mem) }()
	}
	ctl := c11FakeGo(t, root)
	for n := 0; h.more(n, 1500); n++ {
		if n%4 == 3 {
			c11Module(h, root, ctl, n)
		} else {
			c11Modifier(h, root, ctl, n)
		}
	}
}

func c11Modifier(h *vh, root, ctl string, n int) {
	r := h.r
	dir := filepath.Join(root, fmt.Sprint("m", n))
	_ = os.MkdirAll(dir, 0o755)
	defer func() { _ = os.RemoveAll(dir) }()
	var ops []string
	note := func(f string, a ...any) { ops = append(ops, fmt.Sprintf(f, a...)) }
	type file struct {
		path, pkg string
		i         int
	}
	var files []file
	var pkgs []string
	for p := 0; p <= r.Intn(3); p++ {
		name := fmt.Sprint("p", p)
		if r.Intn(8) == 0 {
			name += "[x]"
		}
		pd := filepath.Join(dir, name)
		_ = os.MkdirAll(pd, 0o755)
		pkgs = append(pkgs, pd)
		for i := 0; i <= r.Intn(3); i++ {
			src := c11Source(r, fmt.Sprint("p", p), i)
			path := filepath.Join(pd, fmt.Sprintf("f%d.go", i))
			mode := c11Modes[r.Intn(len(c11Modes))]
			write := path
			switch r.Intn(10) {
			case 0: // a link to a file elsewhere
				write = filepath.Join(dir, fmt.Sprintf("real%d_%d.txt", p, i))
				_ = os.Symlink(write, path)
				note("%s/f%d.go -> %s", name, i, write)
			case 1: // a relative link to a link
				write = filepath.Join(pd, fmt.Sprintf("real%d.src", i))
				_ = os.Symlink(fmt.Sprintf("real%d.src", i), filepath.Join(pd, fmt.Sprintf("mid%d", i)))
				_ = os.Symlink(fmt.Sprintf("mid%d", i), path)
				note("%s/f%d.go -> mid -> real", name, i)
			}
			_ = os.WriteFile(write, []byte(src), 0o644)
			_ = os.Chmod(write, mode)
			note("%s/f%d.go mode %v", name, i, mode)
			for k := 0; k < 2; k++ { // left by an interrupted run
				if r.Intn(6) == 0 {
					bkp := write + ".bkp"
					if k > 0 {
						bkp += fmt.Sprint(k)
					}
					_ = os.WriteFile(bkp, []byte("package stale\n"), 0o644)
					note("%s exists", bkp)
				}
			}
			files = append(files, file{path, fmt.Sprint("p", p), i})
		}
	}
	before := c11Tree(dir)
	mods := []*ASTModifier{{}}
	m := mods[0]
	silent := false
	blocked := map[string]fs.FileMode{}
	unblock := func() {
		for p, mode := range blocked {
			_ = os.Chmod(p, mode)
			delete(blocked, p)
		}
	}
	steps := 1 + r.Intn(8)
	opErr := func(err error) {
		if err != nil {
			note("error %.120v", err)
		}
	}
	panicked := h.catch(func() {
		for s := 0; s < steps; s++ {
			f := files[r.Intn(len(files))]
			rel, _ := filepath.Rel(dir, f.path)
			fn := &Function{FilePath: f.path, PackageName: f.pkg, FunctionIdent: fmt.Sprintf("%s:F%d%d", f.pkg, f.i, r.Intn(2))}
			fn.FunctionName = fn.FunctionIdent[strings.Index(fn.FunctionIdent, ":")+1:]
			switch r.Intn(11) {
			case 0, 1, 2:
				note("points %s", rel)
				_, err := m.InjectFuncPointReturnStates(fn)
				opErr(err)
			case 3:
				note("panic %s", rel)
				_, err := m.InjectFuncPointFinish(fn)
				opErr(err)
			case 4:
				note("commitfile %s", rel)
				opErr(m.CommitFile(f.path))
			case 5:
				note("commit")
				opErr(m.Commit())
			case 6, 7:
				note("lines %s", rel)
				opErr(m.InsertFuncLines(fn, func(i int, line string) (string, bool) { return "_ = 0", r.Intn(4) > 0 }))
			case 8:
				pd := pkgs[r.Intn(len(pkgs))]
				note("client %s", filepath.Base(pd))
				opErr(m.InjectASTClient(pd, 1234, 3, 100))
			case 10: // as the analysis does it: several files and packages at a time
				note("lines of every file and client of every package at once")
				var wg sync.WaitGroup
				for _, f := range files {
					fn := &Function{FilePath: f.path, PackageName: f.pkg, FunctionIdent: fmt.Sprintf("%s:F%d0", f.pkg, f.i), FunctionName: fmt.Sprintf("F%d0", f.i)}
					wg.Add(1)
					go func(m *ASTModifier) {
						defer wg.Done()
						_ = m.InsertFuncLines(fn, func(i int, line string) (string, bool) { return "_ = 1", true })
					}(m)
				}
				for _, pd := range pkgs {
					wg.Add(1)
					go func(m *ASTModifier) {
						defer wg.Done()
						_ = m.InjectASTClient(pd, 1234, 3, 100)
					}(m)
				}
				wg.Wait()
			case 9:
				if len(mods) < 3 && r.Intn(2) == 0 {
					note("another modifier")
					m = &ASTModifier{}
					mods = append(mods, m)
				} else if r.Intn(2) == 0 && os.Getuid() != 0 {
					// writing fails for a while
					p := filepath.Dir(f.path)
					if target, err := filepath.EvalSymlinks(p); err == nil {
						info, _ := os.Stat(target)
						if _, ok := blocked[target]; !ok {
							note("read-only %s", target)
							blocked[target] = info.Mode()
							_ = os.Chmod(target, info.Mode()&^0o222)
						}
					}
				} else {
					note("writable again")
					unblock()
				}
			}
			// at every point, the original of every source is on disk
			c11Originals(h, dir, before, ops, blocked)
		}
		_ = os.Remove(filepath.Join(ctl, "failclean"))
		failClean := r.Intn(10) == 0
		if failClean {
			_ = os.WriteFile(filepath.Join(ctl, "failclean"), nil, 0o644)
		}
		keepBlocked := r.Intn(4) == 0
		if !keepBlocked {
			unblock()
		}
		silent = true
		for i := len(mods) - 1; i >= 0; i-- {
			prior := c11Tree(dir)
			errs := mods[i].Restore([]string{"A=b"})
			note("restore %d: %v", i, errs)
			if failClean && len(errs) == 0 && c11Diff(prior, c11Tree(dir)) != "" {
				h.fail("c11.failreport", strings.Join(ops, "\n"), "the failing cache clean is reported", "no error")
			}
			if !failClean && len(blocked) == 0 && len(errs) > 0 {
				h.fail("c11.restoreerror", strings.Join(ops, "\n"), "no error", fmt.Sprint(errs))
			}
			silent = silent && len(errs) == 0
		}
		_ = os.Remove(filepath.Join(ctl, "failclean"))
	})
	wasBlocked := len(blocked) > 0
	unblock()
	desc := strings.Join(ops, "\n")
	h.ev(desc, steps > 1)
	if !h.check("c11.panic", panicked == "", desc, "no panic", panicked) {
		return
	}
	if d := c11Diff(before, c11Tree(dir)); d != "" && (!wasBlocked || silent) {
		h.fail("c11.restore", desc, "the tree as it was before", d)
	}
}

// c11Originals: a source which is not as it was has its bytes in another file of its directory.
func c11Originals(h *vh, dir string, before map[string]string, ops []string, blocked map[string]fs.FileMode) {
	now := c11Tree(dir)
	for k, v := range before {
		if !strings.HasPrefix(v, "file ") || now[k] == v {
			continue
		}
		_, want, _ := strings.Cut(v, "\n")
		found := false
		for k2, v2 := range now {
			_, got, _ := strings.Cut(v2, "\n")
			if strings.HasPrefix(v2, "file ") && filepath.Dir(k2) == filepath.Dir(k) && got == want {
				found = true
			}
		}
		if !found {
			h.fail("c11.original", strings.Join(ops, "\n"), "the original of "+k+" is kept until it is restored", "it is gone")
		}
	}
}

func c11Module(h *vh, root, ctl string, n int) {
	r := h.r
	dir := filepath.Join(root, fmt.Sprint("u", n))
	_ = os.MkdirAll(dir, 0o755)
	defer func() { _ = os.RemoveAll(dir) }()
	var ops []string
	note := func(f string, a ...any) { ops = append(ops, fmt.Sprintf(f, a...)) }
	mods := 1 + r.Intn(3)
	work := mods > 1 || r.Intn(3) == 0
	uses := ""
	put := func(path, data string) {
		write := path
		rel, _ := filepath.Rel(dir, path)
		if r.Intn(8) == 0 {
			write = path + ".real"
			_ = os.Symlink(filepath.Base(write), path)
			note("%s is a link", rel)
		}
		mode := c11Modes[r.Intn(len(c11Modes))]
		_ = os.WriteFile(write, []byte(data), 0o644)
		_ = os.Chmod(write, mode)
		note("%s mode %v", rel, mode)
		if r.Intn(6) == 0 {
			note("%s.bkp left", rel)
			_ = os.WriteFile(path+".bkp", []byte("stale\n"), 0o644)
		} else if r.Intn(12) == 0 {
			note("%s.bkp is a directory", rel)
			_ = os.MkdirAll(path+".bkp/x", 0o755)
		}
	}
	unreadable := false
	for i := 0; i < mods; i++ {
		md := dir
		if i > 0 {
			md = filepath.Join(dir, fmt.Sprint("sub", i))
			_ = os.MkdirAll(md, 0o755)
		}
		uses += fmt.Sprintf("use ./%s\n", strings.TrimPrefix(strings.TrimPrefix(md, dir), "/"))
		put(filepath.Join(md, "go.mod"), fmt.Sprintf("module ex.com/m%d\n\ngo 1.20\n", i))
		if r.Intn(3) > 0 {
			put(filepath.Join(md, "go.sum"), "ex.com/x v1.0.0 h1:abc=\n")
			if r.Intn(8) == 0 && os.Getuid() != 0 {
				note("sub%d/go.sum is not readable", i)
				if p, err := filepath.EvalSymlinks(filepath.Join(md, "go.sum")); err == nil {
					_ = os.Chmod(p, 0o200)
				}
				unreadable = true
			}
		}
	}
	if work {
		put(filepath.Join(dir, "go.work"), "go 1.20\n\n"+uses)
		if r.Intn(2) == 0 {
			put(filepath.Join(dir, "go.work.sum"), "ex.com/y v1.0.0 h1:def=\n")
		}
	}
	adds := []string{}
	for _, a := range []string{"go.mod", "go.sum", "rewrite"} {
		if r.Intn(3) > 0 {
			adds = append(adds, a)
		}
	}
	if work && r.Intn(2) == 0 {
		adds = append(adds, filepath.Join(dir, "go.work.sum"), filepath.Join(dir, "go.work"))
	}
	_ = os.Remove(filepath.Join(ctl, "n"))
	_ = os.Remove(filepath.Join(ctl, "fail"))
	_ = os.WriteFile(filepath.Join(ctl, "add"), []byte(strings.Join(adds, "\n")+"\n"), 0o644)
	note("go changes %v", adds)
	failAt := 0
	if r.Intn(2) == 0 {
		failAt = 2 + r.Intn(6)
		_ = os.WriteFile(filepath.Join(ctl, "fail"), []byte(fmt.Sprintln(failAt)), 0o644)
		note("go fails from call %d on", failAt)
	}
	defer func() {
		_ = os.Remove(filepath.Join(ctl, "fail"))
		_ = os.Remove(filepath.Join(ctl, "add"))
	}()
	before := c11Tree(dir)
	var changed []*ModuleChange
	for i := r.Intn(3); i >= 0; i-- {
		changed = append(changed, &ModuleChange{Name: fmt.Sprint("ex.com/dep", i), PriorVersion: "v1.0.0", NewVersion: "v1.1.0"})
	}
	var err error
	msg := h.catch(func() {
		_, _, _, _, _, err = RunModuleUpdateAnalysis("", "", dir, 45000, NewMemStorage(), 3, 100, changed, ReachableModuleChange{}, nil, nil, nil, nil)
	})
	note("result %.200v", err)
	desc := strings.Join(ops, "\n")
	h.ev(desc, true)
	if !h.check("c11.panic", msg == "", desc, "no panic", msg) {
		return
	}
	if failAt == 0 && !unreadable {
		h.check("c11.update", err == nil, desc, "no error", fmt.Sprint(err))
	}
	if d := c11Diff(before, c11Tree(dir)); d != "" {
		h.fail("c11.module", desc, "the module files as they were before", d)
	}
}
