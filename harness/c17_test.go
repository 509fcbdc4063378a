package lens

import (
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"testing"
)

// c17Effective: what a process started with env sees (the last entry of a name counts, entries without "=" are ignored).
func c17Effective(env []string) map[string]string {
	m := map[string]string{}
	for _, e := range env {
		if i := strings.Index(e, "="); i > 0 {
			m[e[:i]] = e[i+1:]
		}
	}
	return m
}

func c17Show(m map[string]string) string {
	var o []string
	for k, v := range m {
		o = append(o, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func TestVerif(t *testing.T) {
	h := newVH(t, "random inherited environments and passed variables (shared names, name prefixes of each other, empty values, values with '=', LD_* names), oracle: map of the effective values; non-trivial: some variable is both inherited and passed")
	r := h.r
	saved := os.Environ()
	defer func() {
		os.Clearenv()
		for _, kv := range saved {
			if i := strings.Index(kv, "="); i > 0 {
				_ = os.Setenv(kv[:i], kv[i+1:])
			}
		}
	}()
	names := []string{"A", "AB", "ABC", "a", "GOPATH", "GOMODCACHE", "GOFLAGS", "LD_PRELOAD", "LD_LIBRARY_PATH", "LD_", "LD", "LDFLAGS", "XLD_A", "ld_x", "PATH", "HOME", "Ä", "A B", "A.B", "_", "GOPATH2", "BLD_X", "LD_=", "DYLD_A"}
	vals := []string{"", "x", "=", "a=b", "LD_PRELOAD=x", "A", " ", "/usr/bin:/bin", "x\ny", "=x=", strings.Repeat("v", 300), "$A", "ü"}
	name := func() string { return strings.TrimSuffix(names[r.Intn(len(names))], "=") }
	for it := 0; h.more(it, 20000); it++ {
		os.Clearenv()
		inh := map[string]string{}
		for i := r.Intn(8); i > 0; i-- {
			k, v := name(), vals[r.Intn(len(vals))]
			if os.Setenv(k, v) == nil {
				inh[k] = v
			}
		}
		var env []string
		want := map[string]string{}
		for k, v := range inh {
			if !strings.HasPrefix(k, "LD_") {
				want[k] = v
			}
		}
		shared := false
		for i := r.Intn(6); i > 0; i-- {
			k, v := name(), vals[r.Intn(len(vals))]
			if strings.HasPrefix(k, "LD_") {
				continue // whether a passed LD_ variable is meant is not stated
			}
			env = append(env, k+"="+v)
			want[k] = v
			_, ok := inh[k]
			shared = shared || ok
		}
		in := fmt.Sprintf("inherited %s; passed %q", c17Show(inh), env)
		given := append([]string{}, env...)
		var got []string
		if !h.noPanic("panic", in, func() {
			if it%2 == 0 {
				got = mergeSafeEnv(env)
			} else {
				cmd := NewProjectExec("/", env, "true")
				got = cmd.Env
				h.check("command", cmd.Dir == "/" && len(cmd.Args) == 1 && cmd.Args[0] == "true", in, "directory and arguments as given", fmt.Sprint(cmd.Dir, cmd.Args))
			}
		}) {
			continue
		}
		h.check("effective", c17Show(c17Effective(got)) == c17Show(want), in, c17Show(want), c17Show(c17Effective(got)))
		for _, e := range got {
			if strings.HasPrefix(e, "LD_") {
				h.fail("ld", in, "no LD_ variable", e)
			}
		}
		h.check("input-kept", fmt.Sprint(given) == fmt.Sprint(env), in, "passed slice unchanged", fmt.Sprint(env))
		h.ev(in, shared)
	}
	// with spare capacity behind the passed slice
	os.Clearenv()
	_ = os.Setenv("KEEP", "1")
	base := make([]string, 1, 8)
	base[0] = "A=1"
	over := base[:2]
	over[1] = "B=sentinel"
	_ = mergeSafeEnv(base)
	h.check("aliasing", over[1] == "B=sentinel", "passed slice with spare capacity", "B=sentinel", over[1])
	// a real child process sees exactly these values
	for _, kv := range [][2]string{{"CHILD_A", "inherited"}, {"CHILD_B", "b=c"}, {"LD_X", "1"}} {
		_ = os.Setenv(kv[0], kv[1])
	}
	if p, err := exec.LookPath("/usr/bin/env"); err == nil {
		out, err := NewProjectExec(t.TempDir(), []string{"CHILD_A=passed", "CHILD_C="}, p).Output()
		m := c17Effective(strings.Split(string(out), "\n"))
		_, hasLD := m["LD_X"]
		_, hasC := m["CHILD_C"]
		h.check("child", err == nil && m["CHILD_A"] == "passed" && m["CHILD_B"] == "b=c" && hasC && !hasLD && m["KEEP"] == "1", "env child", "CHILD_A=passed CHILD_B=b=c CHILD_C= KEEP=1", fmt.Sprint(err, c17Show(m)))
	}
	for _, gp := range []string{"", "/g", "a=b", " "} {
		for _, mc := range []string{"", "/m", "GOPATH=/x", " "} {
			want := map[string]string{}
			if gp != "" {
				want["GOPATH"] = gp
			}
			if mc != "" {
				want["GOMODCACHE"] = mc
			}
			got := GoEnv(gp, mc)
			h.check("goenv", c17Show(c17Effective(got)) == c17Show(want) && len(got) == len(want), fmt.Sprintf("%q %q", gp, mc), c17Show(want), fmt.Sprintf("%q", got))
			h.ev(fmt.Sprintf("GoEnv %q %q", gp, mc), gp != "" && mc != "")
		}
	}
	h.done()
}
