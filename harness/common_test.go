package lens

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

// vh is the bounded stand-in / replay harness shared by every property: it runs the real code on concrete inputs
// (solver counterexamples first, then enumerated and seeded random ones) against an independent oracle.
type vh struct {
	t        *testing.T
	r        *rand.Rand
	seed     int
	thorough bool
	deadline time.Time
	cex      map[string]map[string]string
	out      struct {
		Evaluations int      `json:"evaluations"`
		Distinct    int      `json:"distinct"`
		Rule        string   `json:"rule"`
		Samples     []string `json:"samples"`
		Fails       []vfail  `json:"fails"`
		Done        bool     `json:"done"`
	}
	path string
	seen map[string]bool
	per  map[string]int
}

type vfail struct {
	Key   string `json:"key"`
	Input string `json:"input"`
	Want  string `json:"want"`
	Got   string `json:"got"`
}

func newVH(t *testing.T, rule string) *vh {
	h := &vh{t: t, seen: map[string]bool{}, per: map[string]int{}}
	h.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	h.r = rand.New(rand.NewSource(int64(h.seed)*7919 + 17))
	h.thorough = os.Getenv("VERIF_TIER") == "thorough"
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_S"))
	if b == 0 {
		b = 10
	}
	h.deadline = time.Now().Add(time.Duration(b) * time.Second)
	_ = json.Unmarshal([]byte(os.Getenv("VERIF_CEX")), &h.cex)
	h.out.Rule = rule
	h.path = os.Getenv("VERIF_OUT")
	return h
}

// more reports whether the budget allows another random case (n: how many this loop has run, max: its cap).
func (h *vh) more(n, max int) bool {
	if h.thorough {
		max *= 20
	}
	return n < max && (n%16 != 0 || time.Now().Before(h.deadline))
}

// ev counts one evaluation; desc identifies the case, trivial ones are not counted as distinct.
func (h *vh) ev(desc string, nontrivial bool) {
	h.out.Evaluations++
	if nontrivial && len(h.seen) < 1<<20 && !h.seen[desc] {
		h.seen[desc] = true
		h.out.Distinct++
		if len(h.out.Samples) < 12 || (h.out.Distinct%997 == 0 && len(h.out.Samples) < 24) {
			if len(desc) > 400 {
				desc = desc[:400] + "…"
			}
			h.out.Samples = append(h.out.Samples, desc)
		}
	}
}

// cur notes the case about to run, for cases that could crash or hang the process.
func (h *vh) cur(desc string) {
	if p := h.path; p != "" {
		_ = os.WriteFile(p+".cur", []byte(desc), 0o644)
	}
}

func (h *vh) fail(key, input, want, got string) {
	h.per[key]++
	if h.per[key] > 3 {
		return
	}
	cut := func(s string) string {
		if len(s) > 4000 {
			return s[:4000] + "…"
		}
		return s
	}
	h.out.Fails = append(h.out.Fails, vfail{key, cut(input), cut(want), cut(got)})
	h.save()
}

func (h *vh) check(key string, ok bool, input, want, got string) bool {
	if !ok {
		h.fail(key, input, want, got)
	}
	return ok
}

// noPanic runs f and reports a panic as a failure of key.
func (h *vh) noPanic(key, input string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			h.fail(key, input, "no panic", fmt.Sprint("panic: ", e))
			ok = false
		}
	}()
	f()
	return true
}

// catch runs f and returns the recovered panic text.
func (h *vh) catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

// within runs f and reports whether it returned in time (f keeps running otherwise).
func (h *vh) within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func (h *vh) save() {
	if p := h.path; p != "" {
		b, _ := json.Marshal(h.out)
		_ = os.WriteFile(p, b, 0o644)
	}
}

func (h *vh) done() {
	h.out.Done = true
	h.save()
	for _, f := range h.out.Fails {
		h.t.Errorf("%s: input %s want %s got %s", f.Key, f.Input, f.Want, f.Got)
	}
}
