package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

var workers = 8
var sem = make(chan struct{}, 8)

func (g *Gen) script(pos int) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, h := range g.header {
		b.WriteString(h)
		b.WriteByte('\n')
	}
	for _, h := range g.items[:pos] {
		b.WriteString(h)
		b.WriteByte('\n')
	}
	return b.String()
}

// proofDeadline ends a check's proof: obligations not discharged by then count as not discharged.
var proofDeadline time.Time

func runSolver(bin string, args []string, script string, to time.Duration) (string, int64) {
	sem <- struct{}{}
	defer func() { <-sem }()
	if !proofDeadline.IsZero() {
		left := time.Until(proofDeadline)
		if left <= 0 {
			return "unknown", 0
		}
		to = min(to, left)
	}
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	return out.String(), time.Since(t0).Milliseconds()
}

// solveBatch checks many obligations incrementally (used for invariant candidates).
func solveBatch(g *Gen, obls []*Obl, to time.Duration) {
	if len(obls) == 0 {
		return
	}
	n := workers
	if len(obls) < n {
		n = len(obls)
	}
	chunks := make([][]*Obl, n)
	for i, o := range obls {
		chunks[i*n/len(obls)] = append(chunks[i*n/len(obls)], o)
	}
	var wg sync.WaitGroup
	for _, ch := range chunks {
		wg.Add(1)
		go func(ch []*Obl) {
			defer wg.Done()
			var b strings.Builder
			b.WriteString(g.script(0))
			pos := 0
			for _, o := range ch {
				for ; pos < o.Pos; pos++ {
					b.WriteString(g.items[pos])
					b.WriteByte('\n')
				}
				fmt.Fprintf(&b, "(push 1)\n(assert %s)\n(assert (not %s))\n(check-sat)\n(pop 1)\n", o.Reach.S, o.Goal.S)
			}
			script := fmt.Sprintf("(set-option :timeout %d)\n", to.Milliseconds()) + b.String()
			out, ms := runSolver("z3", []string{"-in", "-smt2"}, script, to*time.Duration(len(ch))+5*time.Second)
			lines := strings.Split(out, "\n")
			k := 0
			for _, l := range lines {
				l = strings.TrimSpace(l)
				if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
					if k < len(ch) {
						ch[k].Res = l
						ch[k].Solver = "z3"
						k++
					}
				} else if strings.HasPrefix(l, "(error") {
					fmt.Fprintln(os.Stderr, "solver error:", l)
					if len(debug) > 1 {
						os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0o644)
					}
				}
			}
			if len(ch) > 0 {
				ch[0].Ms += ms
			}
		}(ch)
	}
	wg.Wait()
}

type solverCfg struct {
	name string
	bin  string
	args func(to time.Duration) []string
}

var solvers = []solverCfg{
	{"z3", "z3", func(to time.Duration) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-T:%d", int(to.Seconds()))}
	}},
	{"cvc5", "cvc5", func(to time.Duration) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "--full-saturate-quant"}
	}},
	{"z3-new", "z3-new", func(to time.Duration) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-T:%d", int(to.Seconds()))}
	}},
}

func solveEach(g *Gen, obls []*Obl, to time.Duration, ct *Contract) {
	var wg sync.WaitGroup
	for _, o := range obls {
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			if o.Goal.S == "true" && o.Kind != "cover" {
				o.Res, o.Solver = "unsat", "simplifier"
				return
			}
			script := g.script(o.Pos) + fmt.Sprintf("(assert %s)\n(assert (not %s))\n(check-sat)\n", o.Reach.S, o.Goal.S)
			if debug != "" && len(debug) > 1 {
				os.WriteFile(filepath.Join(debug, sanitize(o.Name)+".smt2"), []byte(script), 0o644)
			}
			tmo := to
			if o.Kind == "cover" {
				tmo = 3 * time.Second
			}
			if o.Kind == "cover" {
				o.Res, o.Solver = runOne(solvers[0], o, script, tmo)
				return
			}
			short := 2 * time.Second
			if short > tmo {
				short = tmo
			}
			done := func(res, nm string) bool {
				o.Res, o.Solver = res, nm
				if res == "sat" && ct != nil && len(ct.Cex) > 0 {
					o.Model = getModel(script, ct.Cex, tmo)
				}
				return res != "unknown"
			}
			if ct != nil && ct.First != "" {
				short = tmo
			}
			order := solvers
			if ct != nil && ct.First == "cvc5" {
				order = []solverCfg{solvers[1], solvers[0], solvers[2]}
			}
			if ct != nil && ct.First == "only" {
				order = order[:1]
			}
			for _, s := range order {
				if res, nm := runOne(s, o, script, short); done(res, nm) {
					return
				}
			}
			if tmo > short {
				for _, s := range order {
					if res, nm := runOne(s, o, script, tmo); done(res, nm) {
						return
					}
				}
			}
		}(o)
	}
	wg.Wait()
}

// cvc5Script names the constant arrays over non-values, which cvc5 does not accept, through a quantified axiom.
func cvc5Script(script string) string {
	const mark = "((as const "
	if !strings.Contains(script, mark) {
		return script
	}
	names := map[string]string{}
	var out strings.Builder
	for _, line := range strings.SplitAfter(script, "\n") {
		for from := 0; ; {
			i := strings.Index(line[from:], mark)
			if i < 0 {
				break
			}
			i += from
			depth, j := 0, i
			for ; j < len(line); j++ {
				if line[j] == '(' {
					depth++
				} else if line[j] == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			term := line[i : j+1]
			parts := splitSexp(term[1 : len(term)-1])
			if len(parts) != 2 {
				from = i + len(mark)
				continue
			}
			sort := strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(parts[0], "(as const "), ")"))
			val := parts[1]
			if isLit(val) || val == "true" || val == "false" || strings.Contains(val, mark) {
				from = i + len(mark)
				continue
			}
			n, ok := names[term]
			if !ok {
				is, _, ok2 := arrParts(sort)
				if !ok2 {
					from = i + len(mark)
					continue
				}
				n = fmt.Sprintf("konst!%d", len(names))
				names[term] = n
				fmt.Fprintf(&out, "(declare-fun %s () %s)\n(assert (forall ((i!k %s)) (! (= (select %s i!k) %s) :pattern ((select %s i!k)))))\n", n, sort, is, n, val, n)
			}
			line = line[:i] + n + line[j+1:]
			from = i
		}
		out.WriteString(line)
	}
	return out.String()
}

func runOne(s solverCfg, o *Obl, script string, to time.Duration) (string, string) {
	if s.name == "cvc5" {
		script = cvc5Script(script)
	}
	out, ms := runSolver(s.bin, s.args(to), script, to)
	o.Ms += ms
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			return l, s.name
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", s.name, o.Name, l)
			if len(debug) > 1 {
				os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0o644)
			}
			break
		}
	}
	return "unknown", s.name
}

func getModel(script string, names []string, to time.Duration) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		s := script + "(get-value (p_" + n + "))\n"
		out, _ := runSolver("z3", []string{"-in", "-smt2", "-T:10"}, s, 10*time.Second)
		if i := strings.Index(out, "((p_"+n+" "); i >= 0 {
			v := out[i+len("((p_"+n+" "):]
			if j := strings.Index(v, "))"); j >= 0 {
				m[n] = strings.TrimSpace(v[:j])
			}
		}
	}
	return m
}
