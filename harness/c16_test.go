package lens

import (
	"crypto/sha1"
	"fmt"
	"io"
	"log"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/mtraver/base91"
)

type c16Frame struct {
	fields map[string]any // string or map[string]any
	stack  []StackFrame
	ms     uint32
}

func c16Show(m map[string]any) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	b.WriteString("{")
	for _, k := range keys {
		switch v := m[k].(type) {
		case string:
			fmt.Fprintf(&b, "%q=%q;", k, v)
		case map[string]any:
			fmt.Fprintf(&b, "%q:%s;", k, c16Show(v))
		}
	}
	b.WriteString("}")
	return b.String()
}

func c16Conv(f FieldValues) map[string]any {
	out := map[string]any{}
	for k, v := range f {
		switch {
		case v == nil:
			out[k] = "<nil field>"
		case v.Children == nil:
			out[k] = v.Value
		default:
			m := c16Conv(v.Children)
			if v.Value != "" {
				m["<value>"] = v.Value
			}
			out[k] = m
		}
	}
	return out
}

func c16Fields(fs []LensMonitorField, parent string) map[string]any {
	out := map[string]any{}
	for _, f := range fs {
		if f.Type == "reflect.rtype" || f.Type == "reflect.flag" {
			continue
		}
		if parent == "reflect.Value" && (f.Name == "typ_" || f.Name == "flag" || f.Name == "ptr") {
			continue
		}
		if len(f.Children) > 0 {
			out[f.Name] = c16Fields(f.Children, f.Type)
			continue
		}
		s := fmt.Sprint(f.Value)
		if len(s) > 128 && !strings.HasSuffix(f.Type, "string") {
			sum := sha1.Sum([]byte(s))
			s = "vsha1-" + base91.StdEncoding.EncodeToString(sum[:])
		}
		out[f.Name] = s
	}
	return out
}

func c16FrameText(fields map[string]any, stack []StackFrame, ms uint32) string {
	return fmt.Sprintf("%dms %s %v", ms, c16Show(fields), stack)
}

// c16PKey: the project part of a call stack, lines ignored.
func c16PKey(stack []StackFrame) string {
	s := ""
	for _, f := range stack {
		if strings.HasPrefix(f.File, "./") && !strings.HasPrefix(f.File, "./vendor/") {
			s += f.File + "\x00" + f.Function + "\x01"
		}
	}
	return s
}

var c16Files = [][2]string{{"/proj/a.go", "./a.go"}, {"/proj/b.go", "./b.go"}, {"/proj/vendor/x/x.go", "./vendor/x/x.go"},
	{"/gp/pkg/mod/ext@v1/e.go", "ext@v1/e.go"}, {"/usr/src/fmt/print.go", "/usr/src/fmt/print.go"}}

func TestVerif(t *testing.T) {
	h := newVH(t, "random sequences of point, state and panic messages for known and unknown ids (several ids sharing a function), delivered in order or from several goroutines, with and without baseline results, then one test result; oracle: one list of expected records per function, built from the messages alone; non-trivial: at least two messages for one function")
	r := h.r
	log.SetOutput(io.Discard)
	tfn := &TestFunction{Function: Function{FunctionIdent: "p.TestX", FunctionName: "TestX"}}

	value := func() (any, string) {
		switch r.Intn(8) {
		case 0:
			return strings.Repeat("x", 126+r.Intn(5)), "string"
		case 1:
			return strings.Repeat("y", 126+r.Intn(5)), "[]uint8"
		case 2:
			return strings.Repeat("z", 126+r.Intn(5)), "my.string"
		case 3:
			return nil, "error"
		case 4:
			return int64(r.Intn(3)), "int"
		case 5:
			return []string{"a", "b", ""}[r.Intn(3)], "string"
		case 6:
			return uint64(r.Intn(3)), "reflect.flag"
		}
		return r.Intn(2) == 0, "bool"
	}
	var fields func(depth int) []LensMonitorField
	fields = func(depth int) []LensMonitorField {
		var out []LensMonitorField
		for k := r.Intn(4); k > 0; k-- {
			f := LensMonitorField{Name: []string{"a", "b", "flag", "ptr", "typ_", "ret0", "ptr2"}[r.Intn(7)]}
			if depth > 0 && r.Intn(3) == 0 {
				f.Type = []string{"reflect.Value", "main.T", "reflect.rtype", "[]string"}[r.Intn(4)]
				f.Children = fields(depth - 1)
			}
			if len(f.Children) == 0 {
				f.Value, f.Type = value()
			}
			out = append(out, f)
		}
		return out
	}
	mkStack := func() ([]lensMonitorStackFrame, []StackFrame) {
		n := r.Intn(4)
		in, out := make([]lensMonitorStackFrame, n), make([]StackFrame, n)
		for i := 0; i < n; i++ {
			f := c16Files[r.Intn(len(c16Files))]
			fn := []string{"p.F", "p.G"}[r.Intn(2)]
			ln := r.Intn(3)
			in[i] = lensMonitorStackFrame{File: f[0], Function: fn, Line: uint(ln)}
			out[i] = StackFrame{File: f[1], Function: fn, Line: uint32(ln)}
		}
		return in, out
	}

	hung := false
	for n := 0; h.more(n, 200000) && !hung; n++ {
		idents := make([]*string, 4)
		for i := range idents {
			s := []string{"p.A", "p.B", "p.C", "p.A"}[i] // two pointers to equal text: one function
			idents[i] = &s
		}
		maps := make([]map[uint32]*string, 5) // state, panic, entry, module panic, extension
		ids := make([][]uint32, 5)
		next := uint32(1)
		for m := range maps {
			maps[m] = map[uint32]*string{}
			for k := r.Intn(5); k > 0; k-- {
				maps[m][next] = idents[r.Intn(4)]
				ids[m] = append(ids[m], next)
				next++
			}
		}
		pick := func(m int) uint32 {
			switch {
			case r.Intn(8) == 0 || len(ids[m]) == 0: // unknown, or known for another purpose
				return []uint32{0, next, next + 7, 1<<32 - 1, uint32(r.Intn(int(next) + 1))}[r.Intn(5)]
			}
			return ids[m][r.Intn(len(ids[m]))]
		}
		concurrent := r.Intn(4) == 0
		var stable *monitorStableResults
		if r.Intn(3) == 0 && !concurrent {
			stable = &monitorStableResults{caller: map[string][]CallFrame{}, extension: map[string][]CallFrame{}}
			for k := r.Intn(6); k > 0; k-- {
				id := *idents[r.Intn(4)]
				fv := FieldValues{}
				for _, nme := range []string{"a", "b", "flag", "ptr", "ret0"} {
					if r.Intn(2) == 0 {
						fv[nme] = &FieldValue{Value: "0"}
					}
				}
				_, st := mkStack()
				stable.caller[id] = append(stable.caller[id], CallFrame{FieldValues: fv, Stack: st})
			}
		}
		mon := newTestMonitor(stable, "/gp", "/proj", maps[0], maps[1], maps[2], maps[3], maps[4])

		want := map[string][]string{} // "C:"/"E:"/"P:"/"M:" + function -> records in order
		occ := map[string]int{}
		entries := map[uint32]bool{}
		checks := 0
		var calls []func()
		var trace []string
		nmsg := r.Intn(12)
		if concurrent {
			nmsg = r.Intn(40)
		}
		for k := 0; k < nmsg; k++ {
			ns := int64(r.Intn(4))*500000 + int64(r.Intn(3)) - 1
			if ns < 0 {
				ns = 0
			}
			switch r.Intn(5) {
			case 0:
				id := pick(2)
				if _, ok := maps[2][id]; ok {
					entries[id] = true
				}
				trace = append(trace, fmt.Sprint("point ", id))
				msg := LensMonitorMessagePoint{PointID: id, TimeNS: ns}
				calls = append(calls, func() { mon.HandleFuncPoint(msg) })
			case 1:
				id := pick(1 + 2*r.Intn(2))
				text := []string{"boom", "", "oops"}[r.Intn(3)]
				if p, ok := maps[1][id]; ok {
					want["P:"+*p] = append(want["P:"+*p], text)
				} else if p, ok := maps[3][id]; ok {
					want["M:"+*p] = append(want["M:"+*p], text)
				}
				trace = append(trace, fmt.Sprintf("panic %d %q", id, text))
				msg := LensMonitorMessagePointPanic{PointID: id, TimeNS: ns, Message: text}
				calls = append(calls, func() { mon.HandleFuncPointPanic(msg) })
			default:
				id := pick(4 * r.Intn(2))
				in, st := mkStack()
				msg := LensMonitorMessagePointState{PointID: id, TimeNS: ns, Stack: in, Fields: fields(2)}
				fs := c16Fields(msg.Fields, "")
				ms := uint32(ns / 1_000_000)
				if ns%1_000_000 >= 500_000 {
					ms++
				}
				if p, ok := maps[4][id]; ok {
					want["E:"+*p] = append(want["E:"+*p], c16FrameText(fs, st, ms))
					checks++
				} else if p, ok := maps[0][id]; ok {
					checks++
					if stable != nil {
						key := *p + "\x02" + c16PKey(st)
						nth := occ[key]
						occ[key]++
						var allowed FieldValues
						for _, cf := range stable.caller[*p] {
							if c16PKey(cf.Stack) == c16PKey(st) {
								if nth == 0 {
									allowed = cf.FieldValues
									break
								}
								nth--
							}
						}
						for name := range fs {
							if _, ok := allowed[name]; !ok {
								delete(fs, name)
							}
						}
					}
					want["C:"+*p] = append(want["C:"+*p], c16FrameText(fs, st, ms))
				}
				trace = append(trace, fmt.Sprintf("state %d %dns %v %v", id, ns, in, msg.Fields))
				calls = append(calls, func() { mon.HandleFuncPointState(msg) })
			}
		}
		desc := fmt.Sprintf("concurrent=%v baseline=%v ids(state %v panic %v entry %v module panic %v extension %v): %s", concurrent, stable != nil, ids[0], ids[1], ids[2], ids[3], ids[4], strings.Join(trace, " | "))
		nontriv := false
		for _, l := range want {
			nontriv = nontriv || len(l) > 1
		}
		h.ev(desc, nontriv)
		if concurrent || n < 50 {
			h.cur(desc)
		}
		var res TestResult
		var reached []*string
		failFlag := r.Intn(2) == 0
		var pan string
		if !h.within(20*time.Second, func() {
			pan = h.catch(func() {
				if concurrent {
					var wg sync.WaitGroup
					for w := 0; w < 4; w++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for i := w; i < len(calls); i += 4 {
								calls[i]()
							}
						}()
					}
					wg.Wait()
				} else {
					for _, c := range calls {
						c()
					}
				}
				res = mon.makeTestResult(tfn, failFlag)
				reached = mon.getModuleChangesReached()
			})
		}) {
			h.fail("c16.completes", desc, "the test result is built once all messages are handled", "it was still waiting after 20 s")
			hung = true
			break
		}
		if pan != "" {
			h.fail("c16.completes", desc, "no panic", pan)
			continue
		}
		got := map[string][]string{}
		for k, l := range res.CallerResults {
			for _, f := range l {
				got["C:"+k] = append(got["C:"+k], c16FrameText(c16Conv(f.FieldValues), f.Stack, f.TimeMillis))
			}
		}
		for k, l := range res.ExtensionFrames {
			for _, f := range l {
				got["E:"+k] = append(got["E:"+k], c16FrameText(c16Conv(f.FieldValues), f.Stack, f.TimeMillis))
			}
		}
		for k, l := range res.ProjectPanics {
			got["P:"+k] = append(got["P:"+k], l...)
		}
		for k, l := range res.ModulePanics {
			got["M:"+k] = append(got["M:"+k], l...)
		}
		text := func(m map[string][]string) string {
			var ks []string
			for k, l := range m {
				if len(l) > 0 {
					l = append([]string(nil), l...)
					if concurrent {
						sort.Strings(l)
					}
					ks = append(ks, k+" -> "+strings.Join(l, " + "))
				}
			}
			sort.Strings(ks)
			return strings.Join(ks, "\n")
		}
		if w, g := text(want), text(got); w != g {
			h.fail("c16.records", desc, w, g)
		}
		h.check("c16.checks", int(mon.fieldCheckCount.Load()) == checks, desc, fmt.Sprint(checks, " field checks"), fmt.Sprint(mon.fieldCheckCount.Load()))
		h.check("c16.hits", res.ModuleChangesHit == len(entries), desc, fmt.Sprint(len(entries), " changed functions hit"), fmt.Sprint(res.ModuleChangesHit))
		var we, ge []string
		for id := range entries {
			we = append(we, *maps[2][id])
		}
		for _, p := range reached {
			ge = append(ge, *p)
		}
		sort.Strings(we)
		sort.Strings(ge)
		h.check("c16.reached", fmt.Sprint(we) == fmt.Sprint(ge), desc, fmt.Sprint(we), fmt.Sprint(ge))
		h.check("c16.identity", res.TestFunction.FunctionIdent == "p.TestX" && res.TestFunction.FunctionName == "TestX" && res.TestFailure == failFlag, desc, "the test's identity and outcome", fmt.Sprint(res.TestFunction, res.TestFailure))
	}
	h.done()
}
