package lens

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// expField is the field tree the collector has to see; children of maps are compared as a set.
type expField struct {
	Name, Type string
	Value      any
	Kids       []expField
	HasKids    bool
	IsMap      bool
}

func eqVal(a, b any) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && (math.Float32bits(x) == math.Float32bits(y) || (x != x && y != y))
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || (x != x && y != y))
	case complex128:
		y, ok := b.(complex128)
		return ok && eqVal(real(x), real(y)) && eqVal(imag(x), imag(y))
	case []float32:
		y, ok := b.([]float32)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case []float64:
		y, ok := b.([]float64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func (e expField) match(f LensMonitorField, path string) string {
	p := path + "/" + e.Name
	if e.Name != f.Name {
		return fmt.Sprintf("%s: name %q", p, f.Name)
	}
	if e.Type != f.Type {
		return fmt.Sprintf("%s: type %q, want %q", p, f.Type, e.Type)
	}
	if fv, ok := f.Value.(string); ok && e.Value == "<func>" && strings.HasPrefix(fv, "<cycle:") {
		// every closure of one function literal shares its code pointer: a repeated reference
	} else if !eqVal(e.Value, f.Value) {
		return fmt.Sprintf("%s: value %T(%v), want %T(%v)", p, f.Value, f.Value, e.Value, e.Value)
	}
	if len(e.Kids) != len(f.Children) {
		return fmt.Sprintf("%s: %d children, want %d", p, len(f.Children), len(e.Kids))
	}
	a, b := e.Kids, f.Children
	if e.IsMap {
		a = append([]expField{}, a...)
		b = append([]LensMonitorField{}, b...)
		sort.Slice(a, func(i, j int) bool { return a[i].Name < a[j].Name })
		sort.Slice(b, func(i, j int) bool { return b[i].Name < b[j].Name })
	}
	for i := range a {
		if m := a[i].match(b[i], p); m != "" {
			return m
		}
	}
	return ""
}

type wireGen struct {
	h *vh
}

func (g *wireGen) pick(xs ...int64) int64 { return xs[g.h.r.Intn(len(xs))] }

func (g *wireGen) u64() uint64 {
	r := g.h.r
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(300))
	case 1:
		return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(2))
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	}
	return r.Uint64() >> uint(r.Intn(64))
}

func (g *wireGen) i64() int64 {
	v := int64(g.u64())
	if g.h.r.Intn(2) == 0 {
		return -v
	}
	return v
}

func (g *wireGen) f64() float64 {
	switch g.h.r.Intn(6) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1 - 2*g.h.r.Intn(2))
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return math.Float64frombits(g.u64())
	}
	return g.h.r.NormFloat64()
}

func (g *wireGen) str() string {
	r := g.h.r
	n := []int{0, 1, 2, 3, 7, 20, 127, 128, 129, 300, 1023, 1024, 1025, 2000, 20000}[r.Intn(15)]
	if r.Intn(3) > 0 && n > 20 {
		n = r.Intn(12)
	}
	var b strings.Builder
	for b.Len() < n {
		switch r.Intn(6) {
		case 0:
			b.WriteRune([]rune{'é', '…', '世', '\U0001F600', '"', '\n', 0}[r.Intn(7)])
		case 1:
			b.WriteByte(byte(r.Intn(256)))
		default:
			b.WriteByte(byte('a' + r.Intn(26)))
		}
	}
	s := b.String()
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// trunc is the documented limit: the first maximum-length bytes and a note how many were cut.
func wtrunc(s string) string {
	if len(s) <= lensMonitorFieldMaxLen {
		return s
	}
	return s[:lensMonitorFieldMaxLen] + "…(" + strconv.Itoa(len(s)-lensMonitorFieldMaxLen) + " more)"
}

type wInner struct {
	A int
	b string
	C *float64
}
type wOuter struct {
	Name  string
	inner wInner
	Ptr   *wInner
	Any   any
	list  []wInner
	m     map[string]int16
	flags [11]bool
	F     func()
	ch    chan int
}
type wNamedInt int32
type wNamedStr string
type wErr struct{ code int }

func (e *wErr) Error() string { return "E" + strconv.Itoa(e.code) }

func (g *wireGen) n() int {
	r := g.h.r
	if r.Intn(40) == 0 {
		return []int{1023, 1024, 1025, 3000}[r.Intn(4)]
	}
	return 1 + r.Intn(18)
}

func capn(n int) int {
	if n > lensMonitorFieldMaxLen {
		return lensMonitorFieldMaxLen
	}
	return n
}

func sliceOf[T, U any](g *wireGen, gen func() T, conv func(T) U) (any, any) {
	if g.h.r.Intn(8) == 0 {
		return make([]T, 0, 1), make([]U, 0)
	}
	n := g.n()
	a := make([]T, n)
	b := make([]U, 0, n)
	for i := range a {
		a[i] = gen()
		if i < lensMonitorFieldMaxLen {
			b = append(b, conv(a[i]))
		}
	}
	return a, b
}

// value returns a Go value and the image the collector must report for it (everything but the name).
func (g *wireGen) value(depth int) (any, expField) {
	r := g.h.r
	lf := func(v, e any) (any, expField) {
		return v, expField{Type: reflect.TypeOf(v).String(), Value: e}
	}
	k := r.Intn(46)
	if depth <= 0 && k >= 34 {
		k = r.Intn(34)
	}
	switch k {
	case 0:
		v := r.Intn(2) == 0
		return lf(v, v)
	case 1:
		v := int(g.i64())
		return lf(v, int64(v))
	case 2:
		v := int8(g.i64())
		return lf(v, int32(v))
	case 3:
		v := int16(g.i64())
		return lf(v, int32(v))
	case 4:
		v := int32(g.i64())
		return lf(v, v)
	case 5:
		v := g.i64()
		return lf(v, v)
	case 6:
		v := uint8(g.u64())
		return lf(v, uint32(v))
	case 7:
		v := uint16(g.u64())
		return lf(v, uint32(v))
	case 8:
		v := uint32(g.u64())
		return lf(v, v)
	case 9:
		v := g.u64()
		return lf(v, v)
	case 10:
		v := uint(g.u64())
		return lf(v, uint64(v))
	case 11:
		v := float32(g.f64())
		return lf(v, v)
	case 12:
		v := g.f64()
		return lf(v, v)
	case 13:
		v := complex(g.f64(), g.f64())
		return lf(v, v)
	case 14:
		v := complex64(complex(float64(r.Intn(9)), -1.5))
		return lf(v, complex128(v))
	case 15, 16:
		v := g.str()
		return lf(v, wtrunc(v))
	case 17:
		v := wNamedInt(g.i64())
		return lf(v, int32(v))
	case 18:
		v := wNamedStr(g.str())
		return lf(v, wtrunc(string(v)))
	case 19:
		v := []byte(g.str() + "x")
		d := v[:capn(len(v))]
		if utf8.Valid(d) {
			return lf(v, string(d))
		}
		return lf(v, append([]byte{}, d...))
	case 20:
		v, e := sliceOf(g, func() bool { return r.Intn(2) == 0 }, func(b bool) bool { return b })
		return lf(v, e)
	case 21:
		v, e := sliceOf(g, func() int8 { return int8(g.i64()) }, func(b int8) int32 { return int32(b) })
		return lf(v, e)
	case 22:
		v, e := sliceOf(g, func() int32 { return int32(g.i64()) }, func(b int32) int32 { return b })
		return lf(v, e)
	case 23:
		v, e := sliceOf(g, g.i64, func(b int64) int64 { return b })
		return lf(v, e)
	case 24:
		v, e := sliceOf(g, func() int { return int(g.i64()) }, func(b int) int64 { return int64(b) })
		return lf(v, e)
	case 25:
		v, e := sliceOf(g, func() uint16 { return uint16(g.u64()) }, func(b uint16) uint32 { return uint32(b) })
		return lf(v, e)
	case 26:
		v, e := sliceOf(g, func() uint32 { return uint32(g.u64()) }, func(b uint32) uint32 { return b })
		return lf(v, e)
	case 27:
		v, e := sliceOf(g, g.u64, func(b uint64) uint64 { return b })
		return lf(v, e)
	case 28:
		v, e := sliceOf(g, func() float32 { return float32(g.f64()) }, func(b float32) float32 { return b })
		return lf(v, e)
	case 29:
		v, e := sliceOf(g, g.f64, func(b float64) float64 { return b })
		return lf(v, e)
	case 30:
		v, e := sliceOf(g, g.str, func(b string) string { return wtrunc(b) })
		return lf(v, e)
	case 31:
		v := [5]int64{g.i64(), g.i64(), g.i64(), 0, -1}
		return lf(v, v[:])
	case 32:
		var v []int
		return lf(v, nil)
	case 33:
		var v map[string]int
		return lf(v, nil)
	case 34:
		v := new(int64)
		*v = g.i64()
		return v, expField{Type: "int64", Value: *v}
	case 35:
		var v *wInner
		return v, expField{Type: "*lens.wInner"}
	case 36:
		v := map[string]string{}
		e := expField{Type: "map[string]string", IsMap: true, HasKids: true}
		n := g.n()
		if n > 1000 && g.h.r.Intn(3) > 0 {
			n = 4
		}
		for i := 0; i < n; i++ {
			v[fmt.Sprintf("k%07d", i*7)] = g.str()
		}
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys[:capn(len(keys))] {
			e.Kids = append(e.Kids, expField{Name: k, Type: "string", Value: wtrunc(v[k])})
		}
		return v, e
	case 37:
		v := map[int32]any{}
		e := expField{Type: "map[int32]interface {}", IsMap: true, HasKids: true}
		for i := 0; i < 1+r.Intn(5); i++ {
			k := int32(g.i64())
			if _, ok := v[k]; ok {
				continue
			}
			x, xe := g.value(depth - 1)
			v[k] = x
			xe.Name = fmt.Sprint(k)
			e.Kids = append(e.Kids, xe)
		}
		return v, e
	case 38, 39:
		in, ie := g.inner()
		_ = ie
		return in, ie
	case 40, 41:
		return g.outer(depth)
	case 42:
		n := 1 + r.Intn(6)
		v := make([]any, n)
		e := expField{Type: "[]interface {}", HasKids: true}
		for i := range v {
			x, xe := g.value(depth - 1)
			v[i] = x
			xe.Name = "[" + strconv.Itoa(i) + "]"
			e.Kids = append(e.Kids, xe)
		}
		return v, e
	case 43:
		n := 1 + r.Intn(4)
		v := make([]*wInner, n)
		e := expField{Type: "[]*lens.wInner", HasKids: true}
		for i := range v {
			x, xe := g.inner()
			xx := x.(wInner)
			v[i] = &xx
			xe.Name = "[" + strconv.Itoa(i) + "]"
			e.Kids = append(e.Kids, xe)
		}
		return v, e
	case 44:
		v := error(&wErr{r.Intn(100)})
		return v, expField{Type: "lens.wErr", HasKids: true, Kids: []expField{{Name: "code", Type: "int", Value: int64(v.(*wErr).code)}}}
	default:
		v := struct{}{}
		return v, expField{Type: "struct {}", HasKids: true}
	}
}

func (g *wireGen) inner() (any, expField) {
	r := g.h.r
	v := wInner{A: int(g.i64()), b: g.str()}
	e := expField{Type: "lens.wInner", HasKids: true, Kids: []expField{{Name: "A", Type: "int", Value: int64(v.A)}, {Name: "b", Type: "string", Value: wtrunc(v.b)}}}
	if r.Intn(2) == 0 {
		f := g.f64()
		v.C = &f
		e.Kids = append(e.Kids, expField{Name: "C", Type: "float64", Value: f})
	} else {
		e.Kids = append(e.Kids, expField{Name: "C", Type: "*float64"})
	}
	return v, e
}

func (g *wireGen) outer(depth int) (any, expField) {
	r := g.h.r
	v := wOuter{Name: g.str()}
	e := expField{Type: "lens.wOuter", HasKids: true, Kids: []expField{{Name: "Name", Type: "string", Value: wtrunc(v.Name)}}}
	add := func(n string, x expField) { x.Name = n; e.Kids = append(e.Kids, x) }
	in, ie := g.inner()
	v.inner = in.(wInner)
	add("inner", ie)
	if r.Intn(2) == 0 {
		in, ie := g.inner()
		x := in.(wInner)
		v.Ptr = &x
		add("Ptr", ie)
	} else {
		add("Ptr", expField{Type: "*lens.wInner"})
	}
	if r.Intn(4) == 0 {
		add("Any", expField{Type: "interface {}"})
	} else {
		x, xe := g.value(depth - 1)
		v.Any = x
		add("Any", xe)
	}
	le := expField{Type: "[]lens.wInner"}
	if r.Intn(3) > 0 {
		le.HasKids = true
		for i := 0; i < 1+r.Intn(3); i++ {
			in, ie := g.inner()
			v.list = append(v.list, in.(wInner))
			ie.Name = "[" + strconv.Itoa(i) + "]"
			le.Kids = append(le.Kids, ie)
		}
	}
	add("list", le)
	me := expField{Type: "map[string]int16"}
	if r.Intn(2) == 0 {
		v.m = map[string]int16{"q": int16(g.i64())}
		me.IsMap, me.HasKids = true, true
		me.Kids = []expField{{Name: "q", Type: "int16", Value: int32(v.m["q"])}}
	}
	add("m", me)
	for i := range v.flags {
		v.flags[i] = r.Intn(2) == 0
	}
	add("flags", expField{Type: "[11]bool", Value: append([]bool{}, v.flags[:]...)})
	fe := expField{Type: "func()"}
	if r.Intn(2) == 0 {
		v.F = func() {}
		fe.Value = "<func>"
	}
	add("F", fe)
	ce := expField{Type: "chan int"}
	if r.Intn(2) == 0 {
		v.ch = make(chan int, 1)
		ce.Value = "<chan>"
	}
	add("ch", ce)
	return v, e
}

func (g *wireGen) frames() []lensMonitorStackFrame {
	r := g.h.r
	n := r.Intn(12)
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = []int{127, 128, 2047, 2048}[r.Intn(4)]
	}
	var out []lensMonitorStackFrame
	for i := 0; i < n; i++ {
		f := lensMonitorStackFrame{File: "/f" + strconv.Itoa(r.Intn(6)), Function: "p.F" + strconv.Itoa(r.Intn(6)), Line: uint(g.u64())}
		switch r.Intn(8) {
		case 0:
			f.Function = f.File
		case 1:
			f.File = ""
		case 2:
			f.File = g.str()
		case 3:
			f.File = "/unique" + strconv.Itoa(i)
			f.Function = "uniq.F" + strconv.Itoa(i)
		}
		out = append(out, f)
	}
	return out
}

func sameFrames(a, b []lensMonitorStackFrame) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type recHandler struct {
	p  []LensMonitorMessagePoint
	s  []LensMonitorMessagePointState
	pn []LensMonitorMessagePointPanic
}

func (h *recHandler) HandleFuncPoint(m LensMonitorMessagePoint)           { h.p = append(h.p, m) }
func (h *recHandler) HandleFuncPointState(m LensMonitorMessagePointState) { h.s = append(h.s, m) }
func (h *recHandler) HandleFuncPointPanic(m LensMonitorMessagePointPanic) { h.pn = append(h.pn, m) }

func cexU64(s string) (uint64, bool) {
	if strings.HasPrefix(s, "#x") {
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	}
	if strings.HasPrefix(s, "#b") {
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	v, err := strconv.ParseUint(s, 10, 64)
	return v, err == nil
}
