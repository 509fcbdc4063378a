package lens

import (
	"fmt"
	"testing"
)

// c05Val draws from few values so that subtrees repeat, with lengths around the dictionary threshold.
func c05Fields(g *trGen, depth int) FieldValues {
	r := g.h.r
	out := FieldValues{}
	for k := r.Intn(4); k > 0; k-- {
		fv := &FieldValue{Value: []string{"", "1", "abcd", "abcde", "abcdefghijklmnopqrstuvwxyz", "\xff\x00"}[r.Intn(6)]}
		if depth > 0 && r.Intn(2) == 0 {
			fv.Children = c05Fields(g, depth-1)
			if r.Intn(3) > 0 {
				fv.Value = ""
			}
		}
		out[[]string{"a", "b", "c", "abcde", ""}[r.Intn(5)]] = fv
	}
	return out
}

// c05Near returns a different tree close to f: an entry moved between a node and its parent, a value changed, …
func c05Near(g *trGen, f FieldValues) FieldValues {
	r := g.h.r
	f = cloneFV(f)
	for k, v := range f {
		switch r.Intn(6) {
		case 0: // move an entry of the node up
			for ck, cv := range v.Children {
				delete(v.Children, ck)
				f[ck] = cv
				return f
			}
		case 1: // move a sibling into the node
			if len(v.Children) > 0 {
				for k2, v2 := range f {
					if k2 != k {
						delete(f, k2)
						v.Children[k2] = v2
						return f
					}
				}
			}
		case 2:
			v.Value += "x"
			return f
		case 3:
			delete(f, k)
			f[k+v.Value] = v
			return f
		case 4:
			if len(v.Children) > 0 {
				v.Children = c05Near(g, v.Children)
				return f
			}
		case 5:
			f[k] = &FieldValue{Value: k}
			return f
		}
	}
	return f
}

func TestVerif(t *testing.T) {
	h := newVH(t, "generated test results with many repeated and near-equal subtrees, values and stacks; oracle: the same rendering of identity, frames, panics, counters and flags after marshal and unmarshal (nil and empty containers are the same); distinct trees have distinct content keys; non-trivial: at least one frame with a field")
	g := &trGen{h}
	for i := 0; h.more(i, 60000); i++ {
		tr := g.result()
		pool := []FieldValues{c05Fields(g, 3), c05Fields(g, 3), c05Fields(g, 2)}
		for k := 0; k < 4; k++ {
			pool = append(pool, c05Near(g, pool[h.r.Intn(len(pool))]))
		}
		nt := false
		for _, m := range []map[string][]CallFrame{tr.CallerResults, tr.ExtensionFrames} {
			for _, fs := range m {
				for j := range fs {
					if h.r.Intn(3) > 0 {
						fs[j].FieldValues = cloneFV(pool[h.r.Intn(len(pool))])
						if h.r.Intn(4) == 0 {
							fs[j].FieldValues = FieldValues{"w": {Children: cloneFV(pool[h.r.Intn(len(pool))])}, "v": {Children: cloneFV(pool[h.r.Intn(len(pool))])}}
						}
					}
					if h.r.Intn(12) == 0 {
						fs[j].FieldValues = nil
					}
					nt = nt || len(fs[j].FieldValues) > 0
				}
			}
		}
		switch h.r.Intn(12) {
		case 0:
			tr.CallerResults = nil
		case 1:
			tr.ExtensionFrames = nil
		case 2:
			tr.ProjectPanics = nil
		case 3:
			tr.TestFunction = MinimumTestFunction{}
		}
		in := trString(tr)
		h.ev(in, nt)
		if !h.noPanic("roundtrip", in, func() {
			blob, err := tr.MarshalMsgpack()
			if err != nil {
				h.fail("marshal", in, "no error", err.Error())
				return
			}
			h.check("marshal-pure", trString(tr) == in, in, in, trString(tr))
			other := g.result()
			_, _ = other.MarshalMsgpack() // the blob must not be a view of a reused buffer
			var back TestResult
			if err := back.UnmarshalMsgpack(blob); err != nil {
				h.fail("unmarshal", in, "no error", err.Error())
				return
			}
			h.check("roundtrip", trString(back) == in, in, in, trString(back))
		}) {
			continue
		}
		for a := range pool {
			h.check("key-stable", pool[a].ID() == cloneFV(pool[a]).ID(), fvString(pool[a]), "one key per tree", "two keys")
			for b := 0; b < a; b++ {
				sa, sb := fvString(pool[a]), fvString(pool[b])
				if sa != sb {
					h.check("keys", pool[a].ID() != pool[b].ID(), sa+" / "+sb, "different keys", "equal keys")
					na, nb := &FieldValue{Value: "v", Children: pool[a]}, &FieldValue{Value: "v", Children: pool[b]}
					h.check("node-keys", na.ID() != nb.ID(), sa+" / "+sb, "different keys", "equal keys")
				}
			}
		}
	}
	// exhaustive over small trees
	var small []FieldValues
	leafs := []string{"", "a", "b"}
	for _, x := range leafs {
		small = append(small, FieldValues{"a": {Value: x}}, FieldValues{"b": {Value: x}}, FieldValues{"": {Value: x}})
		for _, y := range leafs {
			small = append(small, FieldValues{"a": {Value: x}, "b": {Value: y}}, FieldValues{"a": {Value: x, Children: FieldValues{"b": {Value: y}}}},
				FieldValues{"b": {Value: x, Children: FieldValues{"a": {Value: y}}}})
			for _, z := range leafs {
				small = append(small, FieldValues{"a": {Children: FieldValues{"b": {Value: x}}}, "c": {Value: y}, "": {Value: z}},
					FieldValues{"a": {Children: FieldValues{"b": {Value: x}, "c": {Value: y}}}, "": {Value: z}},
					FieldValues{"a": {Children: FieldValues{"b": {Value: x, Children: FieldValues{"c": {Value: y}}}}}, "": {Value: z}},
					FieldValues{"a": {Value: z, Children: FieldValues{"b": {Value: x}, "c": {Value: y}}}})
			}
		}
	}
	ids := map[string]string{}
	for _, f := range small {
		s := fvString(f)
		h.ev("key of "+s, true)
		if o, ok := ids[f.ID()]; ok && o != s {
			h.fail("keys", s+" / "+o, "different keys", "equal keys")
		}
		ids[f.ID()] = s
	}
	h.out.Samples = append(h.out.Samples, fmt.Sprint(len(small), " small trees, all pairs"))
	h.done()
}
