package lens

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
)

type c19W struct {
	b      bytes.Buffer
	closed int
	fail   bool
	short  bool
}

func (w *c19W) Write(p []byte) (int, error) {
	if w.fail {
		return 0, errors.New("broken")
	}
	if w.short && len(p) > 0 {
		w.b.Write(p[:len(p)-1])
		return len(p) - 1, nil
	}
	return w.b.Write(p)
}

type c19WC struct{ c19W }

func (w *c19WC) Close() error { w.closed++; return nil }

func TestVerif(t *testing.T) {
	h := newVH(t, "random write sequences into rolling buffers of every small capacity, tee chains and line limits; oracles: the full concatenated stream, its tail, and line lists; non-trivial: something was written")
	r := h.r
	for it := 0; h.more(it, 20000); it++ {
		max := r.Intn(40)
		if r.Intn(10) == 0 {
			max = 8192
		}
		var buf bytes.Buffer
		w := newLimitedRollingBufferWriter(&buf, max)
		var stream []byte
		trimmed := false
		want := ""
		var sizes []int
		for k := 0; k < 1+r.Intn(12); k++ {
			n := r.Intn(max/2 + 3)
			if r.Intn(6) == 0 {
				n = r.Intn(3*max + 5)
			}
			p := make([]byte, n)
			for i := range p {
				p[i] = byte('a' + (len(stream)+i)%23)
			}
			sizes = append(sizes, n)
			stream = append(stream, p...)
			in := fmt.Sprintf("limit %d writes %v", max, sizes)
			var gn int
			var err error
			if !h.noPanic("rolling-panic", in, func() { gn, err = w.Write(p) }) {
				break
			}
			for i := range p {
				p[i] = '#' // the buffer must not keep the caller's slice
			}
			h.check("rolling-result", gn == n && err == nil, in, fmt.Sprint(n, nil), fmt.Sprint(gn, err))
			want += string(stream[len(stream)-n:])
			if len(want) > max {
				trimmed = true
				want = "..." + want[len(want)-max/2:]
			}
			got := buf.String()
			if !h.check("rolling-content", got == want, in, want, got) {
				break
			}
			body := strings.TrimPrefix(got, "...")
			h.check("rolling-tail", bytes.HasSuffix(stream, []byte(body)) && (trimmed || len(got) == len(stream)) && (!trimmed || len(body) >= max/2 || len(body) == len(stream)), in, "the most recent text", got)
		}
		h.ev(fmt.Sprint("roll ", max, sizes), len(stream) > 0)
	}
	for it := 0; h.more(it, 4000); it++ {
		n := r.Intn(5)
		var ws []io.Writer
		var rec []*c19W
		bad := false
		for i := 0; i < n; i++ {
			switch r.Intn(8) {
			case 0:
				ws = append(ws, nil)
			case 1, 2:
				x := &c19WC{}
				ws = append(ws, x)
				rec = append(rec, &x.c19W)
			default:
				x := &c19W{fail: r.Intn(8) == 0}
				bad = bad || x.fail
				ws = append(ws, x)
				rec = append(rec, x)
			}
		}
		if len(rec) == 0 {
			continue
		}
		in := fmt.Sprintf("%d writers, failing %v", len(rec), bad)
		var all []byte
		h.noPanic("tee-panic", in, func() {
			tw := TeeWriter(ws...)
			anyErr := false
			for k := 0; k < r.Intn(6); k++ {
				p := make([]byte, r.Intn(9))
				r.Read(p)
				all = append(all, p...)
				m, err := tw.Write(p)
				anyErr = anyErr || err != nil
				if !bad {
					h.check("tee-result", m == len(p) && err == nil, in, fmt.Sprint(len(p)), fmt.Sprint(m, err))
				} else {
					h.check("tee-error", err != nil, in, "an error", "none")
				}
			}
			_ = tw.Close()
		})
		for i, x := range rec {
			if !x.fail {
				h.check("tee-content", bytes.Equal(x.b.Bytes(), all), fmt.Sprint(in, " writer ", i), fmt.Sprintf("%q", all), fmt.Sprintf("%q", x.b.Bytes()))
			}
		}
		for _, w := range ws {
			if c, ok := w.(*c19WC); ok {
				h.check("tee-close", c.closed == 1, in, "closed once", fmt.Sprint(c.closed))
			}
		}
		h.ev(fmt.Sprint("tee ", in, len(all)), len(all) > 0)
	}
	{ // a short write of one destination is reported
		tw := TeeWriter(&c19W{}, &c19W{short: true})
		_, err := tw.Write([]byte("abc"))
		h.check("tee-short", err != nil, "one destination takes two of three bytes", "an error", "none")
	}
	for it := 0; h.more(it, 20000); it++ {
		n := r.Intn(8)
		ls := make([]string, n+1)
		for i := range ls {
			ls[i] = []string{"", "x", "yy", "zzz\r", "ü"}[r.Intn(5)]
		}
		s := strings.Join(ls, "\n")
		count := 1 + r.Intn(9)
		for _, head := range []bool{false, true} {
			want := s
			if len(ls) > count {
				if head {
					want = strings.Join(ls[:count], "\n")
				} else {
					want = strings.Join(ls[len(ls)-count:], "\n")
				}
			}
			got := limitStringLines(s, count, head)
			h.check("lines", got == want, fmt.Sprintf("%q count %d head %v", s, count, head), fmt.Sprintf("%q", want), fmt.Sprintf("%q", got))
		}
		h.ev(fmt.Sprint("lines ", s, count), n > 0)
	}
	for it := 0; h.more(it, 200); it++ { // concurrent writes to the locked buffer are whole and none is lost
		lb := newLockedBuffer()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 50; k++ {
					_, _ = lb.Write([]byte(fmt.Sprintf("<%d.%d>", g, k)))
				}
			}()
		}
		wg.Wait()
		s := lb.String()
		parts := strings.Split(strings.Trim(s, "<>"), "><")
		next := map[string]int{}
		ok := len(parts) == 200 && lb.Len() == len(s)
		for _, p := range parts {
			a, b, _ := strings.Cut(p, ".")
			ok = ok && b == fmt.Sprint(next[a])
			next[a]++
		}
		h.check("locked-buffer", ok, "4 writers of 50 records", "every record once, in order per writer", s)
		h.ev("locked", true)
	}
	h.done()
}
