package lens

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net/http"
	"net/http/httptest"
	"runtime"
	"runtime/debug"
	"syscall"
	"testing"
	"testing/iotest"
)

func uv(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func cat(bs ...any) []byte {
	var out []byte
	for _, b := range bs {
		switch x := b.(type) {
		case []byte:
			out = append(out, x...)
		case int:
			out = append(out, byte(x))
		case string:
			out = append(append(out, uv(uint64(len(x)))...), x...)
		}
	}
	return out
}

type endlessReader struct{ n int }

func (e *endlessReader) Read(p []byte) (int, error) {
	if e.n <= 0 {
		return 0, io.ErrUnexpectedEOF
	}
	if len(p) > e.n {
		p = p[:e.n]
	}
	e.n -= len(p)
	for i := range p {
		p[i] = 0x81
	}
	return len(p), nil
}

var c02Decoders = []struct {
	name string
	f    func(*lensReader) (any, error)
}{
	{"point", func(r *lensReader) (any, error) { return r.decodeMessagePoint() }},
	{"state", func(r *lensReader) (any, error) { return r.decodeMessagePointState() }},
	{"panic", func(r *lensReader) (any, error) { return r.decodeMessagePointPanic() }},
	{"error", func(r *lensReader) (any, error) { return r.decodeMessageError() }},
}

const c02Bool, c02Max = 1, 1024

func TestVerif(t *testing.T) {
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	debug.SetMaxStack(512 << 20)
	log.SetOutput(io.Discard)
	h := newVH(t, "byte string fed to each of the four decoders (and, for a sample, to the HTTP endpoints); oracle: returns, does not panic, allocates at most 1 MB + 400 bytes per input byte, malformed input is an error; non-trivial: at least two bytes")
	rec := &recHandler{}
	var ph astPointHandler = rec
	s := &astServer{maxFieldLen: c02Max}
	s.pointHandler.Store(&ph)
	mux := http.NewServeMux()
	mux.HandleFunc(lensMonitorEndpointPathError, s.handleEventError)
	mux.HandleFunc(lensMonitorEndpointPathPoint, s.handlePoint)
	mux.HandleFunc(lensMonitorEndpointPathState, s.handlePointState)
	mux.HandleFunc(lensMonitorEndpointPathPanic, s.handlePointPanic)
	paths := []string{lensMonitorEndpointPathPoint, lensMonitorEndpointPathState, lensMonitorEndpointPathPanic, lensMonitorEndpointPathError}

	desc := func(b []byte) string {
		if len(b) > 300 {
			return fmt.Sprintf("%x…(%d bytes)", b[:300], len(b))
		}
		return fmt.Sprintf("%x", b)
	}
	alloc := func() uint64 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.TotalAlloc
	}
	// decode feeds b to decoder di; wantErr: 1 error, 0 success, -1 either
	measure := false
	decode := func(key string, di int, b []byte, wantErr int) {
		in := c02Decoders[di].name + " message " + desc(b)
		if len(b) > 1<<16 || measure {
			h.cur(key + ": " + in)
		}
		var err error
		var msg any
		var a0 uint64
		if measure {
			a0 = alloc()
		}
		if !h.noPanic(key, in, func() { msg, err = c02Decoders[di].f(newLensReader(bytes.NewReader(b), c02Max)) }) {
			return
		}
		if measure {
			if used := alloc() - a0; used > uint64(1<<20+400*len(b)) {
				h.fail(key+"-memory", in, "memory bounded by the input received", fmt.Sprintf("%d bytes allocated for %d bytes of input", used, len(b)))
			}
		}
		if wantErr == 1 && err == nil {
			h.fail(key, in, "an error", fmt.Sprintf("decoded as %v", msg))
		}
		if wantErr == 0 && err != nil {
			h.fail(key, in, "decodes", "error: "+err.Error())
		}
		if h.r.Intn(16) == 0 && len(b) < 1<<16 {
			*rec = recHandler{}
			rq := httptest.NewRequest(http.MethodPost, paths[di], bytes.NewReader(b))
			w := httptest.NewRecorder()
			if h.noPanic(key+"-http", in, func() { mux.ServeHTTP(w, rq) }) {
				calls := len(rec.p) + len(rec.s) + len(rec.pn)
				if err != nil {
					h.check(key+"-http", w.Code == 400 && calls == 0, in, "400 and nothing delivered", fmt.Sprintf("%d, %d delivered", w.Code, calls))
				} else if di < 3 {
					h.check(key+"-http", w.Code == 200 && calls == 1, in, "200 and one message delivered", fmt.Sprintf("%d, %d delivered", w.Code, calls))
				}
			}
		}
		h.ev(in, len(b) > 1)
	}

	hdr := cat(uv(7), make([]byte, 8), uv(0)) // id, time, empty stack
	state := func(body ...any) []byte { return cat(append([]any{hdr}, body...)...) }
	one := func(body ...any) []byte { return state(append([]any{uv(1), "n", "t"}, body...)...) }
	type valid struct {
		di int
		b  []byte
	}
	var corpus []valid
	g := &wireGen{h}
	addMsg := func() {
		var b0, b1, b2, b3 bytes.Buffer
		id, ts, st := uint32(g.u64()), g.i64(), g.frames()
		if len(st) > 40 {
			st = st[:40]
		}
		lensEncodeMessagePoint(&b0, id, ts, st)
		var snaps []lensMonitorFieldSnapshot
		for k := h.r.Intn(3); k >= 0; k-- {
			v, _ := g.value(2)
			snaps = append(snaps, lensMonitorFieldSnapshot{"f", v})
		}
		lensEncodeMessagePointState(&b1, id, ts, st, snaps)
		lensEncodeMessagePointPanic(&b2, id, ts, g.str())
		lensEncodeMessageError(&b3, id, errors.New(g.str()), st)
		for di, b := range []*bytes.Buffer{&b0, &b1, &b2, &b3} {
			corpus = append(corpus, valid{di, b.Bytes()})
		}
	}
	for i := 0; i < 60; i++ {
		addMsg()
	}
	// hostile counts: a handful of bytes must not reserve memory for the count they claim
	measure = true
	tags := []int{}
	for tg := 0; tg < 256; tg++ {
		tags = append(tags, tg)
	}
	counts := []uint64{1 << 16, 1 << 20, 1 << 22, 1<<24 + 1, 1 << 28, math.MaxUint32 - 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, 1 << 48, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64 - 7, math.MaxUint64}
	if c := h.cex; c != nil {
		for _, m := range c {
			for _, sv := range m {
				if v, ok := cexU64(sv); ok {
					counts = append(counts, v)
				}
			}
		}
	}
	valTags := []int{int(lensTypeTagBoolSlice), int(lensTypeTagBytes), int(lensTypeTagInt32Slice), int(lensTypeTagInt64Slice), int(lensTypeTagUint32Slice), int(lensTypeTagUint64Slice), int(lensTypeTagFloat32Slice), int(lensTypeTagFloat64Slice), int(lensTypeTagStringSlice), int(lensTypeTagSlice), int(lensTypeTagMap), int(lensTypeTagStruct), int(lensTypeTagString)}
	for _, c := range counts {
		if c < 1<<16 {
			continue
		}
		for _, tg := range valTags {
			decode("hostile-count", 1, one(tg, uv(c)), 1)
			decode("hostile-count", 1, one(tg, uv(c), "x"), 1)
		}
		decode("hostile-count", 1, state(uv(c)), 1)
		decode("hostile-count", 1, state(uv(1), uv(c)), 1)
		decode("hostile-count", 1, state(uv(1), "n", uv(c)), 1)
		decode("hostile-count", 2, cat(uv(7), make([]byte, 8), uv(c)), 1)
		decode("hostile-count", 2, cat(uv(7), make([]byte, 8), uv(c), "abc"), 1)
		decode("hostile-count", 3, cat(uv(7), uv(c)), 1)
		for di := 0; di < 2; di++ {
			decode("hostile-count", di, cat(uv(7), make([]byte, 8), uv(c)), 1)
			decode("hostile-count", di, cat(uv(7), make([]byte, 8), uv(c), uv(1), "a"), 1)
			decode("hostile-count", di, cat(uv(7), make([]byte, 8), uv(3), uv(c)), 1)
			decode("hostile-count", di, cat(uv(7), make([]byte, 8), uv(1), uv(1), uv(c)), 1)
		}
		decode("hostile-count", 3, cat(uv(7), "m", uv(c)), 1)
		decode("hostile-count", 3, cat(uv(7), "m", uv(3), uv(c)), 1)
		decode("hostile-count", 3, cat(uv(7), "m", uv(1), uv(1), uv(c)), 1)
	}
	// container counts over the limit, slices over the limit even when the data is there
	for _, tg := range valTags {
		if tg == int(lensTypeTagString) || tg == int(lensTypeTagStruct) {
			continue
		}
		decode("over-limit", 1, one(tg, uv(c02Max+1), make([]byte, 9*(c02Max+1))), 1)
	}
	// deep nesting
	for _, d := range []int{100, 3000, 100000, 2000000} {
		for _, tg := range []int{int(lensTypeTagSlice), int(lensTypeTagMap), int(lensTypeTagStruct)} {
			b := append([]byte{}, hdr...)
			unit := cat(uv(1), "", "", tg)
			b = append(b, bytes.Repeat(unit, d)...)
			decode("deep-nesting", 1, b, 1) // always truncated
			if d == 100 {
				decode("deep-nesting", 1, append(b, 0), 0)
			}
		}
	}
	// a string that does arrive is delivered whole
	for _, n := range []int{1, 255, 65535, 65536, 65537, 200000, 3 << 20} {
		big := string(bytes.Repeat([]byte("ab"), n/2+1)[:n])
		m := cat(uv(9), make([]byte, 8), big)
		msg, err := newLensReader(iotest.HalfReader(bytes.NewReader(m)), c02Max).decodeMessagePointPanic()
		h.check("long-string", err == nil && msg.Message == big, fmt.Sprintf("panic message of %d bytes", n), "delivered", fmt.Sprintf("err %v, %d bytes", err, len(msg.Message)))
		decode("long-string-cut", 2, m[:len(m)-1], 1)
		h.ev(fmt.Sprint("long ", n), true)
	}
	// endless bodies end with an error
	for di := range c02Decoders {
		var err error
		h.noPanic("endless", "0x81 repeated", func() { _, err = c02Decoders[di].f(newLensReader(&endlessReader{1 << 22}, c02Max)) })
		h.check("endless", err != nil, "0x81 repeated", "an error", "decoded")
	}
	measure = false
	// unknown tags
	known := map[int]bool{}
	for _, tg := range []byte{lensTypeTagNil, lensTypeTagBool, lensTypeTagInt32, lensTypeTagInt64, lensTypeTagUint32, lensTypeTagUint64, lensTypeTagFloat32, lensTypeTagFloat64, lensTypeTagComplex128, lensTypeTagString, lensTypeTagBoolSlice, lensTypeTagBytes, lensTypeTagInt32Slice, lensTypeTagInt64Slice, lensTypeTagUint32Slice, lensTypeTagUint64Slice, lensTypeTagFloat32Slice, lensTypeTagFloat64Slice, lensTypeTagStringSlice, lensTypeTagSlice, lensTypeTagMap, lensTypeTagStruct} {
		known[int(tg)] = true
	}
	for _, tg := range tags {
		if !known[tg] {
			decode("unknown-tag", 1, one(tg, make([]byte, 64)), 1)
		} else {
			decode("known-tag", 1, one(tg, make([]byte, 64)), 0)
		}
	}
	// stack frame indices
	for cnt := uint64(1); cnt <= 3; cnt++ {
		for ts := uint64(0); ts <= 7; ts++ {
			for idx := uint64(0); idx < 10; idx++ {
				for pos := 0; pos < 2; pos++ {
					for _, big := range []uint64{0, 1 << 32, 1 << 63} {
						st := cat(uv(cnt), uv(ts))
						for k := uint64(0); k < ts; k++ {
							st = cat(st, "s")
						}
						fi, fn := idx+big, uint64(0)
						if pos == 1 {
							fi, fn = 0, idx+big
						}
						for k := uint64(0); k < cnt; k++ {
							if k == cnt-1 {
								st = cat(st, uv(fi), uv(fn), uv(1))
							} else {
								st = cat(st, uv(0), uv(0), uv(1))
							}
						}
						want := 1
						if ts > 0 && ts <= cnt*2 && idx+big < ts {
							want = 0
						}
						decode("stack-index", 0, cat(uv(1), make([]byte, 8), st), want)
						decode("stack-index", 1, cat(uv(1), make([]byte, 8), st, uv(0)), want)
						decode("stack-index", 3, cat(uv(1), "m", st), want)
					}
				}
			}
		}
	}
	decode("stack-count", 0, cat(uv(1), make([]byte, 8), uv(lensMonitorMaxStackFrames+1), uv(1), "s", make([]byte, 3*(lensMonitorMaxStackFrames+1))), 1)
	decode("stack-count", 0, cat(uv(1), make([]byte, 8), uv(lensMonitorMaxStackFrames), uv(1), "s", make([]byte, 3*lensMonitorMaxStackFrames)), 0)
	// overlong numbers
	decode("varint-overflow", 0, cat(bytes.Repeat([]byte{0x80}, 10), 1, make([]byte, 8), uv(0)), 1)
	decode("varint-overflow", 0, cat(bytes.Repeat([]byte{0xff}, 40), 1, make([]byte, 8), uv(0)), 1)
	// every strict prefix of a valid message is an error
	for _, v := range corpus {
		decode("valid", v.di, v.b, 0)
		if len(v.b) <= 600 {
			for n := 0; n < len(v.b); n++ {
				decode("truncated", v.di, v.b[:n], 1)
			}
		} else {
			for k := 0; k < 60; k++ {
				decode("truncated", v.di, v.b[:h.r.Intn(len(v.b))], 1)
			}
			decode("truncated", v.di, v.b[:len(v.b)-1], 1)
		}
	}
	// mutations and noise
	for i := 0; h.more(i, 400000); i++ {
		var b []byte
		di := h.r.Intn(4)
		if h.r.Intn(5) == 0 {
			b = make([]byte, h.r.Intn(60))
			h.r.Read(b)
			if h.r.Intn(2) == 0 {
				b = cat(hdr, uv(uint64(h.r.Intn(4))), "", "", h.r.Intn(40), b)
				di = 1
			}
		} else {
			if i%500 == 0 {
				addMsg()
			}
			v := corpus[h.r.Intn(len(corpus))]
			if len(v.b) > 4000 {
				continue
			}
			b = append([]byte{}, v.b...)
			di = v.di
			for k := h.r.Intn(4); k >= 0 && len(b) > 0; k-- {
				p := h.r.Intn(len(b))
				switch h.r.Intn(5) {
				case 0:
					b[p] = byte(h.r.Intn(256))
				case 1:
					b[p] ^= 1 << uint(h.r.Intn(8))
				case 2:
					b = append(b[:p], b[p+1:]...)
				case 3:
					b = append(b[:p], append(uv(counts[h.r.Intn(len(counts))]), b[p:]...)...)
				case 4:
					b[p] = []byte{0, 1, 127, 128, 255}[h.r.Intn(5)]
				}
			}
		}
		measure = i%256 == 0
		decode("mutated", di, b, -1)
	}
	h.done()
}
