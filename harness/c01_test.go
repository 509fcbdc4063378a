package lens

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"
	"time"
)

func TestVerif(t *testing.T) {
	h := newVH(t, "message = id, time, stack and a generated value tree encoded by the client code and decoded by the collector code; non-trivial: more than one byte of payload")
	g := &wireGen{h}
	// primitives: solver models first, then boundary values of every length
	var prims []uint64
	for _, m := range h.cex {
		for _, s := range m {
			if v, ok := cexU64(s); ok {
				prims = append(prims, v)
			}
		}
	}
	for s := 0; s < 64; s++ {
		for d := -2; d <= 2; d++ {
			prims = append(prims, uint64(1)<<uint(s)+uint64(int64(d)))
		}
		prims = append(prims, uint64(0x5555555555555555)>>uint(s), uint64(0xAAAAAAAAAAAAAAAA)>>uint(s), ^uint64(0)<<uint(s))
	}
	for i := 0; h.more(i, 20000); i++ {
		var v uint64
		if i < len(prims) {
			v = prims[i]
		} else {
			v = g.u64()
		}
		in := fmt.Sprintf("value %#x", v)
		h.ev(in, true)
		var buf bytes.Buffer
		lw := &lensMsgEncoder{w: &buf}
		if m := h.catch(func() {
			lw.writeVarint(v)
			lw.writeSignedVarint(int64(v))
			lw.writeInt64(int64(v))
			lw.writeFloat64(math.Float64frombits(v))
			lw.writeFloat32(math.Float32frombits(uint32(v)))
			lw.writeByte(byte(v))
		}); m != "" {
			h.fail("primitive-encode", in, "no panic", m)
			continue
		}
		lr := newLensReader(iotest.OneByteReader(bytes.NewReader(buf.Bytes())), 1024)
		a, e1 := lr.readVarint()
		b, e2 := lr.readSignedVarint()
		c, e3 := lr.readInt64()
		d, e4 := lr.readFloat64()
		e, e5 := lr.readFloat32()
		f, e6 := lr.readByte()
		err := errors.Join(e1, e2, e3, e4, e5, e6)
		ok := err == nil && a == v && b == int64(v) && c == int64(v) && math.Float64bits(d) == v && math.Float32bits(e) == uint32(v) && f == byte(v)
		h.check("primitive", ok, in, in, fmt.Sprintf("varint %#x signed %#x int64 %#x float64 %#x float32 %#x byte %#x err %v", a, b, c, math.Float64bits(d), math.Float32bits(e), f, err))
	}
	// messages
	for i := 0; h.more(i, 12000); i++ {
		id := uint32(g.u64())
		ts := g.i64()
		st := g.frames()
		in := fmt.Sprintf("id=%d time=%d stack=%v", id, ts, st)
		var buf bytes.Buffer
		if !h.noPanic("point-encode", in, func() { lensEncodeMessagePoint(&buf, id, ts, st) }) {
			continue
		}
		pm, err := newLensReader(&buf, 1024).decodeMessagePoint()
		h.check("point", err == nil && pm.PointID == id && pm.TimeNS == ts && sameFrames(pm.Stack, st) && buf.Len() == 0, in, in, fmt.Sprintf("%v err %v left %d", pm, err, buf.Len()))
		h.ev(in, len(st) > 0)

		msg := g.str()
		buf.Reset()
		lensEncodeMessagePointPanic(&buf, id, ts, msg)
		pp, err := newLensReader(&buf, 1024).decodeMessagePointPanic()
		h.check("panic", err == nil && pp.PointID == id && pp.TimeNS == ts && pp.Message == msg && buf.Len() == 0, fmt.Sprintf("id=%d time=%d panic=%q", id, ts, msg), msg, fmt.Sprintf("%v err %v", pp, err))

		buf.Reset()
		lensEncodeMessageError(&buf, id, errors.New(msg), st)
		pe, err := newLensReader(&buf, 1024).decodeMessageError()
		h.check("error", err == nil && pe.PointID == id && pe.Message == msg && sameFrames(pe.Stack, st) && buf.Len() == 0, fmt.Sprintf("id=%d err=%q stack=%v", id, msg, st), msg, fmt.Sprintf("%v err %v", pe, err))

		n := h.r.Intn(4)
		if h.r.Intn(20) == 0 {
			n = 0
		}
		var snaps []lensMonitorFieldSnapshot
		var exps []expField
		for k := 0; k < n; k++ {
			v, e := g.value(3)
			e.Name = "f" + strconv.Itoa(k)
			if h.r.Intn(10) == 0 {
				e.Name = g.str()
			}
			if h.r.Intn(30) == 0 {
				v, e = nil, expField{Name: e.Name, Type: "invalid"}
			}
			snaps = append(snaps, lensMonitorFieldSnapshot{e.Name, v})
			exps = append(exps, e)
		}
		sin := fmt.Sprintf("id=%d time=%d stack=%v fields=%v", id, ts, st, exps)
		buf.Reset()
		if !h.noPanic("state-encode", sin, func() { lensEncodeMessagePointState(&buf, id, ts, st, snaps) }) {
			continue
		}
		ps, err := newLensReader(&buf, 1024).decodeMessagePointState()
		ok := err == nil && ps.PointID == id && ps.TimeNS == ts && sameFrames(ps.Stack, st) && buf.Len() == 0 && len(ps.Fields) == len(exps)
		why := ""
		if ok {
			for k := range exps {
				if why = exps[k].match(ps.Fields[k], ""); why != "" {
					ok = false
					break
				}
			}
		}
		h.check("state", ok, sin, "same message", fmt.Sprintf("%s; %v err %v left %d", why, ps, err, buf.Len()))
		h.ev(sin, n > 0)
	}
	// cycles and depth terminate and are decodable
	type node struct {
		V    int
		Next *node
	}
	cyc := &node{V: 1}
	cyc.Next = &node{V: 2, Next: cyc}
	deep := &node{}
	for i := 0; i < 400; i++ {
		deep = &node{V: i, Next: deep}
	}
	selfm := map[string]any{}
	selfm["me"] = selfm
	sels := make([]any, 1)
	sels[0] = sels
	var selfi any
	selfi = &selfi
	type pp *pp
	var selfp pp
	selfp = &selfp
	for nm, v := range map[string]any{"cycle": cyc, "deep": deep, "selfmap": selfm, "selfslice": sels, "self-interface": selfi, "self-pointer": selfp} {
		h.cur(nm)
		var buf bytes.Buffer
		h.ev(nm, true)
		done := h.within(20*time.Second, func() {
			h.noPanic("cyclic-"+nm, nm, func() {
				lensEncodeMessagePointState(&buf, 1, 2, nil, []lensMonitorFieldSnapshot{{"x", v}, {"y", 7}})
			})
		})
		if !h.check("cyclic-"+nm, done, nm, "encoding terminates", "still running after 20 s") {
			continue
		}
		ps, err := newLensReader(&buf, 1024).decodeMessagePointState()
		h.check("cyclic-"+nm, err == nil && len(ps.Fields) == 2 && ps.Fields[0].Name == "x" && ps.Fields[1].Value == int64(7), nm, "decodable", fmt.Sprintf("%v %v", ps, err))
	}
	// end to end through the HTTP handlers
	rec := &recHandler{}
	var ph astPointHandler = rec
	s := &astServer{maxFieldLen: 1024}
	s.pointHandler.Store(&ph)
	mux := http.NewServeMux()
	mux.HandleFunc(lensMonitorEndpointPathError, s.handleEventError)
	mux.HandleFunc(lensMonitorEndpointPathPoint, s.handlePoint)
	mux.HandleFunc(lensMonitorEndpointPathState, s.handlePointState)
	mux.HandleFunc(lensMonitorEndpointPathPanic, s.handlePointPanic)
	srv := httptest.NewServer(mux)
	defer srv.Close()
	lensMonitorEndpointError = srv.URL + lensMonitorEndpointPathError
	lensMonitorEndpointPoint = srv.URL + lensMonitorEndpointPathPoint
	lensMonitorEndpointState = srv.URL + lensMonitorEndpointPathState
	lensMonitorEndpointPanic = srv.URL + lensMonitorEndpointPathPanic
	for i := 0; i < 60; i++ {
		id := uint32(g.u64())
		v, e := g.value(2)
		e.Name = "v"
		*rec = recHandler{}
		sendLensPointMessage(id)
		sendLensPointStateMessage(id, lensMonitorFieldSnapshot{"v", v}, lensMonitorFieldSnapshot{"nil", nil})
		sendLensPointRecoveryMessage(id, "boom")
		ok := len(rec.p) == 1 && len(rec.s) == 1 && len(rec.pn) == 1 && rec.p[0].PointID == id && rec.s[0].PointID == id && rec.pn[0].PointID == id && rec.pn[0].Message == "boom" && len(rec.s[0].Fields) == 1
		why := ""
		if ok {
			why = e.match(rec.s[0].Fields[0], "")
			st := rec.p[0].Stack
			ok = why == "" && len(st) > 0 && strings.Contains(st[0].Function, "TestVerif")
			if ok {
				ok = rec.p[0].TimeNS <= rec.s[0].TimeNS && rec.s[0].TimeNS <= rec.pn[0].TimeNS
			}
		}
		in := fmt.Sprintf("send id=%d value %v", id, e)
		h.ev(in, true)
		h.check("send", ok, in, "delivered unchanged", fmt.Sprintf("%s %v", why, *rec))
	}
	h.done()
}
