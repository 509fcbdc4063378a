//go:build verif

// Contracts for the wire primitives (astclient.go, astsrv.go). Machine integers are 64-bit vectors here.
package contracts

//@ mode bv
//@ # Ghost byte streams: what a writer has been given, what a reader still has to deliver.
//@ ghost outA (Array Iface (Array (_ BitVec 64) (_ BitVec 8)))
//@ ghost outN (Array Iface (_ BitVec 64))
//@ ghost inA (Array Iface (Array (_ BitVec 64) (_ BitVec 8)))
//@ ghost inPos (Array Iface (_ BitVec 64))
//@ ghost inEnd (Array Iface (_ BitVec 64))
//@ # specification function: length and i-th byte of the base-128 encoding of v
//@ smt (define-fun vlen ((v (_ BitVec 64))) (_ BitVec 64) (ite (bvult v (_ bv128 64)) (_ bv1 64) (ite (bvult v (_ bv16384 64)) (_ bv2 64) (ite (bvult v (_ bv2097152 64)) (_ bv3 64) (ite (bvult v (_ bv268435456 64)) (_ bv4 64) (ite (bvult v (_ bv34359738368 64)) (_ bv5 64) (ite (bvult v (_ bv4398046511104 64)) (_ bv6 64) (ite (bvult v (_ bv562949953421312 64)) (_ bv7 64) (ite (bvult v (_ bv72057594037927936 64)) (_ bv8 64) (ite (bvult v (_ bv9223372036854775808 64)) (_ bv9 64) (_ bv10 64)))))))))))
//@ smt (define-fun vbyte ((v (_ BitVec 64)) (i (_ BitVec 64))) (_ BitVec 8) (bvor (bvand (_ bv127 8) ((_ extract 7 0) (bvlshr v (bvmul i (_ bv7 64))))) (ite (bvult (bvadd i (_ bv1 64)) (vlen v)) (_ bv128 8) (_ bv0 8))))
//@ sig vlen((_ BitVec 64)) (_ BitVec 64)
//@ sig vbyte((_ BitVec 64); (_ BitVec 64)) (_ BitVec 8)
//@ # canonical decoder: number of bytes, value, and whether the bytes are what the encoder would have written
//@ smt (define-fun decN ((a (Array (_ BitVec 64) (_ BitVec 8))) (p (_ BitVec 64))) (_ BitVec 64) (ite (bvult (select a (bvadd p (_ bv0 64))) (_ bv128 8)) (_ bv1 64) (ite (bvult (select a (bvadd p (_ bv1 64))) (_ bv128 8)) (_ bv2 64) (ite (bvult (select a (bvadd p (_ bv2 64))) (_ bv128 8)) (_ bv3 64) (ite (bvult (select a (bvadd p (_ bv3 64))) (_ bv128 8)) (_ bv4 64) (ite (bvult (select a (bvadd p (_ bv4 64))) (_ bv128 8)) (_ bv5 64) (ite (bvult (select a (bvadd p (_ bv5 64))) (_ bv128 8)) (_ bv6 64) (ite (bvult (select a (bvadd p (_ bv6 64))) (_ bv128 8)) (_ bv7 64) (ite (bvult (select a (bvadd p (_ bv7 64))) (_ bv128 8)) (_ bv8 64) (ite (bvult (select a (bvadd p (_ bv8 64))) (_ bv128 8)) (_ bv9 64) (ite (bvult (select a (bvadd p (_ bv9 64))) (_ bv128 8)) (_ bv10 64) (_ bv11 64))))))))))))
//@ smt (define-fun decV ((a (Array (_ BitVec 64) (_ BitVec 8))) (p (_ BitVec 64))) (_ BitVec 64) (ite (= (decN a p) (_ bv1 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (ite (= (decN a p) (_ bv2 64)) (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (ite (= (decN a p) (_ bv3 64)) (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (ite (= (decN a p) (_ bv4 64)) (bvor (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv3 64))) (_ bv127 8))) (_ bv21 64))) (ite (= (decN a p) (_ bv5 64)) (bvor (bvor (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv3 64))) (_ bv127 8))) (_ bv21 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv4 64))) (_ bv127 8))) (_ bv28 64))) (ite (= (decN a p) (_ bv6 64)) (bvor (bvor (bvor (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv3 64))) (_ bv127 8))) (_ bv21 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv4 64))) (_ bv127 8))) (_ bv28 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv5 64))) (_ bv127 8))) (_ bv35 64))) (ite (= (decN a p) (_ bv7 64)) (bvor (bvor (bvor (bvor (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv3 64))) (_ bv127 8))) (_ bv21 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv4 64))) (_ bv127 8))) (_ bv28 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv5 64))) (_ bv127 8))) (_ bv35 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv6 64))) (_ bv127 8))) (_ bv42 64))) (ite (= (decN a p) (_ bv8 64)) (bvor (bvor (bvor (bvor (bvor (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv3 64))) (_ bv127 8))) (_ bv21 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv4 64))) (_ bv127 8))) (_ bv28 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv5 64))) (_ bv127 8))) (_ bv35 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv6 64))) (_ bv127 8))) (_ bv42 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv7 64))) (_ bv127 8))) (_ bv49 64))) (ite (= (decN a p) (_ bv9 64)) (bvor (bvor (bvor (bvor (bvor (bvor (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv3 64))) (_ bv127 8))) (_ bv21 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv4 64))) (_ bv127 8))) (_ bv28 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv5 64))) (_ bv127 8))) (_ bv35 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv6 64))) (_ bv127 8))) (_ bv42 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv7 64))) (_ bv127 8))) (_ bv49 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv8 64))) (_ bv127 8))) (_ bv56 64))) (bvor (bvor (bvor (bvor (bvor (bvor (bvor (bvor (bvor (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv0 64))) (_ bv127 8))) (_ bv0 64)) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv1 64))) (_ bv127 8))) (_ bv7 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv2 64))) (_ bv127 8))) (_ bv14 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv3 64))) (_ bv127 8))) (_ bv21 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv4 64))) (_ bv127 8))) (_ bv28 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv5 64))) (_ bv127 8))) (_ bv35 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv6 64))) (_ bv127 8))) (_ bv42 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv7 64))) (_ bv127 8))) (_ bv49 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv8 64))) (_ bv127 8))) (_ bv56 64))) (bvshl ((_ zero_extend 56) (bvand (select a (bvadd p (_ bv9 64))) (_ bv127 8))) (_ bv63 64)))))))))))))
//@ smt (define-fun canon ((a (Array (_ BitVec 64) (_ BitVec 8))) (p (_ BitVec 64))) Bool (and (bvule (decN a p) (_ bv10 64)) (= (vlen (decV a p)) (decN a p)) (=> (= (decN a p) (_ bv10 64)) (bvult (select a (bvadd p (_ bv9 64))) (_ bv2 8)))))
//@ sig decN((Array (_ BitVec 64) (_ BitVec 8)); (_ BitVec 64)) uint64
//@ sig decV((Array (_ BitVec 64) (_ BitVec 8)); (_ BitVec 64)) uint64
//@ sig canon((Array (_ BitVec 64) (_ BitVec 8)); (_ BitVec 64)) Bool
//@ macro emitted(w, v, n0) = (uint64(0) < vlen(v) ==> outA[w][n0+0] == vbyte(v, 0)) && (uint64(1) < vlen(v) ==> outA[w][n0+1] == vbyte(v, 1)) && (uint64(2) < vlen(v) ==> outA[w][n0+2] == vbyte(v, 2)) && (uint64(3) < vlen(v) ==> outA[w][n0+3] == vbyte(v, 3)) && (uint64(4) < vlen(v) ==> outA[w][n0+4] == vbyte(v, 4)) && (uint64(5) < vlen(v) ==> outA[w][n0+5] == vbyte(v, 5)) && (uint64(6) < vlen(v) ==> outA[w][n0+6] == vbyte(v, 6)) && (uint64(7) < vlen(v) ==> outA[w][n0+7] == vbyte(v, 7)) && (uint64(8) < vlen(v) ==> outA[w][n0+8] == vbyte(v, 8)) && (uint64(9) < vlen(v) ==> outA[w][n0+9] == vbyte(v, 9))
//@ macro holds(a, v, p0) = (uint64(0) < vlen(v) ==> a[p0+0] == vbyte(v, 0)) && (uint64(1) < vlen(v) ==> a[p0+1] == vbyte(v, 1)) && (uint64(2) < vlen(v) ==> a[p0+2] == vbyte(v, 2)) && (uint64(3) < vlen(v) ==> a[p0+3] == vbyte(v, 3)) && (uint64(4) < vlen(v) ==> a[p0+4] == vbyte(v, 4)) && (uint64(5) < vlen(v) ==> a[p0+5] == vbyte(v, 5)) && (uint64(6) < vlen(v) ==> a[p0+6] == vbyte(v, 6)) && (uint64(7) < vlen(v) ==> a[p0+7] == vbyte(v, 7)) && (uint64(8) < vlen(v) ==> a[p0+8] == vbyte(v, 8)) && (uint64(9) < vlen(v) ==> a[p0+9] == vbyte(v, 9))
//@ macro appended(w, n) = outN == store(old(outN), w, old(outN)[w] + n) && outA == store(old(outA), w, outA[w]) && (forall i uint64 :: i < uint64(old(outN)[w]) ==> outA[w][i] == old(outA)[w][i])
//@ macro sane(w) = w != nil && uint64(outN[w]) < 1099511627776
//@ macro saneR(r) = r != nil && uint64(inEnd[r]) < 1099511627776 && uint64(inPos[r]) <= uint64(inEnd[r])
//@ macro moved(r, n) = inPos == store(old(inPos), r, old(inPos)[r] + n)

//@ # every encoding decodes, canonically, to the value encoded
//@ theorem roundtrip1 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 1 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip2 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 2 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip3 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 3 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip4 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 4 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip5 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 5 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip6 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 6 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip7 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 7 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip8 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 8 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip9 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 9 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem roundtrip10 (a (Array (_ BitVec 64) (_ BitVec 8)), p uint64, u uint64) :: vlen(u) == 10 && holds(a, u, p) ==> canon(a, p) && decV(a, p) == u && decN(a, p) == vlen(u)
//@ theorem zigzag (u int64) :: unzz(zz(u)) == u
//@ macro unzz(v) = int64(v >> 1) ^ (-int64(v & uint64(1)))

//@ extern io.Writer.Write(w, p) (n, err)
//@ requires len(p) <= 10
//@ modifies outA, outN
//@ ensures appended(w, len(p))
//@ ensures (len(p) > 0 ==> outA[w][old(outN)[w]+0] == p[0]) && (len(p) > 1 ==> outA[w][old(outN)[w]+1] == p[1]) && (len(p) > 2 ==> outA[w][old(outN)[w]+2] == p[2]) && (len(p) > 3 ==> outA[w][old(outN)[w]+3] == p[3]) && (len(p) > 4 ==> outA[w][old(outN)[w]+4] == p[4]) && (len(p) > 5 ==> outA[w][old(outN)[w]+5] == p[5]) && (len(p) > 6 ==> outA[w][old(outN)[w]+6] == p[6]) && (len(p) > 7 ==> outA[w][old(outN)[w]+7] == p[7]) && (len(p) > 8 ==> outA[w][old(outN)[w]+8] == p[8]) && (len(p) > 9 ==> outA[w][old(outN)[w]+9] == p[9])

//@ extern io.ReadFull(r, b) (n, err)
//@ requires len(b) <= 8 && saneR(r)
//@ modifies inPos, b[*]
//@ ensures uint64(old(inPos)[r]) + uint64(len(b)) <= uint64(inEnd[r]) ==> err == nil
//@ ensures err == nil ==> moved(r, len(b)) && saneR(r)
//@ ensures err != nil ==> saneR(r) && inPos == store(old(inPos), r, inPos[r])
//@ ensures err == nil ==> (len(b) > 0 ==> b[0] == inA[r][old(inPos)[r]+0]) && (len(b) > 1 ==> b[1] == inA[r][old(inPos)[r]+1]) && (len(b) > 2 ==> b[2] == inA[r][old(inPos)[r]+2]) && (len(b) > 3 ==> b[3] == inA[r][old(inPos)[r]+3]) && (len(b) > 4 ==> b[4] == inA[r][old(inPos)[r]+4]) && (len(b) > 5 ==> b[5] == inA[r][old(inPos)[r]+5]) && (len(b) > 6 ==> b[6] == inA[r][old(inPos)[r]+6]) && (len(b) > 7 ==> b[7] == inA[r][old(inPos)[r]+7])

//@ extern (encoding/binary.littleEndian).PutUint64(self, b, v) ()
//@ requires len(b) >= 8
//@ modifies b[*]
//@ ensures b[0] == uint8(v >> 0) && b[1] == uint8(v >> 8) && b[2] == uint8(v >> 16) && b[3] == uint8(v >> 24) && b[4] == uint8(v >> 32) && b[5] == uint8(v >> 40) && b[6] == uint8(v >> 48) && b[7] == uint8(v >> 56)
//@ extern (encoding/binary.littleEndian).Uint64(self, b) (v)
//@ requires len(b) >= 8
//@ ensures v == (uint64(b[0]) << 0) | (uint64(b[1]) << 8) | (uint64(b[2]) << 16) | (uint64(b[3]) << 24) | (uint64(b[4]) << 32) | (uint64(b[5]) << 40) | (uint64(b[6]) << 48) | (uint64(b[7]) << 56)

//@ extern (encoding/binary.littleEndian).PutUint32(self, b, v) ()
//@ requires len(b) >= 4
//@ modifies b[*]
//@ ensures b[0] == uint8(v >> 0) && b[1] == uint8(v >> 8) && b[2] == uint8(v >> 16) && b[3] == uint8(v >> 24)
//@ extern (encoding/binary.littleEndian).Uint32(self, b) (v)
//@ requires len(b) >= 4
//@ ensures v == (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)

//@ extern math.Float64bits(f) (b)
//@ det
//@ extern math.Float64frombits(b) (f)
//@ det

//@ extern math.Float32bits(f) (b)
//@ det
//@ extern math.Float32frombits(b) (f)
//@ det

//@ extern errors.New(s) (e)
//@ ensures e != nil

//@ func (*lensMsgEncoder).writeByte(lw, b) ()
//@ requires sane(lw.w)
//@ modifies outA, outN, *lw
//@ nopanic
//@ ensures appended(lw.w, 1) && outA[lw.w][old(outN)[lw.w]] == b
//@ ensures lw.w == old(lw.w)

//@ func (*lensMsgEncoder).writeVarint(lw, v) ()
//@ requires sane(lw.w)
//@ modifies outA, outN, *lw
//@ nopanic
//@ unroll 10
//@ cex v
//@ ensures appended(old(lw.w), vlen(v))
//@ ensures emitted(old(lw.w), v, old(outN)[old(lw.w)])
//@ ensures lw.w == old(lw.w)

//@ func (*lensMsgEncoder).writeSignedVarint(lw, v) ()
//@ requires sane(lw.w)
//@ modifies outA, outN, *lw
//@ nopanic
//@ cex v
//@ ensures appended(old(lw.w), vlen(zz(v)))
//@ ensures emitted(old(lw.w), zz(v), old(outN)[old(lw.w)])
//@ ensures lw.w == old(lw.w)
//@ macro zz(v) = uint64(v << 1) ^ uint64(v >> 63)

//@ func (*lensReader).readByte(lr) (b, err)
//@ requires saneR(lr.r)
//@ modifies inPos, *lr
//@ nopanic
//@ ensures lr.r == old(lr.r) && lr.maxFieldLen == old(lr.maxFieldLen) && saneR(lr.r)
//@ ensures inPos == store(old(inPos), lr.r, inPos[lr.r])
//@ ensures uint64(old(inPos)[lr.r]) < uint64(inEnd[lr.r]) ==> err == nil
//@ ensures err == nil ==> b == inA[lr.r][old(inPos)[lr.r]] && moved(lr.r, 1)

//@ func (*lensReader).readVarint(lr) (v, err)
//@ first cvc5
//@ timeout 150
//@ requires saneR(lr.r)
//@ modifies inPos, *lr
//@ nopanic
//@ unroll 10
//@ ensures lr.r == old(lr.r) && lr.maxFieldLen == old(lr.maxFieldLen) && saneR(lr.r)
//@ ensures inPos == store(old(inPos), lr.r, inPos[lr.r])
//@ # inverse of the encoder, for every value v
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 1 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 1 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 1)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 2 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 2 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 2)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 3 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 3 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 3)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 4 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 4 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 4)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 5 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 5 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 5)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 6 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 6 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 6)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 7 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 7 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 7)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 8 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 8 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 8)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 9 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 9 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 9)
//@ ensures decN(inA[lr.r], old(inPos)[lr.r]) == 10 && canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + 10 <= uint64(inEnd[lr.r]) ==> err == nil && v == decV(inA[lr.r], old(inPos)[lr.r]) && moved(lr.r, 10)

//@ func (*lensReader).readSignedVarint(lr) (v, err)
//@ requires saneR(lr.r)
//@ modifies inPos, *lr
//@ nopanic
//@ ensures canon(inA[lr.r], old(inPos)[lr.r]) && uint64(old(inPos)[lr.r]) + decN(inA[lr.r], old(inPos)[lr.r]) <= uint64(inEnd[lr.r]) ==> err == nil && v == unzz(decV(inA[lr.r], old(inPos)[lr.r])) && moved(lr.r, decN(inA[lr.r], old(inPos)[lr.r]))

//@ func (*lensMsgEncoder).writeInt64(lw, v) ()
//@ requires sane(lw.w)
//@ modifies outA, outN, *lw
//@ nopanic
//@ cex v
//@ ensures appended(old(lw.w), 8)
//@ ensures outA[old(lw.w)][old(outN)[old(lw.w)]+0] == uint8(uint64(v) >> 0) && outA[old(lw.w)][old(outN)[old(lw.w)]+1] == uint8(uint64(v) >> 8) && outA[old(lw.w)][old(outN)[old(lw.w)]+2] == uint8(uint64(v) >> 16) && outA[old(lw.w)][old(outN)[old(lw.w)]+3] == uint8(uint64(v) >> 24) && outA[old(lw.w)][old(outN)[old(lw.w)]+4] == uint8(uint64(v) >> 32) && outA[old(lw.w)][old(outN)[old(lw.w)]+5] == uint8(uint64(v) >> 40) && outA[old(lw.w)][old(outN)[old(lw.w)]+6] == uint8(uint64(v) >> 48) && outA[old(lw.w)][old(outN)[old(lw.w)]+7] == uint8(uint64(v) >> 56)
//@ ensures lw.w == old(lw.w)

//@ func (*lensReader).readInt64(lr) (v, err)
//@ requires saneR(lr.r)
//@ modifies inPos, *lr
//@ nopanic
//@ ensures uint64(old(inPos)[lr.r]) + 8 <= uint64(inEnd[lr.r]) ==> err == nil && moved(lr.r, 8)
//@ ensures err == nil ==> uint64(v) == ((uint64(inA[lr.r][old(inPos)[lr.r]+0]) << 0) | (uint64(inA[lr.r][old(inPos)[lr.r]+1]) << 8) | (uint64(inA[lr.r][old(inPos)[lr.r]+2]) << 16) | (uint64(inA[lr.r][old(inPos)[lr.r]+3]) << 24) | (uint64(inA[lr.r][old(inPos)[lr.r]+4]) << 32) | (uint64(inA[lr.r][old(inPos)[lr.r]+5]) << 40) | (uint64(inA[lr.r][old(inPos)[lr.r]+6]) << 48) | (uint64(inA[lr.r][old(inPos)[lr.r]+7]) << 56))

//@ func (*lensMsgEncoder).writeFloat64(lw, v) ()
//@ requires sane(lw.w)
//@ modifies outA, outN, *lw
//@ nopanic
//@ ensures appended(old(lw.w), 8)
//@ ensures outA[old(lw.w)][old(outN)[old(lw.w)]+0] == uint8(det("math.Float64bits", 0, v) >> 0) && outA[old(lw.w)][old(outN)[old(lw.w)]+1] == uint8(det("math.Float64bits", 0, v) >> 8) && outA[old(lw.w)][old(outN)[old(lw.w)]+2] == uint8(det("math.Float64bits", 0, v) >> 16) && outA[old(lw.w)][old(outN)[old(lw.w)]+3] == uint8(det("math.Float64bits", 0, v) >> 24) && outA[old(lw.w)][old(outN)[old(lw.w)]+4] == uint8(det("math.Float64bits", 0, v) >> 32) && outA[old(lw.w)][old(outN)[old(lw.w)]+5] == uint8(det("math.Float64bits", 0, v) >> 40) && outA[old(lw.w)][old(outN)[old(lw.w)]+6] == uint8(det("math.Float64bits", 0, v) >> 48) && outA[old(lw.w)][old(outN)[old(lw.w)]+7] == uint8(det("math.Float64bits", 0, v) >> 56)
//@ ensures lw.w == old(lw.w)

//@ func (*lensReader).readFloat64(lr) (v, err)
//@ requires saneR(lr.r)
//@ modifies inPos, *lr
//@ nopanic
//@ ensures uint64(old(inPos)[lr.r]) + 8 <= uint64(inEnd[lr.r]) ==> err == nil && moved(lr.r, 8)
//@ ensures err == nil ==> v == det("math.Float64frombits", 0, (uint64(inA[lr.r][old(inPos)[lr.r]+0]) << 0) | (uint64(inA[lr.r][old(inPos)[lr.r]+1]) << 8) | (uint64(inA[lr.r][old(inPos)[lr.r]+2]) << 16) | (uint64(inA[lr.r][old(inPos)[lr.r]+3]) << 24) | (uint64(inA[lr.r][old(inPos)[lr.r]+4]) << 32) | (uint64(inA[lr.r][old(inPos)[lr.r]+5]) << 40) | (uint64(inA[lr.r][old(inPos)[lr.r]+6]) << 48) | (uint64(inA[lr.r][old(inPos)[lr.r]+7]) << 56))

//@ func (*lensMsgEncoder).writeFloat32(lw, v) ()
//@ requires sane(lw.w)
//@ modifies outA, outN, *lw
//@ nopanic
//@ ensures appended(old(lw.w), 4)
//@ ensures outA[old(lw.w)][old(outN)[old(lw.w)]+0] == uint8(det("math.Float32bits", 0, v) >> 0) && outA[old(lw.w)][old(outN)[old(lw.w)]+1] == uint8(det("math.Float32bits", 0, v) >> 8) && outA[old(lw.w)][old(outN)[old(lw.w)]+2] == uint8(det("math.Float32bits", 0, v) >> 16) && outA[old(lw.w)][old(outN)[old(lw.w)]+3] == uint8(det("math.Float32bits", 0, v) >> 24)
//@ ensures lw.w == old(lw.w)

//@ func (*lensReader).readFloat32(lr) (v, err)
//@ requires saneR(lr.r)
//@ modifies inPos, *lr
//@ nopanic
//@ ensures uint64(old(inPos)[lr.r]) + 4 <= uint64(inEnd[lr.r]) ==> err == nil && moved(lr.r, 4)
//@ ensures err == nil ==> v == det("math.Float32frombits", 0, (uint32(inA[lr.r][old(inPos)[lr.r]+0]) << 0) | (uint32(inA[lr.r][old(inPos)[lr.r]+1]) << 8) | (uint32(inA[lr.r][old(inPos)[lr.r]+2]) << 16) | (uint32(inA[lr.r][old(inPos)[lr.r]+3]) << 24))

//@ sig det:math.Float64bits(_) uint64
//@ sig det:math.Float32bits(_) uint32
//@ sig det:math.Float64frombits(_) float64
//@ sig det:math.Float32frombits(_) float32
