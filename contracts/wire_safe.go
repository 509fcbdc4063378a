//go:build verif

// Contracts for the decoder's safety (C02): no panic, bounded reservation, bounded nesting, malformed input is an error.
package contracts

//@ mode int
//@ ghost inA (Array Iface (Array Int Int))
//@ ghost inPos (Array Iface Int)
//@ ghost inEnd (Array Iface Int)
//@ pure fmt.Sprintf
//@ macro okR(lr) = lr.r != nil && lr.maxFieldLen >= 0 && inPos[lr.r] >= 0 && inPos[lr.r] <= inEnd[lr.r] && lr.depth >= 0 && lr.depth <= 10000
//@ macro keeps(lr) = lr.r == old(lr.r) && lr.maxFieldLen == old(lr.maxFieldLen) && lr.depth == old(lr.depth) && inPos[lr.r] >= old(inPos[lr.r]) && inPos[lr.r] <= inEnd[lr.r] && inPos == store(old(inPos), lr.r, inPos[lr.r])
//@ macro knownTag(t) = t == lensTypeTagNil || t == lensTypeTagBool || t == lensTypeTagInt32 || t == lensTypeTagInt64 || t == lensTypeTagUint32 || t == lensTypeTagUint64 || t == lensTypeTagFloat32 || t == lensTypeTagFloat64 || t == lensTypeTagComplex128 || t == lensTypeTagString || t == lensTypeTagBoolSlice || t == lensTypeTagBytes || t == lensTypeTagInt32Slice || t == lensTypeTagInt64Slice || t == lensTypeTagUint32Slice || t == lensTypeTagUint64Slice || t == lensTypeTagFloat32Slice || t == lensTypeTagFloat64Slice || t == lensTypeTagStringSlice || t == lensTypeTagSlice || t == lensTypeTagMap || t == lensTypeTagStruct

//@ extern io.ReadFull(r, b) (n, err)
//@ requires r != nil && inPos[r] <= inEnd[r]
//@ modifies inPos, b[*]
//@ ensures inPos == store(old(inPos), r, inPos[r]) && inPos[r] >= old(inPos)[r] && inPos[r] <= inEnd[r]
//@ ensures err == nil ==> inPos[r] == old(inPos)[r] + len(b)
//@ ensures err == nil && len(b) > 0 ==> b[0] == inA[r][old(inPos)[r]]

//@ extern io.CopyN(dst, src, n) (m, err)
//@ requires src != nil && inPos[src] <= inEnd[src]
//@ modifies inPos
//@ ensures inPos == store(old(inPos), src, inPos[src]) && inPos[src] >= old(inPos)[src] && inPos[src] <= inEnd[src]
//@ ensures err == nil && n >= 0 ==> inPos[src] == old(inPos)[src] + n

//@ extern (*strings.Builder).String(b) (s)
//@ extern (encoding/binary.littleEndian).Uint64(self, b) (v)
//@ requires len(b) >= 8
//@ extern (encoding/binary.littleEndian).Uint32(self, b) (v)
//@ requires len(b) >= 4
//@ extern math.Float64frombits(b) (f)
//@ extern math.Float32frombits(b) (f)
//@ extern errors.New(s) (e)
//@ ensures e != nil
//@ extern fmt.Errorf(f, a) (e)
//@ ensures e != nil

//@ func (*lensReader).readByte(lr) (b, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound 65536
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] == old(inPos[lr.r]) + 1 && b == inA[lr.r][old(inPos[lr.r])]

//@ func (*lensReader).readInt64(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] == old(inPos[lr.r]) + 8

//@ func (*lensReader).readFloat32(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] == old(inPos[lr.r]) + 4

//@ func (*lensReader).readFloat64(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] == old(inPos[lr.r]) + 8

//@ func (*lensReader).readVarint(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 1

//@ func (*lensReader).readSignedVarint(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 1

//@ func (*lensReader).readString(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 1

//@ func (*lensReader).readBytes(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + len(v)

//@ func (*lensReader).readBoolSlice(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen

//@ func (*lensReader).readInt32Slice(lr) (v, err)
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + i
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + len(v)

//@ func (*lensReader).readInt64Slice(lr) (v, err)
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + i
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + len(v)

//@ func (*lensReader).readUint32Slice(lr) (v, err)
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + i
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + len(v)

//@ func (*lensReader).readUint64Slice(lr) (v, err)
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + i
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + len(v)

//@ func (*lensReader).readFloat32Slice(lr) (v, err)
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + 4 * i
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 4 * len(v)

//@ func (*lensReader).readFloat64Slice(lr) (v, err)
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + 8 * i
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 8 * len(v)

//@ func (*lensReader).readStringSlice(lr) (v, err)
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + i
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lr.maxFieldLen
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + len(v)

//@ func (*lensReader).readStackFrames(lr) (v, err)
//@ loopinv inPos[lr.r] >= old(inPos[lr.r]) + 1
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + 1 + 3 * i
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 1
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) <= lensMonitorMaxStackFrames
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 3 * len(v)

//@ func (*lensReader).readFields(lr) (v, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + len(v)

//@ func (*lensReader).readFieldList(lr, count) (v, err)
//@ loopinv inPos[lr.r] <= inEnd[lr.r] && inPos[lr.r] >= old(inPos[lr.r]) && lr.r == old(lr.r) && lr.maxFieldLen == old(lr.maxFieldLen) && lr.depth == old(lr.depth) + 1 && inPos == store(old(inPos), lr.r, inPos[lr.r])
//@ loopinv (i uint64) :: inPos[lr.r] >= old(inPos[lr.r]) + 3 * i
//@ loopinv (i uint64, s []LensMonitorField) :: len(s) == i
//@ optional
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> len(v) == count && inPos[lr.r] >= old(inPos[lr.r]) + 3 * len(v)

//@ func (*lensReader).readField(lr, f) (err)
//@ requires lr != nil && f != nil && okR(lr)
//@ modifies inPos, *lr, *f
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 3

//@ func (*lensReader).readValue(lr) (v, ch, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 1
//@ # an unknown value kind is an error
//@ ensures err == nil ==> knownTag(inA[lr.r][old(inPos[lr.r])])

//@ func (*lensReader).decodeMessagePoint(lr) (msg, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 3

//@ func (*lensReader).decodeMessagePointState(lr) (msg, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 3

//@ func (*lensReader).decodeMessagePointPanic(lr) (msg, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 3

//@ func (*lensReader).decodeMessageError(lr) (msg, err)
//@ requires lr != nil && okR(lr)
//@ modifies inPos, *lr
//@ nopanic
//@ allocbound ite(old(lr.maxFieldLen) > 65536, old(lr.maxFieldLen), 65536)
//@ ensures keeps(lr)
//@ loopinv lr != nil && okR(lr) && keeps(lr)
//@ ensures err == nil ==> inPos[lr.r] >= old(inPos[lr.r]) + 3
