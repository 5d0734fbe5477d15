package polyglot

import "math"

//verif:harness
//verif:of (*BufferEncoder).Nil encodeNil Encoder
func hEncNil(store []byte) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Nil()
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsTagged(vTagNil))
}

//verif:harness
//verif:of (*BufferEncoder).Map encodeMap
func hEncMap(store []byte, size uint32, k, v byte) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Map(size, Kind([]byte{k}), Kind([]byte{v}))
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsMap(size, k, v))
}

//verif:harness
//verif:of (*BufferEncoder).Slice encodeSlice
func hEncSlice(store []byte, size uint32, k byte) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Slice(size, Kind([]byte{k}))
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsSlice(size, k))
}

//verif:harness
//verif:of (*BufferEncoder).Bool encodeBool
func hEncBool(store []byte, v bool) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Bool(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsBool(v))
}

//verif:harness
//verif:of (*BufferEncoder).Uint8 encodeUint8
func hEncUint8(store []byte, v uint8) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Uint8(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, append(vsTagged(vTagUint8), v))
}

//verif:harness
//verif:of (*BufferEncoder).Uint16 encodeUint16
func hEncUint16(store []byte, v uint16) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Uint16(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsUint(vTagUint16, uint64(v)))
}

//verif:harness
//verif:of (*BufferEncoder).Uint32 encodeUint32
func hEncUint32(store []byte, v uint32) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Uint32(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsUint(vTagUint32, uint64(v)))
}

//verif:harness
//verif:of (*BufferEncoder).Uint64 encodeUint64
func hEncUint64(store []byte, v uint64) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Uint64(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsUint(vTagUint64, v))
}

//verif:harness
//verif:of (*BufferEncoder).Int32 encodeInt32
func hEncInt32(store []byte, v int32) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Int32(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsUint(vTagInt32, vsZig(int64(v))))
}

//verif:harness
//verif:of (*BufferEncoder).Int64 encodeInt64
func hEncInt64(store []byte, v int64) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Int64(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsUint(vTagInt64, vsZig(v)))
}

//verif:harness
//verif:of (*BufferEncoder).Float32 encodeFloat32
func hEncFloat32(store []byte, bits uint32) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Float32(math.Float32frombits(bits))
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsBE(vTagFloat32, uint64(bits), 4))
}

//verif:harness
//verif:of (*BufferEncoder).Float64 encodeFloat64
func hEncFloat64(store []byte, bits uint64) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	e := Encoder(b)
	r := e.Float64(math.Float64frombits(bits))
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended(b, old, vsBE(vTagFloat64, bits, 8))
}

//verif:harness
//verif:of (*BufferEncoder).Bytes encodeBytes
func hEncBytes(store []byte, v []byte) {
	vRequire(len(v) <= math.MaxUint32)
	b := vMk(store)
	old := vSnap(b.Bytes())
	arg := vSnap(v)
	e := Encoder(b)
	r := e.Bytes(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended2(b, old, vsLenHeader(vTagBytes, len(arg)), arg)
	vEnsureSame("isolate/arg", v, arg)
	vEnsureDisjoint("isolate/kept", b.Bytes(), v)
}

//verif:harness
//verif:of (*BufferEncoder).String encodeString
func hEncString(store []byte, v string) {
	vRequire(len(v) <= math.MaxUint32)
	b := vMk(store)
	old := vSnap(b.Bytes())
	arg := []byte(v)
	e := Encoder(b)
	r := e.String(v)
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended2(b, old, vsLenHeader(vTagString, len(arg)), arg)
	vEnsureSame("isolate/arg", v, arg)
	vEnsureDisjoint("isolate/kept", b.Bytes(), v)
}

//verif:harness
//verif:of (*BufferEncoder).Error encodeError
func hEncError(store []byte, v string) {
	vRequire(len(v) <= math.MaxUint32)
	b := vMk(store)
	old := vSnap(b.Bytes())
	arg := []byte(v)
	e := Encoder(b)
	r := e.Error(vErr(v))
	vCover("encoded")
	vEnsure("chain", r == e)
	vAppended2(b, old, vsErrHeader(len(arg)), arg)
	vEnsureSame("isolate/arg", v, arg)
	vEnsureDisjoint("isolate/kept", b.Bytes(), v)
}

//verif:harness
//verif:of (*BufferEncoder).Error encodeError Error.Error
func hEncErrorValue(store []byte, v string) {
	vRequire(len(v) <= math.MaxUint32)
	b := vMk(store)
	old := vSnap(b.Bytes())
	arg := []byte(v)
	Encoder(b).Error(Error(v))
	vCover("encoded")
	vAppended2(b, old, vsErrHeader(len(arg)), arg)
}
