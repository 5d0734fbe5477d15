package polyglot

import "math"

// vSplit selects the part of the contract the call is under: the input starts
// with a well-formed encoding or it does not.
func vSplit(ok bool) {
	if ok {
		vAspect("accept")
		vCover("accept")
	} else {
		vAspect("reject")
		vCover("reject")
	}
}

//verif:harness
//verif:of (*Decoder).Nil decodeNil GetDecoder
func hDecNil(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	ok := len(b) > 0 && b[0] == vTagNil
	vSplit(ok)
	got := d.Nil()
	if ok {
		vEnsure("accept/value", got)
		vEnsureRest("accept/rest", vRest(d), b, 1)
	} else {
		vEnsure("reject/value", !got)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Map decodeMap
func hDecMap(b []byte, k, v byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	match := len(b) > 2 && b[0] == vTagMap && b[1] == k && b[2] == v
	size, used, ok := 0, 0, false
	if match {
		size, used, ok = vsPLen(b, 3)
	}
	vSplit(ok)
	got, err := d.Map(Kind([]byte{k}), Kind([]byte{v}))
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == uint32(size))
		vEnsureRest("accept/rest", vRest(d), b, 3+used)
	} else {
		vEnsure("reject/err", err == InvalidMap)
		vEnsure("reject/zero", got == 0)
		if match || len(b) <= 2 && (len(b) == 0 || b[0] == vTagMap) {
			vEnsureSuffix("position/suffix", vRest(d), b)
		} else {
			vEnsureRest("position/unchanged", vRest(d), b, 0)
		}
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Slice decodeSlice
func hDecSlice(b []byte, k byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	match := len(b) > 1 && b[0] == vTagSlice && b[1] == k
	size, used, ok := 0, 0, false
	if match {
		size, used, ok = vsPLen(b, 2)
	}
	vSplit(ok)
	got, err := d.Slice(Kind([]byte{k}))
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == uint32(size))
		vEnsureRest("accept/rest", vRest(d), b, 2+used)
	} else {
		vEnsure("reject/err", err == InvalidSlice)
		vEnsure("reject/zero", got == 0)
		if match || len(b) <= 1 && (len(b) == 0 || b[0] == vTagSlice) {
			vEnsureSuffix("position/suffix", vRest(d), b)
		} else {
			vEnsureRest("position/unchanged", vRest(d), b, 0)
		}
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Bytes decodeBytes
func hDecBytes(b []byte, scratch []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	s, n, ok := vsPPayload(b, 0, vTagBytes)
	vSplit(ok)
	got, err := d.Bytes(scratch)
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsureSame("accept/value", got, in[s:n])
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidBytes)
		vEnsure("reject/zero", got == nil)
		vTagPosition(d, b, vTagBytes)
	}
	vEnsureSame("isolate/input", b, in)
	vEnsureDisjoint("isolate/copy", got, b)
	if ok {
		vEnsureSame("isolate/scratch", got, in[s:n])
	}
}

// vTagPosition: a wrong tag leaves the position alone; any other failure
// leaves it inside the input, not before where it was.
func vTagPosition(d *Decoder, b []byte, tag byte) {
	if len(b) > 0 && b[0] != tag {
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	} else {
		vEnsureSuffix("position/suffix", vRest(d), b)
	}
}

//verif:harness
//verif:of (*Decoder).String decodeString
func hDecString(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	s, n, ok := vsPPayload(b, 0, vTagString)
	vSplit(ok)
	got, err := d.String()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsureSame("accept/value", got, in[s:n])
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidString)
		vEnsure("reject/zero", len(got) == 0)
		vTagPosition(d, b, vTagString)
	}
	vEnsureSame("isolate/input", b, in)
	vEnsureDisjoint("isolate/copy", got, b)
}

//verif:harness
//verif:of (*Decoder).Error decodeError Error.Error
func hDecError(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	s, n, ok := 0, 0, false
	if len(b) > 0 && b[0] == vTagError {
		s, n, ok = vsPPayload(b, 1, vTagString)
	}
	vSplit(ok)
	got, err := d.Error()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/some", got != nil)
		if got != nil {
			vEnsureSame("accept/value", got.Error(), in[s:n])
		}
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidError)
		vEnsure("reject/zero", got == nil)
		vTagPosition(d, b, vTagError)
	}
	vEnsureSame("isolate/input", b, in)
	if got != nil {
		vEnsureDisjoint("isolate/copy", got.Error(), b)
	}
}

//verif:harness
//verif:of (*Decoder).Bool decodeBool
func hDecBool(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	ok := len(b) > 1 && b[0] == vTagBool
	vSplit(ok)
	got, err := d.Bool()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == (b[1] == 1))
		vEnsureRest("accept/rest", vRest(d), b, 2)
	} else {
		vEnsure("reject/err", err == InvalidBool)
		vEnsure("reject/zero", !got)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Uint8 decodeUint8
func hDecUint8(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	ok := len(b) > 1 && b[0] == vTagUint8
	vSplit(ok)
	got, err := d.Uint8()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == b[1])
		vEnsureRest("accept/rest", vRest(d), b, 2)
	} else {
		vEnsure("reject/err", err == InvalidUint8)
		vEnsure("reject/zero", got == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Uint16 decodeUint16
func hDecUint16(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	v, n, ok := vsPUint(b, 0, vTagUint16, 3, 0x03)
	vSplit(ok)
	got, err := d.Uint16()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == uint16(v))
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidUint16)
		vEnsure("reject/zero", got == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Uint32 decodeUint32
func hDecUint32(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	v, n, ok := vsPUint(b, 0, vTagUint32, 5, 0x0f)
	vSplit(ok)
	got, err := d.Uint32()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == uint32(v))
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidUint32)
		vEnsure("reject/zero", got == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Uint64 decodeUint64
func hDecUint64(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	v, n, ok := vsPUint(b, 0, vTagUint64, 10, 0x01)
	vSplit(ok)
	got, err := d.Uint64()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == v)
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidUint64)
		vEnsure("reject/zero", got == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Int32 decodeInt32
func hDecInt32(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	v, n, ok := vsPUint(b, 0, vTagInt32, 5, 0x0f)
	vSplit(ok)
	got, err := d.Int32()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == int32(vsZag(v)))
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidInt32)
		vEnsure("reject/zero", got == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Int64 decodeInt64
func hDecInt64(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	v, n, ok := vsPUint(b, 0, vTagInt64, 10, 0x01)
	vSplit(ok)
	got, err := d.Int64()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", got == vsZag(v))
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidInt64)
		vEnsure("reject/zero", got == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Float32 decodeFloat32
func hDecFloat32(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	v, n, ok := vsPBE(b, vTagFloat32, 4)
	vSplit(ok)
	got, err := d.Float32()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", math.Float32bits(got) == uint32(v))
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidFloat32)
		vEnsure("reject/zero", math.Float32bits(got) == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}

//verif:harness
//verif:of (*Decoder).Float64 decodeFloat64
func hDecFloat64(b []byte) {
	in := vSnap(b)
	d := GetDecoder(b)
	v, n, ok := vsPBE(b, vTagFloat64, 8)
	vSplit(ok)
	got, err := d.Float64()
	if ok {
		vEnsure("accept/err", err == nil)
		vEnsure("accept/value", math.Float64bits(got) == uint64(v))
		vEnsureRest("accept/rest", vRest(d), b, n)
	} else {
		vEnsure("reject/err", err == InvalidFloat64)
		vEnsure("reject/zero", math.Float64bits(got) == 0)
		vEnsureRest("position/unchanged", vRest(d), b, 0)
	}
	vEnsureSame("isolate/input", b, in)
}
