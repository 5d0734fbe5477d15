package polyglot

import "math"

//verif:harness
//verif:of (*BufferEncoder).Nil (*BufferDecoder).Nil (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamNil(store []byte, off int, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Nil()
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got := d.Nil()
	vEnsure("stream/ok", got)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Map (*BufferDecoder).Map (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamMap(store []byte, off int, n uint32, k, v byte, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Map(n, Kind(k), Kind(v))
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Map(Kind(k), Kind(v))
	vEnsure("stream/ok", err == nil && got == n)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Slice (*BufferDecoder).Slice (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamSlice(store []byte, off int, n uint32, k byte, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Slice(n, Kind(k))
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Slice(Kind(k))
	vEnsure("stream/ok", err == nil && got == n)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Bool (*BufferDecoder).Bool (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamBool(store []byte, off int, v bool, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Bool(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Bool()
	vEnsure("stream/ok", err == nil && got == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Uint8 (*BufferDecoder).Uint8 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamUint8(store []byte, off int, v uint8, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Uint8(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Uint8()
	vEnsure("stream/ok", err == nil && got == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Uint16 (*BufferDecoder).Uint16 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamUint16(store []byte, off int, v uint16, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Uint16(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Uint16()
	vEnsure("stream/ok", err == nil && got == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Uint32 (*BufferDecoder).Uint32 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamUint32(store []byte, off int, v uint32, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Uint32(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Uint32()
	vEnsure("stream/ok", err == nil && got == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Uint64 (*BufferDecoder).Uint64 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamUint64(store []byte, off int, v uint64, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Uint64(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Uint64()
	vEnsure("stream/ok", err == nil && got == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Int32 (*BufferDecoder).Int32 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamInt32(store []byte, off int, v int32, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Int32(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Int32()
	vEnsure("stream/ok", err == nil && got == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Int64 (*BufferDecoder).Int64 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamInt64(store []byte, off int, v int64, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Int64(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Int64()
	vEnsure("stream/ok", err == nil && got == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Float32 (*BufferDecoder).Float32 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamFloat32(store []byte, off int, v uint32, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Float32(math.Float32frombits(v))
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Float32()
	vEnsure("stream/ok", err == nil && math.Float32bits(got) == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Float64 (*BufferDecoder).Float64 (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamFloat64(store []byte, off int, v uint64, tail []byte, reset bool) {
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Float64(math.Float64frombits(v))
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Float64()
	vEnsure("stream/ok", err == nil && math.Float64bits(got) == v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Bytes (*BufferDecoder).Bytes (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamBytes(store []byte, off int, v []byte, scratch []byte, tail []byte, reset bool) {
	vRequire(len(v) <= math.MaxUint32)
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Bytes(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Bytes(scratch)
	vEnsure("stream/ok", err == nil)
	vEnsureSame("stream/value", got, v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).String (*BufferDecoder).String (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamString(store []byte, off int, v string, tail []byte, reset bool) {
	vRequire(len(v) <= math.MaxUint32)
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).String(v)
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.String()
	vEnsure("stream/ok", err == nil)
	vEnsureSame("stream/value", got, v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}

//verif:harness
//verif:of (*BufferEncoder).Error (*BufferDecoder).Error (*Buffer).Write (*Buffer).Bytes (*Buffer).Reset
func hStreamError(store []byte, off int, v string, tail []byte, reset bool) {
	vRequire(len(v) <= math.MaxUint32)
	b := vMk(store, off)
	at := off
	if reset {
		b.Reset()
		at = 0
	}
	old := vSnap(b.Bytes())
	Encoder(b).Error(vErr(v))
	b.Write(tail)
	vCover("stream")
	vEnsure("stream/len", b.Len() >= at)
	vEnsureSame("stream/earlier", b.Bytes()[:at], old)
	d := Decoder(b.Bytes()[at:])
	got, err := d.Error()
	vEnsure("stream/ok", err == nil)
	vEnsureSame("stream/value", got.Error(), v)
	rest := vRest(d)
	vEnsureSame("stream/rest", rest, tail)
}
