package polyglot

import "errors"

// vMk is a buffer in an arbitrary state: any content, any spare capacity.
func vMk(store []byte) *Buffer {
	b := Buffer(store)
	return &b
}

// vAppended: b holds what it held before (old) followed by want.
func vAppended(b *Buffer, old, want []byte) {
	n := len(old)
	got := b.Bytes()
	vEnsure("bytes/len", b.Len() == n+len(want))
	vEnsure("bytes/size", len(got) == n+len(want))
	if len(got) == n+len(want) {
		vEnsureSame("bytes/prefix", got[:n], old)
		vEnsureSame("bytes/appended", got[n:], want)
	}
}

func vAppended2(b *Buffer, old, want, payload []byte) {
	n, m := len(old), len(want)
	got := b.Bytes()
	vEnsure("bytes/len", b.Len() == n+m+len(payload))
	vEnsure("bytes/size", len(got) == n+m+len(payload))
	if len(got) == n+m+len(payload) {
		vEnsureSame("bytes/prefix", got[:n], old)
		vEnsureSame("bytes/header", got[n:n+m], want)
		vEnsureSame("bytes/payload", got[n+m:], payload)
	}
}

//verif:harness
//verif:of (*Buffer).Write (*Buffer).Bytes (*Buffer).Len
func hBufWrite(store []byte, p []byte) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	arg := vSnap(p)
	n := b.Write(p)
	vCover("written")
	vEnsure("write/count", n == len(arg))
	vAppended(b, old, arg)
	vEnsureSame("isolate/arg", p, arg)
	vEnsureDisjoint("isolate/kept", b.Bytes(), p)
}

//verif:harness
//verif:of (*Buffer).Write
func hBufWriteTwice(store []byte, p, q []byte) {
	b := vMk(store)
	old := vSnap(b.Bytes())
	b.Write(p)
	b.Write(q)
	vCover("written")
	vAppended2(b, old, vSnap(p), vSnap(q))
}

//verif:harness
//verif:of (*Buffer).Reset
func hBufReset(store []byte, p []byte) {
	b := vMk(store)
	b.Reset()
	vCover("reset")
	vEnsure("reset/len", b.Len() == 0)
	vEnsure("reset/bytes", len(b.Bytes()) == 0)
	b.Write(p)
	vEnsureSame("reset/rewritten", b.Bytes(), vSnap(p))
}

//verif:harness
//verif:of NewBuffer
func hBufNew(p []byte) {
	b := NewBuffer()
	vCover("new")
	vEnsure("new/len", b.Len() == 0)
	vEnsure("new/bytes", len(b.Bytes()) == 0)
	n := b.Write(p)
	vEnsure("new/count", n == len(p))
	vEnsureSame("new/written", b.Bytes(), vSnap(p))
}

//verif:harness
//verif:of GetDecoder ReturnDecoder (*Decoder).Return
func hPoolDecoder(old, b []byte, which bool) {
	in := vSnap(b)
	d := GetDecoder(old)
	d.Uint8()
	if which {
		d.Return()
	} else {
		ReturnDecoder(d)
	}
	ReturnDecoder(nil)
	x := GetDecoder(b)
	y := GetDecoder(old)
	vCover("pooled")
	vEnsure("pool/distinct", x != y)
	vEnsureRest("pool/start", vRest(x), b, 0)
	vEnsureRest("pool/start2", vRest(y), old, 0)
	v, err := x.Uint8()
	if len(in) > 1 && in[0] == vTagUint8 {
		vEnsure("pool/decodes", err == nil && v == in[1])
	} else {
		vEnsure("pool/rejects", err == InvalidUint8)
	}
}

func vErr(s string) error { return errors.New(s) }
