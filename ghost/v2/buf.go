package polyglot

import "errors"

// vMk is a buffer in an arbitrary reachable state: storage of any length and
// capacity, off bytes written.
func vMk(store []byte, off int) *Buffer {
	vRequire(off >= 0 && off <= len(store))
	b := NewBufferFromBytes(store)
	b.MoveOffset(off)
	return b
}

// vAppended: b holds what it held before (old) followed by want.
func vAppended(b *Buffer, old, want []byte) {
	n := len(old)
	got := b.Bytes()
	vEnsure("bytes/len", b.Len() == n+len(want))
	vEnsure("bytes/size", len(got) == n+len(want))
	if len(got) == n+len(want) {
		vEnsureSame("bytes/prefix", got[:n], old)
		vEnsureSame("bytes/appended", got[n:], want)
	}
	vEnsure("bytes/cap", b.Cap() >= b.Len())
}

func vAppended2(b *Buffer, old, want, payload []byte) {
	n, m := len(old), len(want)
	got := b.Bytes()
	vEnsure("bytes/len", b.Len() == n+m+len(payload))
	vEnsure("bytes/size", len(got) == n+m+len(payload))
	if len(got) == n+m+len(payload) {
		vEnsureSame("bytes/prefix", got[:n], old)
		vEnsureSame("bytes/header", got[n:n+m], want)
		vEnsureSame("bytes/payload", got[n+m:], payload)
	}
	vEnsure("bytes/cap", b.Cap() >= b.Len())
}

//verif:harness
//verif:of (*Buffer).Grow (*Buffer).MoveOffset
func hBufGrow(store []byte, off int, n int) {
	b := vMk(store, off)
	vRequire(n >= 0 && n <= 1<<40)
	old := vSnap(b.Bytes())
	b.Grow(n)
	vCover("grown")
	vEnsure("grow/len", b.Len() == off)
	vEnsureSame("grow/bytes", b.Bytes(), old)
	vEnsure("grow/room", b.Cap()-b.Len() >= n)
	b.MoveOffset(n)
	vEnsure("grow/usable", b.Len() == off+n && len(b.Bytes()) == off+n)
	vEnsureSame("grow/kept", b.Bytes()[:off], old)
}

//verif:harness
//verif:of (*Buffer).Write (*Buffer).Bytes (*Buffer).Len (*Buffer).Cap
func hBufWrite(store []byte, off int, p []byte) {
	b := vMk(store, off)
	old := vSnap(b.Bytes())
	arg := vSnap(p)
	n := b.Write(p)
	vCover("written")
	vEnsure("write/count", n == len(arg))
	vAppended(b, old, arg)
	vEnsureSame("isolate/arg", p, arg)
	vEnsureDisjoint("isolate/kept", b.Bytes(), p)
}

//verif:harness
//verif:of (*Buffer).Write
func hBufWriteTwice(store []byte, off int, p, q []byte) {
	b := vMk(store, off)
	old := vSnap(b.Bytes())
	b.Write(p)
	b.Write(q)
	vCover("written")
	vAppended2(b, old, vSnap(p), vSnap(q))
}

//verif:harness
//verif:of (*Buffer).Reset
func hBufReset(store []byte, off int, p []byte) {
	b := vMk(store, off)
	b.Reset()
	vCover("reset")
	vEnsure("reset/len", b.Len() == 0)
	vEnsure("reset/bytes", len(b.Bytes()) == 0)
	b.Write(p)
	vEnsureSame("reset/rewritten", b.Bytes(), vSnap(p))
}

//verif:harness
//verif:of NewBuffer NewBufferSize NewBufferFromBytes
func hBufNew(size int, p []byte, which uint8) {
	vRequire(size >= 0 && size <= 1<<40)
	var b *Buffer
	if which == 0 {
		b = NewBuffer()
	} else {
		b = NewBufferSize(size)
		vEnsure("new/cap", b.Cap() >= size)
	}
	vCover("new")
	vEnsure("new/len", b.Len() == 0)
	vEnsure("new/bytes", len(b.Bytes()) == 0)
	n := b.Write(p)
	vEnsure("new/count", n == len(p))
	vEnsureSame("new/written", b.Bytes(), vSnap(p))
}

//verif:harness
//verif:of (*Pool).Get (*Pool).Put NewPool
func hBufPool(store []byte, off int, p []byte) {
	b := vMk(store, off)
	pl := NewPool()
	pl.Put(nil)
	pl.Put(b)
	x := pl.Get()
	y := pl.Get()
	vCover("pooled")
	vEnsure("pool/nonnil", x != nil && y != nil)
	vEnsure("pool/distinct", x != y)
	vEnsure("pool/empty", x.Len() == 0 && len(x.Bytes()) == 0)
	vEnsure("pool/empty2", y.Len() == 0 && len(y.Bytes()) == 0)
	x.Write(p)
	vEnsureSame("pool/written", x.Bytes(), vSnap(p))
}

//verif:harness
//verif:of GetBuffer PutBuffer
func hBufGlobalPool(store []byte, off int, p []byte) {
	b := vMk(store, off)
	PutBuffer(b)
	x := GetBuffer()
	y := GetBuffer()
	vCover("pooled")
	vEnsure("pool/nonnil", x != nil && y != nil)
	vEnsure("pool/distinct", x != y)
	vEnsure("pool/empty", x.Len() == 0 && len(x.Bytes()) == 0)
	vEnsure("pool/empty2", y.Len() == 0 && len(y.Bytes()) == 0)
	x.Write(p)
	vEnsureSame("pool/written", x.Bytes(), vSnap(p))
	PutBuffer(nil)
}

func vErr(s string) error { return errors.New(s) }
