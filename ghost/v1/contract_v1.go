package polyglot

// Contracts of internal functions, used at their call sites in place of their
// bodies. Each is proved in the same run by its //verif:verifies harness; when
// that fails (or the function is gone or changed shape) the body is used.

func vEnsureSameStore(label string, now, old []byte) {}

// Write: p is appended; the storage moves when there is no room.
//
//verif:spec (*Buffer).Write
func sWrite(buf *Buffer, b []byte) int {
	vEnsure("contract/write-pre", buf != nil)
	*buf = append(*buf, b...)
	return len(b)
}

//verif:verifies (*Buffer).Write
func hcWrite(store []byte, n int, p []byte) {
	vRequire(n >= 0 && n <= len(store))
	s := Buffer(store[:n])
	b := &s
	old := vSnap(store[:n])
	arg := vSnap(p)
	r := b.Write(p)
	vCover("written")
	vEnsure("contract/count", r == len(p))
	vEnsure("contract/len", len(*b) == n+len(p))
	if len(*b) == n+len(p) {
		vEnsureSame("contract/kept", (*b)[:n], old)
		vEnsureSame("contract/added", (*b)[n:], arg)
	}
	if n+len(p) <= cap(store) {
		vEnsure("contract/cap", cap(*b) == cap(store))
	}
	vEnsureSame("contract/old", store[:n], old)
	vEnsureSame("contract/arg", p, arg)
	vEnsureSameStore("contract/storage", *b, store)
}
