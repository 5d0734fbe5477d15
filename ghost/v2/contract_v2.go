package polyglot

// Contracts of internal functions, used at their call sites in place of their
// bodies. Each is proved in the same run by its //verif:verifies harness; when
// that fails (or the function is gone or changed shape) the body is used.

func vEnsureSameStore(label string, now, old []byte) {}
func vGrown(s []byte, keep, n int) []byte             { return s }

// Grow: the first offset bytes stay, at least n bytes of room follow, the
// slice extends to its capacity; the storage may have moved.
//
//verif:spec (*Buffer).Grow
func sGrow(buf *Buffer, n int) {
	vEnsure("contract/grow-pre", buf != nil && n >= 0 && n <= 1<<48 && buf.offset >= 0 && buf.offset <= cap(buf.b))
	buf.b = vGrown(buf.b, buf.offset, n)
}

//verif:verifies (*Buffer).Grow
func hcGrow(store []byte, off, n int) {
	vRequire(off >= 0 && off <= cap(store) && n >= 0 && n <= 1<<48)
	b := &Buffer{b: store, offset: off}
	old := vSnap(store[:off])
	b.Grow(n)
	vCover("grown")
	vEnsure("contract/offset", b.offset == off)
	vEnsure("contract/full", len(b.b) == cap(b.b))
	vEnsure("contract/room", cap(b.b)-off >= n)
	if off <= cap(b.b) {
		vEnsureSame("contract/kept", b.b[:off], old)
	}
	vEnsureSame("contract/old", store[:off], old)
	vEnsureSameStore("contract/storage", b.b, store)
}
