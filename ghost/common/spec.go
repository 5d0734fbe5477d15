package polyglot

// The wire format, as mathematics: one function per production. Nothing here
// refers to the code under verification.

const (
	vTagNil     = 0
	vTagSlice   = 1
	vTagMap     = 2
	vTagAny     = 3
	vTagBytes   = 4
	vTagString  = 5
	vTagError   = 6
	vTagBool    = 7
	vTagUint8   = 8
	vTagUint16  = 9
	vTagUint32  = 10
	vTagUint64  = 11
	vTagInt32   = 12
	vTagInt64   = 13
	vTagFloat32 = 14
	vTagFloat64 = 15
)

// vsUvarint appends the shortest base-128 little-endian form of v.
func vsUvarint(dst []byte, v uint64) []byte {
	for v >= 0x80 {
		dst = append(dst, byte(v&0x7f)|0x80)
		v >>= 7
	}
	return append(dst, byte(v))
}

func vsTagged(tag byte) []byte {
	dst := make([]byte, 0, 24)
	return append(dst, tag)
}

func vsUint(tag byte, v uint64) []byte { return vsUvarint(vsTagged(tag), v) }

// vsZig is the zig-zag image of a signed number.
func vsZig(v int64) uint64 { return uint64(v)<<1 ^ uint64(v>>63) }
func vsZag(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

func vsBE(tag byte, v uint64, n int) []byte {
	dst := vsTagged(tag)
	for i := n - 1; i >= 0; i-- {
		dst = append(dst, byte(v>>(8*uint(i))))
	}
	return dst
}

func vsBool(v bool) []byte {
	if v {
		return append(vsTagged(vTagBool), 1)
	}
	return append(vsTagged(vTagBool), 0)
}

func vsSlice(size uint32, kind byte) []byte {
	return vsUvarint(append(vsTagged(vTagSlice), kind, vTagUint32), uint64(size))
}

func vsMap(size uint32, k, v byte) []byte {
	return vsUvarint(append(vsTagged(vTagMap), k, v, vTagUint32), uint64(size))
}

func vsLenHeader(tag byte, n int) []byte {
	return vsUvarint(append(vsTagged(tag), vTagUint32), uint64(n))
}

func vsErrHeader(n int) []byte {
	return vsUvarint(append(vsTagged(vTagError), vTagString, vTagUint32), uint64(n))
}

// Parsing: value, size of the encoding, whether b starts with one.

// vsPVarint parses a varint at b[off:] of at most n bytes whose n-th byte may
// be at most last.
func vsPVarint(b []byte, off, n int, last byte) (v uint64, used int, ok bool) {
	for i := 0; i < n; i++ {
		if off+i >= len(b) {
			return 0, 0, false
		}
		c := b[off+i]
		if c < 0x80 {
			if i == n-1 && c > last {
				return 0, 0, false
			}
			return v | uint64(c)<<(7*uint(i)), i + 1, true
		}
		v |= uint64(c&0x7f) << (7 * uint(i))
	}
	return 0, 0, false
}

func vsPUint(b []byte, off int, tag byte, n int, last byte) (v uint64, used int, ok bool) {
	if off >= len(b) || b[off] != tag {
		return 0, 0, false
	}
	v, used, ok = vsPVarint(b, off+1, n, last)
	return v, used + 1, ok
}

func vsPLen(b []byte, off int) (n int, used int, ok bool) {
	v, u, ok := vsPUint(b, off, vTagUint32, 5, 0x0f)
	return int(v), u, ok
}

// vsPPayload parses tag + length + payload at off.
func vsPPayload(b []byte, off int, tag byte) (start, end int, ok bool) {
	if off >= len(b) || b[off] != tag {
		return 0, 0, false
	}
	n, u, ok := vsPLen(b, off+1)
	if !ok {
		return 0, 0, false
	}
	start = off + 1 + u
	if n > len(b)-start {
		return 0, 0, false
	}
	return start, start + n, true
}

func vsPBE(b []byte, tag byte, n int) (v uint64, used int, ok bool) {
	if len(b) < n+1 || b[0] != tag {
		return 0, 0, false
	}
	for i := 1; i <= n; i++ {
		v = v<<8 | uint64(b[i])
	}
	return v, n + 1, true
}
