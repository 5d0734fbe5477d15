From beb889cabea258d931a81668136bdba2faa15a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 01/31] fix: v2 decoders return an error for a truncated varint
 instead of panicking

---
 v2/decode.go | 96 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 96 insertions(+)

diff --git a/v2/decode.go b/v2/decode.go
index 5548906..b56bb5e 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -89,24 +89,36 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 			offset = 3
 		} else {
 			x := cb & (continuation - 1)
+			if len(b) < 4 {
+				return b, nil, ErrInvalidBytes
+			}
 			cb = uint32(b[3])
 			if cb < continuation {
 				size = int(x | (cb << 7))
 				offset = 4
 			} else {
 				x |= (cb & (continuation - 1)) << 7
+				if len(b) < 5 {
+					return b, nil, ErrInvalidBytes
+				}
 				cb = uint32(b[4])
 				if cb < continuation {
 					size = int(x | (cb << 14))
 					offset = 5
 				} else {
 					x |= (cb & (continuation - 1)) << 14
+					if len(b) < 6 {
+						return b, nil, ErrInvalidBytes
+					}
 					cb = uint32(b[5])
 					if cb < continuation {
 						size = int(x | (cb << 21))
 						offset = 6
 					} else {
 						x |= (cb & (continuation - 1)) << 21
+						if len(b) < 7 {
+							return b, nil, ErrInvalidBytes
+						}
 						cb = uint32(b[6])
 						if cb < continuation {
 							size = int(x | (cb << 28))
@@ -178,12 +190,18 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
@@ -200,24 +218,36 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
@@ -234,54 +264,81 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			return b[7:], x | (cb << 35), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			return b[8:], x | (cb << 42), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			return b[9:], x | (cb << 49), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			return b[10:], x | (cb << 56), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			return b[11:], x | (cb << 63), nil
@@ -302,6 +359,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -312,6 +372,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -322,6 +385,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -332,6 +398,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -356,6 +425,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -366,6 +438,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -376,6 +451,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -386,6 +464,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -396,6 +477,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			x |= cb << 35
@@ -406,6 +490,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			x |= cb << 42
@@ -416,6 +503,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			x |= cb << 49
@@ -426,6 +516,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			x |= cb << 56
@@ -436,6 +529,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			x |= cb << 63
-- 
2.43.0


From 4dee1e765d8a9275ad2b3c1ad562b84b398d7b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 02/31] fix: v2 decodeBytes rejects an over-long length instead
 of returning no bytes without consuming input

---
 v2/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v2/decode.go b/v2/decode.go
index b56bb5e..071a373 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -123,6 +123,8 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 						if cb < continuation {
 							size = int(x | (cb << 28))
 							offset = 7
+						} else {
+							return b, nil, ErrInvalidBytes
 						}
 					}
 				}
-- 
2.43.0


From 7f01062ec6385e1e351951c0858d5a602d33aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 03/31] fix: v2 decoders reject varints that do not fit in the
 decoded type

---
 v2/decode.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index 071a373..289ff6e 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -27,6 +27,12 @@ const (
 	VarIntLen32  = 5
 	VarIntLen64  = 10
 	continuation = 0x80
+
+	// The largest final byte of a varint of maximum length: anything above it
+	// does not fit in the decoded type.
+	maxLastByte16 = 1<<(16-7*(VarIntLen16-1)) - 1
+	maxLastByte32 = 1<<(32-7*(VarIntLen32-1)) - 1
+	maxLastByte64 = 1<<(64-7*(VarIntLen64-1)) - 1
 )
 
 var (
@@ -120,7 +126,7 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 							return b, nil, ErrInvalidBytes
 						}
 						cb = uint32(b[6])
-						if cb < continuation {
+						if cb <= maxLastByte32 {
 							size = int(x | (cb << 28))
 							offset = 7
 						} else {
@@ -205,7 +211,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			return b, 0, ErrInvalidUint16
 		}
 		cb = uint16(b[3])
-		if cb < continuation {
+		if cb <= maxLastByte16 {
 			return b[4:], x | (cb << 14), nil
 		}
 	}
@@ -251,7 +257,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			return b, 0, ErrInvalidUint32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= maxLastByte32 {
 			return b[6:], x | (cb << 28), nil
 		}
 	}
@@ -342,7 +348,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			return b, 0, ErrInvalidUint64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= maxLastByte64 {
 			return b[11:], x | (cb << 63), nil
 		}
 	}
@@ -404,7 +410,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			return b, 0, ErrInvalidInt32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= maxLastByte32 {
 			x |= cb << 28
 			if x&1 != 0 {
 				return b[6:], -(int32(x>>1) + 1), nil
@@ -535,7 +541,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			return b, 0, ErrInvalidInt64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= maxLastByte64 {
 			x |= cb << 63
 			if x&1 != 0 {
 				return b[11:], -(int64(x>>1) + 1), nil
-- 
2.43.0


From bb824c8d1e6c25a64ffd601f573be8e6e6d0f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 04/31] fix: v2 encodeBytes advances past a five-byte length
 prefix

---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From e170faf7c68ed6f917feb6a408834d81d4fe7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 05/31] fix: v2 Buffer.Grow makes spare capacity usable when
 length is below capacity

---
 v2/buffer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..4f7279f 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -61,9 +61,10 @@ func (buf *Buffer) Grow(n int) {
 		} else {
 			buf.b = append(buf.b[:buf.offset], make([]byte, cap(buf.b)*2-buf.offset)...)
 		}
-		// Grow buffer length to match its new capacity.
-		buf.b = buf.b[:cap(buf.b)]
 	}
+	// Grow buffer length to match its capacity, including when the existing
+	// capacity (of a caller-supplied slice, say) already suffices.
+	buf.b = buf.b[:cap(buf.b)]
 }
 
 func (buf *Buffer) Write(b []byte) int {
-- 
2.43.0


From e8c57e232ffd9e0e35458c2871486a6412aae559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 06/31] fix: v1 decoders return an error for a truncated varint
 instead of panicking

---
 decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..3d5f69b 100644
--- a/decode.go
+++ b/decode.go
@@ -172,7 +172,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -193,7 +193,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -215,7 +215,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -238,7 +238,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -266,7 +266,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-- 
2.43.0


From 79caf65f4c8de95f026f247870b000ec014c6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 07/31] fix: v1 decoders reject varints that do not fit in the
 decoded type

---
 decode.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/decode.go b/decode.go
index 3d5f69b..1de4213 100644
--- a/decode.go
+++ b/decode.go
@@ -27,6 +27,12 @@ const (
 	VarIntLen32  = 5
 	VarIntLen64  = 10
 	continuation = 0x80
+
+	// The largest final byte of a varint of maximum length: anything above it
+	// does not fit in the decoded type.
+	maxLastByte16 = 1<<(16-7*(VarIntLen16-1)) - 1
+	maxLastByte32 = 1<<(32-7*(VarIntLen32-1)) - 1
+	maxLastByte64 = 1<<(64-7*(VarIntLen64-1)) - 1
 )
 
 var (
@@ -176,8 +182,8 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				if i == VarIntLen16 && cb > maxLastByte16 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -197,7 +203,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > maxLastByte32 {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -220,7 +226,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
 				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > maxLastByte64 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -242,7 +248,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > maxLastByte32 {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -270,7 +276,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > maxLastByte64 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
-- 
2.43.0


From 1b6c79b49e5fba166a5e7ac4d0835ff7c1d6d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 08/31] fix: v1 decodeBytes returns exactly the payload when
 the scratch slice is longer

---
 decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 1de4213..899ff2f 100644
--- a/decode.go
+++ b/decode.go
@@ -109,7 +109,8 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 						ret = append(ret[:0], b[:size]...)
 					}
 				} else {
-					copy(ret[0:], b[:size])
+					ret = ret[:size]
+					copy(ret, b[:size])
 				}
 				return b[size:], ret, nil
 			}
-- 
2.43.0


From 431fe0c09fc653bcbbdd9d298356be65cd09e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 09/31] fix: Rust decoder restores the position when an array,
 map or error header does not match

---
 decoder.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..dc01d58 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -88,22 +88,33 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
+        let defined_val_kind = self.read_u8().map_err(|_| {
+            self.set_position(start);
+            DecodingError::InvalidArray
+        })?;
         if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
             return match self.decode_u32() {
                 Err(err) => Err(err),
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidU32)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
+        let defined_key_kind = self.read_u8().map_err(|_| {
+            self.set_position(start);
+            DecodingError::InvalidMap
+        })?;
+        let defined_val_kind = self.read_u8().map_err(|_| {
+            self.set_position(start);
+            DecodingError::InvalidMap
+        })?;
         if kind == Kind::Map as u8
             && key_kind as u8 == defined_key_kind
             && val_kind as u8 == defined_val_kind
@@ -113,7 +124,7 @@ where
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidMap)
     }
 
@@ -151,8 +162,12 @@ where
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
+        let nested_kind = self.read_u8().map_err(|_| {
+            self.set_position(start);
+            DecodingError::InvalidError
+        })?;
         if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
             let mut str_buf = vec![0u8; size];
@@ -165,7 +180,7 @@ where
                 .ok_or(DecodingError::InvalidError)?;
             return Ok(Box::<dyn Error>::from(result.to_owned()));
         }
-        self.set_position(self.position() - 2);
+        self.set_position(start);
         Err(DecodingError::InvalidError)
     }
 
-- 
2.43.0


From fcefda94dd682f9de991a020a8c5de7592d15876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 10/31] fix: Rust decoder reports the requested type's own
 error

---
 decoder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index dc01d58..372c698 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -96,12 +96,12 @@ where
         })?;
         if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
             return match self.decode_u32() {
-                Err(err) => Err(err),
+                Err(_) => Err(DecodingError::InvalidArray),
                 Ok(val) => Ok(val as usize),
             };
         }
         self.set_position(start);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidArray)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
@@ -120,7 +120,7 @@ where
             && val_kind as u8 == defined_val_kind
         {
             return match self.decode_u32() {
-                Err(err) => Err(err),
+                Err(_) => Err(DecodingError::InvalidMap),
                 Ok(val) => Ok(val as usize),
             };
         }
@@ -131,7 +131,7 @@ where
     fn decode_bytes(&mut self) -> Result<Vec<u8>, DecodingError> {
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().ok().ok_or(DecodingError::InvalidBytes)? as usize;
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
                 .ok()
@@ -146,7 +146,7 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidString)?;
 
         if kind == Kind::String as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().ok().ok_or(DecodingError::InvalidString)? as usize;
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
@@ -169,7 +169,7 @@ where
             DecodingError::InvalidError
         })?;
         if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().ok().ok_or(DecodingError::InvalidError)? as usize;
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
@@ -219,7 +219,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU16)
     }
 
     fn decode_u32(&mut self) -> Result<u32, DecodingError> {
@@ -257,7 +257,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU64)
     }
 
     fn decode_i32(&mut self) -> Result<i32, DecodingError> {
-- 
2.43.0


From 39ee5fcdedae11aa39e034d3fe6c1c3c79d22065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 11/31] fix: Rust integer decoders reject varints that do not
 fit in the decoded type

---
 decoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index 372c698..12dba6c 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -212,6 +212,9 @@ where
             for _ in 0..VARINT_LEN16 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
                 if byte < CONTINUATION {
+                    if ((byte as u16) << s) >> s != byte as u16 {
+                        break;
+                    }
                     return Ok(x | ((byte as u16) << s));
                 }
                 x |= (byte as u16 & ((CONTINUATION as u16) - 1)) << s;
@@ -231,6 +234,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
                 if byte < CONTINUATION {
+                    if ((byte as u32) << s) >> s != byte as u32 {
+                        break;
+                    }
                     return Ok(x | ((byte as u32) << s));
                 }
                 x |= (byte as u32 & ((CONTINUATION as u32) - 1)) << s;
@@ -250,6 +256,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
                 if byte < CONTINUATION {
+                    if ((byte as u64) << s) >> s != byte as u64 {
+                        break;
+                    }
                     return Ok(x | ((byte as u64) << s));
                 }
                 x |= (byte as u64 & ((CONTINUATION as u64) - 1)) << s;
@@ -269,6 +278,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
                 if byte < CONTINUATION {
+                    if ((byte as u32) << s) >> s != byte as u32 {
+                        break;
+                    }
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
                     if ux & 1 != 0 {
@@ -293,6 +305,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
                 if byte < CONTINUATION {
+                    if ((byte as u64) << s) >> s != byte as u64 {
+                        break;
+                    }
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
                     if ux & 1 != 0 {
-- 
2.43.0


From 00a54bdc7241128a6e5e1d6aaa255150cde30ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 12/31] fix: Rust decoder checks a payload's length against the
 input before allocating for it

---
 decoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index 12dba6c..2078a83 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -73,6 +73,12 @@ pub trait Decoder {
     fn decode_f64(&mut self) -> Result<f64, DecodingError>;
 }
 
+// The number of bytes that are left to decode
+fn remaining<T: AsRef<[u8]>>(cursor: &Cursor<T>) -> usize {
+    let length = cursor.get_ref().as_ref().len();
+    length - cursor.position().min(length as u64) as usize
+}
+
 impl<T> Decoder for Cursor<T>
 where
     T: AsRef<[u8]>,
@@ -132,6 +138,9 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
             let size = self.decode_u32().ok().ok_or(DecodingError::InvalidBytes)? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidBytes);
+            }
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
                 .ok()
@@ -147,6 +156,9 @@ where
 
         if kind == Kind::String as u8 {
             let size = self.decode_u32().ok().ok_or(DecodingError::InvalidString)? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidString);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
@@ -170,6 +182,9 @@ where
         })?;
         if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
             let size = self.decode_u32().ok().ok_or(DecodingError::InvalidError)? as usize;
+            if size > remaining(self) {
+                return Err(DecodingError::InvalidError);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
-- 
2.43.0


From f80577e9784fc1fa9c562628e818b096c058211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 13/31] fix: polyglot_decode_none returns on a null decoder and
 sets its status

---
 c_bindings/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..d645514 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
-- 
2.43.0


From 957243056230df0c78c59886453c12024e41b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 14/31] fix: polyglot_free_decode_bytes frees the whole byte
 slice, and none for an empty one

---
 c_bindings/decoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d645514..45d8f8a 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -174,9 +174,8 @@ pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
     if !buffer.is_null() {
         unsafe {
             let boxed_value =
-                std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
-            drop(Box::from_raw(value));
+                std::ptr::slice_from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
+            drop(Box::from_raw(boxed_value));
             drop(Box::from_raw(buffer));
         }
     }
-- 
2.43.0


From ee57ee2974f8802b45cb5da7f045534a41809e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 15/31] fix: polyglot_encode_string and polyglot_encode_error
 report a null string pointer

---
 c_bindings/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..ea4fd28 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -193,7 +193,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -223,7 +223,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From c70f5a96a7ef71f03fc2d04328d105b1734944f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 16/31] fix: polyglot_encoder_size sets its status on success

---
 c_bindings/encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index ea4fd28..ae88b38 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,6 +54,7 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
+        *status = Status::Pass;
         (*encoder).cursor.get_ref().len() as u32
     }
 }
-- 
2.43.0


From ba0fc6c814a8ad52e0c5d61ca575ab6a414cbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 17/31] fix: TypeScript encoder grows its buffer to the length
 that is needed

---
 encoder.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..74a5637 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -41,7 +41,9 @@ export class Encoder {
     if (this.#buf.length - this.#pos < minLen) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(
+        Math.max(oldBuf.length * 2, this.#pos + minLen),
+      );
       this.#buf.set(oldBuf);
     }
   }
-- 
2.43.0


From c24ddd7c1646a355963c67a98a8ade2a1a6e8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 18/31] fix: TypeScript encoder reserves room for kinds and
 length prefixes

---
 encoder.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index 74a5637..510c262 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -54,7 +54,7 @@ export class Encoder {
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
     let val = value;
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -77,7 +77,7 @@ export class Encoder {
     signed = false,
   ) {
     let val = BigInt(value);
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -138,7 +138,7 @@ export class Encoder {
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 10);
   }
 
   int32(value: number) {
@@ -146,7 +146,7 @@ export class Encoder {
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 10, true);
   }
 
   float32(value: number) {
@@ -195,7 +195,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -207,7 +207,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -219,7 +219,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From 8eb0bf0b8bca71ee03979b88e7d8756e7c77b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 19/31] fix: TypeScript Encoder.bytes starts where its buffer
 starts

---
 encoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index 510c262..8c8f633 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -49,7 +49,7 @@ export class Encoder {
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return new Uint8Array(this.#buf.buffer, this.#buf.byteOffset, this.#pos);
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
-- 
2.43.0


From fca12669572ecfac25d31de8122e143b0c0ce9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:37 +0000
Subject: [PATCH 20/31] fix: TypeScript uint16 decoding keeps the bits of every
 byte

---
 decoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..f62a36f 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -225,7 +225,7 @@ export class Decoder {
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
-      num |= b & ((CONTINUATION - 1) << shift);
+      num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
     return num;
-- 
2.43.0


From 398f1c2098a272be934341bc25032d29e5dbaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 21/31] fix: TypeScript decoder rejects truncated input

---
 decoder.ts | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index f62a36f..8f61a00 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -160,14 +160,25 @@ export class Decoder {
     this.#pos += 1;
   }
 
+  private validateLength(size: number, Err: new () => Error) {
+    if (this.length < size) {
+      throw new Err();
+    }
+  }
+
   get length(): number {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(
+    maxLen: number,
+    Err: new () => Error,
+    signed = false,
+  ): bigint {
     let num = 0n;
     let shift = 0n;
     for (let i = 1; i < maxLen + 1; i += 1) {
+      this.validateLength(1, Err);
       const b = this.pop();
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
@@ -201,11 +212,13 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
+    this.validateLength(1, InvalidBooleanError);
     return this.pop() === BOOLEAN_TRUE;
   }
 
   uint8(): number {
     this.validateKind(Kind.Uint8, InvalidUint8Error);
+    this.validateLength(1, InvalidUint8Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -221,6 +234,7 @@ export class Decoder {
     let num = 0;
     let shift = 0;
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
+      this.validateLength(1, InvalidUint16Error);
       const b = this.pop();
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
@@ -233,26 +247,27 @@ export class Decoder {
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(MAXLEN32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64);
+    return this.varint(MAXLEN64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, true);
+    return this.varint(MAXLEN64, InvalidInt64Error, true);
   }
 
   float32(): number {
     this.validateKind(Kind.Float32, InvalidFloat32Error);
+    this.validateLength(4, InvalidFloat32Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -265,6 +280,7 @@ export class Decoder {
 
   float64(): number {
     this.validateKind(Kind.Float64, InvalidFloat64Error);
+    this.validateLength(8, InvalidFloat64Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -291,6 +307,7 @@ export class Decoder {
   uint8Array(): Uint8Array {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.uint32();
+    this.validateLength(size, InvalidUint8ArrayError);
     const value = this.buf.slice(this.#pos, this.#pos + size);
     this.#pos += size;
     return value;
@@ -299,6 +316,7 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
+    this.validateLength(size, InvalidStringError);
     const value = new TextDecoder().decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
@@ -314,6 +332,7 @@ export class Decoder {
     }
 
     const size = this.uint32();
+    this.validateLength(size, InvalidErrorError);
     const value = new Error(
       new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
     );
-- 
2.43.0


From 187ce6d4864375ef9018865d4720a0eaecdfc52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 22/31] fix: TypeScript decoder rejects over-long and
 out-of-range varints

---
 decoder.ts | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 8f61a00..b3f19e5 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -23,6 +23,9 @@ const CONTINUATION = 0x80;
 const MAXLEN16 = 3;
 const MAXLEN32 = 5;
 const MAXLEN64 = 10;
+const LASTBITS16 = 2;
+const LASTBITS32 = 4;
+const LASTBITS64 = 1;
 
 export class InvalidBooleanError extends Error {
   constructor() {
@@ -172,6 +175,7 @@ export class Decoder {
 
   private varint(
     maxLen: number,
+    lastBits: number,
     Err: new () => Error,
     signed = false,
   ): bigint {
@@ -181,6 +185,9 @@ export class Decoder {
       this.validateLength(1, Err);
       const b = this.pop();
       if (b < BigInt(CONTINUATION)) {
+        if (i === maxLen && b >> lastBits !== 0) {
+          throw new Err();
+        }
         num += BigInt(b) << shift;
         if (signed) {
           // two's complement
@@ -191,7 +198,7 @@ export class Decoder {
       num += BigInt(b & (CONTINUATION - 1)) << shift;
       shift += 7n;
     }
-    return num;
+    throw new Err();
   }
 
   null(): boolean {
@@ -237,32 +244,35 @@ export class Decoder {
       this.validateLength(1, InvalidUint16Error);
       const b = this.pop();
       if (b < CONTINUATION) {
+        if (i === MAXLEN16 && b >> LASTBITS16 !== 0) {
+          throw new InvalidUint16Error();
+        }
         return (num | (b << shift)) >>> 0;
       }
       num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
-    return num;
+    throw new InvalidUint16Error();
   }
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32, InvalidUint32Error));
+    return Number(this.varint(MAXLEN32, LASTBITS32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64, InvalidUint64Error);
+    return this.varint(MAXLEN64, LASTBITS64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
+    return Number(this.varint(MAXLEN32, LASTBITS32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, InvalidInt64Error, true);
+    return this.varint(MAXLEN64, LASTBITS64, InvalidInt64Error, true);
   }
 
   float32(): number {
-- 
2.43.0


From 3f0b410a5cd4e6472fc8be3524cdd294ff672abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 23/31] fix: TypeScript decoder keeps a leading byte order mark

---
 decoder.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index b3f19e5..04f04e3 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -27,6 +27,10 @@ const LASTBITS16 = 2;
 const LASTBITS32 = 4;
 const LASTBITS64 = 1;
 
+// ignoreBOM: a leading byte order mark is part of the text
+const decodeText = (bytes: Uint8Array): string =>
+  new TextDecoder("utf-8", { ignoreBOM: true }).decode(bytes);
+
 export class InvalidBooleanError extends Error {
   constructor() {
     super();
@@ -327,9 +331,7 @@ export class Decoder {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
     this.validateLength(size, InvalidStringError);
-    const value = new TextDecoder().decode(
-      this.buf.slice(this.#pos, this.#pos + size),
-    );
+    const value = decodeText(this.buf.slice(this.#pos, this.#pos + size));
     this.#pos += size;
     return value;
   }
@@ -344,7 +346,7 @@ export class Decoder {
     const size = this.uint32();
     this.validateLength(size, InvalidErrorError);
     const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
+      decodeText(this.buf.slice(this.#pos, this.#pos + size)),
     );
     this.#pos += size;
     return value;
-- 
2.43.0


From 1e91af7eb91884b3529e2c2ea552a59df039734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:18 +0000
Subject: [PATCH 24/31] fix: generated files began with a line break inside
 their header comment and did not parse (version with its trailing newline)

---
 v2/version/version.go | 3 ++-
 version/version.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..d67d143 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..d67d143 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From 6ceb006a4a4fb165490cbff3f239402c412f1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:18 +0000
Subject: [PATCH 25/31] fix: generated Go code for lists and maps of bytes did
 not compile (Bytes is called with the storage to reuse)

---
 generator/golang/templates/decode.templ       | 2 ++
 generator/golang/templates/decodeMap.templ    | 2 ++
 v2/generator/golang/templates/decode.templ    | 2 ++
 v2/generator/golang/templates/decodeMap.templ | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..1b5940a 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..db58116 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..17a31f9 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(x.{{ CamelCaseName $field.Name }}[i])
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..485e6b9 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
-- 
2.43.0


From 092e16ad11f3c44b2e2084d581b71ea3738fa701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:18 +0000
Subject: [PATCH 26/31] fix: generated Go code for lists of enum values did not
 compile (type name, conversions from and to uint32)

---
 generator/golang/structs.go                | 2 +-
 generator/golang/templates/decode.templ    | 4 ++++
 generator/golang/templates/encode.templ    | 4 ++++
 v2/generator/golang/structs.go             | 2 +-
 v2/generator/golang/templates/decode.templ | 4 ++++
 v2/generator/golang/templates/encode.templ | 4 ++++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..99472be 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 1b5940a..b9fe0f3 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -58,6 +58,10 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
     x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..84146b2 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{ else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{ end -}}
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..29f998d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 17a31f9..d82111f 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -56,6 +56,10 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
     x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(x.{{ CamelCaseName $field.Name }}[i])
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..84146b2 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{ else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{ end -}}
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From 5c1980287f0d66d97e07ada787b491ffd3b8a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:18 +0000
Subject: [PATCH 27/31] fix: generated Go code for messages whose only fields
 are maps did not compile (err declared and not used)

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index b9fe0f3..4b6c16b 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -76,7 +76,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d82111f..3fe5a40 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -74,7 +74,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From bbea6b51dd7da4d3707bef22eaa1f50604002239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:18 +0000
Subject: [PATCH 28/31] fix: generated Go code lacked the enums declared in
 nested messages

---
 generator/golang/templates/structs.templ    | 4 ++++
 v2/generator/golang/templates/structs.templ | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..81ad5a0 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{end}}
             {{template "structs" $message}}
         {{end}}
     {{end}}
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..f220097 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{end}}
             {{template "structs" $message}}
         {{end}}
     {{end}}
-- 
2.43.0


From 086ed76aae4c9ef3c0269b1e70aee3120f1457ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:52 +0000
Subject: [PATCH 29/31] fix: TypeScript Decoder.error moved past the end of the
 input when only its tag was left (negative remaining length)

---
 decoder.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 04f04e3..f29b8fa 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -338,10 +338,7 @@ export class Decoder {
 
   error(): Error {
     this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop() as Kind;
-    if (nestedType !== Kind.String) {
-      throw new InvalidErrorError();
-    }
+    this.validateKind(Kind.String, InvalidErrorError);
 
     const size = this.uint32();
     this.validateLength(size, InvalidErrorError);
-- 
2.43.0


From 416d2fa06a04840b025fe972bebe5d9fb5459e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:10 +0000
Subject: [PATCH 30/31] fix: generated Go code of a schema without messages did
 not compile (unused import)

---
 generator/golang/templates/base.templ    | 4 ++++
 v2/generator/golang/templates/base.templ | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/base.templ b/generator/golang/templates/base.templ
index 20e0b5f..6a1d2c0 100644
--- a/generator/golang/templates/base.templ
+++ b/generator/golang/templates/base.templ
@@ -2,6 +2,10 @@
 {{template "headers" .}}
 
 {{template "imports" .}}
+{{ if not .messages.Len }}
+// there is no message that uses the library
+var _ *polyglot.Buffer
+{{ end -}}
 {{ end -}}
 
 {{template "errors" .}}
diff --git a/v2/generator/golang/templates/base.templ b/v2/generator/golang/templates/base.templ
index 20e0b5f..6a1d2c0 100644
--- a/v2/generator/golang/templates/base.templ
+++ b/v2/generator/golang/templates/base.templ
@@ -2,6 +2,10 @@
 {{template "headers" .}}
 
 {{template "imports" .}}
+{{ if not .messages.Len }}
+// there is no message that uses the library
+var _ *polyglot.Buffer
+{{ end -}}
 {{ end -}}
 
 {{template "errors" .}}
-- 
2.43.0


From 1c6d9837f79821f73ee3f0d71d996853e4fa2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:43 +0000
Subject: [PATCH 31/31] fix: generated Go code for a field called error, encode
 or decode did not compile (field and method of one name)

---
 generator/golang/generator.go    |  2 +-
 generator/golang/structs.go      | 15 +++++++++++++--
 v2/generator/golang/generator.go |  2 +-
 v2/generator/golang/structs.go   | 15 +++++++++++++--
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 075cf3f..13e2aa3 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 99472be..c121eac 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -142,6 +142,17 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// FieldName returns the name of a field in the generated struct; the names of
+// the generated methods are taken
+func FieldName(name protoreflect.Name) string {
+	switch n := utils.CamelCaseName(name); n {
+	case "Encode", "Decode", "Error":
+		return n + "_"
+	default:
+		return n
+	}
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -167,9 +178,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 2a33a27..0acbc2d 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 29f998d..3c72773 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -142,6 +142,17 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// FieldName returns the name of a field in the generated struct; the names of
+// the generated methods are taken
+func FieldName(name protoreflect.Name) string {
+	switch n := utils.CamelCaseName(name); n {
+	case "Encode", "Decode", "Error":
+		return n + "_"
+	default:
+		return n
+	}
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
@@ -167,9 +178,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0

