#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that statements are edited in one place).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

ENC2=["v2/encode.go","v2/encoder.go","v2/buffer.go"]
DEC2=["v2/decode.go","v2/decoder.go","v2/error.go"]
ENC1=["encode.go","encoder.go","buffer.go"]
DEC1=["decode.go","decoder.go","encode.go"]

p("C01","Go v2: scalar, nil, list and map encodings are exactly the wire format",
  "Encoding a nil, boolean, unsigned or signed integer, float, list header or map header with the Go v2 encoder appends exactly the documented wire bytes: the kind tag, then 0/1 for booleans, the raw byte for uint8, the shortest base-128 little-endian varint for unsigned integers, the zig-zag varint for signed integers, big-endian IEEE-754 bits for floats, and for headers the element kind(s) followed by an encoded uint32 size. Nothing already in the buffer changes and the encoder stays chainable.",
  ["inputs","histories"],"every value of every scalar type and every size/kind combination, on every buffer state (any capacity, length, offset and prior content, grown or not)",
  "The tests encode one or two sample values into a fresh 512-byte buffer; 2^64 values times every storage state (exactly full, reused, zero capacity) are out of their reach, and the unrolled varint code has a separate branch per byte count.",
  ENC2,[("encodeNil/Map/Slice/Bool/Uint8..Float64","v2/encode.go"),("BufferEncoder methods","v2/encoder.go"),("Grow","v2/buffer.go")],
  state=[("b, offset","storage and write position of a Buffer","v2/buffer.go")],observe=["Buffer.Bytes","Buffer.Len"])
p("C02","Go v2: byte strings, strings and errors of any length are encoded exactly",
  "Encoding a byte slice, a string or an error with the Go v2 encoder appends the kind tag (for errors the error tag and then the string tag), the payload length as an encoded uint32, and then exactly the payload bytes, for every payload length that fits in 32 bits. Nothing already in the buffer changes.",
  ["inputs","histories"],"every payload of every length below 2^32, including the lengths around each varint boundary up to 2^28 and above, on every buffer state",
  "Tests use an 11 to 12 byte payload and a few hundred bytes; the four- and five-byte length prefixes need payloads of 2 MiB to 4 GiB that no test allocates.",
  ENC2,[("encodeBytes/encodeString/encodeError","v2/encode.go"),("Grow","v2/buffer.go")],observe=["Buffer.Bytes"])
p("C03","Go v2: the buffer is an append-only byte sequence in every storage state",
  "A Go v2 buffer behaves as a byte sequence: writing appends exactly the given bytes and reports their count, reserving space or writing never changes bytes already written and always leaves the requested room, resetting empties it, and its reported length equals the number of bytes it exposes. This holds for any storage the buffer was created from (default, sized, or caller-supplied with any length and capacity), and a buffer obtained from the pool is empty whatever its previous user left in it.",
  ["inputs","histories"],"every storage length/capacity/offset combination, every written slice, every sequence of operations (each operation from an arbitrary reachable state), every pooled-buffer history",
  "Tests write a handful of times into default-size buffers; growth depends on the relation between capacity, length, offset and request size, which tests sample at two or three points.",
  ["v2/buffer.go","v2/pool.go"],[("Grow/Write/MoveOffset/Reset","v2/buffer.go"),("Pool.Get/Put","v2/pool.go")],
  state=[("b","storage; bytes beyond offset are spare","v2/buffer.go"),("offset","number of bytes written","v2/buffer.go")],observe=["Buffer.Bytes","Buffer.Len","Buffer.Cap"])
p("C04","Go v2: well-formed input decodes to the exact value and remainder",
  "For every input that starts with a well-formed encoding of the requested type, the Go v2 decoder returns exactly the encoded value with no error and advances exactly past that encoding, leaving every following byte to be decoded next. In particular decoding what the encoder produced returns the original value for every value, whatever bytes follow.",
  ["inputs","histories"],"every byte string with a well-formed prefix of the requested type (all values, all payload lengths, all trailing bytes), at any position of a longer stream",
  "Round-trip tests cover one value per type; each varint byte count is a separate code path and the trailing-byte handling is only tested at end of input.",
  DEC2,[("decodeX functions","v2/decode.go"),("BufferDecoder methods","v2/decoder.go")],observe=["BufferDecoder methods"])
p("C05","Go v2: decoding never panics, whatever the input bytes",
  "Decoding any value kind with the Go v2 decoder from any byte string, including empty, truncated, corrupted or hostile ones, always returns normally with a value or an error. It never panics and never reads outside the input.",
  ["inputs"],"all byte strings of every length, all requested kinds, all scratch buffers",
  "Tests feed well-formed encodings and a few truncations at convenient points; the crash needs a varint cut at one particular byte of one particular type.",
  DEC2,[("length guards in decodeX","v2/decode.go")],observe=["BufferDecoder methods return"])
p("C06","Go v2: malformed input is rejected with the requested type's own error",
  "If the input does not start with a well-formed encoding of the requested type (wrong or missing tag, truncated, a varint that is over-long or exceeds the type's range, a boolean other than 0 or 1, a nested header of the wrong kind, a payload shorter than its length), the Go v2 decoder reports the invalid-encoding error of the requested type and the zero value. It never reports success or another type's error.",
  ["inputs"],"all byte strings that are not a well-formed prefix for the requested type",
  "Tests check only a few wrong-kind and short inputs; over-long and out-of-range varints, whose rejection lives in single branches, are not sampled.",
  DEC2,[("decodeX functions","v2/decode.go")],observe=["BufferDecoder methods"])
p("C07","Go v2: a failed scalar or tag check consumes nothing",
  "When decoding fails because the tag (or the element kinds of a header) does not match, or because a scalar is malformed, the Go v2 decoder's position is unchanged, so the caller can try another type at the same place. An unsuccessful nil probe consumes nothing, and no failure ever moves the position backwards or past the end of the input.",
  ["inputs","histories"],"all byte strings on which a decode fails",
  "Tests never look at the position after a failure other than at end of input, and optional fields rely on probing every kind at every position.",
  DEC2,[("b returned unchanged on failure","v2/decode.go")],observe=["subsequent decodes"])
p("C08","Go v2: decoded values are independent copies and inputs are never modified",
  "Bytes, strings and errors decoded by the Go v2 decoder do not share memory with the input, so later changes to the input do not change them; decoding never writes to the input, and a caller-supplied scratch slice of any length and capacity yields exactly the payload. Encoding never modifies its arguments nor keeps a reference to them.",
  ["inputs","histories"],"all inputs, payload lengths and scratch slices (nil, shorter, equal, longer, with spare capacity)",
  "Aliasing is invisible to value-comparison tests: it shows only when one side is mutated afterwards, with a scratch slice of a particular size.",
  DEC2+ENC2,[("append(ret[:0], ...) and string(b[:n]) copies","v2/decode.go")],observe=["decoded value after mutating the input"])
p("C09","Go v1: every encoding is exactly the wire format and appends only",
  "Encoding any value with the Go v1 encoder (nil, boolean, integers, floats, bytes, strings, errors, list and map headers) appends exactly the wire bytes documented for its kind, with shortest varints, zig-zag signed integers, big-endian floats and uint32 length prefixes. Nothing already in the buffer changes, and the buffer's write, reset and length operations behave as on an append-only byte sequence.",
  ["inputs","histories"],"every value of every type, every payload length, every buffer state (length, capacity, prior content)",
  "Tests encode one or two sample values per type into a fresh buffer; the in-place versus reallocation paths and each varint length are only sampled.",
  ENC1,[("encodeX functions","encode.go"),("Buffer.Write/Reset/Len","buffer.go")],observe=["Buffer.Bytes"])
p("C10","Go v1: well-formed input decodes to the exact value and remainder",
  "For every input that starts with a well-formed encoding of the requested type, the Go v1 decoder returns exactly the encoded value with no error and advances exactly past it, leaving every following byte to be decoded next.",
  ["inputs","histories"],"every byte string with a well-formed prefix of the requested type, all values, payloads and trailing bytes",
  "Round-trip tests cover one value per type and mostly nothing after it.",
  DEC1,[("decodeX functions","decode.go"),("Decoder methods","decoder.go")],observe=["Decoder methods"])
p("C11","Go v1: decoding never panics, whatever the input bytes",
  "Decoding any value kind with the Go v1 decoder from any byte string, including empty, truncated, corrupted or hostile ones, always returns normally with a value or an error.",
  ["inputs"],"all byte strings of every length, all requested kinds, all scratch buffers",
  "Tests feed well-formed encodings; the crash needs a varint cut at a particular byte.",
  DEC1,[("length guards in decodeX","decode.go")],observe=["Decoder methods return"])
p("C12","Go v1: malformed input is rejected with the requested type's own error",
  "If the input does not start with a well-formed encoding of the requested type (wrong or missing tag, truncated, over-long or out-of-range varint, wrong element kinds, payload shorter than its length), the Go v1 decoder reports the invalid-encoding error of the requested type and the zero value, never success.",
  ["inputs"],"all byte strings that are not a well-formed prefix for the requested type (for booleans: a tag and any payload byte is well-formed, only 1 meaning true)",
  "Tests check only end-of-input failures; over-long and out-of-range varints are not sampled.",
  DEC1,[("decodeX functions","decode.go")],observe=["Decoder methods"])
p("C13","Go v1: a failed scalar or tag check consumes nothing",
  "When decoding fails because the tag or the element kinds do not match, or because a scalar is malformed, the Go v1 decoder's position is unchanged, and an unsuccessful nil probe consumes nothing. No failure moves the position backwards or past the end of the input.",
  ["inputs","histories"],"all byte strings on which a decode fails",
  "Tests never look at the position after a failure other than at end of input.",
  DEC1,[("b returned unchanged on failure","decode.go")],observe=["subsequent decodes"])
p("C14","Go v1: decoded values are exact independent copies; pooled decoders are clean",
  "Bytes, strings and errors decoded by the Go v1 decoder do not share memory with the input, a caller-supplied scratch slice of any length and capacity yields exactly the payload, and neither encoding nor decoding modifies its inputs. A decoder taken from the pool starts at the beginning of the bytes it is given, whatever its previous use.",
  ["inputs","histories"],"all inputs, payload lengths, scratch slices (nil, shorter, equal, longer) and pooled-decoder histories",
  "Aliasing and stale scratch content are invisible to tests that use nil scratch and compare values once.",
  DEC1,[("decodeBytes copy paths","decode.go"),("GetDecoder/ReturnDecoder","decoder.go")],observe=["decoded value after mutating the input"])
p("C15","Rust: every encoding is exactly the wire format and appends only",
  "Encoding any value with the Rust encoder (none, boolean, integers, floats, bytes, strings, errors, array and map headers) writes exactly the wire bytes documented for its kind at the cursor's end, with shortest varints, zig-zag signed integers, big-endian floats and u32 length prefixes, and succeeds. Bytes already written are unchanged.",
  ["inputs","histories"],"every value of every scalar type, every kind combination; payloads of any length",
  "Unit tests encode one value per type; signed and unsigned extremes and each varint length are sampled once at most.",
  ["encoder.rs","kind.rs"],[("Encoder for &mut Cursor<Vec<u8>>","encoder.rs")],observe=["Cursor contents and position"])
p("C16","Rust: well-formed input decodes to the exact value and remainder",
  "For every input that starts with a well-formed encoding of the requested type, the Rust decoder returns exactly the encoded value and its position advances exactly past that encoding.",
  ["inputs","histories"],"every byte string with a well-formed prefix of the requested type: all values and trailing bytes; payloads of any length",
  "Unit tests cover one value per type.",
  ["decoder.rs"],[("Decoder for Cursor<T>","decoder.rs")],observe=["decode result and Cursor::position"])
p("C17","Rust: decoding never panics, whatever the input bytes",
  "Decoding any value kind with the Rust decoder from any byte string, including truncated, corrupted or hostile ones, returns a value or an error: it never panics, and never allocates memory for a payload that the input does not contain.",
  ["inputs"],"all byte strings, all requested kinds",
  "Unit tests feed well-formed encodings only; a hostile length prefix is never tried.",
  ["decoder.rs"],[("checked reads in decode_*","decoder.rs")],observe=["decode returns","allocation size"])
p("C18","Rust: malformed input is rejected with the requested type's own error",
  "If the input does not start with a well-formed encoding of the requested type (wrong or missing tag, truncated, over-long or out-of-range varint, wrong element kinds, payload shorter than its length, invalid UTF-8 in strings), the Rust decoder returns the error variant of the requested type and never a value.",
  ["inputs"],"all byte strings that are not a well-formed prefix for the requested type",
  "Unit tests check the error only at end of input; over-long varints and nested failures are not sampled.",
  ["decoder.rs"],[("error mapping in decode_*","decoder.rs")],observe=["DecodingError variant"])
p("C19","Rust: a failed tag check consumes nothing",
  "When Rust decoding fails because the tag or the element kinds do not match, the cursor position is unchanged, so another type can be tried at the same place; an unsuccessful none probe consumes nothing, and no failure leaves the position beyond the end of the input or before where it started.",
  ["inputs","histories"],"all byte strings on which a decode fails",
  "Unit tests never look at the position after a failure.",
  ["decoder.rs"],[("set_position on mismatch","decoder.rs")],observe=["Cursor::position"])
p("C20","C API: every call reports its outcome and tolerates null handles",
  "Every C API call that takes a status reports pass, fail or null-pointer for its own outcome: a null encoder, decoder, buffer or string pointer yields the null-pointer status and a neutral result and touches nothing else, a malformed input yields fail (so does a decoded string with a zero byte, which a C string cannot carry), and success yields pass (an unsuccessful none probe is a success). Freeing a null handle is a no-op. The status values are those of polyglot.h.",
  ["inputs"],"every C API function, with null and non-null handles, for all scalar arguments and all inputs (kinds 0 to 16, sizes below 4 GiB, a valid status pointer)",
  "The C test walks one happy path and a few null checks.",
  ["c_bindings/encoder.rs","c_bindings/decoder.rs","c_bindings/types.rs"],[("null checks and status writes","c_bindings/encoder.rs, c_bindings/decoder.rs")],observe=["status out-parameter"])
p("C21","C API: values pass through unchanged in both directions",
  "Values encoded through the C API produce exactly the wire bytes of the value and kinds given, the reported size is the number of bytes the buffer copy delivers, and decoding through the C API yields exactly the value (or header size) that the bytes encode and advances past it. The header polyglot.h declares the functions and the byte buffer as the library defines them.",
  ["inputs"],"every C API encode/decode function, all scalar values and kinds 0 to 16; payloads of any length below 4 GiB",
  "The C test encodes one value per type.",
  ["c_bindings/encoder.rs","c_bindings/decoder.rs","c_bindings/types.rs"],[("polyglot_encode_*/polyglot_decode_*","c_bindings")],observe=["encoder buffer bytes","returned values"])
p("C22","C API: every returned object can be freed exactly once, safely",
  "Every object the C API hands out (encoders, decoders, byte buffers, strings, error strings) is released completely and without memory errors by its matching free function, for every content including empty byte buffers; the library never writes outside a caller's buffer and keeps no reference to it.",
  ["inputs"],"every allocation the C API returns; payload lengths below 4 GiB, including zero",
  "The C test under valgrind frees one non-empty object per kind; the empty buffer and the buffer-too-small path are not tried.",
  ["c_bindings/encoder.rs","c_bindings/decoder.rs"],[("polyglot_free_*","c_bindings")],observe=["allocator and memory-safety checks"])
p("C23","TypeScript: every encoding is exactly the wire format, whatever the buffer",
  "Encoding any value in its documented range with the TypeScript encoder appends exactly the wire bytes documented for its kind (shortest varints, zig-zag signed integers, big-endian floats, uint32 length prefixes), growing the buffer as needed whatever initial buffer was supplied. The exposed bytes are exactly the concatenation of the encodings so far.",
  ["inputs","histories"],"every value of every scalar type (strings without lone surrogates), every initial buffer and write position; payload bytes treated as an opaque sequence of any length",
  "Jest tests (not part of the baseline) encode sample values into a 512-byte buffer; growth boundaries and extreme values are not sampled.",
  ["encoder.ts","kind.ts"],[("Encoder methods, resize, varint","encoder.ts")],observe=["Encoder.bytes"])
p("C24","TypeScript: well-formed input decodes to the exact value and remainder",
  "For every input that starts with a well-formed encoding of the requested type, the TypeScript decoder returns exactly the encoded value and its remaining length shrinks by exactly the size of that encoding, also when the input is a view into a larger buffer. Which value a boolean byte of 2 or more, or text that is not UTF-8, decodes to is left open.",
  ["inputs","histories"],"every byte string with a well-formed prefix of the requested type, all values and trailing bytes, any view offset",
  "Jest tests round-trip one value per type.",
  ["decoder.ts","kind.ts"],[("Decoder methods, varint","decoder.ts")],observe=["Decoder results and length"])
p("C25","TypeScript: malformed input is rejected, never returned as a value",
  "If the input does not start with a well-formed encoding of the requested type (wrong or missing tag, truncated, over-long or out-of-range varint, wrong element kinds, payload shorter than its length), the TypeScript decoder throws and never returns a value; an unsuccessful null or any probe, or a mismatched leading tag, consumes nothing, and no failure leaves the position beyond the end of the input or before where it started.",
  ["inputs"],"all byte strings that are not a well-formed prefix for the requested type",
  "Jest tests check only the wrong-kind error.",
  ["decoder.ts"],[("validateKind, pop, varint","decoder.ts")],observe=["thrown errors"])
p("C26","All implementations agree on kind tags and the wire format",
  "The Go v1, Go v2, Rust, C and TypeScript implementations assign the same tag to the same kind (0 nil/none, 1 list, 2 map, 3 any, 4 bytes, 5 string, 6 error, 7 bool, 8 to 11 unsigned 8/16/32/64, 12 and 13 signed 32/64, 14 and 15 float 32/64), so what one encodes every other decodes to the same value. Unknown tags are never mapped onto a known kind.",
  ["configurations","inputs"],"every kind, every tag byte, every pair of implementations",
  "Each implementation is tested against its own encoder and one shared JSON file of sample values.",
  ["v2/encode.go","encode.go","kind.rs","kind.ts","c_bindings/types.rs","polyglot.h.in"],[("kind constants/enums and conversions","kind files")],observe=["emitted tag bytes"])
p("C27","Generated Go v2 code: messages round-trip field by field",
  "The Go v2 generator accepts every one-file schema of supported field types (scalars, enums, messages, lists and maps of these, messages and enums declared inside messages; whatever the package is called, also none; names that give distinct Go identifiers) and its output compiles, with a field for every field of the schema that has the Go type of its declared type. For every generated message type, encoding any message and decoding the bytes into a fresh message yields equal fields (an absent nested message stays absent; an absent message inside a list or map becomes an empty one; nil and empty lists and maps are the same) and consumes exactly the encoded bytes. Encoding does not change the message. A message is appended: what the buffer held stays in front of it. The generated Error method appends one error value. A nil message encodes as one nil value and decodes as absent. Decoding any proper prefix of an encoding yields an error, and decoding arbitrary bytes never panics.",
  ["programs","inputs"],"the generated code for a schema corpus with every supported field type in every position, field numbers out of order, optional and deprecated fields, and a proto2 schema with required fields and defaults; all field values, all list and map sizes, all text and payload lengths",
  "The generator has no round-trip test over its output; only one benchmark schema is committed.",
  ["v2/generator/golang","v2/version","v2/utils"],[("templates","v2/generator/golang/templates"),("type and kind tables, field order","v2/generator/golang/structs.go")],observe=["generated Encode/Decode"])
p("C28","Go: a stream of values decodes to the same values in order, with nothing left",
  "Any sequence of values encoded one after another into one buffer (Go v1 and Go v2) decodes, with the same sequence of requests, to the same values in the same order and ends exactly at the end of the bytes, and resetting the buffer between messages never lets bytes of an earlier message leak into a later one.",
  ["histories","inputs"],"all sequences of operations of any length over all values, by composition of the per-operation contracts",
  "Tests encode fixed sequences of the same type; interleavings of kinds with all value sizes are unbounded.",
  ["v2/encode.go","v2/decode.go","v2/buffer.go","encode.go","decode.go","buffer.go"],[("prefix property of every encoding","encode/decode pairs")],observe=["Buffer.Bytes and decoder results"])
p("C29","Generated Go v1 code: messages round-trip field by field",
  "The Go v1 generator accepts every one-file schema of supported field types (scalars, enums, messages, lists and maps of these, messages and enums declared inside messages; whatever the package is called, also none; names that give distinct Go identifiers) and its output compiles, with a field for every field of the schema that has the Go type of its declared type. For every generated message type, encoding any message and decoding the bytes into a newly constructed message yields equal fields (an absent nested message, also inside a list or map, becomes a newly constructed one; nil and empty lists and maps are the same) and consumes exactly the encoded bytes. Encoding does not change the message. A message is appended: what the buffer held stays in front of it. The generated Error method appends one error value. A nil message encodes as one nil value, which decodes as a newly constructed message. Decoding any proper prefix of an encoding yields an error, and decoding arbitrary bytes never panics.",
  ["programs","inputs"],"the generated code for a schema corpus with every supported field type in every position, field numbers out of order, optional and deprecated fields, and a proto2 schema with required fields and defaults; all field values, all list and map sizes, all text and payload lengths",
  "The generator has no round-trip test over its output.",
  ["generator/golang","version","utils"],[("templates","generator/golang/templates"),("type and kind tables, field order","generator/golang/structs.go")],observe=["generated Encode/Decode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
