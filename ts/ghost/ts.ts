// Contracts of the TypeScript Encoder and Decoder: every method.
/* eslint-disable */
import { Decoder, Encoder, Kind } from "polyglot";
import * as S from "./spec";
import {
  anyBig, anyBool, anyBytes, anyF64, anyInt, anyText, aspect, assume, closed, cover, f32bits, f64bits, isF32, isF64, place, require, requireSame, requireText,
  requireTextAt, utf8, utf8Length,
} from "./verif";

const MAX = 2 ** 40;
const U32MAX = 0xffffffff;

// ---- encoder ----

interface Enc {
  e: Encoder;
  view: Uint8Array;
  pos: number;
  old: Uint8Array;
  whole: Uint8Array;
}

// an encoder at any position in any buffer, itself anywhere in a larger one
function enc(): Enc {
  const view = anyBytes("buf");
  const pos = anyInt("pos", 0, MAX);
  assume(pos <= view.length);
  const e = new Encoder(view);
  place(e, view, pos, () => e.bytes.length === pos);
  return { e, view, pos, old: view.slice(0, pos), whole: new Uint8Array(view.buffer).slice() };
}
// afterwards the bytes are the old ones and the given header; how many
function kept(s: Enc, r: Encoder, w: number[], payload: number): Uint8Array {
  require(r === s.e, "encode/chain");
  const out = s.e.bytes;
  require(out.length === s.pos + w.length + payload, "encode/size");
  requireSame(out, 0, s.old, 0, s.pos, "encode/kept");
  requireSame(out, s.pos, w, 0, w.length, "encode/header");
  // nothing of the larger buffer changes
  const now = new Uint8Array(s.view.buffer);
  const end = s.view.byteOffset + s.view.length;
  requireSame(now, 0, s.whole, 0, s.view.byteOffset, "encode/outside");
  requireSame(now, end, s.whole, end, now.length - end, "encode/outside");
  return out;
}
function encode(f: (e: Encoder) => Encoder, w: number[]) {
  const s = enc();
  const r = f(s.e);
  kept(s, r, w, 0);
  cover("encoded");
}

export function h_enc_new() {
  const e = new Encoder();
  require(e.bytes.length === 0, "encode/empty");
  const v = anyInt("v", 0, 255);
  require(e.uint8(v) === e, "encode/chain");
  const out = e.bytes;
  require(out.length === 2, "encode/size");
  requireSame(out, 0, [S.U8, v], 0, 2, "encode/header");
  cover("encoded");
}
export function h_enc_null() {
  encode((e) => e.null(), [S.NONE]);
}
export function h_enc_any() {
  encode((e) => e.any(), [S.ANY]);
}
export function h_enc_boolean() {
  const v = anyBool("v");
  encode((e) => e.boolean(v), [S.BOOL, v ? 1 : 0]);
}
export function h_enc_uint8() {
  const v = anyInt("v", 0, 0xff);
  encode((e) => e.uint8(v), [S.U8, v]);
}
export function h_enc_uint16() {
  const v = anyInt("v", 0, 0xffff);
  encode((e) => e.uint16(v), S.uvarint([S.U16], BigInt(v)));
}
export function h_enc_uint32() {
  const v = anyInt("v", 0, U32MAX);
  encode((e) => e.uint32(v), S.uvarint([S.U32], BigInt(v)));
}
export function h_enc_uint64() {
  const v = anyBig("v", 0n, 0xffffffffffffffffn);
  encode((e) => e.uint64(v), S.uvarint([S.U64], v));
}
export function h_enc_int32() {
  const v = anyInt("v", -0x80000000, 0x7fffffff);
  encode((e) => e.int32(v), S.uvarint([S.I32], S.zig(BigInt(v))));
}
export function h_enc_int64() {
  const v = anyBig("v", -0x8000000000000000n, 0x7fffffffffffffffn);
  encode((e) => e.int64(v), S.uvarint([S.I64], S.zig(v)));
}
// the bits of the number; which of the NaNs stands for NaN is open
export function h_enc_float32() {
  const v = anyF64("v");
  const s = enc();
  const r = s.e.float32(v);
  const g = S.pBe(kept(s, r, [S.F32], 4), s.pos, S.F32, 4)!;
  const bits = Number(g.v);
  require(Number.isNaN(v) ? (bits & 0x7fffffff) > 0x7f800000 : bits === f32bits(v), "encode/value");
  cover("encoded");
}
export function h_enc_float64() {
  const v = anyF64("v");
  const s = enc();
  const r = s.e.float64(v);
  const g = S.pBe(kept(s, r, [S.F64], 8), s.pos, S.F64, 8)!;
  require(isF64(v, g.v), "encode/value");
  cover("encoded");
}
export function h_enc_array() {
  const n = anyInt("n", 0, U32MAX);
  const k = anyInt("k", 0, 15);
  encode((e) => e.array(n, k as Kind), S.u32([S.ARRAY, k], n));
}
export function h_enc_map() {
  const n = anyInt("n", 0, U32MAX);
  const k = anyInt("k", 0, 15);
  const v = anyInt("v", 0, 15);
  encode((e) => e.map(n, k as Kind, v as Kind), S.u32([S.MAP, k, v], n));
}
export function h_enc_uint8Array() {
  const p = anyBytes("p");
  assume(p.length <= U32MAX);
  const s = enc();
  const r = s.e.uint8Array(p);
  const w = S.u32([S.BYTES], p.length);
  const out = kept(s, r, w, p.length);
  requireSame(out, s.pos + w.length, p, 0, p.length, "encode/payload");
  cover("encoded");
}
export function h_enc_string() {
  const p = anyText("p");
  const n = utf8Length(p);
  assume(n <= U32MAX);
  const s = enc();
  const r = s.e.string(p);
  const w = S.u32([S.STRING], n);
  const out = kept(s, r, w, n);
  requireTextAt(out, s.pos + w.length, p, "encode/payload");
  cover("encoded");
}
export function h_enc_error() {
  const p = anyText("p");
  const n = utf8Length(p);
  assume(n <= U32MAX);
  const s = enc();
  const r = s.e.error(new Error(p));
  const w = S.u32([S.ERROR, S.STRING], n);
  const out = kept(s, r, w, n);
  requireTextAt(out, s.pos + w.length, p, "encode/payload");
  cover("encoded");
}

// ---- decoder ----

interface Dec {
  d: Decoder;
  b: Uint8Array;
  pos: number;
}

// a decoder anywhere in any bytes, themselves anywhere in a larger buffer
function dec(): Dec {
  const b = anyBytes("b");
  const pos = anyInt("pos", 0, MAX);
  assume(pos <= b.length);
  const d = new Decoder(b);
  place(d, b, pos, () => d.length === b.length - pos);
  return { d, b, pos };
}
function asked(accept: boolean) {
  aspect(accept ? "accept" : "reject");
}
function accepted(s: Dec, used: number) {
  require(s.d.length === s.b.length - s.pos - used, "accept/advance");
  cover("accepted");
}
function rejected(s: Dec, mismatch: boolean) {
  // later calls start from a state that is examined as well
  const inside = s.d.length >= 0 && s.d.length <= s.b.length - s.pos;
  closed(inside, "a failure leaves the decoder outside its input");
  require(inside, "reject/position");
  if (mismatch) {
    require(s.d.length === s.b.length - s.pos, "reject/consumed");
    cover("mismatch");
  }
  cover("rejected");
}

// run the decoder method; check that it returns exactly when it should
function decode<T>(s: Dec, want: boolean, mismatch: boolean, f: () => T, check: (g: T) => void) {
  asked(want);
  let got: T;
  try {
    got = f();
  } catch {
    require(!want, "accept/rejected");
    rejected(s, mismatch);
    return;
  }
  require(want, "reject/accepted");
  check(got);
}
function scalar<T>(tag: number, parse: (b: Uint8Array, pos: number) => S.Got | undefined, f: (d: Decoder) => T, same: (g: T, v: bigint) => boolean) {
  const s = dec();
  const want = parse(s.b, s.pos);
  decode(
    s,
    want !== undefined,
    !S.pTag(s.b, s.pos, tag),
    () => f(s.d),
    (g) => {
      require(same(g, want!.v), "accept/value");
      accepted(s, want!.used);
    },
  );
}
function probe(tag: number, f: (d: Decoder) => boolean) {
  const s = dec();
  const want = S.pTag(s.b, s.pos, tag);
  asked(want);
  const got = f(s.d);
  if (want) {
    require(got === true, "accept/value");
    accepted(s, 1);
  } else {
    require(got === false, "reject/accepted");
    rejected(s, true);
  }
}
export function h_dec_null() {
  probe(S.NONE, (d) => d.null());
}
export function h_dec_any() {
  probe(S.ANY, (d) => d.any());
}
export function h_dec_boolean() {
  scalar(
    S.BOOL,
    (b, p) => {
      const g = S.pBe(b, p, S.BOOL, 1);
      assume(g === undefined || g.v <= 1n);
      return g;
    },
    (d) => d.boolean(),
    (g, v) => g === (v === 1n),
  );
}
export function h_dec_uint8() {
  scalar(S.U8, (b, p) => S.pBe(b, p, S.U8, 1), (d) => d.uint8(), (g, v) => g === Number(v));
}
export function h_dec_uint16() {
  scalar(S.U16, (b, p) => S.pUint(b, p, S.U16, 3, 3), (d) => d.uint16(), (g, v) => g === Number(v));
}
export function h_dec_uint32() {
  scalar(S.U32, (b, p) => S.pUint(b, p, S.U32, 5, 15), (d) => d.uint32(), (g, v) => g === Number(v));
}
export function h_dec_uint64() {
  scalar(S.U64, (b, p) => S.pUint(b, p, S.U64, 10, 1), (d) => d.uint64(), (g, v) => g === v);
}
export function h_dec_int32() {
  scalar(S.I32, (b, p) => S.pUint(b, p, S.I32, 5, 15), (d) => d.int32(), (g, v) => g === Number(S.zag(v)));
}
export function h_dec_int64() {
  scalar(S.I64, (b, p) => S.pUint(b, p, S.I64, 10, 1), (d) => d.int64(), (g, v) => g === S.zag(v));
}
export function h_dec_float32() {
  scalar(S.F32, (b, p) => S.pBe(b, p, S.F32, 4), (d) => d.float32(), (g, v) => isF32(g, Number(v)));
}
export function h_dec_float64() {
  scalar(S.F64, (b, p) => S.pBe(b, p, S.F64, 8), (d) => d.float64(), (g, v) => isF64(g, v));
}
export function h_dec_array() {
  const k = anyInt("k", 0, 15);
  scalar(
    S.ARRAY,
    (b, p) => {
      if (!S.pTag(b, p, S.ARRAY) || !S.pTag(b, p + 1, k)) return undefined;
      const g = S.pLen(b, p + 2);
      return g === undefined ? undefined : { v: g.v, used: g.used + 2 };
    },
    (d) => d.array(k as Kind),
    (g, v) => g === Number(v),
  );
}
export function h_dec_map() {
  const k = anyInt("k", 0, 15);
  const e = anyInt("v", 0, 15);
  scalar(
    S.MAP,
    (b, p) => {
      if (!S.pTag(b, p, S.MAP) || !S.pTag(b, p + 1, k) || !S.pTag(b, p + 2, e)) return undefined;
      const g = S.pLen(b, p + 3);
      return g === undefined ? undefined : { v: g.v, used: g.used + 3 };
    },
    (d) => d.map(k as Kind, e as Kind),
    (g, v) => g === Number(v),
  );
}
function payload<T>(tag: number, nested: boolean, text: boolean, f: (d: Decoder) => T, check: (g: T, b: Uint8Array, at: number, n: number) => void) {
  const s = dec();
  const head = S.pTag(s.b, s.pos, tag) && (!nested || S.pTag(s.b, s.pos + 1, S.STRING));
  const want = head ? S.pPayload(s.b, s.pos + (nested ? 2 : 1)) : undefined;
  // text that is not UTF-8 is not specified
  if (want !== undefined && text) assume(utf8(s.b, want.at, want.n));
  decode(
    s,
    want !== undefined,
    !S.pTag(s.b, s.pos, tag),
    () => f(s.d),
    (g) => {
      check(g, s.b, want!.at, want!.n);
      accepted(s, want!.at + want!.n - s.pos);
    },
  );
}
export function h_dec_uint8Array() {
  payload(S.BYTES, false, false, (d) => d.uint8Array(), (g, b, at, n) => {
    require(g.length === n, "accept/length");
    requireSame(g, 0, b, at, n, "accept/payload");
  });
}
export function h_dec_string() {
  payload(S.STRING, false, true, (d) => d.string(), (g, b, at, n) => requireText(g, b, at, n, "accept/payload"));
}
export function h_dec_error() {
  payload(S.ERROR, true, true, (d) => d.error(), (g, b, at, n) => {
    require(g instanceof Error, "accept/error");
    requireText(g.message, b, at, n, "accept/payload");
  });
}

// ---- kinds ----

export function h_kinds() {
  require(Kind.Null === 0, "kind/Null");
  require(Kind.Array === 1, "kind/Array");
  require(Kind.Map === 2, "kind/Map");
  require(Kind.Any === 3, "kind/Any");
  require(Kind.Uint8Array === 4, "kind/Uint8Array");
  require(Kind.String === 5, "kind/String");
  require(Kind.Error === 6, "kind/Error");
  require(Kind.Boolean === 7, "kind/Boolean");
  require(Kind.Uint8 === 8, "kind/Uint8");
  require(Kind.Uint16 === 9, "kind/Uint16");
  require(Kind.Uint32 === 10, "kind/Uint32");
  require(Kind.Uint64 === 11, "kind/Uint64");
  require(Kind.Int32 === 12, "kind/Int32");
  require(Kind.Int64 === 13, "kind/Int64");
  require(Kind.Float32 === 14, "kind/Float32");
  require(Kind.Float64 === 15, "kind/Float64");
  cover("kinds");
}

// ---- histories, run on the real code only ----

type Op = [number, bigint, string, Uint8Array];
function ops(): Op[] {
  const n = anyInt("n", 1, 12);
  const r: Op[] = [];
  for (let i = 0; i < n; i += 1) {
    r.push([anyInt("op" + i, 0, 17), anyBig("x" + i, 0n, 0xffffffffffffffffn), anyText("p" + i), anyBytes("q" + i)]);
  }
  return r;
}
const KINDS = [S.NONE, S.ANY, S.BOOL, S.U8, S.U16, S.U32, S.U64, S.I32, S.I64, S.F32, S.F64, S.ARRAY, S.MAP, S.BYTES, S.STRING, S.ERROR, S.NONE, S.STRING];
function f64(x: bigint): number {
  const d = new DataView(new ArrayBuffer(8));
  d.setBigUint64(0, x);
  const v = d.getFloat64(0);
  return Number.isNaN(v) ? 0 : v;
}
// the operation on the encoder, and the bytes it has to append
function run(e: Encoder, [op, x, p, q]: Op): number[] {
  const u = Number(x & 0xffffffffn);
  const push = (w: number[], b: Uint8Array) => {
    S.u32(w, b.length);
    b.forEach((c) => w.push(c));
    return w;
  };
  const t = new TextEncoder().encode(p);
  switch (KINDS[op]) {
    case S.ANY:
      e.any();
      return [S.ANY];
    case S.BOOL:
      e.boolean((u & 1) === 1);
      return [S.BOOL, u & 1];
    case S.U8:
      e.uint8(u & 255);
      return [S.U8, u & 255];
    case S.U16:
      e.uint16(u & 0xffff);
      return S.uvarint([S.U16], x & 0xffffn);
    case S.U32:
      e.uint32(u);
      return S.uvarint([S.U32], BigInt(u));
    case S.U64:
      e.uint64(x);
      return S.uvarint([S.U64], x);
    case S.I32:
      e.int32(Number(S.zag(BigInt(u))));
      return S.uvarint([S.I32], BigInt(u));
    case S.I64:
      e.int64(S.zag(x));
      return S.uvarint([S.I64], x);
    case S.F32:
      e.float32(f64(x));
      return S.be([S.F32], BigInt(f32bits(f64(x))), 4);
    case S.F64:
      e.float64(f64(x));
      return S.be([S.F64], f64bits(f64(x)), 8);
    case S.ARRAY:
      e.array(u, (op + u) % 16);
      return S.u32([S.ARRAY, (op + u) % 16], u);
    case S.MAP:
      e.map(u, (op + u) % 16, u % 16);
      return S.u32([S.MAP, (op + u) % 16, u % 16], u);
    case S.BYTES:
      e.uint8Array(q);
      return push([S.BYTES], q);
    case S.STRING:
      e.string(p);
      return push([S.STRING], t);
    case S.ERROR:
      e.error(new Error(p));
      return push([S.ERROR, S.STRING], t);
    default:
      e.null();
      return [S.NONE];
  }
}
export function n_enc_history() {
  const view = anyBytes("buf");
  const l = ops();
  const es = [anyBool("new") ? new Encoder() : new Encoder(view), new Encoder()];
  const want: number[][] = [[], []];
  l.forEach((o, i) => {
    const k = i % 5 === 4 ? 1 : 0;
    run(es[k], o).forEach((c) => want[k].push(c));
    for (let j = 0; j < 2; j += 1) {
      require(es[j].bytes.length === want[j].length, "encode/size");
      requireSame(es[j].bytes, 0, want[j], 0, want[j].length, "encode/header");
    }
  });
  cover("encoded");
}
export function n_dec_history() {
  const l = ops();
  const w: number[] = [];
  const at: number[] = [];
  l.forEach((o) => {
    at.push(w.length);
    run(new Encoder(), o).forEach((c) => w.push(c));
  });
  const lead = anyInt("lead", 0, 9);
  const all = new Uint8Array(lead + w.length + 9);
  all.set(w, lead);
  aspect("accept");
  const d = new Decoder(new Uint8Array(all.buffer, lead, w.length));
  l.forEach(([op, x, p, q], i) => {
    require(d.length === w.length - at[i], "accept/advance");
    const u = Number(x & 0xffffffffn);
    let ok = true;
    switch (KINDS[op]) {
      case S.ANY:
        ok = d.any() === true;
        break;
      case S.BOOL:
        ok = d.boolean() === ((u & 1) === 1);
        break;
      case S.U8:
        ok = d.uint8() === (u & 255);
        break;
      case S.U16:
        ok = d.uint16() === (u & 0xffff);
        break;
      case S.U32:
        ok = d.uint32() === u;
        break;
      case S.U64:
        ok = d.uint64() === x;
        break;
      case S.I32:
        ok = d.int32() === Number(S.zag(BigInt(u)));
        break;
      case S.I64:
        ok = d.int64() === S.zag(x);
        break;
      case S.F32:
        ok = isF32(d.float32(), f32bits(f64(x)));
        break;
      case S.F64:
        ok = isF64(d.float64(), f64bits(f64(x)));
        break;
      case S.ARRAY:
        ok = d.array((op + u) % 16) === u;
        break;
      case S.MAP:
        ok = d.map((op + u) % 16, u % 16) === u;
        break;
      case S.BYTES: {
        const g = d.uint8Array();
        ok = g.length === q.length && g.every((c, j) => c === q[j]);
        break;
      }
      case S.STRING:
        ok = d.string() === p;
        break;
      case S.ERROR:
        ok = d.error().message === p;
        break;
      default:
        ok = d.null() === true;
    }
    require(ok, "accept/value");
  });
  require(d.length === 0, "accept/advance");
  cover("accepted");
}
