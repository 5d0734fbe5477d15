// The wire format, as mathematics: nothing here refers to the code under
// verification.
/* eslint-disable */
export const NONE = 0;
export const ARRAY = 1;
export const MAP = 2;
export const ANY = 3;
export const BYTES = 4;
export const STRING = 5;
export const ERROR = 6;
export const BOOL = 7;
export const U8 = 8;
export const U16 = 9;
export const U32 = 10;
export const U64 = 11;
export const I32 = 12;
export const I64 = 13;
export const F32 = 14;
export const F64 = 15;

// the shortest base-128 little-endian form
export function uvarint(w: number[], v: bigint): number[] {
  let x = v;
  while (x >= 0x80n) {
    w.push(Number(x & 0x7fn) + 0x80);
    x >>= 7n;
  }
  w.push(Number(x));
  return w;
}
export function u32(w: number[], v: number): number[] {
  w.push(U32);
  return uvarint(w, BigInt(v));
}
export function be(w: number[], v: bigint, n: number): number[] {
  for (let i = n - 1; i >= 0; i -= 1) w.push(Number((v >> BigInt(8 * i)) & 0xffn));
  return w;
}
export function zig(v: bigint): bigint {
  return v >= 0n ? v << 1n : (-v << 1n) - 1n;
}
export function zag(u: bigint): bigint {
  return (u & 1n) === 0n ? u >> 1n : -(u >> 1n) - 1n;
}

export interface Got {
  v: bigint;
  used: number;
}
// a varint at b[off..] of at most n bytes whose n-th byte is at most last
export function pVarint(b: Uint8Array, off: number, n: number, last: number): Got | undefined {
  let v = 0n;
  for (let i = 0; i < n; i += 1) {
    if (off + i >= b.length) return undefined;
    const c = b[off + i];
    if (c < 0x80) {
      if (i === n - 1 && c > last) return undefined;
      return { v: v | (BigInt(c) << BigInt(7 * i)), used: i + 1 };
    }
    v |= BigInt(c & 0x7f) << BigInt(7 * i);
  }
  return undefined;
}
export function pTag(b: Uint8Array, off: number, tag: number): boolean {
  return off < b.length && b[off] === tag;
}
export function pUint(b: Uint8Array, off: number, tag: number, n: number, last: number): Got | undefined {
  if (!pTag(b, off, tag)) return undefined;
  const g = pVarint(b, off + 1, n, last);
  return g === undefined ? undefined : { v: g.v, used: g.used + 1 };
}
export function pLen(b: Uint8Array, off: number): Got | undefined {
  return pUint(b, off, U32, 5, 0x0f);
}
export function pBe(b: Uint8Array, off: number, tag: number, n: number): Got | undefined {
  if (!pTag(b, off, tag) || b.length - off < n + 1) return undefined;
  let v = 0n;
  for (let i = 1; i <= n; i += 1) v = (v << 8n) | BigInt(b[off + i]);
  return { v, used: n + 1 };
}
// where the payload at b[off..] starts, and its length
export function pPayload(b: Uint8Array, off: number): { at: number; n: number } | undefined {
  const g = pLen(b, off);
  if (g === undefined) return undefined;
  const at = off + g.used;
  const n = Number(g.v);
  return n > b.length - at ? undefined : { at, n };
}
