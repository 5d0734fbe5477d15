// The vocabulary of the contracts, as it runs on real JavaScript. The verifier
// gives each of these its own meaning (govc/tscheck.go).
/* eslint-disable */
export class Skip {}

export interface Input {
  name: string;
  scalar: bigint;
  bytes: Uint8Array;
}

export interface Source {
  get(name: string, kind: string, lo: bigint, hi: bigint): Input;
}

export const st = {
  source: undefined as unknown as Source,
  used: [] as Input[],
  fails: [] as string[],
  details: [] as string[],
  covers: [] as string[],
  aspect: "",
};

function get(name: string, kind: string, lo = 0n, hi = 0n): Input {
  const i = st.source.get(name, kind, lo, hi);
  st.used.push(i);
  return i;
}
export function assume(c: boolean) {
  if (!c) throw new Skip();
}
export function require(c: boolean, label: string) {
  if (!c) {
    st.fails.push(label);
    st.details.push("");
    throw new Skip();
  }
}
// what the verifier has to be able to show for its proof to count
export function closed(_c: boolean, _why: string) {}
export function cover(what: string) {
  st.covers.push(what);
}
export function aspect(what: string) {
  st.aspect = what;
}
export function anyInt(name: string, lo: number, hi: number): number {
  const v = Number(BigInt.asIntN(64, get(name, "int", BigInt(lo), BigInt(hi)).scalar));
  assume(v >= lo && v <= hi);
  return v;
}
export function anyBig(name: string, lo: bigint, hi: bigint): bigint {
  const s = get(name, "int", lo, hi).scalar;
  const v = lo < 0n ? BigInt.asIntN(64, s) : s;
  assume(v >= lo && v <= hi);
  return v;
}
export function anyBool(name: string): boolean {
  return (get(name, "int", 0n, 1n).scalar & 1n) === 1n;
}
export function anyF64(name: string): number {
  const d = new DataView(new ArrayBuffer(8));
  d.setBigUint64(0, get(name, "f64").scalar);
  return d.getFloat64(0);
}
// any bytes, anywhere inside a larger buffer
export function anyBytes(name: string): Uint8Array {
  const b = get(name, "bytes").bytes;
  const off = Number(get(name + ".off", "int", 0n, 20n).scalar);
  const tail = Number(get(name + ".tail", "int", 0n, 20n).scalar);
  assume(off <= 1 << 20 && tail <= 1 << 20);
  const all = new Uint8Array(off + b.length + tail);
  for (let i = 0; i < off; i += 1) all[i] = (i * 37 + 5) & 0xff;
  for (let i = 0; i < tail; i += 1) all[off + b.length + i] = [1, 0x41, 0, 0x7f, 0x81][i % 5];
  all.set(b, off);
  return new Uint8Array(all.buffer, off, b.length);
}
// any well-formed text
export function anyText(name: string): string {
  const b = get(name, "text").bytes;
  try {
    return new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(b);
  } catch {
    throw new Skip();
  }
}
export function utf8(b: Uint8Array, at: number, n: number): boolean {
  try {
    new TextDecoder("utf-8", { fatal: true }).decode(b.slice(at, at + n));
    return true;
  } catch {
    return false;
  }
}
export function utf8Length(s: string): number {
  return new TextEncoder().encode(s).length;
}
// the n bytes of a at ai are those of b at bi
export function requireSame(a: Uint8Array, ai: number, b: Uint8Array | number[], bi: number, n: number, label: string) {
  require(ai + n <= a.length && bi + n <= b.length, label);
  for (let i = 0; i < n; i += 1) require(a[ai + i] === b[bi + i], label);
}
// the text is what the n bytes of b at `at` say
export function requireText(s: string, b: Uint8Array, at: number, n: number, label: string) {
  require(typeof s === "string", label);
  const t = new TextEncoder().encode(s);
  require(t.length === n, label);
  requireSame(t, 0, b, at, n, label);
}
// the n bytes of b at `at` are the text
export function requireTextAt(b: Uint8Array, at: number, s: string, label: string) {
  const t = new TextEncoder().encode(s);
  requireSame(b, at, t, 0, t.length, label);
}
export function f64bits(v: number): bigint {
  const d = new DataView(new ArrayBuffer(8));
  d.setFloat64(0, v);
  return d.getBigUint64(0);
}
// of the nearest 32-bit float
export function f32bits(v: number): number {
  const d = new DataView(new ArrayBuffer(4));
  d.setFloat32(0, v);
  return d.getUint32(0);
}
// v is the number these bits stand for
export function isF64(v: number, bits: bigint): boolean {
  if (typeof v !== "number") return false;
  const nan = (bits & 0x7fffffffffffffffn) > 0x7ff0000000000000n;
  return nan ? Number.isNaN(v) : f64bits(v) === bits;
}
export function isF32(v: number, bits: number): boolean {
  if (typeof v !== "number") return false;
  const nan = (bits & 0x7fffffff) > 0x7f800000;
  return nan ? Number.isNaN(v) : f32bits(v) === bits && Math.fround(v) === v;
}
// bring an object that was just made over view to position pos; `there` says
// whether it is
export function place(o: { null(): unknown }, view: Uint8Array, pos: number, there: () => boolean) {
  assume(pos <= view.length && pos < 1 << 22);
  const old = view.slice(0, pos);
  view.fill(0, 0, pos);
  for (let i = 0; i < pos; i += 1) o.null();
  view.set(old, 0);
  assume(there());
}
