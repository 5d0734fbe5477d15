// Runs contracts on the real TypeScript code: replay of given inputs, and
// random search. Request and answer are line-based text files.
//   node run.js REPO GHOST.ts REQUEST ANSWER
"use strict";
const fs = require("fs");
const path = require("path");
const Module = require("module");
const ts = require(process.env.TS_LIB || "/opt/veriftools/node/node_modules/typescript");
const [repo, ghost, reqFile, outFile] = process.argv.slice(2);

const old = Module._resolveFilename;
Module._resolveFilename = function (spec, parent, ...rest) {
  let base = null;
  if (spec === "polyglot") base = path.join(repo, "index");
  else if ((spec.startsWith(".") || path.isAbsolute(spec)) && parent && parent.filename) base = path.resolve(path.dirname(parent.filename), spec);
  if (base) for (const f of [base + ".ts", path.join(base, "index.ts"), base.replace(/\.js$/, ".ts")]) if (fs.existsSync(f) && f.endsWith(".ts")) return f;
  return old.call(this, spec, parent, ...rest);
};
Module._extensions[".ts"] = function (m, file) {
  const o = ts.transpileModule(fs.readFileSync(file, "utf8"), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true } });
  m._compile(o.outputText, file);
};
const verif = require(path.join(path.dirname(ghost), "verif.ts"));
const { st, Skip } = verif;

// ---- random inputs ----
const M = (1n << 64n) - 1n;
class Rng {
  constructor(s) { this.s = BigInt.asUintN(64, s); }
  next() {
    this.s = (this.s + 0x9e3779b97f4a7c15n) & M;
    let z = this.s;
    z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & M;
    z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & M;
    return z ^ (z >> 31n);
  }
  below(n) { return Number(this.next() % BigInt(n)); }
  one(n) { return this.below(n) === 0; }
  byte() { return this.below(256); }
}
function length(r) {
  switch (r.below(40)) {
    case 0: return 127;
    case 1: return 128;
    case 2: return 129;
    case 3: return 255;
    case 4: return 256;
    case 5: return 505 + r.below(10);
    case 6: return 512;
    case 7: return r.below(3000);
    case 8: return r.one(20) ? 16383 + r.below(3) : 3;
    case 9: case 10: case 11: case 12: case 13: return 0;
    default: return r.below(20);
  }
}
function scalar(r) {
  const b = 1n << BigInt(r.below(64));
  switch (r.below(10)) {
    case 0: return 0n;
    case 1: return BigInt(r.below(256));
    case 2: return b;
    case 3: return b - 1n;
    case 4: return b + 1n;
    case 5: return ~b & M;
    case 6: return M;
    case 7: return -b & M;
    default: return r.next() >> BigInt(r.below(64));
  }
}
function inRange(r, lo, hi) {
  const size = hi - lo + 1n;
  switch (r.below(8)) {
    case 0: return lo + BigInt(r.below(3)) % size;
    case 1: return hi - BigInt(r.below(3)) % size;
    case 2: if (lo < 0n) { const v = BigInt(r.below(5) - 2); if (v >= lo && v <= hi) return v; }
  }
  const s = scalar(r);
  if (lo < 0n) { const v = r.one(2) ? s >> BigInt(r.below(32)) : -(s >> BigInt(r.below(63)) >> 1n); if (v >= lo && v <= hi) return v; }
  return s >= lo && s <= hi ? s : lo + s % size;
}
function text(r) {
  const n = length(r);
  let s = "";
  let k = 0;
  const plain = r.one(2);
  if (r.one(10)) { s = "\ufeff"; k = 3; }
  while (k < n) {
    const c = plain ? 0x20 + r.below(95) : [() => r.below(0x80), () => r.below(0x800), () => r.below(0xd800), () => r.below(0x110000)][r.below(4)]();
    if (c >= 0xd800 && c < 0xe000) continue;
    s += String.fromCodePoint(c);
    k += c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
  }
  return [...new TextEncoder().encode(s)];
}
function varint(r, v, x) {
  if (r.one(10)) {
    const n = r.below(12);
    for (let i = 0; i < n; i += 1) v.push(0x80 | r.byte());
    v.push(r.byte() & (r.one(2) ? 0x0f : 0xff));
    return;
  }
  while (x >= 0x80n) { v.push(Number(x & 0x7fn) | 0x80); x >>= 7n; }
  v.push(Number(x));
}
const wantTag = { null: 0, array: 1, map: 2, any: 3, uint8Array: 4, string: 5, error: 6, boolean: 7, uint8: 8, uint16: 9, uint32: 10, uint64: 11, int32: 12, int64: 13, float32: 14, float64: 15 };
function message(r, v, g) {
  const start = v.length;
  let tag = r.below(18);
  const t = wantTag[g.harness.split("_")[2]];
  if (t !== undefined && !r.one(4)) tag = t;
  v.push(tag);
  const kind = (n) => (g.scalars[n] !== undefined && !r.one(5) ? Number(g.scalars[n]) : r.below(18));
  switch (tag) {
    case 1: case 2: {
      v.push(kind("k"));
      if (tag === 2) v.push(kind("v"));
      v.push(r.one(8) ? r.byte() : 10);
      varint(r, v, scalar(r) & 0xffffffffn);
      break;
    }
    case 4: case 5: case 6: {
      if (tag === 6) v.push(r.one(10) ? r.below(18) : 5);
      v.push(r.one(10) ? r.byte() : 10);
      const p = text(r);
      let n = BigInt(p.length);
      const w = r.below(8);
      if (w === 0) n += BigInt(r.below(3));
      if (w === 1) n = scalar(r) & 0xffffffffn;
      varint(r, v, n);
      for (const c of p) v.push(c);
      break;
    }
    case 7: case 8: v.push(r.one(2) ? r.below(3) : r.byte()); break;
    case 9: case 10: case 11: case 12: case 13: {
      const x = scalar(r);
      varint(r, v, tag === 9 ? x & 0xffffn : tag === 10 || tag === 12 ? x & 0xffffffffn : x);
      break;
    }
    case 14: case 15: for (let i = 0; i < (tag === 14 ? 4 : 8); i += 1) v.push(r.byte());
  }
  if (r.one(6)) v.length = start + r.below(v.length - start + 1);
}
class Gen {
  constructor(r, harness) { this.r = r; this.harness = harness; this.at = 0; this.len = 0; this.scalars = {}; }
  get(name, kind, lo, hi) {
    const r = this.r;
    const i = { name, scalar: 0n, bytes: new Uint8Array(0), kind };
    if (kind === "bytes" && name === "b") {
      const v = [];
      const pre = r.one(4) ? r.below(5) : 0;
      for (let k = 0; k < pre; k += 1) v.push(r.byte());
      this.at = pre;
      message(r, v, this);
      if (r.one(3)) message(r, v, this);
      i.bytes = Uint8Array.from(v);
      this.len = v.length;
    } else if (kind === "bytes") {
      const n = length(r);
      i.bytes = new Uint8Array(n).map(() => r.byte());
      this.len = n;
      this.at = r.one(2) ? n - Math.min(n, r.below(16)) : r.below(n + 1);
    } else if (kind === "text") {
      i.bytes = Uint8Array.from(text(r));
    } else if (kind === "f64") {
      i.scalar = r.one(3) ? BigInt.asUintN(64, verif.f64bits([0, -0, 1, -1.5, 1e300, 1e-300, NaN, Infinity, -Infinity, 3.4e38, 3.5e38, 1e-45, 0.1, 16777217][r.below(14)])) : r.next();
    } else if (name === "pos") {
      i.scalar = BigInt(r.one(12) ? r.below(this.len + 1) : this.at);
    } else {
      i.scalar = BigInt.asUintN(64, inRange(r, lo, hi));
      this.scalars[name] = i.scalar;
    }
    return i;
  }
}
class Replay {
  constructor(l) { this.m = new Map(l.map((i) => [i.name, i])); }
  get(name, kind) {
    const i = this.m.get(name) || { name, scalar: 0n, bytes: new Uint8Array(0) };
    i.kind = kind;
    return i;
  }
}

let harnesses;
function run(name, src) {
  Object.assign(st, { source: src, used: [], fails: [], details: [], covers: [], aspect: "" });
  let skipped = false;
  try {
    harnesses[name]();
  } catch (e) {
    if (e instanceof Skip) skipped = st.fails.length === 0 && st.covers.length === 0;
    else { st.fails.push("throw"); st.details.push(String((e && e.constructor && e.constructor.name) + " " + (e && e.message)).replace(/[\n|]/g, " ").slice(0, 200)); }
  }
  return skipped;
}
const hex = (b) => "-" + Buffer.from(b).toString("hex");

let out = "";
let ran = 0;
let skips = 0;
const finds = [];
const seen = new Map();
function record() {
  const used = st.used.map((i) => ({ name: i.name, kind: i.kind, scalar: i.scalar, bytes: i.bytes }));
  st.fails.forEach((l, k) => {
    const key = l + "|" + st.aspect;
    const size = used.reduce((a, i) => a + i.bytes.length, 0);
    const f = { label: l, aspect: st.aspect, detail: st.details[k] || "", used, size };
    const p = seen.get(key);
    if (p === undefined) { seen.set(key, finds.length); finds.push(f); }
    else if (size < finds[p].size) finds[p] = f;
  });
}
try {
  harnesses = require(ghost);
} catch (e) {
  console.error(e);
  process.exit(3);
}
let harness = "";
let ins = [];
for (const l of fs.readFileSync(reqFile, "utf8").split("\n")) {
  const w = l.split(" ");
  if (w[0] === "harness") harness = w[1];
  if (w[0] === "in") ins.push({ name: w[1], scalar: BigInt(w[2]), bytes: Uint8Array.from(Buffer.from(w[3].slice(1), "hex")) });
  if (w[0] === "case") {
    ran += 1;
    if (run(harness, new Replay(ins))) skips += 1;
    record();
    ins = [];
  }
  if (w[0] === "search") {
    const end = Date.now() + Number(w[2]);
    const r = new Rng(BigInt(w[3]) * 1000003n + BigInt([...harness].reduce((a, c) => (a * 31 + c.charCodeAt(0)) % 1000007, 7)));
    for (let i = 0; i < Number(w[1]) && Date.now() < end && finds.length < 8; i += 1) {
      ran += 1;
      if (run(harness, new Gen(new Rng(r.next()), harness))) skips += 1;
      record();
    }
  }
}
out += `ran ${ran} ${skips}\n`;
for (const f of finds) {
  out += `find ${f.label}|${f.aspect}|${f.detail}\n`;
  for (const i of f.used) out += `in ${i.name} ${i.scalar} ${i.kind === "bytes" || i.kind === "text" ? hex(i.bytes) : "scalar"}\n`;
}
fs.writeFileSync(outFile, out);
