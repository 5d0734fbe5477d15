//! Contracts of polyglot_rs: every method of Encoder and Decoder.
#[path = "spec.rs"]
pub mod spec;
use polyglot_rs::{Decoder, DecodingError, Encoder, EncodingError, Kind};
use spec::*;
use std::error::Error;
use std::io::Cursor;
use verif::*;

fn any_kind(name: &'static str) -> (u8, Kind) {
    let k = any_u8(name);
    assume(k <= 16);
    (k, unsafe { std::mem::transmute::<u8, Kind>(k) })
}

// ---- encoder ----

struct Enc { c: Cursor<Vec<u8>>, old: &'static [u8] }

/// a cursor at the end of a vector of any length, capacity and contents
fn enc() -> Enc {
    let v = any_vec("buf");
    let old = snapshot(&v);
    assume(old.len() <= 1 << 40);
    let mut c = Cursor::new(v);
    c.set_position(old.len() as u64);
    Enc { c, old }
}

impl Enc {
    fn appended(&self, w: &W) { self.appended2(w, &[]) }
    fn appended2(&self, w: &W, payload: &[u8]) {
        let out: &[u8] = self.c.get_ref();
        let n = self.old.len();
        require(out.len() == n + w.n + payload.len(), "encode/size");
        require(self.c.position() == out.len() as u64, "encode/position");
        require_same(out, 0, self.old, 0, n, "encode/kept");
        require_same(out, n, &w.b, 0, w.n, "encode/header");
        if payload.len() > 0 {
            require_same(out, n + w.n, payload, 0, payload.len(), "encode/payload");
        }
        cover("encoded");
    }
}

macro_rules! enc {
    ($h:ident, $( $in:ident : $t:ty = $any:expr ),* ; |$c:ident| $call:expr ; $w:expr) => {
        pub fn $h() {
            $( let $in: $t = $any; )*
            let mut s = enc();
            let ok = { let $c = &mut s.c; let r: Result<_, EncodingError> = $call; r.is_ok() };
            require(ok, "encode/ok");
            s.appended(&$w);
        }
    };
}
enc!(h_enc_none, ; |c| c.encode_none(); W::new(NONE));
enc!(h_enc_bool, v: bool = any_u8("v") & 1 == 1; |c| c.encode_bool(v); W::new(BOOL).push(if v { 1 } else { 0 }));
enc!(h_enc_u8, v: u8 = any_u8("v"); |c| c.encode_u8(v); W::new(U8).push(v));
enc!(h_enc_u16, v: u16 = any_u16("v"); |c| c.encode_u16(v); W::new(U16).uvarint(v as u64));
enc!(h_enc_u32, v: u32 = any_u32("v"); |c| c.encode_u32(v); W::new(U32).uvarint(v as u64));
enc!(h_enc_u64, v: u64 = any_u64("v"); |c| c.encode_u64(v); W::new(U64).uvarint(v));
enc!(h_enc_i32, v: i32 = any_u32("v") as i32; |c| c.encode_i32(v); W::new(I32).uvarint(zig(v as i64)));
enc!(h_enc_i64, v: i64 = any_u64("v") as i64; |c| c.encode_i64(v); W::new(I64).uvarint(zig(v)));
enc!(h_enc_f32, v: u32 = any_u32("v"); |c| c.encode_f32(f32::from_bits(v)); W::new(F32).be(v as u64, 4));
enc!(h_enc_f64, v: u64 = any_u64("v"); |c| c.encode_f64(f64::from_bits(v)); W::new(F64).be(v, 8));
enc!(h_enc_array, n: u32 = any_u32("n"), k: (u8, Kind) = any_kind("k"); |c| c.encode_array(n as usize, k.1); W::new(ARRAY).push(k.0).u32(n));
enc!(h_enc_map, n: u32 = any_u32("n"), k: (u8, Kind) = any_kind("k"), v: (u8, Kind) = any_kind("v"); |c| c.encode_map(n as usize, k.1, v.1); W::new(MAP).push(k.0).push(v.0).u32(n));

/// payloads whose length fits the format
fn payload() -> &'static [u8] {
    let p = any_bytes("p");
    assume(p.len() <= u32::MAX as usize);
    p
}
fn text() -> &'static str {
    let p = payload();
    assume(utf8(p));
    unsafe { std::str::from_utf8_unchecked(p) }
}
pub fn h_enc_bytes() {
    let p = payload();
    let mut s = enc();
    require((&mut s.c).encode_bytes(p).is_ok(), "encode/ok");
    s.appended2(&W::new(BYTES).u32(p.len() as u32), p);
}
pub fn h_enc_str() {
    let p = text();
    let mut s = enc();
    require((&mut s.c).encode_str(p).is_ok(), "encode/ok");
    s.appended2(&W::new(STRING).u32(p.len() as u32), p.as_bytes());
}
pub fn h_enc_string() {
    let p = text();
    let v = p.to_owned();
    let mut s = enc();
    require((&mut s.c).encode_string(&v).is_ok(), "encode/ok");
    s.appended2(&W::new(STRING).u32(p.len() as u32), p.as_bytes());
}
/// any error whose message is the given text
#[derive(Debug)]
struct Msg(&'static str);
impl std::fmt::Display for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) }
}
impl Error for Msg {}
pub fn h_enc_error() {
    let p = text();
    let mut s = enc();
    require((&mut s.c).encode_error(Box::new(Msg(p))).is_ok(), "encode/ok");
    s.appended2(&W::new(ERROR).push(STRING).u32(p.len() as u32), p.as_bytes());
}
pub fn h_enc_string_error() {
    let p = text();
    let mut s = enc();
    require((&mut s.c).encode_error(Box::<dyn Error>::from(p)).is_ok(), "encode/ok");
    s.appended2(&W::new(ERROR).push(STRING).u32(p.len() as u32), p.as_bytes());
}

// ---- decoder ----

struct Dec { b: &'static [u8], pos: usize }

/// a cursor anywhere in any byte string
fn dec() -> (Dec, Cursor<&'static [u8]>) {
    let b = any_bytes("b");
    let pos = any_len("pos");
    assume(pos <= b.len());
    let mut c = Cursor::new(b);
    c.set_position(pos as u64);
    alloc_limit(b.len() - pos + 64);
    (Dec { b, pos }, c)
}

impl Dec {
    fn accepted(&self, c: &Cursor<&'static [u8]>, used: usize) {
        require(c.position() == (self.pos + used) as u64, "accept/advance");
        cover("accepted");
    }
    /// after an error: is it the right one, and where is the cursor?
    fn rejected(&self, c: &Cursor<&'static [u8]>, own: bool, mismatch: bool) {
        require(own, "reject/error");
        let p = c.position();
        require(p >= self.pos as u64 && p <= self.b.len() as u64, "position/range");
        if mismatch {
            require(p == self.pos as u64, "position/mismatch");
            cover("mismatch");
        }
        cover("rejected");
    }
}

fn asked(accept: bool) { aspect(if accept { "accept" } else { "reject" }) }

macro_rules! dec {
    ($h:ident, $m:ident, $tag:expr, $want:expr, $err:ident, |$g:ident, $v:ident| $eq:expr) => {
        pub fn $h() {
            let (d, mut c) = dec();
            let want: Option<(u64, usize)> = $want(d.b, d.pos);
            asked(want.is_some());
            match (want, c.$m()) {
                (Some(($v, used)), Ok($g)) => {
                    require($eq, "accept/value");
                    d.accepted(&c, used);
                }
                (Some(_), Err(_)) => require(false, "accept/rejected"),
                (None, Ok(_)) => require(false, "reject/accepted"),
                (None, Err(e)) => d.rejected(&c, matches!(e, DecodingError::$err), !p_tag(d.b, d.pos, $tag)),
            }
        }
    };
}
fn p_byte(b: &[u8], pos: usize, tag: u8) -> Option<(u64, usize)> {
    if p_tag(b, pos, tag) && b.len() - pos >= 2 { Some((b[pos + 1] as u64, 2)) } else { None }
}
dec!(h_dec_bool, decode_bool, BOOL, |b, p| p_byte(b, p, BOOL), InvalidBool, |g, v| g == (v == 1));
dec!(h_dec_u8, decode_u8, U8, |b, p| p_byte(b, p, U8), InvalidU8, |g, v| g as u64 == v);
dec!(h_dec_u16, decode_u16, U16, |b, p| p_uint(b, p, U16, 3, 3), InvalidU16, |g, v| g as u64 == v);
dec!(h_dec_u32, decode_u32, U32, |b, p| p_uint(b, p, U32, 5, 15), InvalidU32, |g, v| g as u64 == v);
dec!(h_dec_u64, decode_u64, U64, |b, p| p_uint(b, p, U64, 10, 1), InvalidU64, |g, v| g == v);
dec!(h_dec_i32, decode_i32, I32, |b, p| p_uint(b, p, I32, 5, 15), InvalidI32, |g, v| g as i64 == zag(v));
dec!(h_dec_i64, decode_i64, I64, |b, p| p_uint(b, p, I64, 10, 1), InvalidI64, |g, v| g == zag(v));
dec!(h_dec_f32, decode_f32, F32, |b, p| p_be(b, p, F32, 4), InvalidF32, |g, v| g.to_bits() as u64 == v);
dec!(h_dec_f64, decode_f64, F64, |b, p| p_be(b, p, F64, 8), InvalidF64, |g, v| g.to_bits() == v);

pub fn h_dec_none() {
    let (d, mut c) = dec();
    asked(p_tag(d.b, d.pos, NONE));
    let got = c.decode_none();
    if p_tag(d.b, d.pos, NONE) {
        require(got, "accept/value");
        d.accepted(&c, 1);
    } else {
        require(!got, "reject/accepted");
        d.rejected(&c, true, true);
    }
}

pub fn h_dec_array() {
    let (d, mut c) = dec();
    let (k, kind) = any_kind("k");
    let head = p_tag(d.b, d.pos, ARRAY) && p_tag(d.b, d.pos + 1, k);
    let want = if head { p_len(d.b, d.pos + 2) } else { None };
    asked(want.is_some());
    match (want, c.decode_array(kind)) {
        (Some((v, used)), Ok(n)) => {
            require(n as u64 == v, "accept/value");
            d.accepted(&c, used + 2);
        }
        (Some(_), Err(_)) => require(false, "accept/rejected"),
        (None, Ok(_)) => require(false, "reject/accepted"),
        (None, Err(e)) => d.rejected(&c, matches!(e, DecodingError::InvalidArray), !head),
    }
}
pub fn h_dec_map() {
    let (d, mut c) = dec();
    let (k, kind) = any_kind("k");
    let (v, vkind) = any_kind("v");
    let head = p_tag(d.b, d.pos, MAP) && p_tag(d.b, d.pos + 1, k) && p_tag(d.b, d.pos + 2, v);
    let want = if head { p_len(d.b, d.pos + 3) } else { None };
    asked(want.is_some());
    match (want, c.decode_map(kind, vkind)) {
        (Some((v, used)), Ok(n)) => {
            require(n as u64 == v, "accept/value");
            d.accepted(&c, used + 3);
        }
        (Some(_), Err(_)) => require(false, "accept/rejected"),
        (None, Ok(_)) => require(false, "reject/accepted"),
        (None, Err(e)) => d.rejected(&c, matches!(e, DecodingError::InvalidMap), !head),
    }
}
pub fn h_dec_bytes() {
    let (d, mut c) = dec();
    let head = p_tag(d.b, d.pos, BYTES);
    let want = if head { p_payload(d.b, d.pos + 1) } else { None };
    asked(want.is_some());
    match (want, c.decode_bytes()) {
        (Some((at, n)), Ok(v)) => {
            require(v.len() == n, "accept/length");
            require_same(&v, 0, d.b, at, n, "accept/payload");
            d.accepted(&c, at + n - d.pos);
        }
        (Some(_), Err(_)) => require(false, "accept/rejected"),
        (None, Ok(_)) => require(false, "reject/accepted"),
        (None, Err(e)) => d.rejected(&c, matches!(e, DecodingError::InvalidBytes), !head),
    }
}
fn p_text(b: &'static [u8], off: usize) -> Option<(usize, usize)> {
    match p_payload(b, off) {
        Some((at, n)) if utf8(&b[at..at + n]) => Some((at, n)),
        _ => None,
    }
}
pub fn h_dec_string() {
    let (d, mut c) = dec();
    let head = p_tag(d.b, d.pos, STRING);
    let want = if head { p_text(d.b, d.pos + 1) } else { None };
    asked(want.is_some());
    match (want, c.decode_string()) {
        (Some((at, n)), Ok(v)) => {
            require(v.len() == n, "accept/length");
            require_same(v.as_bytes(), 0, d.b, at, n, "accept/payload");
            d.accepted(&c, at + n - d.pos);
        }
        (Some(_), Err(_)) => require(false, "accept/rejected"),
        (None, Ok(_)) => require(false, "reject/accepted"),
        (None, Err(e)) => d.rejected(&c, matches!(e, DecodingError::InvalidString), !head),
    }
}
pub fn h_dec_error() {
    let (d, mut c) = dec();
    let head = p_tag(d.b, d.pos, ERROR) && p_tag(d.b, d.pos + 1, STRING);
    let want = if head { p_text(d.b, d.pos + 2) } else { None };
    asked(want.is_some());
    match (want, c.decode_error()) {
        (Some((at, n)), Ok(v)) => {
            d.accepted(&c, at + n - d.pos);
            alloc_limit(usize::MAX);
            let m = v.to_string();
            require(m.len() == n, "accept/length");
            require_same(m.as_bytes(), 0, d.b, at, n, "accept/payload");
        }
        (Some(_), Err(_)) => require(false, "accept/rejected"),
        (None, Ok(_)) => require(false, "reject/accepted"),
        (None, Err(e)) => d.rejected(&c, matches!(e, DecodingError::InvalidError), !head),
    }
}

// ---- kinds ----

pub fn h_kinds() {
    require(Kind::None as u8 == 0, "kind/None");
    require(Kind::Array as u8 == 1, "kind/Array");
    require(Kind::Map as u8 == 2, "kind/Map");
    require(Kind::Any as u8 == 3, "kind/Any");
    require(Kind::Bytes as u8 == 4, "kind/Bytes");
    require(Kind::String as u8 == 5, "kind/String");
    require(Kind::Error as u8 == 6, "kind/Error");
    require(Kind::Bool as u8 == 7, "kind/Bool");
    require(Kind::U8 as u8 == 8, "kind/U8");
    require(Kind::U16 as u8 == 9, "kind/U16");
    require(Kind::U32 as u8 == 10, "kind/U32");
    require(Kind::U64 as u8 == 11, "kind/U64");
    require(Kind::I32 as u8 == 12, "kind/I32");
    require(Kind::I64 as u8 == 13, "kind/I64");
    require(Kind::F32 as u8 == 14, "kind/F32");
    require(Kind::F64 as u8 == 15, "kind/F64");
    cover("kinds");
}
/// every byte stands for the kind with that tag, or for none
pub fn h_kind_from() {
    let b = any_u8("b");
    let k = Kind::from(b);
    let same = match b {
        0 => matches!(k, Kind::None),
        1 => matches!(k, Kind::Array),
        2 => matches!(k, Kind::Map),
        3 => matches!(k, Kind::Any),
        4 => matches!(k, Kind::Bytes),
        5 => matches!(k, Kind::String),
        6 => matches!(k, Kind::Error),
        7 => matches!(k, Kind::Bool),
        8 => matches!(k, Kind::U8),
        9 => matches!(k, Kind::U16),
        10 => matches!(k, Kind::U32),
        11 => matches!(k, Kind::U64),
        12 => matches!(k, Kind::I32),
        13 => matches!(k, Kind::I64),
        14 => matches!(k, Kind::F32),
        15 => matches!(k, Kind::F64),
        _ => matches!(k, Kind::Unknown),
    };
    require(same, "kind/from");
    cover("kinds");
}
