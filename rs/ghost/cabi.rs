//! Contracts of the C bindings: every function polyglot.h declares.
#[path = "spec.rs"]
pub mod spec;
use c_bindings::decoder::*;
use c_bindings::encoder::*;
use c_bindings::types::{Buffer, Kind, Status};
use spec::*;
use std::ffi::c_char;
use std::io::Cursor;
use std::mem::{size_of, transmute};
use std::ptr::null_mut;
use verif::*;

const PASS: u8 = 0;
const FAIL: u8 = 1;
const NULL: u8 = 2;

/// what polyglot.h declares
#[repr(C)]
struct CBuffer { data: *mut u8, length: u32 }

/// the caller's status variable, holding anything it may hold
struct St(u8);
fn status() -> St {
    let k = any_u8("st");
    assume(k <= 2);
    St(k)
}
impl St {
    fn p(&mut self) -> *mut Status { &mut self.0 as *mut u8 as *mut Status }
    fn is(&self, want: u8) {
        let l = match want { PASS => "status/pass", FAIL => "status/fail", _ => "status/null" };
        require(self.0 == want, l);
        cover(match want { PASS => "pass", FAIL => "fail", _ => "null" });
    }
}
fn null() -> bool {
    let b = any_u8("null") & 1 == 1;
    if b { aspect("null") }
    b
}
fn any_kind(name: &'static str) -> (u8, Kind) {
    let k = any_u8(name);
    assume(k <= 16);
    (k, unsafe { transmute::<u8, Kind>(k) })
}
// contract of Kind::into: the tag stays the same
pub fn pre_kind_into(_k: Kind) -> bool { true }
pub fn con_kind_into(k: Kind) -> polyglot_rs::Kind { unsafe { transmute::<Kind, polyglot_rs::Kind>(k) } }
pub fn k_kind_into() {
    let (k, kind) = any_kind("k");
    require(kind.into() as u8 == k, "contract/kind");
    cover("kind");
}
/// a call with a null handle allocates and frees nothing
struct Heap(usize);
fn heap() -> Heap { Heap(live()) }
impl Heap {
    fn same(&self) {
        require(live() == self.0, "memory/blocks");
        cover("released");
    }
}

// ---- encoder ----

/// an encoder that has already encoded anything
struct Enc { e: *mut Encoder, old: &'static [u8] }
fn cursor_of(e: *mut Encoder) -> Option<&'static mut Cursor<Vec<u8>>> {
    if size_of::<Encoder>() == size_of::<Cursor<Vec<u8>>>() { Some(unsafe { &mut *(e as *mut Cursor<Vec<u8>>) }) } else { None }
}
fn enc() -> Enc {
    let mut st = St(FAIL);
    let e = polyglot_new_encoder(st.p());
    match cursor_of(e) {
        Some(c) => {
            let v = any_vec("buf");
            let old = snapshot(&v);
            assume(old.len() <= u32::MAX as usize);
            *c = Cursor::new(v);
            c.set_position(old.len() as u64);
            Enc { e, old }
        }
        None => Enc { e, old: &[] },
    }
}
impl Enc {
    /// the encoder now holds the old bytes, w and the payload
    fn appended(&self, w: &W, payload: &[u8]) {
        let n = self.old.len();
        let total = n + w.n + payload.len();
        if let Some(c) = cursor_of(self.e) {
            require(c.position() == total as u64, "value/position");
            let out: &[u8] = c.get_ref();
            require(out.len() == total, "value/size");
            require_same(out, 0, self.old, 0, n, "value/kept");
            require_same(out, n, &w.b, 0, w.n, "value/header");
            if payload.len() > 0 { require_same(out, n + w.n, payload, 0, payload.len(), "value/payload") }
        } else if total < 1 << 20 {
            // through the API alone
            let mut st = St(FAIL);
            let mut out = vec![0u8; total];
            require(polyglot_encoder_size(st.p(), self.e) as usize == total, "value/size");
            polyglot_encoder_buffer(st.p(), self.e, out.as_mut_ptr(), total as u32);
            require(st.0 == PASS, "value/size");
            require_same(&out, n, &w.b, 0, w.n, "value/header");
            if payload.len() > 0 { require_same(&out, n + w.n, payload, 0, payload.len(), "value/payload") }
        }
        cover("encoded");
    }
    /// nothing was encoded
    fn untouched(&self) { self.appended(&W { b: [0; 24], n: 0 }, &[]) }
}

macro_rules! enc {
    ($h:ident, $( $in:ident : $t:ty = $any:expr ),* ; |$s:ident, $e:ident| $call:expr ; $w:expr) => {
        pub fn $h() {
            $( let $in: $t = $any; )*
            let mut st = status();
            if null() {
                let m = heap();
                { let ($s, $e) = (st.p(), null_mut()); $call; }
                st.is(NULL);
                m.same();
                return;
            }
            let m = heap();
            let o = enc();
            aspect("accept");
            { let ($s, $e) = (st.p(), o.e); $call; }
            st.is(PASS);
            o.appended(&$w, &[]);
            polyglot_free_encoder(o.e);
            m.same();
        }
    };
}
enc!(h_encode_none, ; |s, e| polyglot_encode_none(s, e); W::new(NONE));
enc!(h_encode_bool, v: bool = any_u8("v") & 1 == 1; |s, e| polyglot_encode_bool(s, e, v); W::new(BOOL).push(if v { 1 } else { 0 }));
enc!(h_encode_u8, v: u8 = any_u8("v"); |s, e| polyglot_encode_u8(s, e, v); W::new(U8).push(v));
enc!(h_encode_u16, v: u16 = any_u16("v"); |s, e| polyglot_encode_u16(s, e, v); W::new(U16).uvarint(v as u64));
enc!(h_encode_u32, v: u32 = any_u32("v"); |s, e| polyglot_encode_u32(s, e, v); W::new(U32).uvarint(v as u64));
enc!(h_encode_u64, v: u64 = any_u64("v"); |s, e| polyglot_encode_u64(s, e, v); W::new(U64).uvarint(v));
enc!(h_encode_i32, v: i32 = any_u32("v") as i32; |s, e| polyglot_encode_i32(s, e, v); W::new(I32).uvarint(zig(v as i64)));
enc!(h_encode_i64, v: i64 = any_u64("v") as i64; |s, e| polyglot_encode_i64(s, e, v); W::new(I64).uvarint(zig(v)));
enc!(h_encode_f32, v: u32 = any_u32("v"); |s, e| polyglot_encode_f32(s, e, f32::from_bits(v)); W::new(F32).be(v as u64, 4));
enc!(h_encode_f64, v: u64 = any_u64("v"); |s, e| polyglot_encode_f64(s, e, f64::from_bits(v)); W::new(F64).be(v, 8));
enc!(h_encode_array, n: u32 = any_u32("n"), k: (u8, Kind) = any_kind("k"); |s, e| polyglot_encode_array(s, e, n, kind(k.0)); W::new(ARRAY).push(k.0).u32(n));
enc!(h_encode_map, n: u32 = any_u32("n"), k: (u8, Kind) = any_kind("k"), v: (u8, Kind) = any_kind("v"); |s, e| polyglot_encode_map(s, e, n, kind(k.0), kind(v.0)); W::new(MAP).push(k.0).push(v.0).u32(n));

pub fn h_encode_bytes() {
    let p = any_bytes("p");
    assume(p.len() <= u32::MAX as usize);
    let mut st = status();
    let at = p.as_ptr() as *mut u8;
    let m = heap();
    if null() {
        polyglot_encode_bytes(st.p(), null_mut(), at, p.len() as u32);
        st.is(NULL);
        m.same();
        return;
    }
    let o = enc();
    if any_u8("nullbuf") & 1 == 1 {
        aspect("null");
        polyglot_encode_bytes(st.p(), o.e, null_mut(), p.len() as u32);
        st.is(NULL);
        o.untouched();
    } else {
        aspect("accept");
        polyglot_encode_bytes(st.p(), o.e, at, p.len() as u32);
        st.is(PASS);
        o.appended(&W::new(BYTES).u32(p.len() as u32), p);
    }
    polyglot_free_encoder(o.e);
    m.same();
}

macro_rules! enc_text {
    ($h:ident, $f:ident, $w:expr) => {
        pub fn $h() {
            let p = any_cstr("p");
            assume(p.len() <= u32::MAX as usize);
            let mut st = status();
            let at = p.as_ptr() as *mut c_char;
            let m = heap();
            if null() {
                $f(st.p(), null_mut(), at);
                st.is(NULL);
                m.same();
                return;
            }
            let o = enc();
            if any_u8("nullbuf") & 1 == 1 {
                aspect("null");
                $f(st.p(), o.e, null_mut());
                st.is(NULL);
                o.untouched();
            } else if utf8(p) {
                aspect("accept");
                $f(st.p(), o.e, at);
                st.is(PASS);
                o.appended(&$w.u32(p.len() as u32), p);
            } else {
                aspect("reject");
                $f(st.p(), o.e, at);
                st.is(FAIL);
                o.untouched();
            }
            polyglot_free_encoder(o.e);
            m.same();
        }
    };
}
enc_text!(h_encode_string, polyglot_encode_string, W::new(STRING));
enc_text!(h_encode_error, polyglot_encode_error, W::new(ERROR).push(STRING));

pub fn h_new_encoder() {
    let mut st = status();
    let m = heap();
    aspect("accept");
    let e = polyglot_new_encoder(st.p());
    st.is(PASS);
    require(!e.is_null(), "value/encoder");
    require(polyglot_encoder_size(st.p(), e) == 0, "value/empty");
    polyglot_free_encoder(e);
    m.same();
}
pub fn h_free_encoder() {
    let m = heap();
    if null() {
        polyglot_free_encoder(null_mut());
    } else {
        let o = enc();
        polyglot_free_encoder(o.e);
    }
    m.same();
}
pub fn h_encoder_size() {
    let mut st = status();
    let m = heap();
    if null() {
        require(polyglot_encoder_size(st.p(), null_mut()) == 0, "status/neutral");
        st.is(NULL);
        m.same();
        return;
    }
    let o = enc();
    aspect("accept");
    let n = polyglot_encoder_size(st.p(), o.e);
    st.is(PASS);
    require(n as usize == o.old.len(), "value/size");
    o.untouched();
    polyglot_free_encoder(o.e);
    m.same();
}
/// into a buffer of any size with any contents, larger or smaller than needed
pub fn h_encoder_buffer() {
    let mut st = status();
    let mut out = any_vec("out");
    assume(out.len() <= u32::MAX as usize);
    let was = snapshot(&out);
    let m = heap();
    // the callee gets the bytes it is told about and no more
    let (at, n) = (out.as_mut_ptr(), out.len());
    if null() {
        polyglot_encoder_buffer(st.p(), null_mut(), at, n as u32);
        st.is(NULL);
        m.same();
        require_same(&out, 0, was, 0, n, "status/untouched");
        return;
    }
    let o = enc();
    let len = o.old.len();
    if any_u8("nullbuf") & 1 == 1 {
        aspect("null");
        polyglot_encoder_buffer(st.p(), o.e, null_mut(), n as u32);
        st.is(NULL);
    } else if n < len {
        aspect("reject");
        polyglot_encoder_buffer(st.p(), o.e, at, n as u32);
        st.is(FAIL);
        require_same(&out, 0, was, 0, n, "status/untouched");
    } else {
        aspect("accept");
        polyglot_encoder_buffer(st.p(), o.e, at, n as u32);
        st.is(PASS);
        require_same(&out, 0, o.old, 0, len, "value/bytes");
        require_same(&out, len, was, len, n - len, "memory/outside");
    }
    o.untouched();
    polyglot_free_encoder(o.e);
    m.same();
}

// ---- decoder ----

struct Dec { d: *mut Decoder, b: &'static [u8], pos: usize }
fn position_of(d: *mut Decoder) -> Option<&'static mut Cursor<Vec<u8>>> {
    if size_of::<Decoder>() == size_of::<Cursor<Vec<u8>>>() { Some(unsafe { &mut *(d as *mut Cursor<Vec<u8>>) }) } else { None }
}
/// a decoder anywhere in any input; the caller's buffer is given back before
/// the decoder is used
fn dec() -> Dec {
    let mut st = St(FAIL);
    let mine = any_vec("b");
    assume(mine.len() <= u32::MAX as usize);
    let b = snapshot(&mine);
    let d = polyglot_new_decoder(st.p(), mine.as_ptr() as *mut u8, b.len() as u32);
    drop(mine);
    let mut pos = 0;
    if let Some(c) = position_of(d) {
        pos = any_len("pos");
        assume(pos <= b.len());
        c.set_position(pos as u64);
    }
    Dec { d, b, pos }
}
impl Dec {
    fn at(&self, used: usize) {
        if let Some(c) = position_of(self.d) {
            require(c.position() == (self.pos + used) as u64, "value/position");
            let now: &[u8] = c.get_ref();
            require(now.len() == self.b.len(), "value/input");
        }
        cover("accepted");
    }
    fn free(self) { polyglot_free_decoder(self.d) }
}
fn asked(accept: bool) { aspect(if accept { "accept" } else { "reject" }) }

macro_rules! dec {
    ($h:ident, $f:expr, $want:expr, $zero:expr, |$g:ident, $v:ident| $eq:expr $(, $in:ident = $any:expr)*) => {
        pub fn $h() {
            $( let $in: u8 = $any; )*
            let mut st = status();
            let m = heap();
            if null() {
                let $g = ($f)(st.p(), null_mut());
                st.is(NULL);
                require($zero, "status/neutral");
                m.same();
                return;
            }
            let d = dec();
            let want: Option<(u64, usize)> = $want(d.b, d.pos);
            asked(want.is_some());
            let $g = ($f)(st.p(), d.d);
            match want {
                Some(($v, used)) => {
                    st.is(PASS);
                    require($eq, "value/result");
                    d.at(used);
                }
                None => {
                    st.is(FAIL);
                    require($zero, "status/neutral");
                }
            }
            d.free();
            m.same();
        }
    };
}
fn p_byte(b: &[u8], pos: usize, tag: u8) -> Option<(u64, usize)> {
    if p_tag(b, pos, tag) && b.len() - pos >= 2 { Some((b[pos + 1] as u64, 2)) } else { None }
}
dec!(h_decode_bool, polyglot_decode_bool, |b, p| p_byte(b, p, BOOL), !g, |g, v| g == (v == 1));
dec!(h_decode_u8, polyglot_decode_u8, |b, p| p_byte(b, p, U8), g == 0, |g, v| g as u64 == v);
dec!(h_decode_u16, polyglot_decode_u16, |b, p| p_uint(b, p, U16, 3, 3), g == 0, |g, v| g as u64 == v);
dec!(h_decode_u32, polyglot_decode_u32, |b, p| p_uint(b, p, U32, 5, 15), g == 0, |g, v| g as u64 == v);
dec!(h_decode_u64, polyglot_decode_u64, |b, p| p_uint(b, p, U64, 10, 1), g == 0, |g, v| g == v);
dec!(h_decode_i32, polyglot_decode_i32, |b, p| p_uint(b, p, I32, 5, 15), g == 0, |g, v| g as i64 == zag(v));
dec!(h_decode_i64, polyglot_decode_i64, |b, p| p_uint(b, p, I64, 10, 1), g == 0, |g, v| g == zag(v));
dec!(h_decode_f32, polyglot_decode_f32, |b, p| p_be(b, p, F32, 4), g.to_bits() == 0, |g, v| g.to_bits() as u64 == v);
dec!(h_decode_f64, polyglot_decode_f64, |b, p| p_be(b, p, F64, 8), g.to_bits() == 0, |g, v| g.to_bits() == v);
dec!(h_decode_array, |s, d| polyglot_decode_array(s, d, kind(k)), |b: &[u8], p| if p_tag(b, p, ARRAY) && p_tag(b, p + 1, k) { more(p_len(b, p + 2), 2) } else { None }, g == 0, |g, v| g as u64 == v, k = any_kind("k").0);
dec!(h_decode_map, |s, d| polyglot_decode_map(s, d, kind(k), kind(v)), |b: &[u8], p| if p_tag(b, p, MAP) && p_tag(b, p + 1, k) && p_tag(b, p + 2, v) { more(p_len(b, p + 3), 3) } else { None }, g == 0, |g, x| g as u64 == x, k = any_kind("k").0, v = any_kind("v").0);
fn more(r: Option<(u64, usize)>, n: usize) -> Option<(u64, usize)> {
    match r { Some((v, u)) => Some((v, u + n)), None => None }
}
fn kind(k: u8) -> Kind { unsafe { transmute::<u8, Kind>(k) } }

pub fn h_decode_none() {
    let mut st = status();
    let m = heap();
    if null() {
        require(!polyglot_decode_none(st.p(), null_mut()), "status/neutral");
        st.is(NULL);
        m.same();
        return;
    }
    let d = dec();
    let want = p_tag(d.b, d.pos, NONE);
    asked(want);
    let got = polyglot_decode_none(st.p(), d.d);
    st.is(PASS);
    require(got == want, "value/result");
    d.at(if want { 1 } else { 0 });
    d.free();
    m.same();
}
pub fn h_decode_bytes() {
    let mut st = status();
    let m = heap();
    if null() {
        require(polyglot_decode_bytes(st.p(), null_mut()).is_null(), "status/neutral");
        st.is(NULL);
        m.same();
        return;
    }
    let d = dec();
    let want = if p_tag(d.b, d.pos, BYTES) { p_payload(d.b, d.pos + 1) } else { None };
    asked(want.is_some());
    let got = polyglot_decode_bytes(st.p(), d.d);
    match want {
        Some((at, n)) => {
            st.is(PASS);
            let c = got as *const CBuffer;
            require(unsafe { (*c).length } as usize == n, "value/length");
            let v = unsafe { std::slice::from_raw_parts((*c).data, (*c).length as usize) };
            require_same(v, 0, d.b, at, n, "value/payload");
            d.at(at + n - d.pos);
            // the buffer outlives the decoder
            d.free();
            polyglot_free_decode_bytes(got);
        }
        None => {
            d.free();
            if !got.is_null() {
                polyglot_free_decode_bytes(got);
                m.same();
            }
            st.is(FAIL);
            require(got.is_null(), "status/neutral");
        }
    }
    m.same();
}
macro_rules! dec_text {
    ($h:ident, $f:ident, $free:ident, |$b:ident, $p:ident| $head:expr, $skip:expr) => {
        pub fn $h() {
            let mut st = status();
            let m = heap();
            if null() {
                require($f(st.p(), null_mut()).is_null(), "status/neutral");
                st.is(NULL);
                m.same();
                return;
            }
            let d = dec();
            let ($b, $p) = (d.b, d.pos);
            let want = match if $head { p_payload(d.b, d.pos + $skip) } else { None } {
                // a C string cannot hold a zero byte
                Some((at, n)) if utf8(&d.b[at..at + n]) && !has_nul(&d.b[at..at + n]) => Some((at, n)),
                _ => None,
            };
            asked(want.is_some());
            let got = $f(st.p(), d.d);
            match want {
                Some((at, n)) => {
                    st.is(PASS);
                    let v = unsafe { std::slice::from_raw_parts(got as *const u8, n + 1) };
                    require_same(v, 0, d.b, at, n, "value/payload");
                    require(v[n] == 0, "value/terminated");
                    d.at(at + n - d.pos);
                    d.free();
                    $free(got);
                }
                None => {
                    d.free();
                    if !got.is_null() {
                        // whatever it hands out, its free function takes back whole
                        $free(got);
                        m.same();
                    }
                    st.is(FAIL);
                    require(got.is_null(), "status/neutral");
                }
            }
            m.same();
        }
    };
}
dec_text!(h_decode_string, polyglot_decode_string, polyglot_free_decode_string, |b, p| p_tag(b, p, STRING), 1);
dec_text!(h_decode_error, polyglot_decode_error, polyglot_free_decode_error, |b, p| p_tag(b, p, ERROR) && p_tag(b, p + 1, STRING), 2);

pub fn h_new_decoder() {
    let mut st = status();
    let m = heap();
    if null() {
        require(polyglot_new_decoder(st.p(), null_mut(), any_u32("n")).is_null(), "status/neutral");
        st.is(NULL);
        m.same();
        return;
    }
    let mut mine = any_vec("b");
    assume(mine.len() <= u32::MAX as usize);
    let b = snapshot(&mine);
    let h = heap();
    aspect("accept");
    let d = polyglot_new_decoder(st.p(), mine.as_mut_ptr(), b.len() as u32);
    st.is(PASS);
    require(!d.is_null(), "value/decoder");
    require_same(&mine, 0, b, 0, b.len(), "memory/outside");
    if let Some(c) = position_of(d) {
        require(c.position() == 0, "value/position");
        let held: &[u8] = c.get_ref();
        require(held.len() == b.len(), "value/input");
        require_same(held, 0, b, 0, b.len(), "value/input");
    }
    polyglot_free_decoder(d);
    h.same();
}
pub fn h_free_decoder() {
    let m = heap();
    if null() { polyglot_free_decoder(null_mut()) } else { dec().free() }
    m.same();
}
pub fn h_free_decode_bytes() {
    let m = heap();
    aspect("null");
    polyglot_free_decode_bytes(null_mut::<Buffer>());
    m.same();
    cover("null");
}
pub fn h_free_decode_string() {
    let m = heap();
    aspect("null");
    polyglot_free_decode_string(null_mut());
    m.same();
    cover("null");
}
pub fn h_free_decode_error() {
    let m = heap();
    aspect("null");
    polyglot_free_decode_error(null_mut());
    m.same();
    cover("null");
}

// ---- kinds ----

pub fn h_kinds() {
    require(Kind::None as u8 == 0, "kind/None");
    require(Kind::Array as u8 == 1, "kind/Array");
    require(Kind::Map as u8 == 2, "kind/Map");
    require(Kind::Any as u8 == 3, "kind/Any");
    require(Kind::Bytes as u8 == 4, "kind/Bytes");
    require(Kind::String as u8 == 5, "kind/String");
    require(Kind::Error as u8 == 6, "kind/Error");
    require(Kind::Bool as u8 == 7, "kind/Bool");
    require(Kind::U8 as u8 == 8, "kind/U8");
    require(Kind::U16 as u8 == 9, "kind/U16");
    require(Kind::U32 as u8 == 10, "kind/U32");
    require(Kind::U64 as u8 == 11, "kind/U64");
    require(Kind::I32 as u8 == 12, "kind/I32");
    require(Kind::I64 as u8 == 13, "kind/I64");
    require(Kind::F32 as u8 == 14, "kind/F32");
    require(Kind::F64 as u8 == 15, "kind/F64");
    cover("kinds");
}
/// every kind of the C API stands for the crate's kind with that tag, or for none
pub fn h_kind_into() {
    let (b, kind) = any_kind("k");
    let k = kind.into();
    let same = match b {
        0 => matches!(k, polyglot_rs::Kind::None),
        1 => matches!(k, polyglot_rs::Kind::Array),
        2 => matches!(k, polyglot_rs::Kind::Map),
        3 => matches!(k, polyglot_rs::Kind::Any),
        4 => matches!(k, polyglot_rs::Kind::Bytes),
        5 => matches!(k, polyglot_rs::Kind::String),
        6 => matches!(k, polyglot_rs::Kind::Error),
        7 => matches!(k, polyglot_rs::Kind::Bool),
        8 => matches!(k, polyglot_rs::Kind::U8),
        9 => matches!(k, polyglot_rs::Kind::U16),
        10 => matches!(k, polyglot_rs::Kind::U32),
        11 => matches!(k, polyglot_rs::Kind::U64),
        12 => matches!(k, polyglot_rs::Kind::I32),
        13 => matches!(k, polyglot_rs::Kind::I64),
        14 => matches!(k, polyglot_rs::Kind::F32),
        15 => matches!(k, polyglot_rs::Kind::F64),
        _ => matches!(k, polyglot_rs::Kind::Unknown),
    };
    require(same, "kind/into");
    cover("kinds");
}
