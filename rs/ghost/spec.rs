//! The wire format, as mathematics: nothing here refers to the code under
//! verification.
use std::io::{Cursor, Write};
use std::mem::ManuallyDrop;
use verif::*;
pub const NONE: u8 = 0;
pub const ARRAY: u8 = 1;
pub const MAP: u8 = 2;
pub const BYTES: u8 = 4;
pub const STRING: u8 = 5;
pub const ERROR: u8 = 6;
pub const BOOL: u8 = 7;
pub const U8: u8 = 8;
pub const U16: u8 = 9;
pub const U32: u8 = 10;
pub const U64: u8 = 11;
pub const I32: u8 = 12;
pub const I64: u8 = 13;
pub const F32: u8 = 14;
pub const F64: u8 = 15;

/// up to 24 bytes of wire format
#[derive(Clone, Copy)]
pub struct W { pub b: [u8; 24], pub n: usize }
impl W {
    pub fn new(tag: u8) -> W { let mut b = [0; 24]; b[0] = tag; W { b, n: 1 } }
    pub fn push(mut self, x: u8) -> W { self.b[self.n] = x; self.n += 1; self }
    /// the shortest base-128 little-endian form
    pub fn uvarint(mut self, mut v: u64) -> W {
        while v >= 0x80 { self = self.push((v & 0x7f) as u8 | 0x80); v >>= 7; }
        self.push(v as u8)
    }
    pub fn be(mut self, v: u64, bytes: u32) -> W {
        let mut i = bytes;
        while i > 0 { i -= 1; self = self.push((v >> (8 * i)) as u8); }
        self
    }
    pub fn u32(self, v: u32) -> W { self.push(U32).uvarint(v as u64) }
}
pub fn zig(v: i64) -> u64 { ((v as u64) << 1) ^ ((v >> 63) as u64) }
pub fn zag(u: u64) -> i64 { (u >> 1) as i64 ^ -((u & 1) as i64) }

/// a varint at b[off..] of at most n bytes whose n-th byte is at most last:
/// value, bytes used
pub fn p_varint(b: &[u8], off: usize, n: usize, last: u8) -> Option<(u64, usize)> {
    let mut v = 0u64;
    let mut i = 0;
    while i < n {
        if off + i >= b.len() { return None; }
        let c = b[off + i];
        if c < 0x80 {
            if i == n - 1 && c > last { return None; }
            return Some((v | (c as u64) << (7 * i), i + 1));
        }
        v |= ((c & 0x7f) as u64) << (7 * i);
        i += 1;
    }
    None
}
pub fn p_tag(b: &[u8], off: usize, tag: u8) -> bool { off < b.len() && b[off] == tag }
pub fn p_uint(b: &[u8], off: usize, tag: u8, n: usize, last: u8) -> Option<(u64, usize)> {
    if !p_tag(b, off, tag) { return None; }
    match p_varint(b, off + 1, n, last) { Some((v, u)) => Some((v, u + 1)), None => None }
}
pub fn p_len(b: &[u8], off: usize) -> Option<(u64, usize)> { p_uint(b, off, U32, 5, 0x0f) }
pub fn p_be(b: &[u8], off: usize, tag: u8, n: usize) -> Option<(u64, usize)> {
    if !p_tag(b, off, tag) || b.len() - off < n + 1 { return None; }
    let mut v = 0u64;
    let mut i = 1;
    while i <= n { v = v << 8 | b[off + i] as u64; i += 1; }
    Some((v, n + 1))
}
/// length and payload at b[off..]: start and length of the payload
pub fn p_payload(b: &[u8], off: usize) -> Option<(usize, usize)> {
    match p_len(b, off) {
        None => None,
        Some((n, u)) => {
            let start = off + u;
            if n as usize > b.len() - start { None } else { Some((start, n as usize)) }
        }
    }
}

/// a vector of any length, capacity and contents
pub fn any_vec(name: &'static str) -> Vec<u8> {
    let r = verif::any_raw(name);
    unsafe { Vec::from_raw_parts(r.p, r.len, r.cap) }
}

// ---- contract of <Cursor<Vec<u8>> as Write>::write_all at the end of the vector ----

const BIG: usize = 1 << 44;
/// what a caller has to establish
pub fn pre_write_all(c: &mut Cursor<Vec<u8>>, buf: &[u8]) -> bool {
    let (pos, len, cap) = (c.position(), c.get_ref().len(), c.get_ref().capacity());
    verif::valid(pos == len as u64 && cap <= BIG && len <= BIG / 4 && buf.len() <= BIG / 4 && buf.len() > 0)
}
/// what the caller may then rely on: the bytes are appended, in some block
pub fn con_write_all(c: &mut Cursor<Vec<u8>>, buf: &[u8]) -> std::io::Result<()> {
    let mut v = ManuallyDrop::new(std::mem::take(c.get_mut()));
    let r = verif::extended(v.as_mut_ptr(), v.len(), v.capacity(), buf);
    c.set_position(r.len as u64);
    *c.get_mut() = unsafe { Vec::from_raw_parts(r.p, r.len, r.cap) };
    Ok(())
}
/// and what the body provides
pub fn k_write_all() {
    let raw = verif::any_raw("buf");
    let (len, cap) = (raw.len, raw.cap);
    let v = unsafe { Vec::from_raw_parts(raw.p, raw.len, raw.cap) };
    let old = snapshot(&v);
    let p = any_bytes("p");
    assume(cap <= BIG && len <= BIG / 4 && p.len() <= BIG / 4 && p.len() > 0);
    let mut c = Cursor::new(v);
    c.set_position(len as u64);
    let live = verif::live();
    let r = c.write_all(p);
    require(r.is_ok(), "contract/ok");
    let out = c.get_ref();
    require(out.len() == len + p.len(), "contract/len");
    require(c.position() == (len + p.len()) as u64, "contract/position");
    require_same(out, 0, old, 0, len, "contract/kept");
    require_same(out, len, p, 0, p.len(), "contract/appended");
    let now = out.capacity();
    require(now >= out.len() && now >= cap && (now <= cap || now <= 2 * out.len() + 8), "contract/capacity");
    require(verif::live() == if cap == 0 { live + 1 } else { live }, "contract/blocks");
    cover("written");
}

// ---- std functions that come without MIR: what they are assumed to do ----

/// the private StringError of the standard library
pub struct StringError(String);
impl std::fmt::Debug for StringError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl std::fmt::Display for StringError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.0, f) }
}
impl std::error::Error for StringError {}
pub fn m_box_error_string(s: String) -> Box<dyn std::error::Error> { Box::new(StringError(s)) }
pub fn m_box_error_str(s: &str) -> Box<dyn std::error::Error> { Box::new(StringError(String::from(s))) }

unsafe extern "C" { fn strlen(s: *const std::ffi::c_char) -> usize; }
pub fn m_cstring_vec(mut v: Vec<u8>) -> std::ffi::CString {
    v.reserve_exact(1);
    v.push(0);
    unsafe { std::mem::transmute::<Box<[u8]>, std::ffi::CString>(v.into_boxed_slice()) }
}
pub fn m_cstring_raw(p: *mut std::ffi::c_char) -> std::ffi::CString {
    unsafe {
        let n = strlen(p) + 1;
        std::mem::transmute::<Box<[u8]>, std::ffi::CString>(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p as *mut u8, n)))
    }
}
pub fn m_cstr_to_str(c: &std::ffi::CStr) -> Result<&str, std::str::Utf8Error> { std::str::from_utf8(c.to_bytes()) }
