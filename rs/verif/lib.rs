//! Ghost operations. The verifier gives them their logical meaning; run
//! natively (replay and random search) they take inputs from a table and
//! record failed requirements.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, Default)]
pub struct Input { pub name: String, pub scalar: u64, pub bytes: Vec<u8> }
pub type Source = Box<dyn FnMut(&str, usize) -> Input>;

#[derive(Default)]
pub struct State {
    pub fails: Vec<String>,
    pub covers: Vec<String>,
    pub source: Option<Source>,
    pub used: Vec<Input>,
    pub aspect: String,
}
thread_local! {
    pub static ST: RefCell<State> = RefCell::new(State::default());
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static OVER: Cell<usize> = const { Cell::new(0) };
}

/// counts blocks, watches request sizes outside the ghost operations, and
/// checks every block given back against the one handed out
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size(), 1); let p = unsafe { System.alloc(l) }; book(p, l); p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size(), 1); let p = unsafe { System.alloc_zeroed(l) }; book(p, l); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(0, -1); if unbook(p, l) { unsafe { System.dealloc(p, l) } } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, 0);
        if !unbook(p, l) { return unsafe { System.alloc(Layout::from_size_align_unchecked(n, l.align())) } }
        let q = unsafe { System.realloc(p, l, n) };
        book(q, unsafe { Layout::from_size_align_unchecked(n, l.align()) });
        q
    }
}
fn note(size: usize, d: isize) {
    let _ = QUIET.try_with(|q| {
        if q.get() > 0 { return }
        LIVE.with(|l| l.set((l.get() as isize + d) as usize));
        if size > LIMIT.with(|l| l.get()) { OVER.with(|o| o.set(o.get().max(size))) }
    });
}
// blocks handed out: address, size, alignment
const SLOTS: usize = 1 << 22;
static mut BOOK: [(usize, usize, usize); SLOTS] = [(0, 0, 0); SLOTS];
static LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static mut BAD: (u8, usize, usize) = (0, 0, 0);
fn locked<T>(f: impl FnOnce() -> T) -> T {
    use std::sync::atomic::Ordering::*;
    while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() {}
    let r = f();
    LOCK.store(false, Release);
    r
}
fn slot(p: usize) -> usize { (p >> 4).wrapping_mul(0x9e3779b97f4a7c15) >> 42 }
#[allow(static_mut_refs)]
fn book(p: *mut u8, l: Layout) {
    locked(|| unsafe {
        let mut i = slot(p as usize);
        for _ in 0..64 {
            if BOOK[i].0 <= 1 { BOOK[i] = (p as usize, l.size(), l.align()); return }
            i = (i + 1) % SLOTS;
        }
    })
}
#[allow(static_mut_refs)]
fn unbook(p: *mut u8, l: Layout) -> bool {
    locked(|| unsafe {
        let mut i = slot(p as usize);
        for _ in 0..64 {
            if BOOK[i].0 == p as usize {
                if BOOK[i].1 != l.size() || BOOK[i].2 != l.align() { BAD = (1, BOOK[i].1, l.size()) }
                BOOK[i].0 = 1;
                return true;
            }
            if BOOK[i].0 == 0 { BAD = (2, 0, l.size()); return false }
            i = (i + 1) % SLOTS;
        }
        true
    })
}
#[allow(static_mut_refs)]
pub fn bad_free() -> Option<String> {
    let b = locked(|| unsafe { std::mem::replace(&mut BAD, (0, 0, 0)) });
    match b.0 {
        1 => Some(format!("a block of {} bytes is given back as one of {} bytes (or with another alignment)", b.1, b.2)),
        2 => Some(format!("memory that is no live heap block is given back as a block of {} bytes", b.2)),
        _ => None,
    }
}
/// runs a ghost operation without counting its allocations
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = f();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}
pub fn begin() {
    QUIET.with(|q| q.set(0));
    LIVE.with(|l| l.set(1 << 20));
    LIMIT.with(|l| l.set(usize::MAX));
    OVER.with(|l| l.set(0));
}
pub fn end() -> usize { LIMIT.with(|l| l.set(usize::MAX)); OVER.with(|o| o.get()) }

pub struct Skip;

fn scalar(name: &str, bits: usize) -> u64 { quiet(|| input(name, bits).scalar) }
fn input(name: &str, bits: usize) -> Input {
    quiet(|| {
        let mut src = ST.with(|s| s.borrow_mut().source.take());
        let r = match src.as_mut() { Some(f) => f(name, bits), None => Input::default() };
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.source = src;
            s.used.push(Input { name: name.to_string(), ..r.clone() });
        });
        r
    })
}
#[inline(never)]
pub fn any_u8(name: &'static str) -> u8 { scalar(name, 8) as u8 }
#[inline(never)]
pub fn any_u16(name: &'static str) -> u16 { scalar(name, 16) as u16 }
#[inline(never)]
pub fn any_u32(name: &'static str) -> u32 { scalar(name, 32) as u32 }
#[inline(never)]
pub fn any_u64(name: &'static str) -> u64 { scalar(name, 64) }
/// an arbitrary byte string of any length
#[inline(never)]
pub fn any_bytes(name: &'static str) -> &'static [u8] { quiet(|| Box::leak(input(name, 0).bytes.into_boxed_slice())) }
/// an arbitrary byte string followed by a zero byte
#[inline(never)]
pub fn any_cstr(name: &'static str) -> &'static [u8] {
    quiet(|| {
        let mut b = input(name, 0).bytes;
        b.retain(|x| *x != 0);
        let n = b.len();
        b.push(0);
        &Box::leak(b.into_boxed_slice())[..n]
    })
}
/// an arbitrary length (bounded by the address space)
#[inline(never)]
pub fn any_len(name: &'static str) -> usize { (scalar(name, 65) & 0xff_ffff_ffff) as usize }
pub struct Raw { pub p: *mut u8, pub len: usize, pub cap: usize }
/// a heap block of arbitrary length, capacity and contents
#[inline(never)]
pub fn any_raw(name: &'static str) -> Raw {
    let i = input(name, 1);
    let mut v = Vec::with_capacity(i.bytes.len().max((i.scalar & 0xffff) as usize));
    v.extend_from_slice(&i.bytes);
    quiet(|| drop(i));
    let mut v = std::mem::ManuallyDrop::new(v);
    Raw { p: v.as_mut_ptr(), len: v.len(), cap: v.capacity() }
}
/// a copy of the bytes as they are now
#[inline(never)]
pub fn snapshot(a: &[u8]) -> &'static [u8] { quiet(|| Box::leak(a.to_vec().into_boxed_slice())) }
#[inline(never)]
pub fn assume(b: bool) { if !b { quiet(|| std::panic::panic_any(Skip)) } }
#[inline(never)]
pub fn require(b: bool, label: &'static str) {
    if !b { quiet(|| ST.with(|s| s.borrow_mut().fails.push(label.to_string()))) }
}
#[inline(never)]
pub fn cover(label: &'static str) { quiet(|| ST.with(|s| s.borrow_mut().covers.push(label.to_string()))) }
/// a[ai..ai+n] and b[bi..bi+n] are in range and hold the same bytes
#[inline(never)]
pub fn require_same(a: &[u8], ai: usize, b: &[u8], bi: usize, n: usize, label: &'static str) {
    let ok = ai.checked_add(n).map_or(false, |e| e <= a.len()) && bi.checked_add(n).map_or(false, |e| e <= b.len());
    if !ok || a[ai..ai + n] != b[bi..bi + n] { require(false, label) }
}
/// what the contract asks of the next call
#[inline(never)]
pub fn aspect(name: &'static str) { quiet(|| ST.with(|s| s.borrow_mut().aspect = name.to_string())) }
/// the bytes are well-formed UTF-8
#[inline(never)]
pub fn utf8(a: &[u8]) -> bool { std::str::from_utf8(a).is_ok() }
/// one of the bytes is zero
#[inline(never)]
pub fn has_nul(a: &[u8]) -> bool { a.contains(&0) }
/// from here on no single allocation may be larger than this
#[inline(never)]
pub fn alloc_limit(n: usize) { LIMIT.with(|l| l.set(n)) }
/// heap blocks in existence (up to a constant)
#[inline(never)]
pub fn live() -> usize { LIVE.with(|l| l.get()) }
/// proof only: the condition is known to hold here
#[inline(never)]
pub fn valid(b: bool) -> bool { b }
/// proof only: a block with room, holding p[..len] and then the bytes
#[inline(never)]
pub fn extended(p: *mut u8, len: usize, cap: usize, bytes: &[u8]) -> Raw {
    let mut v = unsafe { Vec::from_raw_parts(p, len, cap) };
    v.extend_from_slice(bytes);
    let mut v = std::mem::ManuallyDrop::new(v);
    Raw { p: v.as_mut_ptr(), len: v.len(), cap: v.capacity() }
}
