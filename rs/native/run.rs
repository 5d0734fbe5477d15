//! Runs contracts on the compiled crate: replay of given inputs, and random
//! search. Request and answer are line-based text files.
use std::cell::RefCell;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use verif::{Input, ST};

#[global_allocator]
static A: verif::Counting = verif::Counting;

static OUT: Mutex<String> = Mutex::new(String::new());
static CASE: AtomicU64 = AtomicU64::new(0);
thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn one(&mut self, n: u64) -> bool { self.below(n) == 0 }
}

/// lengths at which varints, small buffers and pages change
fn length(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => 127, 1 => 128, 2 => 129, 3 => 255, 4 => 256, 5 => 511, 6 => 512, 7 => 513,
        8 => r.below(3000) as usize,
        9 if r.one(40) => 16383 + r.below(3) as usize,
        10 if r.one(400) => (1 << 21) - 1 + r.below(3) as usize,
        11..=14 => 0,
        _ => r.below(20) as usize,
    }
}
fn scalar(r: &mut Rng) -> u64 {
    let b = 1u64 << r.below(64);
    match r.below(10) {
        0 => 0, 1 => r.below(256), 2 => b, 3 => b.wrapping_sub(1), 4 => b.wrapping_add(1), 5 => !b, 6 => u64::MAX, 7 => b.wrapping_neg(),
        _ => r.next() >> r.below(64),
    }
}
fn text(r: &mut Rng) -> Vec<u8> {
    let n = length(r);
    let mut s = String::new();
    let plain = r.one(2);
    while s.len() < n {
        let c = if plain { 0x20 + r.below(95) as u32 } else { match r.below(4) { 0 => r.below(0x80) as u32, 1 => r.below(0x800) as u32, 2 => r.below(0xd800) as u32, _ => r.below(0x110000) as u32 } };
        if let Some(c) = char::from_u32(c) { s.push(c) }
    }
    let mut b = s.into_bytes();
    if r.one(6) && !b.is_empty() {
        let i = r.below(b.len() as u64) as usize;
        b[i] = r.next() as u8;
    }
    b
}
fn varint(r: &mut Rng, v: &mut Vec<u8>, mut x: u64) {
    if r.one(10) {
        // over-long
        let n = r.below(12);
        for _ in 0..n { v.push(0x80 | (r.next() as u8)) }
        v.push(r.next() as u8 & if r.one(2) { 0x0f } else { 0xff });
        return;
    }
    while x >= 0x80 { v.push(x as u8 | 0x80); x >>= 7 }
    v.push(x as u8);
}
fn message(r: &mut Rng, v: &mut Vec<u8>) {
    let tag = r.below(18) as u8;
    v.push(tag);
    match tag {
        1 | 2 => {
            v.push(r.below(18) as u8);
            if tag == 2 { v.push(r.below(18) as u8) }
            v.push(if r.one(8) { r.next() as u8 } else { 10 });
            let x = scalar(r) & 0xffff_ffff;
            varint(r, v, x);
        }
        4 | 5 | 6 => {
            if tag == 6 { v.push(if r.one(10) { r.below(18) as u8 } else { 5 }) }
            v.push(if r.one(10) { r.next() as u8 } else { 10 });
            let p = text(r);
            let n = match r.below(8) { 0 => p.len() as u64 + r.below(3), 1 => scalar(r) & 0xffff_ffff, _ => p.len() as u64 };
            varint(r, v, n);
            v.extend_from_slice(&p);
        }
        7 | 8 => v.push(if r.one(2) { r.below(3) as u8 } else { r.next() as u8 }),
        9..=13 => {
            let x = scalar(r);
            let x = match tag { 9 => x & 0xffff, 10 | 12 => x & 0xffff_ffff, _ => x };
            varint(r, v, x);
        }
        14 | 15 => {
            let n = if tag == 14 { 4 } else { 8 };
            for _ in 0..n { v.push(r.next() as u8) }
        }
        _ => {}
    }
    if r.one(6) { let n = r.below(v.len() as u64 + 1) as usize; v.truncate(n) }
}
struct Gen { r: Rng, at: usize }
impl Gen {
    fn get(&mut self, name: &str, bits: usize) -> Input {
        let r = &mut self.r;
        let mut i = Input { name: name.to_string(), ..Default::default() };
        match bits {
            0 if name.starts_with('b') => {
                let pre = if r.one(4) { r.below(5) as usize } else { 0 };
                self.at = pre;
                for _ in 0..pre { i.bytes.push(r.next() as u8) }
                message(r, &mut i.bytes);
                if r.one(3) { message(r, &mut i.bytes) }
            }
            0 => i.bytes = text(r),
            1 => {
                let n = length(r);
                for _ in 0..n { i.bytes.push(r.next() as u8) }
                i.scalar = n as u64 + if r.one(2) { 0 } else { r.below(24) };
            }
            65 => i.scalar = if r.one(12) { r.below(40) } else { self.at as u64 },
            _ => i.scalar = scalar(r),
        }
        if bits == 8 && r.one(2) { i.scalar = r.below(20) }
        i
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::from("-");
    for x in b { let _ = write!(s, "{:02x}", x); }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let s = &s.as_bytes()[1..];
    (0..s.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&s[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect()
}

struct Outcome { skipped: bool, fails: Vec<String>, covers: Vec<String>, used: Vec<Input>, aspect: String, detail: String }

fn case(f: fn(), src: verif::Source) -> Outcome {
    ST.with(|s| *s.borrow_mut() = verif::State { source: Some(src), ..Default::default() });
    PANIC.with(|p| p.borrow_mut().clear());
    CASE.fetch_add(1, Ordering::SeqCst);
    verif::begin();
    let r = std::panic::catch_unwind(f);
    let over = verif::end();
    let bad = verif::bad_free();
    let st = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let mut o = Outcome { skipped: false, fails: st.fails, covers: st.covers, used: st.used, aspect: st.aspect, detail: String::new() };
    if let Err(p) = r {
        if p.is::<verif::Skip>() { o.skipped = o.fails.is_empty() } else {
            o.fails.push("panic".into());
            o.detail = PANIC.with(|p| p.borrow().replace('\n', " "));
        }
    }
    if over > 0 { o.fails.push("alloc/size".into()); o.detail = format!("allocation of {} bytes", over) }
    if let Some(m) = bad { o.fails.push("memory/free".into()); o.detail = m }
    o
}

fn report(o: &Outcome, label: &str) {
    let mut out = OUT.lock().unwrap();
    let _ = writeln!(out, "find {}|{}|{}", label, o.aspect, o.detail);
    for i in &o.used { let _ = writeln!(out, "in {} {} {}", i.name, i.scalar, hex(&i.bytes)); }
}
fn dump() {
    let path = std::env::args().nth(2).unwrap();
    std::fs::write(path, OUT.lock().unwrap().as_bytes()).unwrap();
}
unsafe extern "C" {
    fn signal(n: i32, h: extern "C" fn(i32)) -> usize;
    fn _exit(n: i32) -> !;
}
extern "C" fn died(n: i32) {
    verif::quiet(|| {
        let st = ST.with(|s| s.try_borrow_mut().map(|mut s| std::mem::take(&mut *s)).unwrap_or_default());
        let msg = PANIC.with(|p| p.try_borrow().map(|p| p.replace('\n', " ")).unwrap_or_default());
        let o = Outcome { skipped: false, fails: vec![], covers: vec![], used: st.used, aspect: st.aspect, detail: format!("the process received signal {} {}", n, msg) };
        report(&o, if n == 6 && !msg.is_empty() { "panic" } else { "memory" });
        dump();
    });
    unsafe { _exit(0) }
}

pub fn main_with(table: &[(&str, fn())]) {
    let args: Vec<String> = std::env::args().collect();
    let req = std::fs::read_to_string(&args[1]).unwrap();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<verif::Skip>() { return }
        verif::quiet(|| PANIC.with(|p| { if let Ok(mut p) = p.try_borrow_mut() { if p.is_empty() { *p = format!("{}", i) } } }))
    }));
    unsafe { for n in [4, 6, 7, 8, 11] { signal(n, died); } }
    std::thread::spawn(|| {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE.load(Ordering::SeqCst);
            if c != last.0 { last = (c, Instant::now()) } else if c > 0 && last.1.elapsed() > Duration::from_secs(20) {
                OUT.lock().unwrap().push_str("find hang||one case runs for more than 20 s\n");
                dump();
                std::process::exit(0)
            }
        }
    });
    let mut f: fn() = || {};
    let mut ins: Vec<Input> = vec![];
    let (mut ran, mut skipped) = (0u64, 0u64);
    for l in req.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "harness" => f = table.iter().find(|x| x.0 == w[1]).expect("no such contract").1,
            "in" => ins.push(Input { name: w[1].into(), scalar: w[2].parse().unwrap(), bytes: unhex(w[3]) }),
            "case" => {
                let given = std::mem::take(&mut ins);
                let o = case(f, Box::new(move |n, _| given.iter().find(|i| i.name == n).cloned().unwrap_or_default()));
                ran += 1;
                if o.skipped { skipped += 1 }
                for l in &o.fails { report(&o, l) }
            }
            "search" => {
                let (n, ms, seed): (u64, u64, u64) = (w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap());
                let t = Instant::now();
                let mut seen: Vec<String> = vec![];
                for k in 0..n {
                    if k % 64 == 0 && t.elapsed() > Duration::from_millis(ms) { break }
                    let mut g = Gen { r: Rng(seed.wrapping_mul(1_000_003).wrapping_add(k)), at: 0 };
                    let o = case(f, Box::new(move |n, b| g.get(n, b)));
                    ran += 1;
                    if o.skipped { skipped += 1 }
                    for l in &o.fails {
                        let key = format!("{}|{}", l, o.aspect);
                        if !seen.contains(&key) { seen.push(key); report(&o, l) }
                    }
                }
            }
            _ => {}
        }
    }
    let _ = writeln!(OUT.lock().unwrap(), "ran {} {}", ran, skipped);
    dump();
}
