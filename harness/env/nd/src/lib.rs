//! Source of every nondeterministic choice made by the harnesses and by the environment models.
//!
//! * under `--cfg symex` each call reaches the symbolic executor: a fresh symbolic value;
//! * natively (replay, validation) the calls pop recorded values, in call order.
pub mod mix;

#[cfg(symex)]
mod imp {
    extern "C" {
        fn __sx_bytes(p: *mut u8, n: usize);
        fn __sx_assume(c: u8);
        fn __sx_check(c: u8, p: *const u8, n: usize);
        fn __sx_cover(c: u8, p: *const u8, n: usize);
        fn __sx_conc(v: u64) -> u64;
        fn __sx_end();
        fn __sx_limit(n: u64);
        fn __sx_cut(n: u64);
        fn __sx_eq(p: *const u8, q: *const u8, n: usize) -> u8;
        fn __sx_note(p: *const u8, n: usize);
        fn __sx_yield();
        fn __sx_choose(n: u64) -> u64;
        fn __sx_out(p: *const u8, n: usize);
    }
    #[inline]
    pub fn fill(b: &mut [u8]) {
        unsafe { __sx_bytes(b.as_mut_ptr(), b.len()) }
    }
    #[inline]
    pub fn assume(c: bool) {
        unsafe { __sx_assume(c as u8) }
    }
    #[inline]
    pub fn check(c: bool, l: &str) {
        unsafe { __sx_check(c as u8, l.as_ptr(), l.len()) }
    }
    #[inline]
    pub fn cover(c: bool, l: &str) {
        unsafe { __sx_cover(c as u8, l.as_ptr(), l.len()) }
    }
    #[inline]
    pub fn conc(v: u64) -> u64 {
        unsafe { __sx_conc(v) }
    }
    #[inline]
    pub fn end() -> ! {
        unsafe { __sx_end() }
        loop {}
    }
    pub fn limit(n: u64) {
        unsafe { __sx_limit(n) }
    }
    pub fn cut(n: u64) {
        unsafe { __sx_cut(n) }
    }
    /// Branch-free equality of two byte strings.
    #[inline]
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        a.len() == b.len() && unsafe { __sx_eq(a.as_ptr(), b.as_ptr(), a.len()) } & 1 == 1
    }
    pub fn note(l: &str) {
        unsafe { __sx_note(l.as_ptr(), l.len()) }
    }
    pub fn yield_now() {
        unsafe { __sx_yield() }
    }
    /// One path for each of `0..n`, like a scheduling choice: no value to solve for.
    pub fn choose(n: u64) -> u64 {
        unsafe { __sx_choose(n) }
    }
    pub fn out(b: &[u8]) {
        unsafe { __sx_out(b.as_ptr(), b.len()) }
    }
}

#[cfg(not(symex))]
mod imp {
    use std::collections::VecDeque;
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Mutex;
    pub static Q: Mutex<VecDeque<Vec<u8>>> = Mutex::new(VecDeque::new());
    pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub static OUT: Mutex<Vec<String>> = Mutex::new(Vec::new());

    /// Native counterpart of the executor's allocation monitor.
    pub struct Alloc;
    unsafe impl std::alloc::GlobalAlloc for Alloc {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            over(l.size());
            std::alloc::System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
            over(l.size());
            std::alloc::System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            std::alloc::System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            over(n);
            std::alloc::System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Alloc = Alloc;
    fn over(n: usize) {
        let l = LIMIT.load(Ordering::SeqCst);
        if n as u64 > l {
            LIMIT.store(u64::MAX, Ordering::SeqCst);
            eprintln!("CHECK-FAILED: allocation of {n} bytes exceeds the limit of {l} bytes");
            std::process::exit(101);
        }
    }
    pub fn load(v: Vec<Vec<u8>>) {
        *Q.lock().unwrap() = v.into();
    }
    /// Values missing at the end of a recording were never constrained: zero.
    pub fn fill(b: &mut [u8]) {
        match Q.lock().unwrap().pop_front() {
            Some(v) => {
                if v.len() != b.len() {
                    eprintln!("REPLAY-MISMATCH: recorded value has {} bytes, {} expected", v.len(), b.len());
                    std::process::exit(3);
                }
                b.copy_from_slice(&v);
            }
            None => b.fill(0),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY-ASSUME: an assumption of the harness does not hold on the replayed values");
            std::process::exit(3);
        }
    }
    pub fn check(c: bool, l: &str) {
        if !c {
            panic!("CHECK-FAILED: {l}");
        }
    }
    pub fn cover(c: bool, l: &str) {
        println!("OUT {} {:02x}", l.replace(' ', "_"), c as u8);
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub fn end() -> ! {
        flush();
        std::process::exit(0)
    }
    pub fn limit(n: u64) {
        LIMIT.store(n, Ordering::SeqCst);
    }
    pub fn cut(_: u64) {}
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        a == b
    }
    pub fn note(l: &str) {
        eprintln!("note: {l}");
    }
    pub fn yield_now() {
        std::thread::yield_now();
    }
    pub static S: Mutex<VecDeque<u64>> = Mutex::new(VecDeque::new());
    pub fn choose(n: u64) -> u64 {
        S.lock().unwrap().pop_front().unwrap_or(0).min(n - 1)
    }
    pub fn out(b: &[u8]) {
        println!("OUT out {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
    }
    pub fn flush() {}
}
pub use imp::*;

macro_rules! prim {
    ($n:ident, $t:ty, $s:expr) => {
        #[inline]
        pub fn $n() -> $t {
            <$t>::from_le_bytes(bytes::<$s>())
        }
    };
}
prim!(u8, u8, 1);
prim!(u16, u16, 2);
prim!(u32, u32, 4);
prim!(u64, u64, 8);
#[inline]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        fill(&mut v);
    }
    v
}
/// Forks: one path for each truth value.
#[inline]
pub fn bool() -> bool {
    let v = u8();
    assume(v <= 1);
    conc(v as u64) == 1
}
/// Symbolic usize in `lo..=hi`.
#[inline]
pub fn range(lo: usize, hi: usize) -> usize {
    let v = u32() as usize;
    assume((v >= lo) & (v <= hi));
    v
}
/// Like `range`, with one path per value.
#[inline]
pub fn pick(lo: usize, hi: usize) -> usize {
    conc(range(lo, hi) as u64) as usize
}
/// `replay HARNESS FILE`: runs one harness natively on the recorded values (hex, one value per line).
#[cfg(not(symex))]
pub fn replay_main(tables: &[&[(&str, fn())]]) {
    let a: Vec<String> = std::env::args().collect();
    let f = tables.iter().flat_map(|t| t.iter()).find(|t| t.0 == a[1]).unwrap_or_else(|| {
        eprintln!("REPLAY-MISMATCH: no harness {}", a[1]);
        std::process::exit(3)
    });
    let txt = if a.len() > 2 { std::fs::read_to_string(&a[2]).unwrap() } else { String::new() };
    let hex = |l: &str| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    if let Some(l) = txt.lines().find_map(|l| l.strip_prefix("# schedule:")) {
        *S.lock().unwrap() = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
    }
    load(txt.lines().filter(|l| !l.starts_with('#')).map(|l| hex(l.trim())).collect());
    f.1();
    println!("REPLAY-END");
}
/// Declares the harness entry points, for the executor (C symbols) and for the native replay (table).
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        pub mod entry { $( #[no_mangle] pub extern "C" fn $n() { super::$n() } )* }
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($n), $n) ),* ];
    };
}
