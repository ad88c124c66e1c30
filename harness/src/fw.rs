//! Small framework: deterministic cases, one test = one function of a random source.
use iota_mam::trits::*;

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn trits(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![2; n],
            2 => vec![1; n],
            _ => (0..n).map(|_| self.below(3) as u8).collect(),
        }
    }
    /// uniformly random trits
    pub fn utrits(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.below(3) as u8).collect() }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
}

pub struct Test {
    pub prop: &'static str,
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Rng, u64) -> R,
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let a = &$a; let b = &$b;
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

/// Container with the given trits.
pub fn mk(v: &[u8]) -> Trits {
    let mut t = Trits::zero(v.len());
    t.slice_mut().put_trits(v);
    t
}
/// Contents of a slice.
pub fn rd(s: TritSlice) -> Vec<u8> {
    let mut v = vec![0u8; s.size()];
    s.get_trits(&mut v);
    v
}
pub fn rdt(t: &Trits) -> Vec<u8> { rd(t.slice()) }
pub fn tv(t: u8) -> i64 { if t == 2 { -1 } else { t as i64 } }
/// balanced value, least significant first
pub fn ival(v: &[u8]) -> i64 { v.iter().rev().fold(0, |a, t| 3 * a + tv(*t)) }
/// k balanced trits of v
pub fn bt(k: usize, mut v: i64) -> Vec<u8> {
    let mut r = vec![];
    for _ in 0..k {
        let t = v.rem_euclid(3);
        r.push(t as u8);
        v = (v - if t == 2 { -1 } else { t }) / 3;
    }
    r
}
pub fn show(v: &[u8]) -> String {
    let s: String = v.iter().map(|t| (b'0' + t) as char).collect();
    if s.len() > 400 { format!("{}... ({} trits)", &s[..400], s.len()) } else { s }
}

/// Largest single allocation of this thread since the last reset.
pub struct Counting;
thread_local!(static PEAK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = PEAK.try_with(|p| if l.size() > p.get() { p.set(l.size()) });
        // a request no input can justify: unwind here instead of aborting
        if l.size() > 1 << 28 { return std::ptr::null_mut(); }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
pub fn alloc_reset() { PEAK.with(|p| p.set(0)) }
pub fn alloc_peak() -> usize { PEAK.with(|p| p.get()) }
