//! Drives operations of the implementation over generated inputs and records calls.
//!
//! Every call is looked at by a fast native screen (where one exists); calls the screen finds
//! suspicious are all recorded, the others are sampled.  The screen never decides anything: the
//! recorded trace is judged by the TLA+ specification.

use std::cell::{Cell, UnsafeCell};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub type A = [u128; 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct R {
    pub n: u8,
    pub v: [u128; 3],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    U(u32),
    S(u32),
    F(u32),
}
impl K {
    pub fn bits(self) -> u32 {
        match self {
            K::U(w) | K::S(w) | K::F(w) => w,
        }
    }
}

pub trait Val: Copy {
    const K: K;
    fn de(x: u128) -> Self;
    fn en(self) -> u128;
}
macro_rules! val_int { ($($t:ty, $k:expr, $u:ty);*) => { $(impl Val for $t {
    const K: K = $k;
    fn de(x: u128) -> Self { x as $t }
    fn en(self) -> u128 { self as $u as u128 }
})* } }
val_int!(u8, K::U(8), u8; u16, K::U(16), u16; u32, K::U(32), u32; u64, K::U(64), u64; u128, K::U(128), u128;
         usize, K::U(64), u64;
         i8, K::S(8), u8; i16, K::S(16), u16; i32, K::S(32), u32; i64, K::S(64), u64; i128, K::S(128), u128;
         isize, K::S(64), u64);
macro_rules! val_float { ($($t:ty, $w:expr, $u:ty);*) => { $(impl Val for $t {
    const K: K = K::F($w);
    fn de(x: u128) -> Self { <$t>::from_bits(x as $u) }
    fn en(self) -> u128 { self.to_bits() as u128 }
})* } }
val_float!(f16, 16, u16; f32, 32, u32; f64, 64, u64; f128, 128, u128);
impl Val for bool {
    const K: K = K::U(8);
    fn de(x: u128) -> Self {
        x & 1 == 1
    }
    fn en(self) -> u128 {
        self as u128
    }
}

pub trait Out {
    fn out(self) -> R;
    fn kinds() -> Vec<K>;
}
impl<T: Val> Out for T {
    fn out(self) -> R {
        R { n: 1, v: [self.en(), 0, 0] }
    }
    fn kinds() -> Vec<K> {
        vec![T::K]
    }
}
impl<T: Val, U: Val> Out for (T, U) {
    fn out(self) -> R {
        R { n: 2, v: [self.0.en(), self.1.en(), 0] }
    }
    fn kinds() -> Vec<K> {
        vec![T::K, U::K]
    }
}
impl<T: Val, U: Val, V: Val> Out for (T, U, V) {
    fn out(self) -> R {
        R { n: 3, v: [self.0.en(), self.1.en(), self.2.en()] }
    }
    fn kinds() -> Vec<K> {
        vec![T::K, U::K, V::K]
    }
}

type RunFn = Box<dyn Fn(&A) -> R + Send + Sync>;
type ScreenFn = Box<dyn Fn(&A, &R) -> bool + Send + Sync>;
type GenFn = Box<dyn Fn(&mut Rng) -> A + Send + Sync>;
/// Runs the history numbered by its argument; returns whether the screen objects and, when asked for or
/// objected to, the record's arguments and results.
type TextFn = Box<dyn Fn(u64, bool) -> (bool, Option<(String, String)>) + Send + Sync>;
type FilterFn = Box<dyn Fn(&A) -> bool + Send + Sync>;

pub struct Op {
    pub name: String,
    pub cfg: String,
    pub args: Vec<K>,
    pub outs: Vec<K>,
    pub run: RunFn,
    pub screen: Option<ScreenFn>,
    pub gens: Vec<GenFn>,
    pub filter: Option<FilterFn>,
    /// extra inputs that are always run
    pub extra: Vec<A>,
    /// relative share of the evaluation budget
    pub weight: f64,
    /// sweep the whole 32-bit input space (with a stride) for single-argument operations
    pub sweep: bool,
    /// records in the base sample
    pub base: usize,
    pub lattice: bool,
    pub text: Option<TextFn>,
    /// what to write as the results of a recorded call, when that is more than `run` returns
    pub expand: Option<Box<dyn Fn(&A) -> String + Send + Sync>>,
}

/// An operation that is a whole history of calls, derived from a number.
pub fn history(name: &str, cfg: &str, bits: u32, f: impl Fn(u64, bool) -> (bool, Option<(String, String)>) + Send + Sync + 'static) -> Op {
    Op {
        name: name.into(), cfg: cfg.into(), args: vec![K::U(bits)], outs: vec![], run: Box::new(|_| R { n: 0, v: [0; 3] }),
        screen: None, gens: vec![Box::new(|r| [r.next() as u128, 0, 0, 0])], filter: None, extra: vec![], weight: 1.0, sweep: false,
        base: 0, lattice: false, text: Some(Box::new(f)), expand: None,
    }
}

pub fn is_nan(k: K, b: u128) -> bool {
    match k {
        K::F(16) => (b & 0x7fff) > 0x7c00,
        K::F(32) => (b & 0x7fff_ffff) > 0x7f80_0000,
        K::F(64) => (b & (u64::MAX >> 1) as u128) > 0x7ff0_0000_0000_0000,
        K::F(128) => (b & (u128::MAX >> 1)) > 0x7fffu128 << 112,
        _ => false,
    }
}
pub fn same(k: K, a: u128, b: u128) -> bool {
    a == b || (is_nan(k, a) && is_nan(k, b))
}
/// Distance in representable steps; used by the screen of the ULP-bounded functions.
pub fn ulp_dist(k: K, a: u128, b: u128) -> u128 {
    if is_nan(k, a) || is_nan(k, b) {
        return if is_nan(k, a) && is_nan(k, b) { 0 } else { u128::MAX };
    }
    let w = k.bits();
    let ord = |x: u128| -> i128 {
        let s = 1u128 << (w - 1);
        if x & s != 0 { -((x & (s - 1)) as i128) } else { x as i128 }
    };
    ord(a).abs_diff(ord(b))
}

macro_rules! mkop {
    ($f:ident, $r:ident, [$($T:ident $i:tt),*]) => {
        pub fn $f<$($T: Val + 'static,)* O: Out + 'static>(name: &str, cfg: &str, f: impl Fn($($T),*) -> O + Send + Sync + 'static) -> Op {
            Op {
                name: name.into(), cfg: cfg.into(), args: vec![$($T::K),*], outs: O::kinds(),
                run: Box::new(move |a: &A| f($($T::de(a[$i])),*).out()),
                screen: None, gens: vec![], filter: None, extra: vec![], weight: 1.0, sweep: false, base: 0, lattice: true, text: None, expand: None,
            }
        }
        impl Op {
            /// Screen against a reference that must give the same bits (any NaN equals any NaN).
            pub fn $r<$($T: Val + 'static,)* O: Out + 'static>(mut self, g: impl Fn($($T),*) -> O + Send + Sync + 'static) -> Op {
                let ks = O::kinds();
                self.screen = Some(Box::new(move |a: &A, r: &R| {
                    let e = g($($T::de(a[$i])),*).out();
                    (0..e.n as usize).all(|j| same(ks[j], e.v[j], r.v[j]))
                }));
                self
            }
        }
    };
}
mkop!(op1, ref1, [T 0]);
mkop!(op2, ref2, [T 0, U 1]);
mkop!(op3, ref3, [T 0, U 1, V 2]);
mkop!(op4, ref4, [T 0, U 1, V 2, W 3]);

impl Op {
    pub fn screen(mut self, f: impl Fn(&A, &R) -> bool + Send + Sync + 'static) -> Op {
        self.screen = Some(Box::new(f));
        self
    }
    pub fn gen_with(mut self, f: impl Fn(&mut Rng) -> A + Send + Sync + 'static) -> Op {
        self.gens.push(Box::new(f));
        self
    }
    pub fn filter(mut self, f: impl Fn(&A) -> bool + Send + Sync + 'static) -> Op {
        self.filter = Some(Box::new(f));
        self
    }
    pub fn extra(mut self, e: impl IntoIterator<Item = A>) -> Op {
        self.extra.extend(e);
        self
    }
    pub fn weight(mut self, w: f64) -> Op {
        self.weight = w;
        self
    }
    pub fn sweep(mut self) -> Op {
        self.sweep = true;
        self
    }
    pub fn base(mut self, n: usize) -> Op {
        self.base = n;
        self
    }
    pub fn no_lattice(mut self) -> Op {
        self.lattice = false;
        self
    }
}

// ---------------------------------------------------------------- random numbers

/// The seed of this run, for tables that are made once.
pub static SEED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15, seed.wrapping_mul(0xd129_0d3c_4f2b_1a77) | 1);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
        s1 ^= s0;
        self.0 = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
        self.1 = s1.rotate_left(28);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

/// A w-bit pattern with structure: random, few bits, runs of ones, near powers of two.
pub fn rbits(r: &mut Rng, w: u32) -> u128 {
    if w == 0 {
        return 0;
    }
    let m = mask(w);
    let x = match r.below(10) {
        0 | 1 | 2 => r.u128(),
        3 => {
            // one to four bits set
            let mut x = 0;
            for _ in 0..1 + r.below(4) {
                x |= 1u128 << r.below(w as u64);
            }
            x
        }
        4 => {
            // one to four bits cleared
            let mut x = m;
            for _ in 0..1 + r.below(4) {
                x &= !(1u128 << r.below(w as u64));
            }
            x
        }
        5 => {
            // power of two plus or minus a small number
            let p = 1u128 << r.below(w as u64);
            let d = r.below(9) as u128;
            if r.next() & 1 == 0 { p.wrapping_add(d) } else { p.wrapping_sub(d) }
        }
        6 => {
            // alternating runs
            let mut x = 0u128;
            let mut pos = 0;
            let mut bit = r.next() & 1;
            while pos < w {
                let len = 1 + r.below(1 + w as u64 / 2) as u32;
                if bit == 1 {
                    x |= mask(len.min(128)) << pos;
                }
                bit ^= 1;
                pos += len;
            }
            x
        }
        7 => r.u128() << r.below(w as u64),
        8 => (r.u128() & m) >> r.below(w as u64),
        _ => {
            // random head, constant tail
            let k = r.below(w as u64) as u32;
            let x = r.u128() & !mask(k);
            match r.below(4) {
                0 => x,
                1 => x | mask(k),
                2 => x | (1u128 << k >> 1),
                _ => x | (mask(k) >> 1),
            }
        }
    };
    x & m
}

pub struct FF {
    pub w: u32,
    pub ew: u32,
    pub mw: u32,
}
pub fn ff(w: u32) -> FF {
    match w {
        16 => FF { w, ew: 5, mw: 10 },
        32 => FF { w, ew: 8, mw: 23 },
        64 => FF { w, ew: 11, mw: 52 },
        _ => FF { w, ew: 15, mw: 112 },
    }
}
impl FF {
    pub fn bias(&self) -> i64 {
        (1i64 << (self.ew - 1)) - 1
    }
    pub fn emax(&self) -> i64 {
        (1i64 << self.ew) - 1
    }
    pub fn make(&self, s: u64, e: i64, m: u128) -> u128 {
        let e = e.clamp(0, self.emax()) as u128;
        ((s & 1) as u128) << (self.w - 1) | e << self.mw | (m & mask(self.mw))
    }
    pub fn expo(&self, b: u128) -> i64 {
        ((b >> self.mw) as i64) & self.emax()
    }
    pub fn inf(&self) -> u128 {
        (self.emax() as u128) << self.mw
    }
}

/// A float with structure; `near` biases the exponent towards that biased exponent.
pub fn rfloat(r: &mut Rng, w: u32, near: Option<i64>) -> u128 {
    let f = ff(w);
    let p = f.mw as i64 + 1;
    let e = match (r.below(8), near) {
        (0..=3, Some(e)) => e + r.range(-(p + 4), p + 4),
        (4, Some(e)) => e + r.range(-2 * p - 6, 2 * p + 6),
        (0 | 1, _) => r.range(0, f.emax()),
        (2, _) => f.bias() + r.range(-(p + 6), p + 6),
        (3, _) => *r.pick(&[0, 0, 0, 1, 2, p, f.emax() - 1, f.emax() - 2, f.emax(), f.emax() - p]),
        (4, _) => r.range(0, p + 4),
        (5, _) => f.emax() - r.range(0, p + 4),
        _ => f.bias() + r.range(-4, 4),
    };
    let m = rbits(r, f.mw);
    f.make(r.next(), e, m)
}

pub fn rval(r: &mut Rng, k: K, near: Option<i64>) -> u128 {
    match k {
        K::U(w) => rbits(r, w),
        K::S(w) => {
            let x = rbits(r, w);
            if r.next() & 1 == 0 { x } else { x.wrapping_neg() & mask(w) }
        }
        K::F(w) => rfloat(r, w, near),
    }
}

pub fn lattice(k: K) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    match k {
        K::U(w) | K::S(w) => {
            let m = mask(w);
            for i in 0..w {
                for d in [0u128, 1, u128::MAX] {
                    v.push((1u128 << i).wrapping_add(d) & m);
                    v.push((1u128 << i).wrapping_add(d).wrapping_neg() & m);
                }
            }
            for i in 0..20u128 {
                v.push(i & m);
                v.push(i.wrapping_neg() & m);
                v.push((m / 3).wrapping_add(i) & m);
                v.push((m / 2).wrapping_add(i) & m);
            }
        }
        K::F(w) => {
            let f = ff(w);
            let p = f.mw as i64;
            let es = [
                0, 1, 2, 3, p, p + 1, p + 2, f.bias() - 2 * p, f.bias() - p - 2, f.bias() - p - 1, f.bias() - p, f.bias() - 2, f.bias() - 1, f.bias(),
                f.bias() + 1, f.bias() + 2, f.bias() + p - 1, f.bias() + p, f.bias() + p + 1, f.bias() + 31, f.bias() + 63, f.bias() + 127,
                f.emax() - p, f.emax() - 2, f.emax() - 1, f.emax(),
            ];
            let h = 1u128 << (f.mw - 1);
            let ms = [0, 1, 2, 3, h - 1, h, h + 1, mask(f.mw), mask(f.mw) - 1, mask(f.mw) / 3];
            for e in es {
                for m in ms {
                    for s in 0..2 {
                        v.push(f.make(s, e, m));
                    }
                }
            }
            let sub = |v: &mut Vec<u128>, x: u128| {
                v.push(x);
                v.push(x | 1u128 << (w - 1));
            };
            for i in 0..f.mw {
                sub(&mut v, 1u128 << i);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------- hints

/// Numbers that occur in the library's sources, by file stem and kind (float width, 0 for integers).
#[derive(Default)]
pub struct Hints(Vec<(String, u32, u128)>);
impl Hints {
    pub fn load(path: &str) -> Hints {
        let t = std::fs::read_to_string(path).unwrap_or_default();
        let mut v = vec![];
        for l in t.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            if let [s, w, x] = f[..] {
                v.push((s.to_string(), w.parse().unwrap(), u128::from_str_radix(x, 16).unwrap()));
            }
        }
        Hints(v)
    }
    /// The numbers usable for each argument of an operation: those of its own files, and all.
    fn for_op(&self, op: &Op) -> Vec<(Vec<u128>, Vec<u128>)> {
        let name = op.name.split(':').next().unwrap();
        // operations named by a law carry the function's name in their configuration
        let label = op.cfg.split(['/', '.']).next().unwrap();
        let stems: Vec<String> = ["", "f", "f16", "f128"].iter().flat_map(|x| [format!("{name}{x}"), format!("{label}{x}")]).collect();
        op.args
            .iter()
            .map(|k| {
                let (kind, w) = match *k {
                    K::F(w) => (w, w),
                    K::U(w) | K::S(w) => (0, w),
                };
                let ok = |x: &&(String, u32, u128)| x.1 == kind && (x.2 & !mask(w)) == 0;
                let all: Vec<u128> = self.0.iter().filter(ok).map(|x| x.2).collect();
                let own: Vec<u128> = self.0.iter().filter(ok).filter(|x| stems.contains(&x.0)).map(|x| x.2).collect();
                let dd = |mut v: Vec<u128>| {
                    v.sort();
                    v.dedup();
                    v
                };
                (dd(own), dd(all))
            })
            .collect()
    }
}
/// A neighbour of a hinted value.
fn perturb(r: &mut Rng, k: K, x: u128) -> u128 {
    let w = k.bits();
    let m = mask(w);
    let x = match r.below(8) {
        0..=2 => x,
        3 => x.wrapping_add(1),
        4 => x.wrapping_sub(1),
        5 => x.wrapping_add(r.below(17) as u128).wrapping_sub(8),
        6 => {
            // keep the leading half
            let h = mask(w / 2);
            x & !h | match r.below(3) {
                0 => h,
                1 => 1,
                _ => r.u128() & h,
            }
        }
        _ => x ^ r.u128() & mask(r.below(w as u64 / 2 + 1) as u32),
    };
    match k {
        K::F(_) if r.next() & 1 == 0 => (x ^ 1 << (w - 1)) & m,
        K::S(_) if r.next() & 1 == 0 => x.wrapping_neg() & m,
        _ => x & m,
    }
}

// ---------------------------------------------------------------- crash and hang reporting

pub struct Slot {
    op: Cell<usize>,
    args: Cell<A>,
    count: AtomicU64,
    active: AtomicBool,
}
unsafe impl Sync for Slot {}
const SLOT: Slot = Slot { op: Cell::new(0), args: Cell::new([0; 4]), count: AtomicU64::new(0), active: AtomicBool::new(false) };
static SLOTS: [Slot; 64] = [SLOT; 64];
thread_local! { static MYSLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }

struct CrashInfo {
    names: UnsafeCell<Vec<(String, usize)>>,
    path: UnsafeCell<Vec<u8>>,
}
unsafe impl Sync for CrashInfo {}
static CRASH: CrashInfo = CrashInfo { names: UnsafeCell::new(vec![]), path: UnsafeCell::new(vec![]) };

unsafe extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
    fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn sigaltstack(ss: *const [usize; 3], old: *mut [usize; 3]) -> i32;
    fn sigaction(sig: i32, a: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

/// Appends one failed call to the crash file; only async-signal-safe calls.
fn dump(slot: usize, what: &[u8]) {
    unsafe {
        let path = &*CRASH.path.get();
        let fd = open(path.as_ptr().cast(), 0o1 | 0o100 | 0o2000, 0o644);
        if fd < 0 {
            return;
        }
        let mut buf = [0u8; 512];
        let mut n = 0;
        let mut put = |s: &[u8]| {
            for &c in s {
                if n < buf.len() {
                    buf[n] = c;
                    n += 1;
                }
            }
        };
        let names = &*CRASH.names.get();
        if slot < 64 {
            let s = &SLOTS[slot];
            let (nm, na) = &names[s.op.get()];
            put(nm.as_bytes());
            let a = s.args.get();
            for x in &a[..*na] {
                put(b" ");
                let mut started = false;
                for i in (0..32).rev() {
                    let d = ((x >> (4 * i)) & 15) as usize;
                    if d != 0 || started || i == 0 {
                        started = true;
                        put(&b"0123456789abcdef"[d..d + 1]);
                    }
                }
            }
            put(b" > !");
            put(what);
            put(b"\n");
        }
        write(fd, buf.as_ptr().cast(), n);
    }
}
extern "C" fn on_signal(sig: i32) {
    let s = MYSLOT.with(|c| c.get());
    dump(
        s,
        match sig {
            6 => b"ABORT",
            4 => b"SIGILL",
            8 => b"SIGFPE",
            7 => b"SIGBUS",
            _ => b"SIGSEGV",
        },
    );
    unsafe { _exit(if s < 64 { 77 } else { 3 }) }
}
fn thread_altstack() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 65536, 3, 0x22, -1, 0);
        let ss = [p as usize, 0, 65536];
        sigaltstack(&ss, std::ptr::null_mut());
    }
}
pub fn install(names: Vec<(String, usize)>, crash_path: &str) {
    unsafe {
        *CRASH.names.get() = names;
        let mut p = crash_path.as_bytes().to_vec();
        p.push(0);
        *CRASH.path.get() = p;
        for s in [4, 6, 7, 8, 11] {
            let a = SigAction { handler: on_signal as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
            if sigaction(s, &a, std::ptr::null_mut()) != 0 {
                signal(s, on_signal as extern "C" fn(i32) as usize);
            }
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn hang_limit_s() -> u64 {
    std::env::var("VH_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(20)
}

// ---------------------------------------------------------------- the driver

pub struct Plan {
    pub seed: u64,
    /// evaluations per unit of weight
    pub evals: u64,
    /// default number of base records per operation
    pub base: usize,
    pub lattice2: u64,
    pub sweep: u64,
    pub max_suspects: usize,
    pub budget_s: f64,
    pub threads: usize,
    /// all threads work on the same operation at the same time
    pub together: bool,
    pub hints: Hints,
}

#[derive(Default, Clone)]
pub struct OpStats {
    pub evals: u64,
    pub suspects: u64,
    pub recorded: u64,
    pub panics: u64,
    pub lattice: u64,
}

pub fn fmt_rec(op: &Op, a: &A, r: &str) -> String {
    let mut s = format!("{} {}", op.name, op.cfg);
    for x in &a[..op.args.len()] {
        s.push_str(&format!(" {x:x}"));
    }
    s.push_str(" > ");
    s.push_str(r);
    s
}
pub fn fmt_res(r: &R) -> String {
    r.v[..r.n as usize].iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")
}
pub fn results(op: &Op, a: &A, r: &R) -> String {
    match &op.expand {
        Some(f) => f(a),
        None => fmt_res(r),
    }
}

struct Job {
    op: usize,
    kind: JobKind,
    seed: u64,
    n: u64,
    rec: usize,
}
enum JobKind {
    List(u64),
    Lattice(u64),
    Gen,
    Sweep(u64),
    Exhaust16(u64),
    /// the numbers in the operation's own source files, one argument at a time
    Hints,
}

struct Sink {
    lines: Vec<String>,
    suspects: Vec<String>,
    st: OpStats,
}

pub fn drive(ops: &[Op], plan: &Plan, out: &str) -> Vec<OpStats> {
    SEED.store(plan.seed, Relaxed);
    let start = std::time::Instant::now();
    let mut jobs: Vec<Job> = vec![];
    let lats: Vec<Vec<Vec<u128>>> = ops.iter().map(|o| o.args.iter().map(|k| lattice(*k)).collect()).collect();
    let hints: Vec<Vec<(Vec<u128>, Vec<u128>)>> = ops.iter().map(|o| if o.text.is_some() { vec![] } else { plan.hints.for_op(o) }).collect();
    for (i, o) in ops.iter().enumerate() {
        let base = if o.base > 0 { o.base } else { plan.base };
        if !o.extra.is_empty() {
            jobs.push(Job { op: i, kind: JobKind::List(0), seed: 0, n: o.extra.len() as u64, rec: o.extra.len().min(base) });
        }
        let exhaust16 = o.args.len() == 1 && o.args[0].bits() <= 16;
        let exhaust32 = o.args.len() == 2 && o.args[0].bits() + o.args[1].bits() <= 16;
        if exhaust16 {
            jobs.push(Job { op: i, kind: JobKind::Exhaust16(0), seed: 0, n: 1 << o.args[0].bits(), rec: base });
            continue;
        }
        if exhaust32 {
            jobs.push(Job { op: i, kind: JobKind::Exhaust16(0), seed: 0, n: 1 << (o.args[0].bits() + o.args[1].bits()), rec: base });
            continue;
        }
        if o.lattice {
            let total: u64 = lats[i].iter().map(|l| l.len() as u64).fold(1, |a, b| a.saturating_mul(b));
            let n = total.min(plan.lattice2);
            // a full enumeration when it fits, else a random selection of lattice points
            let parts = 1 + n / 200_000;
            for p in 0..parts {
                let lo = n * p / parts;
                let hi = n * (p + 1) / parts;
                jobs.push(Job { op: i, kind: JobKind::Lattice(lo), seed: 0, n: hi - lo, rec: (base as u64 / 3 / parts).max(1) as usize });
            }
        }
        let own: usize = hints[i].iter().map(|h| h.0.len()).sum();
        if own > 0 {
            let n = (own as u64 * 40).clamp(1000, 100_000).min(plan.evals.max(1000));
            jobs.push(Job { op: i, kind: JobKind::Hints, seed: 0x7777, n, rec: base / 3 });
        }
        let n = (plan.evals as f64 * o.weight) as u64;
        let parts = if plan.together { plan.threads as u64 } else { 1 + n / 1_000_000 };
        for p in 0..parts {
            jobs.push(Job { op: i, kind: JobKind::Gen, seed: 1 + p, n: n / parts, rec: (base as u64 / 2 / parts).max(1) as usize });
        }
        if o.sweep && plan.sweep > 0 {
            let n = plan.sweep.min(1 << 32);
            let parts = 1 + n / 4_000_000;
            for p in 0..parts {
                let lo = n * p / parts;
                let hi = n * (p + 1) / parts;
                jobs.push(Job { op: i, kind: JobKind::Sweep(lo), seed: 0, n: hi - lo, rec: (base as u64 / 6 / parts) as usize });
            }
        }
    }
    // special cases first; the bulk jobs of all operations interleaved, so that a run cut short by its
    // time budget has looked at every operation
    let mut order: Vec<(u64, usize)> = vec![];
    let mut seen: Vec<u64> = vec![0; ops.len()];
    for (ji, j) in jobs.iter().enumerate() {
        let k = match j.kind {
            JobKind::List(_) | JobKind::Exhaust16(_) => 0,
            JobKind::Lattice(_) | JobKind::Hints => 1,
            _ => {
                seen[j.op] += 1;
                1 + seen[j.op]
            }
        };
        order.push((if plan.together { 2 } else { k }, ji));
    }
    if !plan.together {
        order.sort();
    }
    let sinks: Vec<Mutex<Sink>> = ops.iter().map(|_| Mutex::new(Sink { lines: vec![], suspects: vec![], st: OpStats::default() })).collect();
    let next = AtomicUsize::new(0);
    let finished = AtomicBool::new(false);
    let ops_r = ops;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..plan.threads {
            let (next, jobs, order, sinks, lats, hints) = (&next, &jobs, &order, &sinks, &lats, &hints);
            hs.push(sc.spawn(move || {
                MYSLOT.with(|c| c.set(t));
                thread_altstack();
                loop {
                    let k = next.fetch_add(1, Relaxed);
                    if k >= order.len() || (order[k].0 > 2 && start.elapsed().as_secs_f64() > plan.budget_s) {
                        break;
                    }
                    run_job(&jobs[order[k].1], ops_r, &lats, &hints, plan, &sinks[jobs[order[k].1].op], t);
                }
            }));
        }
        // watchdog
        let fin = &finished;
        sc.spawn(move || {
            let limit = hang_limit_s();
            let mut last = vec![(0u64, std::time::Instant::now()); 64];
            while !fin.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for t in 0..plan.threads {
                    let c = SLOTS[t].count.load(Relaxed);
                    if c != last[t].0 || !SLOTS[t].active.load(Relaxed) {
                        last[t] = (c, std::time::Instant::now());
                    } else if last[t].1.elapsed().as_secs() >= limit {
                        dump(t, b"HANG");
                        unsafe { _exit(77) }
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        finished.store(true, Relaxed);
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut all = vec![];
    for s in sinks {
        let mut s = s.into_inner().unwrap();
        s.suspects.sort();
        s.suspects.truncate(plan.max_suspects);
        s.lines.sort();
        s.lines.dedup();
        for l in s.suspects.iter().chain(s.lines.iter()) {
            f.write_all(l.as_bytes()).unwrap();
            f.write_all(b"\n").unwrap();
        }
        s.st.recorded = (s.suspects.len() + s.lines.len()) as u64;
        all.push(s.st);
    }
    f.flush().unwrap();
    all
}

fn run_job(job: &Job, ops: &[Op], lats: &[Vec<Vec<u128>>], hints: &[Vec<(Vec<u128>, Vec<u128>)>], plan: &Plan, sink: &Mutex<Sink>, t: usize) {
    let op = &ops[job.op];
    let mut rng = Rng::new(plan.seed.wrapping_mul(0x1000_0001).wrapping_add((job.op as u64) << 20).wrapping_add(job.seed).wrapping_add(hash(&op.name)));
    let total: u64 = lats[job.op].iter().map(|l| l.len() as u64).fold(1, |a, b| a.saturating_mul(b));
    let full = total <= plan.lattice2;
    let stride = if plan.sweep >= 1 << 32 { 1 } else { ((1u64 << 32) / plan.sweep.max(1)) | 1 };
    let offset = Rng::new(plan.seed).next();
    let every = if job.rec == 0 { u64::MAX } else { (job.n / job.rec as u64).max(1) };
    let phase = rng.below(every.min(1 << 40));
    let hs = &hints[job.op];
    let slot = &SLOTS[t];
    let mut lines = vec![];
    let mut suspects = vec![];
    let mut st = OpStats::default();
    let pos = Cell::new(0u64);
    let cur = Cell::new([0u128; 4]);
    let mut lat_rng = Rng::new(plan.seed ^ 0x5151 ^ hash(&op.name) ^ if let JobKind::Lattice(lo) = job.kind { lo } else { 0 });
    slot.op.set(job.op);
    slot.active.store(true, Relaxed);
    while pos.get() < job.n {
        let res = catch_unwind(AssertUnwindSafe(|| {
            while pos.get() < job.n {
                let i = pos.get();
                pos.set(i + 1);
                let mut a: A = [0; 4];
                match job.kind {
                    JobKind::List(_) => a = op.extra[i as usize],
                    JobKind::Exhaust16(_) => {
                        let mut x = i as u128;
                        for (j, k) in op.args.iter().enumerate() {
                            a[j] = x & mask(k.bits());
                            x >>= k.bits();
                        }
                    }
                    JobKind::Lattice(lo) => {
                        if full {
                            let mut x = lo + i;
                            for (j, l) in lats[job.op].iter().enumerate() {
                                a[j] = l[(x % l.len() as u64) as usize];
                                x /= l.len() as u64;
                            }
                        } else {
                            for (j, l) in lats[job.op].iter().enumerate() {
                                a[j] = *lat_rng.pick(l);
                            }
                        }
                    }
                    JobKind::Sweep(lo) => {
                        a[0] = (offset.wrapping_add((lo + i).wrapping_mul(stride)) & 0xffff_ffff) as u128;
                    }
                    JobKind::Gen | JobKind::Hints => {
                        let ng = op.gens.len() as u64;
                        if ng > 0 && (rng.next() & 3) != 0 {
                            a = op.gens[rng.below(ng) as usize](&mut rng);
                        } else {
                            let mut near = None;
                            for (j, k) in op.args.iter().enumerate() {
                                a[j] = rval(&mut rng, *k, near);
                                if near.is_none() {
                                    if let K::F(w) = k {
                                        near = Some(ff(*w).expo(a[j]));
                                    }
                                }
                            }
                        }
                        let mine = matches!(job.kind, JobKind::Hints);
                        if !hs.is_empty() && (mine || rng.next() & 7 == 0) {
                            let j = rng.below(hs.len() as u64) as usize;
                            let h = if mine || (rng.next() & 1 == 0 && !hs[j].0.is_empty()) { &hs[j].0 } else { &hs[j].1 };
                            if !h.is_empty() {
                                let x = *rng.pick(h);
                                a[j] = perturb(&mut rng, op.args[j], x);
                            }
                        }
                    }
                }
                if let Some(f) = &op.filter {
                    if !f(&a) {
                        continue;
                    }
                }
                cur.set(a);
                slot.args.set(a);
                slot.count.fetch_add(1, Relaxed);
                if let Some(f) = &op.text {
                    let (susp, rec) = f(a[0] as u64, (i + phase) % every == 0);
                    st.evals += 1;
                    st.suspects += susp as u64;
                    if let Some((x, y)) = rec {
                        let l = format!("{} {} {} > {}", op.name, op.cfg, x, y);
                        if !susp {
                            lines.push(l);
                        } else if suspects.len() < plan.max_suspects {
                            suspects.push(l);
                        }
                    }
                    continue;
                }
                let r = (op.run)(&a);
                st.evals += 1;
                let susp = match &op.screen {
                    Some(s) => !s(&a, &r),
                    None => false,
                };
                if susp {
                    st.suspects += 1;
                    if suspects.len() < plan.max_suspects {
                        suspects.push(fmt_rec(op, &a, &results(op, &a, &r)));
                    }
                } else if (i + phase) % every == 0 {
                    lines.push(fmt_rec(op, &a, &results(op, &a, &r)));
                }
            }
        }));
        if res.is_err() {
            st.panics += 1;
            if suspects.len() < plan.max_suspects {
                suspects.push(fmt_rec(op, &cur.get(), "!PANIC"));
            }
            if st.panics > 200 {
                break;
            }
        }
    }
    slot.active.store(false, Relaxed);
    if let JobKind::Lattice(_) | JobKind::Exhaust16(_) = job.kind {
        st.lattice = st.evals;
    }
    let mut s = sink.lock().unwrap();
    s.lines.append(&mut lines);
    if s.suspects.len() < plan.max_suspects * 4 {
        s.suspects.append(&mut suspects);
    }
    s.st.evals += st.evals;
    s.st.suspects += st.suspects;
    s.st.panics += st.panics;
    s.st.lattice += st.lattice;
}

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

pub fn write_stats(path: &str, prop: &str, ops: &[Op], st: &[OpStats]) {
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": \"{prop}\",\n \"ops\": [\n"));
    for (i, (o, t)) in ops.iter().zip(st).enumerate() {
        s.push_str(&format!(
            "  {{\"op\": \"{}\", \"cfg\": \"{}\", \"evals\": {}, \"suspects\": {}, \"recorded\": {}, \"panics\": {}, \"lattice\": {}}}{}\n",
            o.name, o.cfg, t.evals, t.suspects, t.recorded, t.panics, t.lattice, if i + 1 < ops.len() { "," } else { "" }
        ));
    }
    s.push_str(" ]\n}\n");
    std::fs::write(path, s).unwrap();
}
