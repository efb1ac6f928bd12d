//! C27: run-time feature detection, its cache, and the choice of the fma implementation.
use crate::support::feature_detect::{Flags, get_or_init_flags_cache};
use crate::util::*;
use simcore::cpu::{self, Cpu};
use simcore::sim::{self, CALL, Choose, INIT, INSTR, RET, Setup};
use simcore::sync::atomic::AtomicU32;
use std::fmt::Write;
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// The library's module tree as far as the included files look at it.
pub mod math {
    pub mod generic {
        use simcore::sim::{INSTR, event};
        pub struct R<T> {
            pub val: T,
        }
        // the portable implementation, instruction class 3
        pub fn fma_round(x: f64, y: f64, z: f64, _: crate::support::Round) -> R<f64> {
            event(INSTR, 3);
            R { val: x.mul_add(y, z) }
        }
        pub fn fma_wide_round(x: f32, y: f32, z: f32, _: crate::support::Round) -> R<f32> {
            event(INSTR, 3);
            R { val: x.mul_add(y, z) }
        }
    }
    pub mod arch {
        pub mod x86 {
            pub mod detect {
                include!(concat!(env!("OUT_DIR"), "/detect.rs"));
            }
            pub mod fma {
                include!(concat!(env!("OUT_DIR"), "/fma.rs"));
            }
        }
    }
}
use math::arch::x86::{detect, fma};

/// A processor that can exist: the bits the code may look at, the rest random.
fn some_cpu(r: &mut Rng) -> Cpu {
    let mut c = Cpu::default();
    let amd = match r.below(6) {
        0 | 1 => Some(*b"AuthenticAMD"),
        2 => Some(*b"HygonGenuine"),
        _ => None,
    };
    c.vendor = amd.unwrap_or(*[b"GenuineIntel", b"CentaurHauls", b"AuthenticAMX", b"  Shanghai  "][r.below(4) as usize]);
    c.max_leaf = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 6,
        3 => 7,
        _ => 0x16,
    };
    let bit = |r: &mut Rng| r.below(3) != 0;
    c.ecx1 = r.next() as u32 & !(1 << 12 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 29);
    c.edx1 = r.next() as u32;
    // XSAVE, OSXSAVE only with XSAVE, AVX, FMA and F16C only with AVX
    if bit(r) {
        c.ecx1 |= 1 << 26;
        if bit(r) {
            c.ecx1 |= 1 << 27;
        }
        if bit(r) {
            c.ecx1 |= 1 << 28;
            c.ecx1 |= (bit(r) as u32) << 12 | (bit(r) as u32) << 29;
        }
    }
    c.xcr0 = 1 | match r.below(6) {
        0 => 0,
        1 => 2,
        2 | 3 => 6,
        4 => 6 | 0xe0,
        _ => 2 | 0x18 | 0x60000,
    };
    c.ebx7 = r.next() as u32;
    c.edx7 = r.next() as u32;
    c.eax71 = r.next() as u32;
    let avx = c.ecx1 >> 28 & 1 == 1;
    if !avx {
        c.edx7 &= !(1 << 23);
        c.eax71 &= !(1 << 5);
    }
    // processors of AMD have had the extended leaves for as long as they have had FMA4
    c.max_ext = if amd.is_some() || bit(r) { 0x8000_0008 } else { [0, 0x8000_0000][r.below(2) as usize] };
    c.ext_ecx = r.next() as u32;
    if !avx {
        c.ext_ecx &= !(1 << 16);
    }
    c
}

fn cpu_words(c: &Cpu) -> [u64; 10] {
    let v = |i: usize| u32::from_le_bytes(c.vendor[i..i + 4].try_into().unwrap()) as u64;
    [
        c.max_leaf as u64, v(0), v(4), v(8), c.ecx1 as u64, c.edx1 as u64,
        (c.ebx7 as u64) << 32 | c.edx7 as u64, c.eax71 as u64, (c.max_ext as u64) << 32 | c.ext_ecx as u64, c.xcr0,
    ]
}

/// What one thread of a run does: 0 fma, 1 fmaf, 2 features, 3 the cache with a given initialiser.
#[derive(Clone, Copy)]
struct Do {
    tid: u64,
    what: u64,
    x: i64,
    y: i64,
    z: i64,
}

fn mask_of() -> Vec<(u64, u32)> {
    use detect::cpu_flags::*;
    vec![(0, SSE3), (1, F16C), (2, SSE), (3, SSE2), (4, ERMSB), (5, MOVRS), (6, FMA), (7, FMA4), (8, AVX512FP16), (9, AVX512BF16)]
}

fn perform(d: &Do, cache: &'static AtomicU32) -> u64 {
    match d.what {
        0 => fma::fma(d.x as f64, d.y as f64, d.z as f64) as i64 as u64,
        1 => fma::fmaf(d.x as f32, d.y as f32, d.z as f32) as i64 as u64,
        2 => {
            let f = detect::get_cpu_features();
            mask_of().iter().map(|(i, m)| (f.contains(*m) as u64) << i).sum()
        }
        _ => {
            let v = d.x as u32;
            let f = get_or_init_flags_cache(cache, || {
                sim::event(INIT, v as u64);
                Flags::from_bits(v)
            });
            f.bits() as u64 & 0x7fff_ffff
        }
    }
}

fn one(c: &Cpu, stale: bool, calls: &[Do], threads: usize, ch: Box<dyn Choose>, out: &mut String) -> Box<dyn Choose> {
    cpu::set(*c);
    static CACHE: AtomicU32 = AtomicU32::new(0);
    let mut ts: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..threads {
        let mine: Vec<(usize, Do)> = calls.iter().copied().enumerate().filter(|(_, c)| c.tid == t as u64).collect();
        ts.push(Box::new(move || {
            for (i, c) in mine {
                sim::event(CALL, i as u64);
                let r = perform(&c, &CACHE);
                sim::event(RET, r);
            }
        }));
    }
    let (log, ch) = sim::run(Setup { choose: ch, spurious: 0, stale, word: 0 }, ts);
    write!(out, "detect {}", if stale { "relaxed" } else { "sc" }).unwrap();
    hexs(out, cpu_words(c));
    hexs(out, [calls.len() as u64]);
    for d in calls {
        hexs(out, [d.tid, d.what, d.x as u64, d.y as u64, d.z as u64]);
    }
    out.push_str(" >");
    events(out, &log);
    out.push('\n');
    ch
}

pub fn run(o: &Opts) -> String {
    let mut out = String::new();
    let t0 = Instant::now();
    let mut rng = Rng(o.seed.wrapping_mul(0x1234_5678_9abc_def1).wrapping_add(o.shard * 7919));
    let mut runs = 0;
    while runs < o.runs && t0.elapsed().as_secs_f64() < o.budget {
        let c = some_cpu(&mut rng);
        let threads = 1 + rng.below(3);
        // what the cache is to be filled with is the same for all threads, as in the library
        let v = match rng.below(4) {
            0 => 0,
            1 => 0x7fff_ffff,
            _ => rng.next() & 0x7fff_ffff,
        };
        let whats: Vec<u64> = (0..2).map(|_| [0, 0, 1, 1, 2, 3][rng.below(6) as usize]).collect();
        let n = threads + rng.below(3);
        let calls: Vec<Do> = (0..n)
            .map(|i| {
                let what = whats[rng.below(2) as usize];
                let mut k = || rng.below(1000) as i64 + 2;
                let (x, y, z) = if what == 3 { (v as i64, 0, 0) } else if what == 2 { (0, 0, 0) } else { (k(), k(), k()) };
                Do { tid: i % threads, what, x, y, z }
            })
            .collect();
        let stale = rng.below(4) != 0;
        if calls.len() <= 2 {
            let dfs = Arc::new(Mutex::new(Dfs::default()));
            let mut d: Box<dyn Choose> = Box::new(Shared(dfs.clone()));
            for _ in 0..60 {
                d = one(&c, stale, &calls, threads as usize, d, &mut out);
                runs += 1;
                if !dfs.lock().unwrap().advance() {
                    break;
                }
            }
        } else {
            for _ in 0..8 {
                one(&c, stale, &calls, threads as usize, Box::new(Rand(Rng(rng.next()))), &mut out);
                runs += 1;
            }
        }
    }
    out
}
