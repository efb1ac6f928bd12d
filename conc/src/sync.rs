//! C19: the `__sync_*` functions of 32-bit ARM on a simulated machine.
use crate::util::*;
use simcore::sim::{self, CALL, RET, Setup};
use std::fmt::Write;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[cfg(feature = "arm")]
mod arm {
    include!(concat!(env!("OUT_DIR"), "/arm_linux.rs"));
}
#[cfg(feature = "thumb")]
mod thumb {
    include!(concat!(env!("OUT_DIR"), "/thumbv6k.rs"));
}

/// Operation codes shared with Sync.tla.
pub const NAMES: [&str; 18] = [
    "fetch_and_add", "add_and_fetch", "fetch_and_sub", "sub_and_fetch", "fetch_and_and", "and_and_fetch", "fetch_and_or",
    "or_and_fetch", "fetch_and_xor", "xor_and_fetch", "fetch_and_nand", "nand_and_fetch", "fetch_and_max", "fetch_and_umax",
    "fetch_and_min", "fetch_and_umin", "lock_test_and_set", "val_compare_and_swap",
];
pub const CAS: u64 = 17;
pub const SYNC: u64 = 18;

macro_rules! three {
    ($m:ident, $size:ident, $p:ident, $a:ident, $base:ident, $t1:ty, $t2:ty, $t4:ty) => {
        unsafe {
            match $size {
                1 => $m::${concat(__sync_, $base, _1)}($p as *mut $t1, $a as $t1) as u8 as u32,
                2 => $m::${concat(__sync_, $base, _2)}($p as *mut $t2, $a as $t2) as u16 as u32,
                _ => $m::${concat(__sync_, $base, _4)}($p as *mut $t4, $a as $t4) as u32,
            }
        }
    };
}
macro_rules! calls {
    ($m:ident, $f:ident) => {
        unsafe fn $f(op: u64, size: u64, p: usize, a: u32, b: u32) -> u32 {
            match op {
                0 => three!($m, size, p, a, fetch_and_add, u8, u16, u32),
                1 => three!($m, size, p, a, add_and_fetch, u8, u16, u32),
                2 => three!($m, size, p, a, fetch_and_sub, u8, u16, u32),
                3 => three!($m, size, p, a, sub_and_fetch, u8, u16, u32),
                4 => three!($m, size, p, a, fetch_and_and, u8, u16, u32),
                5 => three!($m, size, p, a, and_and_fetch, u8, u16, u32),
                6 => three!($m, size, p, a, fetch_and_or, u8, u16, u32),
                7 => three!($m, size, p, a, or_and_fetch, u8, u16, u32),
                8 => three!($m, size, p, a, fetch_and_xor, u8, u16, u32),
                9 => three!($m, size, p, a, xor_and_fetch, u8, u16, u32),
                10 => three!($m, size, p, a, fetch_and_nand, u8, u16, u32),
                11 => three!($m, size, p, a, nand_and_fetch, u8, u16, u32),
                12 => three!($m, size, p, a, fetch_and_max, i8, i16, i32),
                13 => three!($m, size, p, a, fetch_and_umax, u8, u16, u32),
                14 => three!($m, size, p, a, fetch_and_min, i8, i16, i32),
                15 => three!($m, size, p, a, fetch_and_umin, u8, u16, u32),
                16 => three!($m, size, p, a, lock_test_and_set, u8, u16, u32),
                17 => unsafe {
                    match size {
                        1 => $m::__sync_val_compare_and_swap_1(p as *mut u8, a as u8, b as u8) as u32,
                        2 => $m::__sync_val_compare_and_swap_2(p as *mut u16, a as u16, b as u16) as u32,
                        _ => $m::__sync_val_compare_and_swap_4(p as *mut u32, a, b),
                    }
                },
                _ => unsafe {
                    $m::__sync_synchronize();
                    0
                },
            }
        }
    };
}
#[cfg(feature = "arm")]
calls!(arm, call_arm);
#[cfg(feature = "thumb")]
calls!(thumb, call_thumb);

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}

/// Puts the kernel's helper page where the ARM code expects it.
fn kernel_page() {
    let base = 0xffff_0000usize as *mut u8;
    unsafe {
        // private, anonymous, fixed without replacing anything
        let p = mmap(base, 4096, 3, 0x2 | 0x20 | 0x10_0000, -1, 0);
        if p != base {
            eprintln!("cannot map the kernel helper page");
            std::process::exit(3);
        }
        let jump = |off: usize, to: usize| {
            let at = base.add(off);
            // mov rax, to; jmp rax
            at.cast::<[u8; 2]>().write_unaligned([0x48, 0xb8]);
            at.add(2).cast::<u64>().write_unaligned(to as u64);
            at.add(10).cast::<[u8; 2]>().write_unaligned([0xff, 0xe0]);
        };
        jump(0xfc0, sim::kuser_cmpxchg as *const () as usize);
        jump(0xfa0, sim::kuser_barrier as *const () as usize);
        if mprotect(base, 4096, 5) != 0 {
            eprintln!("cannot make the kernel helper page executable");
            std::process::exit(3);
        }
    }
}

#[derive(Clone, Copy)]
struct Op {
    tid: u64,
    op: u64,
    size: u64,
    off: u64,
    a: u32,
    b: u32,
}

#[repr(C, align(64))]
struct Mem([u32; 16]);

fn one(mech: &str, f: unsafe fn(u64, u64, usize, u32, u32) -> u32, word0: u32, calls: &[Op], threads: usize, ch: Box<dyn sim::Choose>, spurious: usize, out: &mut String) -> Box<dyn sim::Choose> {
    let mut mem = Box::new(Mem([0x5a5a_5a5a; 16]));
    mem.0[8] = word0;
    let addr = &raw mut mem.0[8] as usize;
    let mut ts: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..threads {
        let mine: Vec<(usize, Op)> = calls.iter().copied().enumerate().filter(|(_, c)| c.tid == t as u64).collect();
        ts.push(Box::new(move || {
            for (i, c) in mine {
                sim::event(CALL, i as u64);
                let r = unsafe { f(c.op, c.size, addr + c.off as usize, c.a, c.b) };
                sim::event(RET, r as u64);
            }
        }));
    }
    let (log, ch) = sim::run(Setup { choose: ch, spurious, stale: false, word: addr as u64 }, ts);
    let clean = mem.0.iter().enumerate().all(|(i, w)| i == 8 || *w == 0x5a5a_5a5a);
    write!(out, "sync {mech} {word0:x} {:x} {:x} {:x}", mem.0[8], clean as u8, calls.len()).unwrap();
    for c in calls {
        hexs(out, [c.tid, c.op, c.size, c.off, c.a as u64, c.b as u64]);
    }
    out.push_str(" >");
    events(out, &log);
    out.push('\n');
    ch
}

pub fn run(o: &Opts) -> String {
    kernel_page();
    let mut mechs: Vec<(&str, unsafe fn(u64, u64, usize, u32, u32) -> u32)> = vec![];
    #[cfg(feature = "arm")]
    mechs.push(("arm", call_arm));
    #[cfg(feature = "thumb")]
    mechs.push(("thumb", call_thumb));
    let mut out = String::new();
    let t0 = Instant::now();
    let mut rng = Rng(o.seed.wrapping_mul(0x1234_5678_9abc_def1).wrapping_add(o.shard));
    let mut runs = 0;
    let mut round = 0u64;
    // a round visits every operation, size and offset once, each in several settings
    'all: while runs < o.runs && t0.elapsed().as_secs_f64() < o.budget {
        for (mi, (mech, f)) in mechs.iter().enumerate() {
            for op in 0..19u64 {
                for size in [1u64, 2, 4] {
                    for off in (0..4).step_by(size as usize) {
                        let k = round * 1000 + op * 20 + size * 4 + off + mi as u64 * 500;
                        if k % o.shards != o.shard {
                            continue;
                        }
                        if runs >= o.runs && round > 0 {
                            break 'all;
                        }
                        let word0 = rng.word(32);
                        let cur = |size: u64, off: u64| (word0 as u64 >> (8 * off) & ((1u64 << (8 * size)) - 1)) as u32;
                        let mk = |rng: &mut Rng, tid, op, size: u64, off: u64| {
                            let bits = 8 * size as u32;
                            let mut a = rng.word(bits);
                            let b = rng.word(bits);
                            if op == CAS && rng.below(4) != 0 {
                                a = cur(size, off);
                            }
                            Op { tid, op, size, off, a, b }
                        };
                        let first = mk(&mut rng, 0, op, size, off);
                        let threads = 1 + (round + op + off) % 3;
                        let mut calls = vec![first];
                        for t in 1..threads {
                            // another operation that may overlap the first one's bytes or sit next to them
                            let s2 = [1, 2, 4][rng.below(3) as usize];
                            let o2 = rng.below(4 / s2) * s2;
                            let op2 = rng.below(18);
                            calls.push(mk(&mut rng, t, op2, s2, o2));
                        }
                        if threads < 3 && rng.below(2) == 0 {
                            let s2 = [1, 2, 4][rng.below(3) as usize];
                            let o2 = rng.below(4 / s2) * s2;
                            let op2 = rng.below(18);
                            let t = rng.below(threads);
                            calls.push(mk(&mut rng, t, op2, s2, o2));
                        }
                        let spurious = rng.below(3) as usize;
                        if calls.len() <= 2 {
                            // every interleaving and every spurious failure, up to a limit
                            let dfs = Arc::new(Mutex::new(Dfs::default()));
                            let mut d: Box<dyn sim::Choose> = Box::new(Shared(dfs.clone()));
                            for _ in 0..40 {
                                d = one(mech, *f, word0, &calls, threads as usize, d, spurious, &mut out);
                                runs += 1;
                                if !dfs.lock().unwrap().advance() {
                                    break;
                                }
                            }
                        } else {
                            for _ in 0..6 {
                                let r = Rand(Rng(rng.next()));
                                one(mech, *f, word0, &calls, threads as usize, Box::new(r), spurious, &mut out);
                                runs += 1;
                            }
                        }
                    }
                }
            }
        }
        round += 1;
    }
    out
}
