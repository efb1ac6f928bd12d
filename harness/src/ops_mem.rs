//! Memory functions (C07): histories of calls on an arena between inaccessible pages.
use crate::core::*;
use crate::ops_float::label;
use compiler_builtins::mem;
use std::cell::RefCell;

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn memfd_create(n: *const std::ffi::c_char, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn mremap(a: *mut u8, old: usize, new: usize, flags: i32, to: *mut u8) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn close(fd: i32) -> i32;
}
const PAGE: usize = 4096;
const ROOM: usize = 2 * PAGE;
const CANARY: u8 = 0xa5;
thread_local! { static ARENA: usize = arena(); }
fn arena() -> usize {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4 * PAGE, 0, 0x22, -1, 0);
        assert!(mprotect(p.add(PAGE), ROOM, 3) == 0);
        std::slice::from_raw_parts_mut(p.add(PAGE), ROOM).fill(CANARY);
        p.add(PAGE) as usize
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub op: u8,
    pub d: usize,
    pub s: usize,
    pub n: usize,
}
pub const CPY: u8 = 1;
pub const MOVE: u8 = 2;
pub const SET: u8 = 3;
pub const CMP: u8 = 4;
pub const BCMP: u8 = 5;
pub const LEN: u8 = 6;

pub trait Mem: Send + Sync + 'static {
    unsafe fn cpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    unsafe fn mov(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    unsafe fn set(d: *mut u8, c: i32, n: usize) -> *mut u8;
    unsafe fn cmp(a: *const u8, b: *const u8, n: usize) -> i32;
    unsafe fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    unsafe fn len(a: *const u8) -> usize;
}
pub struct Cb;
impl Mem for Cb {
    unsafe fn cpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe { mem::memcpy(d, s, n) }
    }
    unsafe fn mov(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe { mem::memmove(d, s, n) }
    }
    unsafe fn set(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        unsafe { mem::memset(d, c, n) }
    }
    unsafe fn cmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        unsafe { mem::memcmp(a, b, n) }
    }
    unsafe fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        unsafe { mem::bcmp(a, b, n) }
    }
    unsafe fn len(a: *const u8) -> usize {
        unsafe { mem::strlen(a.cast()) }
    }
}

fn df_set() -> bool {
    let f: u64;
    unsafe {
        std::arch::asm!("pushfq", "pop {}", "cld", out(reg) f);
    }
    f & 0x400 != 0
}

fn hex(s: &[u8], out: &mut String) {
    // little endian: the byte at offset 0 is the lowest
    let mut started = false;
    for b in s.iter().rev() {
        for d in [b >> 4, b & 15] {
            if d != 0 || started {
                started = true;
                out.push(b"0123456789abcdef"[d as usize] as char);
            }
        }
    }
    if !started {
        out.push('0');
    }
}

/// Runs the steps on a window of `init.len()` bytes placed against the lower or upper guard page.
pub fn play<M: Mem>(num: u64, init: &[u8], hi: bool, steps: &[Step], want: bool) -> (bool, Option<(String, String)>) {
    let base = ARENA.with(|a| *a) as *mut u8;
    let w = init.len();
    let room = unsafe { std::slice::from_raw_parts_mut(base, ROOM) };
    let off = if hi { ROOM - w } else { 0 };
    room[off..off + w].copy_from_slice(init);
    let win = unsafe { base.add(off) };
    let mut model = init.to_vec();
    let mut susp = false;
    let mut res: Vec<(u64, Vec<u8>)> = vec![];
    let mut fail = "";
    for st in steps {
        let (d, s, n) = (st.d, st.s, st.n);
        let ret = unsafe {
            match st.op {
                CPY => M::cpy(win.add(d), win.add(s), n).addr().wrapping_sub(win.addr()) as u64,
                MOVE => M::mov(win.add(d), win.add(s), n).addr().wrapping_sub(win.addr()) as u64,
                SET => M::set(win.add(d), s as u32 as i32, n).addr().wrapping_sub(win.addr()) as u64,
                CMP => M::cmp(win.add(d), win.add(s), n) as u32 as u64,
                BCMP => M::bcmp(win.add(d), win.add(s), n) as u32 as u64,
                _ => M::len(win.add(d)) as u64,
            }
        };
        if df_set() {
            fail = "!DIRECTION-FLAG";
        }
        // the reference used to screen: naive loops
        let exp = match st.op {
            CPY | MOVE => {
                let t: Vec<u8> = model[s..s + n].to_vec();
                for i in 0..n {
                    model[d + i] = t[i];
                }
                ret == d as u64
            }
            SET => {
                for i in 0..n {
                    model[d + i] = s as u8;
                }
                ret == d as u64
            }
            CMP | BCMP => {
                let o = model[d..d + n].cmp(&model[s..s + n]) as i32;
                if st.op == CMP { (ret as u32 as i32).signum() == o } else { (ret != 0) == (o != 0) }
            }
            _ => ret as usize == model[d..].iter().position(|b| *b == 0).unwrap(),
        };
        susp |= !exp;
        if want || !exp {
            res.push((ret, room[off..off + w].to_vec()));
        }
    }
    let final_ok = room[off..off + w] == model[..];
    susp |= !final_ok;
    room[off..off + w].fill(CANARY);
    if room.iter().any(|b| *b != CANARY) {
        fail = "!STRAY-WRITE";
        room.fill(CANARY);
    }
    susp |= !fail.is_empty();
    if susp && !want {
        // once more, recording
        return play::<M>(num, init, hi, steps, true);
    }
    if !want {
        return (false, None);
    }
    let mut a = format!("{num:x} {w:x} ");
    hex(init, &mut a);
    for st in steps {
        a.push_str(&format!(" {:x} {:x} {:x} {:x}", st.op, st.d, st.s, st.n));
    }
    let mut r = String::new();
    for (v, m) in &res {
        r.push_str(&format!("{v:x} "));
        hex(m, &mut r);
        r.push(' ');
    }
    r.push_str(fail);
    (susp, Some((a, r.trim_end().to_string())))
}

fn content(r: &mut Rng, w: usize) -> Vec<u8> {
    let k = r.below(5);
    (0..w)
        .map(|i| match k {
            0 => r.next() as u8,
            1 => *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
            2 => 1 + r.below(255) as u8,
            3 => (i as u8).wrapping_add(1),
            _ => *r.pick(&[0x80u8, 0x81, 0xff, 1]),
        })
        .collect()
}

/// A range [start, start + n) in a window of w bytes.
fn range(r: &mut Rng, w: usize) -> (usize, usize) {
    let n = match r.below(5) {
        0 => r.below(w as u64 + 1) as usize,
        1 => (r.below(40) as usize).min(w),
        2 => w - r.below(w.min(20) as u64 + 1) as usize,
        3 => ((16 << r.below(4)) + r.below(5) as usize).saturating_sub(2).min(w),
        _ => (r.below(18) as usize).min(w),
    };
    let st = match r.below(4) {
        0 => 0,
        1 => w - n,
        _ => r.below((w - n) as u64 + 1) as usize,
    };
    (st, n)
}

fn random_history<M: Mem>(num: u64, want: bool) -> (bool, Option<(String, String)>) {
    let mut r = Rng::new(num ^ 0x3e3e);
    let r = &mut r;
    let w = match r.below(40) {
        0 => ROOM,
        1 => PAGE + r.below(64) as usize,
        2..=5 => 100 + r.below(500) as usize,
        _ => 16 + r.below(100) as usize,
    };
    let init = content(r, w);
    let hi = r.next() & 1 == 0;
    let mut st: Vec<Step> = vec![];
    let long = w > 600;
    let count = if long { 2 } else { 1 + r.below(6) };
    let mut zeros = init.clone(); // tracks the memory, to know where zero bytes are
    let mut push = |zeros: &mut Vec<u8>, st: &mut Vec<Step>, s: Step| {
        match s.op {
            CPY | MOVE => zeros.copy_within(s.s..s.s + s.n, s.d),
            SET => zeros[s.d..s.d + s.n].fill(s.s as u8),
            _ => {}
        }
        st.push(s);
    };
    for _ in 0..count {
        match r.below(7) {
            0 => {
                // two disjoint ranges, or the same range
                let (a, n) = range(r, w);
                if r.below(12) == 0 {
                    push(&mut zeros, &mut st, Step { op: CPY, d: a, s: a, n });
                    continue;
                }
                let cut = r.below(w as u64 + 1) as usize;
                let (lo, hi) = (cut, w - cut);
                let n = n.min(lo).min(hi);
                let x = if r.next() & 1 == 0 { lo - n } else { r.below((lo - n) as u64 + 1) as usize };
                let y = cut + if r.next() & 1 == 0 { 0 } else { r.below((hi - n) as u64 + 1) as usize };
                let (d, s) = if r.next() & 1 == 0 { (x, y) } else { (y, x) };
                push(&mut zeros, &mut st, Step { op: CPY, d, s, n });
            }
            1 | 2 => {
                let (s, n) = range(r, w);
                let max = w - n;
                let d = match r.below(3) {
                    0 => r.below(max as u64 + 1) as usize,
                    1 => (s + r.below(20) as usize).min(max),
                    _ => s.saturating_sub(r.below(20) as usize).min(max),
                };
                push(&mut zeros, &mut st, Step { op: MOVE, d, s, n });
            }
            3 => {
                let (d, n) = range(r, w);
                let c = *r.pick(&[0u32, 1, 0x80, 0xff, 0x1ff, 0x100, 0xffff_ff80, 0x7fff_ff01, r.clone().next() as u32]);
                push(&mut zeros, &mut st, Step { op: SET, d, s: c as usize, n });
            }
            4 | 5 => {
                // copy, change at most one byte, compare
                let (a, n) = range(r, w);
                let n = n.min(w / 2);
                let a = a.min(w - n);
                let b = r.below((w - n) as u64 + 1) as usize;
                push(&mut zeros, &mut st, Step { op: MOVE, d: a, s: b, n });
                if n > 0 && r.below(4) != 0 {
                    let k = a + r.below(n as u64) as usize;
                    push(&mut zeros, &mut st, Step { op: SET, d: k, s: r.next() as u8 as usize, n: 1 });
                }
                let op = if r.below(3) == 0 { BCMP } else { CMP };
                push(&mut zeros, &mut st, Step { op, d: a, s: b, n });
            }
            _ => {
                let (d, n) = range(r, w);
                if r.below(3) != 0 {
                    push(&mut zeros, &mut st, Step { op: SET, d, s: *r.pick(&[1, 0x80, 0xff, 0x41]), n });
                    let z = (d + n).min(w - 1);
                    push(&mut zeros, &mut st, Step { op: SET, d: z, s: 0, n: 1 });
                }
                let d = d.min(w - 1);
                if zeros[d..].contains(&0) {
                    push(&mut zeros, &mut st, Step { op: LEN, d, s: 0, n: 0 });
                }
            }
        }
    }
    play::<M>(num, &init, hi, &st, want)
}

/// Small cases, all of them: `num` enumerates.
fn small<M: Mem>(kind: u8, num: u64, want: bool) -> (bool, Option<(String, String)>) {
    let mut r = Rng::new(num);
    let hi = num & 1 == 1;
    let k = (num >> 1) as usize;
    let (init, steps): (Vec<u8>, Vec<Step>) = match kind {
        MOVE => {
            let w = 40;
            let (d, s) = (k % 41, k / 41 % 41);
            let top = w - d.max(s);
            let n = if k / 1681 == 0 { top } else { r.below(top as u64 + 1) as usize };
            ((1..=w as u8).collect(), vec![Step { op: MOVE, d, s, n }])
        }
        CPY => {
            let (d, s, n) = (k % 16, k / 16 % 16, k / 256 % 128);
            let w = 32 + 2 * n;
            // the source lies above or below the destination and touches the guard page
            let st = if hi { Step { op: CPY, d, s: w - n - (s & 7) * (s >> 3), n } } else { Step { op: CPY, d: 16 + n + d, s, n } };
            ((0..w).map(|i| i as u8 ^ 0x55).collect(), vec![st])
        }
        SET => {
            let (d, n, c) = (k % 16, k / 16 % 160, k / 2560 % 8);
            let w = d + n + if r.next() & 1 == 0 { 0 } else { 17 };
            (vec![0x11; w], vec![Step { op: SET, d, s: [0, 0xff, 0x80, 0x100, 0x7f, 0xffff_ffff, 1, 0x12345678][c], n }])
        }
        CMP => {
            let (a, b, n) = (k % 16, k / 16 % 16, k / 256 % 64);
            let w = 16 + n + b + n;
            let mut v: Vec<u8> = vec![7; w];
            let (x, y) = (r.below(17) as usize, w - n);
            let x = x.min(a);
            if n > 0 {
                let p = r.below(n as u64) as usize;
                let (u, t) = (*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]), *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]));
                if x + p < y {
                    v[x + p] = u;
                }
                v[y + p] = t;
                for q in p + 1..n {
                    v[y + q] = r.next() as u8;
                }
            }
            let op = if r.below(4) == 0 { BCMP } else { CMP };
            let (d, s) = if r.next() & 1 == 0 { (x, y) } else { (y, x) };
            (v, vec![Step { op, d, s, n }])
        }
        _ => {
            let (a, n) = (k % 32, k / 32 % 256);
            // garbage after the terminator, and zeros before the string
            let mut v = vec![0u8; a];
            v.extend((0..n).map(|_| *r.pick(&[1u8, 0x80, 0xff, 0x7f, 0x20])));
            v.push(0);
            let tail = if r.next() & 1 == 0 { 0 } else { r.below(20) as usize };
            v.extend((0..tail).map(|_| *r.pick(&[0u8, 1, 0xff])));
            (v, vec![Step { op: LEN, d: a, s: 0, n: 0 }])
        }
    };
    play::<M>(num, &init, hi, &steps, want)
}

/// More than 4 GiB, all backed by the same two megabytes.
fn big<M: Mem>(num: u64, _want: bool) -> (bool, Option<(String, String)>) {
    const CH: usize = 2 << 20;
    const N: usize = (1 << 32) / CH + 1;
    let op = num as u8 + 1;
    unsafe {
        let map = || {
            let fd = memfd_create(c"vh".as_ptr(), 0);
            assert!(fd >= 0 && ftruncate(fd, CH as i64) == 0);
            let p = mmap(std::ptr::null_mut(), N * CH, 0, 0x4022, -1, 0);
            for i in 0..N {
                assert!(mmap(p.add(i * CH), CH, 3, 0x11, fd, 0) as usize != usize::MAX);
            }
            close(fd);
            p
        };
        let (a, b) = (map(), map());
        let sa = std::slice::from_raw_parts_mut(a, CH);
        let sb = std::slice::from_raw_parts_mut(b, CH);
        sa.fill(1);
        sb.fill(1);
        let n = (1usize << 32) + 9;
        // how many bytes of the two megabytes behind the destination hold the new value
        let (ret, cnt) = match op {
            CPY => {
                sb.fill(2);
                (M::cpy(a, b, n).addr() - a.addr(), sa.iter().filter(|x| **x == 2).count())
            }
            MOVE => {
                // the destination starts 2^32 bytes above the source, so the copy goes downwards
                let p = mmap(std::ptr::null_mut(), 2 * N * CH, 0, 0x4022, -1, 0);
                for (q, k, r) in [(p, N - 1, a), (p.add((N - 1) * CH), N + 1, b)] {
                    for i in 0..k {
                        assert!(mremap(r, 0, CH, 3, q.add(i * CH)) as usize != usize::MAX);
                    }
                }
                sa.fill(2);
                let d = p.add((N - 1) * CH);
                let ret = M::mov(d, p, n).addr() - d.addr();
                munmap(p, 2 * N * CH);
                (ret, sb.iter().filter(|x| **x == 2).count())
            }
            SET => (M::set(a, 2, n).addr() - a.addr(), sa.iter().filter(|x| **x == 2).count()),
            CMP | BCMP => {
                sb[100] = 2;
                ((if op == CMP { M::cmp(a, b, n) } else { M::bcmp(a, b, n) } != 0) as usize, CH)
            }
            _ => {
                // only the last chunk, mapped separately, ends the string
                let last = a.add((N - 1) * CH);
                mmap(last, CH, 3, 0x32, -1, 0);
                std::slice::from_raw_parts_mut(last, 9).fill(3);
                (M::len(a), CH)
            }
        };
        munmap(a, N * CH);
        munmap(b, N * CH);
        (false, Some((format!("{num:x} {op:x} {n:x} {CH:x}"), format!("{ret:x} {cnt:x}"))))
    }
}

pub fn c07() -> Vec<Op> {
    let mut v = vec![
        history("mem", &label("mix"), 64, random_history::<Cb>),
        history("mem", &label("move"), 16, |n, w| small::<Cb>(MOVE, n, w)),
        history("mem", &label("copy"), 16, |n, w| small::<Cb>(CPY, n, w)),
        history("mem", &label("set"), 16, |n, w| small::<Cb>(SET, n, w)),
        history("mem", &label("cmp"), 16, |n, w| small::<Cb>(CMP, n, w)),
        history("mem", &label("len"), 14, |n, w| small::<Cb>(LEN, n, w)),
    ];
    let mut b = history("bigmem", &label("big"), 64, big::<Cb>);
    b.extra = (0..6).map(|i| [i, 0, 0, 0]).collect();
    b.weight = 0.0;
    v.push(b);
    v
}
