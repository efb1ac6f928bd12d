//! The library as configured on other targets (C28, C30): calls through the symbols of shared objects
//! made by tools/foreign.py, named in VERIF_FOREIGN.
use crate::core::*;
use crate::gens::*;
use crate::ops_mem::{self, CPY, MOVE, Mem, SET, Step, play};
use std::ffi::{CString, c_char, c_void};
use std::marker::PhantomData;

unsafe extern "C" {
    fn dlopen(p: *const c_char, flags: i32) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}

#[derive(Clone)]
pub struct Lib {
    pub name: String,
    h: usize,
}
impl Lib {
    /// Names of functions on f128 differ on PowerPC.
    fn spell(&self, s: &str) -> String {
        if self.name == "ppc" { s.replace("tf", "kf") } else { s.into() }
    }
    pub fn get(&self, s: &str) -> Option<usize> {
        let p = unsafe { dlsym(self.h as *mut c_void, CString::new(s).unwrap().as_ptr()) };
        (!p.is_null()).then_some(p as usize)
    }
}
pub fn libs() -> Vec<Lib> {
    let s = std::env::var("VERIF_FOREIGN").unwrap_or_default();
    s.split(',')
        .filter(|s| !s.is_empty())
        .map(|l| {
            let (name, path) = l.split_once('=').expect("target=path");
            let h = unsafe { dlopen(CString::new(path).unwrap().as_ptr(), 2) };
            assert!(!h.is_null(), "cannot load {path}");
            Lib { name: name.into(), h: h as usize }
        })
        .collect()
}

/// A name the target's compiler refers to and nothing defines.
fn missing(op: &str, cfg: &str) -> Op {
    let mut o = history(op, cfg, 8, |_, _| (true, Some(("0".into(), "!MISSING".into()))));
    o.extra = vec![[0; 4]];
    o
}

/// pushes an operation that calls a symbol: f!(v, lib, "op", "symbol", (a: A, b: B) -> R, reference, generator)
macro_rules! f {
    ($v:ident, $l:expr, $op:expr, $sym:expr, ($($a:ty),*) -> $r:ty, |$f:ident| $call:expr, $more:expr) => {{
        let s = $l.spell($sym);
        let cfg = format!("{s}/{}", $l.name);
        match $l.get(&s) {
            Some(p) => {
                let $f: unsafe extern "C" fn($($a),*) -> $r = unsafe { std::mem::transmute(p) };
                let o: Op = $call($op, cfg.as_str());
                $v.push(($more)(o));
            }
            None => $v.push(missing($op, &cfg)),
        }
    }};
}
macro_rules! f1 {
    ($v:ident, $l:expr, $op:expr, $sym:expr, $a:ty => $r:ty, $more:expr) => {
        f!($v, $l, $op, $sym, ($a) -> $r, |g| |n: &str, c: &str| op1::<$a, $r>(n, c, move |x: $a| unsafe { g(x) }), $more)
    };
}
macro_rules! f2 {
    ($v:ident, $l:expr, $op:expr, $sym:expr, $a:ty, $b:ty => $r:ty, $more:expr) => {
        f!($v, $l, $op, $sym, ($a, $b) -> $r, |g| |n: &str, c: &str| op2::<$a, $b, $r>(n, c, move |x: $a, y: $b| unsafe { g(x, y) }), $more)
    };
}

fn divisions(v: &mut Vec<Op>, l: &Lib) {
    macro_rules! fam {
        ($u:ty, $i:ty, $w:expr, $s:expr) => {{
            let nz = |a: &A| a[1] & mask($w) != 0;
            let fin = |o: Op| o.filter(nz).gen_with(divgen($w)).weight(if $w == 128 { 1.0 } else { 0.5 });
            f2!(v, l, concat!("__udiv", $s, "3"), concat!("__udiv", $s, "3"), $u, $u => $u, |o: Op| fin(o.ref2(|a: $u, b: $u| a / b)));
            f2!(v, l, concat!("__umod", $s, "3"), concat!("__umod", $s, "3"), $u, $u => $u, |o: Op| fin(o.ref2(|a: $u, b: $u| a % b)));
            f2!(v, l, concat!("__div", $s, "3"), concat!("__div", $s, "3"), $i, $i => $i, |o: Op| fin(o.ref2(|a: $i, b: $i| a.wrapping_div(b))));
            f2!(v, l, concat!("__mod", $s, "3"), concat!("__mod", $s, "3"), $i, $i => $i, |o: Op| fin(o.ref2(|a: $i, b: $i| a.wrapping_rem(b))));
            let (un, sn) = (concat!("__udivmod", $s, "4"), concat!("__divmod", $s, "4"));
            if l.name == "avr" && $w == 32 {
                // both results in one register block
                f!(v, l, un, un, (u32, u32) -> u64, |g| |n: &str, c: &str| op2::<u32, u32, (u32, u32)>(n, c, move |a, b| {
                    let r = unsafe { g(a, b) };
                    (r as u32, (r >> 32) as u32)
                }), |o: Op| fin(o.ref2(|a: u32, b: u32| (a / b, a % b))));
                f!(v, l, sn, sn, (i32, i32) -> u64, |g| |n: &str, c: &str| op2::<i32, i32, (i32, i32)>(n, c, move |a, b| {
                    let r = unsafe { g(a, b) };
                    (r as i32, (r >> 32) as i32)
                }), |o: Op| fin(o.ref2(|a: i32, b: i32| (a.wrapping_div(b), a.wrapping_rem(b)))));
            } else {
                f!(v, l, un, un, ($u, $u, *mut $u) -> $u, |g| |n: &str, c: &str| op2::<$u, $u, ($u, $u)>(n, c, move |a, b| {
                    let mut r: $u = !0;
                    let q = unsafe { g(a, b, &mut r) };
                    (q, r)
                }), |o: Op| fin(o.ref2(|a: $u, b: $u| (a / b, a % b))));
                let nn = concat!("__udivmod", $s, "4_null");
                f!(v, l, nn, un, ($u, $u, *mut $u) -> $u, |g| |n: &str, c: &str| op2::<$u, $u, $u>(n, c, move |a, b| unsafe {
                    g(a, b, std::ptr::null_mut())
                }), |o: Op| fin(o.ref2(|a: $u, b: $u| a / b)));
                f!(v, l, sn, sn, ($i, $i, *mut $i) -> $i, |g| |n: &str, c: &str| op2::<$i, $i, ($i, $i)>(n, c, move |a, b| {
                    let mut r: $i = 0x55;
                    let q = unsafe { g(a, b, &mut r) };
                    (q, r)
                }), |o: Op| fin(o.ref2(|a: $i, b: $i| (a.wrapping_div(b), a.wrapping_rem(b)))));
            }
        }};
    }
    fam!(u32, i32, 32, "si");
    fam!(u64, i64, 64, "di");
    fam!(u128, i128, 128, "ti");
}

fn shift<T: Val>(w: u32) -> impl Fn(Op) -> Op {
    move |o: Op| {
        o.no_lattice()
            .extra((0..w).flat_map(move |s| lattice(T::K).into_iter().map(move |x| [x, s as u128, 0, 0])))
            .gen_with(move |r| [rbits(r, w), r.below(w as u64) as u128, 0, 0])
            .filter(move |a| a[1] < w as u128)
    }
}

fn integers(v: &mut Vec<Op>, l: &Lib) {
    f2!(v, l, "__muldi3", "__muldi3", u64, u64 => u64, |o: Op| o.ref2(|a: u64, b: u64| a.wrapping_mul(b)).gen_with(mulgen(64)));
    f2!(v, l, "__multi3", "__multi3", i128, i128 => i128, |o: Op| o.ref2(|a: i128, b: i128| a.wrapping_mul(b)).gen_with(mulgen(128)));
    if l.name == "riscv" {
        f2!(v, l, "__mulsi3", "__mulsi3", u32, u32 => u32, |o: Op| o.ref2(|a: u32, b: u32| a.wrapping_mul(b)).gen_with(mulgen(32)));
    }
    macro_rules! mulo {
        ($n:expr, $t:ty) => {
            f!(v, l, $n, $n, ($t, $t, *mut i32) -> $t, |g| |n: &str, c: &str| op2::<$t, $t, ($t, i32)>(n, c, move |a, b| {
                let mut o: i32 = 0x55;
                let r = unsafe { g(a, b, &mut o) };
                (r, o)
            }), |o: Op| o.ref2(|a: $t, b: $t| { let (r, o) = a.overflowing_mul(b); (r, o as i32) }).gen_with(mulgen(<$t as Val>::K.bits())))
        };
    }
    mulo!("__mulosi4", i32);
    mulo!("__mulodi4", i64);
    if l.name == "uefi" {
        // 128-bit arguments arrive as two words
        f!(v, l, "__muloti4", "__muloti4", (u64, u64, u64, u64, *mut i32) -> i128, |g| |n: &str, c: &str| op2::<i128, i128, (i128, i32)>(n, c, move |a, b| {
            let mut o: i32 = 0x55;
            let r = unsafe { g(a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64, &mut o) };
            (r, o)
        }), |o: Op| o.ref2(|a: i128, b: i128| { let (r, o) = a.overflowing_mul(b); (r, o as i32) }).gen_with(mulgen(128)));
    } else {
        mulo!("__muloti4", i128);
    }
    f2!(v, l, "__ashlsi3", "__ashlsi3", u32, u32 => u32, |o: Op| shift::<u32>(32)(o.ref2(|a: u32, b: u32| a << b)));
    f2!(v, l, "__ashldi3", "__ashldi3", u64, u32 => u64, |o: Op| shift::<u64>(64)(o.ref2(|a: u64, b: u32| a << b)));
    f2!(v, l, "__ashlti3", "__ashlti3", u128, u32 => u128, |o: Op| shift::<u128>(128)(o.ref2(|a: u128, b: u32| a << b)));
    f2!(v, l, "__ashrsi3", "__ashrsi3", i32, u32 => i32, |o: Op| shift::<i32>(32)(o.ref2(|a: i32, b: u32| a >> b)));
    f2!(v, l, "__ashrdi3", "__ashrdi3", i64, u32 => i64, |o: Op| shift::<i64>(64)(o.ref2(|a: i64, b: u32| a >> b)));
    f2!(v, l, "__ashrti3", "__ashrti3", i128, u32 => i128, |o: Op| shift::<i128>(128)(o.ref2(|a: i128, b: u32| a >> b)));
    f2!(v, l, "__lshrsi3", "__lshrsi3", u32, u32 => u32, |o: Op| shift::<u32>(32)(o.ref2(|a: u32, b: u32| a >> b)));
    f2!(v, l, "__lshrdi3", "__lshrdi3", u64, u32 => u64, |o: Op| shift::<u64>(64)(o.ref2(|a: u64, b: u32| a >> b)));
    f2!(v, l, "__lshrti3", "__lshrti3", u128, u32 => u128, |o: Op| shift::<u128>(128)(o.ref2(|a: u128, b: u32| a >> b)));
    f1!(v, l, "__clzsi2", "__clzsi2", u32 => usize, |o: Op| o.ref1(|x: u32| x.leading_zeros() as usize));
    f1!(v, l, "__clzdi2", "__clzdi2", u64 => usize, |o: Op| o.ref1(|x: u64| x.leading_zeros() as usize));
    f1!(v, l, "__clzti2", "__clzti2", u128 => usize, |o: Op| o.ref1(|x: u128| x.leading_zeros() as usize));
    f1!(v, l, "__ctzsi2", "__ctzsi2", u32 => usize, |o: Op| o.ref1(|x: u32| x.trailing_zeros() as usize));
    f1!(v, l, "__ctzdi2", "__ctzdi2", u64 => usize, |o: Op| o.ref1(|x: u64| x.trailing_zeros() as usize));
    f1!(v, l, "__ctzti2", "__ctzti2", u128 => usize, |o: Op| o.ref1(|x: u128| x.trailing_zeros() as usize));
    f1!(v, l, "__bswapsi2", "__bswapsi2", u32 => u32, |o: Op| o.ref1(|x: u32| x.swap_bytes()));
    f1!(v, l, "__bswapdi2", "__bswapdi2", u64 => u64, |o: Op| o.ref1(|x: u64| x.swap_bytes()));
}

fn arithmetic(v: &mut Vec<Op>, l: &Lib) {
    macro_rules! o {
        ($n:expr, $s:expr, $t:ty, $r:expr, $g:ident) => {
            f2!(v, l, $n, $s, $t, $t => $t, |o: Op| o.ref2($r).gen_with($g(<$t as Val>::K.bits())))
        };
    }
    o!("add:16", "__addhf3", f16, |a: f16, b: f16| a + b, addgen);
    o!("add:32", "__addsf3", f32, |a: f32, b: f32| a + b, addgen);
    o!("add:64", "__adddf3", f64, |a: f64, b: f64| a + b, addgen);
    o!("add:128", "__addtf3", f128, |a: f128, b: f128| a + b, addgen);
    o!("sub:16", "__subhf3", f16, |a: f16, b: f16| a - b, addgen);
    o!("sub:32", "__subsf3", f32, |a: f32, b: f32| a - b, addgen);
    o!("sub:64", "__subdf3", f64, |a: f64, b: f64| a - b, addgen);
    o!("sub:128", "__subtf3", f128, |a: f128, b: f128| a - b, addgen);
    o!("mul:16", "__mulhf3", f16, |a: f16, b: f16| a * b, fmulgen);
    o!("mul:32", "__mulsf3", f32, |a: f32, b: f32| a * b, fmulgen);
    o!("mul:64", "__muldf3", f64, |a: f64, b: f64| a * b, fmulgen);
    o!("mul:128", "__multf3", f128, |a: f128, b: f128| a * b, fmulgen);
    o!("div:32", "__divsf3", f32, |a: f32, b: f32| a / b, fdivgen);
    o!("div:64", "__divdf3", f64, |a: f64, b: f64| a / b, fdivgen);
    o!("div:128", "__divtf3", f128, |a: f128, b: f128| a / b, fdivgen);
}

/// The result of a comparison, whose type depends on the target.
macro_rules! cmps {
    ($v:ident, $l:expr, $c:ty, $t:ty, $w:expr, $s:expr) => {{
        macro_rules! c {
            ($k:expr, $name:expr, $r:expr) => {
                f!($v, $l, concat!($k, ":", $w), concat!("__", $name, $s, "2"), ($t, $t) -> $c, |g| |n: &str, c: &str| {
                    op2::<$t, $t, i64>(n, c, move |a: $t, b: $t| unsafe { g(a, b) as i64 })
                }, |o: Op| o.screen(|a, r| {
                    let f: fn($t, $t, i64) -> bool = $r;
                    f(<$t>::de(a[0]), <$t>::de(a[1]), r.v[0] as i64)
                }).gen_with(cmpgen($w)))
            };
        }
        c!("le", "le", |x, y, r| (r <= 0) == (x <= y));
        c!("ge", "ge", |x, y, r| (r >= 0) == (x >= y));
        c!("unord", "unord", |x, y, r| (r != 0) == (x != x || y != y));
        c!("eq", "eq", |x, y, r| (r == 0) == (x == y));
        c!("lt", "lt", |x, y, r| (r < 0) == (x < y));
        c!("ne", "ne", |x, y, r| (r != 0) == (x != y));
        c!("gt", "gt", |x, y, r| (r > 0) == (x > y));
    }};
}
fn comparisons(v: &mut Vec<Op>, l: &Lib) {
    macro_rules! all {
        ($c:ty) => {{
            cmps!(v, l, $c, f16, 16, "hf");
            cmps!(v, l, $c, f32, 32, "sf");
            cmps!(v, l, $c, f64, 64, "df");
            cmps!(v, l, $c, f128, 128, "tf");
        }};
    }
    match l.name.as_str() {
        "avr" => all!(i8),
        "aarch64" | "wasm" => all!(i32),
        _ => all!(isize),
    }
}

macro_rules! cv {
    ($v:ident, $l:expr, $sym:expr, $s:ty, $d:ty, $sw:expr, $dw:expr) => {
        f1!($v, $l, concat!("conv:", $sw, ":", $dw), $sym, $s => $d, |o: Op| o
            .screen(|a, r| {
                let e = (<$s>::de(a[0]) as $d).en();
                e == r.v[0] || (is_nan(K::F($dw), e) && is_nan(K::F($dw), r.v[0]) && (r.v[0] >> ($dw - 1)) == (a[0] >> ($sw - 1)))
            })
            .gen_with(truncgen($sw, if $dw < $sw { $dw } else { 16 })))
    };
}
macro_rules! i2f {
    ($v:ident, $l:expr, $f:expr, $s:ty, $d:ty, $sw:expr, $dw:expr, $sg:expr) => {
        f1!($v, $l, concat!("i2f:", $sw, ":", $sg, ":", $dw), $f, $s => $d, |o: Op| o.ref1(|a: $s| a as $d).gen_with(i2fgen($sw, $dw)))
    };
}
macro_rules! f2i {
    ($v:ident, $l:expr, $f:expr, $s:ty, $d:ty, $sw:expr, $dw:expr, $sg:expr) => {
        f1!($v, $l, concat!("f2i:", $sw, ":", $dw, ":", $sg), $f, $s => $d, |o: Op| o.ref1(|a: $s| a as $d).gen_with(f2igen($sw, $dw)))
    };
}
fn conversions(v: &mut Vec<Op>, l: &Lib) {
    cv!(v, l, "__extendsfdf2", f32, f64, 32, 64);
    cv!(v, l, "__extendhfsf2", f16, f32, 16, 32);
    cv!(v, l, "__extendhfdf2", f16, f64, 16, 64);
    cv!(v, l, "__extendhftf2", f16, f128, 16, 128);
    cv!(v, l, "__extendsftf2", f32, f128, 32, 128);
    cv!(v, l, "__extenddftf2", f64, f128, 64, 128);
    cv!(v, l, "__truncdfsf2", f64, f32, 64, 32);
    cv!(v, l, "__truncsfhf2", f32, f16, 32, 16);
    cv!(v, l, "__truncdfhf2", f64, f16, 64, 16);
    cv!(v, l, "__trunctfhf2", f128, f16, 128, 16);
    cv!(v, l, "__trunctfsf2", f128, f32, 128, 32);
    cv!(v, l, "__trunctfdf2", f128, f64, 128, 64);
    i2f!(v, l, "__floatunsisf", u32, f32, 32, 32, 0);
    i2f!(v, l, "__floatunsidf", u32, f64, 32, 64, 0);
    i2f!(v, l, "__floatunsitf", u32, f128, 32, 128, 0);
    i2f!(v, l, "__floatundisf", u64, f32, 64, 32, 0);
    i2f!(v, l, "__floatundidf", u64, f64, 64, 64, 0);
    i2f!(v, l, "__floatunditf", u64, f128, 64, 128, 0);
    i2f!(v, l, "__floatuntitf", u128, f128, 128, 128, 0);
    i2f!(v, l, "__floatsisf", i32, f32, 32, 32, 1);
    i2f!(v, l, "__floatsidf", i32, f64, 32, 64, 1);
    i2f!(v, l, "__floatsitf", i32, f128, 32, 128, 1);
    i2f!(v, l, "__floatdisf", i64, f32, 64, 32, 1);
    i2f!(v, l, "__floatdidf", i64, f64, 64, 64, 1);
    i2f!(v, l, "__floatditf", i64, f128, 64, 128, 1);
    i2f!(v, l, "__floattitf", i128, f128, 128, 128, 1);
    if l.name == "uefi" {
        macro_rules! split {
            ($f:expr, $s:ty, $h:ty, $d:ty, $dw:expr, $sg:expr) => {
                f!(v, l, concat!("i2f:128:", $sg, ":", $dw), $f, (u64, $h) -> $d, |g| |n: &str, c: &str| {
                    op1::<$s, $d>(n, c, move |a: $s| unsafe { g(a as u64, (a >> 64) as $h) })
                }, |o: Op| o.ref1(|a: $s| a as $d).gen_with(i2fgen(128, $dw)))
            };
        }
        split!("__floatuntisf", u128, u64, f32, 32, 0);
        split!("__floatuntidf", u128, u64, f64, 64, 0);
        split!("__floattisf", i128, i64, f32, 32, 1);
        split!("__floattidf", i128, i64, f64, 64, 1);
    } else {
        i2f!(v, l, "__floatuntisf", u128, f32, 128, 32, 0);
        i2f!(v, l, "__floatuntidf", u128, f64, 128, 64, 0);
        i2f!(v, l, "__floattisf", i128, f32, 128, 32, 1);
        i2f!(v, l, "__floattidf", i128, f64, 128, 64, 1);
    }
    f2i!(v, l, "__fixunssfsi", f32, u32, 32, 32, 0);
    f2i!(v, l, "__fixunssfdi", f32, u64, 32, 64, 0);
    f2i!(v, l, "__fixunssfti", f32, u128, 32, 128, 0);
    f2i!(v, l, "__fixunsdfsi", f64, u32, 64, 32, 0);
    f2i!(v, l, "__fixunsdfdi", f64, u64, 64, 64, 0);
    f2i!(v, l, "__fixunsdfti", f64, u128, 64, 128, 0);
    f2i!(v, l, "__fixunstfsi", f128, u32, 128, 32, 0);
    f2i!(v, l, "__fixunstfdi", f128, u64, 128, 64, 0);
    f2i!(v, l, "__fixunstfti", f128, u128, 128, 128, 0);
    f2i!(v, l, "__fixsfsi", f32, i32, 32, 32, 1);
    f2i!(v, l, "__fixsfdi", f32, i64, 32, 64, 1);
    f2i!(v, l, "__fixsfti", f32, i128, 32, 128, 1);
    f2i!(v, l, "__fixdfsi", f64, i32, 64, 32, 1);
    f2i!(v, l, "__fixdfdi", f64, i64, 64, 64, 1);
    f2i!(v, l, "__fixdfti", f64, i128, 64, 128, 1);
    f2i!(v, l, "__fixtfsi", f128, i32, 128, 32, 1);
    f2i!(v, l, "__fixtfdi", f128, i64, 128, 64, 1);
    f2i!(v, l, "__fixtfti", f128, i128, 128, 128, 1);
}

// ------------------------------------------------------------------ ARM run-time ABI

fn aeabi(v: &mut Vec<Op>, l: &Lib) {
    let nz = |a: &A| a[1] & mask(32) != 0;
    f2!(v, l, "__udivsi3", "__aeabi_uidiv", u32, u32 => u32, |o: Op| o.ref2(|a: u32, b: u32| a / b).filter(nz).gen_with(divgen(32)));
    f2!(v, l, "__divsi3", "__aeabi_idiv", i32, i32 => i32, |o: Op| o.ref2(|a: i32, b: i32| a.wrapping_div(b)).filter(nz).gen_with(divgen(32)));
    f2!(v, l, "__muldi3", "__aeabi_lmul", u64, u64 => u64, |o: Op| o.ref2(|a: u64, b: u64| a.wrapping_mul(b)).gen_with(mulgen(64)));
    f2!(v, l, "__ashldi3", "__aeabi_llsl", u64, u32 => u64, |o: Op| shift::<u64>(64)(o.ref2(|a: u64, b: u32| a << b)));
    f2!(v, l, "__ashrdi3", "__aeabi_lasr", i64, u32 => i64, |o: Op| shift::<i64>(64)(o.ref2(|a: i64, b: u32| a >> b)));
    f2!(v, l, "__lshrdi3", "__aeabi_llsr", u64, u32 => u64, |o: Op| shift::<u64>(64)(o.ref2(|a: u64, b: u32| a >> b)));
    macro_rules! o {
        ($n:expr, $s:expr, $t:ty, $r:expr, $g:ident) => {
            f2!(v, l, $n, $s, $t, $t => $t, |o: Op| o.ref2($r).gen_with($g(<$t as Val>::K.bits())))
        };
    }
    o!("add:32", "__aeabi_fadd", f32, |a: f32, b: f32| a + b, addgen);
    o!("add:64", "__aeabi_dadd", f64, |a: f64, b: f64| a + b, addgen);
    o!("sub:32", "__aeabi_fsub", f32, |a: f32, b: f32| a - b, addgen);
    o!("sub:64", "__aeabi_dsub", f64, |a: f64, b: f64| a - b, addgen);
    o!("mul:32", "__aeabi_fmul", f32, |a: f32, b: f32| a * b, fmulgen);
    o!("mul:64", "__aeabi_dmul", f64, |a: f64, b: f64| a * b, fmulgen);
    o!("div:32", "__aeabi_fdiv", f32, |a: f32, b: f32| a / b, fdivgen);
    o!("div:64", "__aeabi_ddiv", f64, |a: f64, b: f64| a / b, fdivgen);
    o!("div:32", "__divsf3vfp", f32, |a: f32, b: f32| a / b, fdivgen);
    o!("div:64", "__divdf3vfp", f64, |a: f64, b: f64| a / b, fdivgen);
    // these comparisons return the truth value itself
    macro_rules! truth {
        ($k:expr, $s:expr, $t:ty, $w:expr, $r:expr) => {
            f2!(v, l, concat!("truth:", $w, ":", $k), $s, $t, $t => i32, |o: Op| o.ref2(|a: $t, b: $t| {
                let f: fn($t, $t) -> bool = $r;
                f(a, b) as i32
            }).gen_with(cmpgen($w)))
        };
    }
    truth!(0, "__aeabi_fcmpeq", f32, 32, |a, b| a == b);
    truth!(1, "__aeabi_fcmplt", f32, 32, |a, b| a < b);
    truth!(2, "__aeabi_fcmple", f32, 32, |a, b| a <= b);
    truth!(3, "__aeabi_fcmpge", f32, 32, |a, b| a >= b);
    truth!(4, "__aeabi_fcmpgt", f32, 32, |a, b| a > b);
    truth!(5, "__aeabi_fcmpun", f32, 32, |a, b| a != a || b != b);
    truth!(0, "__aeabi_dcmpeq", f64, 64, |a, b| a == b);
    truth!(1, "__aeabi_dcmplt", f64, 64, |a, b| a < b);
    truth!(2, "__aeabi_dcmple", f64, 64, |a, b| a <= b);
    truth!(3, "__aeabi_dcmpge", f64, 64, |a, b| a >= b);
    truth!(4, "__aeabi_dcmpgt", f64, 64, |a, b| a > b);
    truth!(5, "__aeabi_dcmpun", f64, 64, |a, b| a != a || b != b);
    cv!(v, l, "__aeabi_f2d", f32, f64, 32, 64);
    cv!(v, l, "__aeabi_d2f", f64, f32, 64, 32);
    cv!(v, l, "__aeabi_h2f", f16, f32, 16, 32);
    cv!(v, l, "__aeabi_f2h", f32, f16, 32, 16);
    cv!(v, l, "__aeabi_d2h", f64, f16, 64, 16);
    cv!(v, l, "__gnu_h2f_ieee", f16, f32, 16, 32);
    cv!(v, l, "__gnu_f2h_ieee", f32, f16, 32, 16);
    i2f!(v, l, "__aeabi_ui2f", u32, f32, 32, 32, 0);
    i2f!(v, l, "__aeabi_ui2d", u32, f64, 32, 64, 0);
    i2f!(v, l, "__aeabi_ul2f", u64, f32, 64, 32, 0);
    i2f!(v, l, "__aeabi_ul2d", u64, f64, 64, 64, 0);
    i2f!(v, l, "__aeabi_i2f", i32, f32, 32, 32, 1);
    i2f!(v, l, "__aeabi_i2d", i32, f64, 32, 64, 1);
    i2f!(v, l, "__aeabi_l2f", i64, f32, 64, 32, 1);
    i2f!(v, l, "__aeabi_l2d", i64, f64, 64, 64, 1);
    f2i!(v, l, "__aeabi_f2uiz", f32, u32, 32, 32, 0);
    f2i!(v, l, "__aeabi_f2ulz", f32, u64, 32, 64, 0);
    f2i!(v, l, "__aeabi_d2uiz", f64, u32, 64, 32, 0);
    f2i!(v, l, "__aeabi_d2ulz", f64, u64, 64, 64, 0);
    f2i!(v, l, "__aeabi_f2iz", f32, i32, 32, 32, 1);
    f2i!(v, l, "__aeabi_f2lz", f32, i64, 32, 64, 1);
    f2i!(v, l, "__aeabi_d2iz", f64, i32, 64, 32, 1);
    f2i!(v, l, "__aeabi_d2lz", f64, i64, 64, 64, 1);
}

/// The memory functions of the ARM ABI for a given alignment; they return nothing.
#[derive(Clone, Copy)]
struct MemFns {
    cpy: unsafe extern "C" fn(*mut u8, *const u8, usize),
    mov: unsafe extern "C" fn(*mut u8, *const u8, usize),
    set: unsafe extern "C" fn(*mut u8, usize, i32),
    clr: unsafe extern "C" fn(*mut u8, usize),
}
static MEM: std::sync::OnceLock<[MemFns; 3]> = std::sync::OnceLock::new();
struct Aeabi<const N: usize>;
impl<const N: usize> Mem for Aeabi<N> {
    unsafe fn cpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe { (MEM.get().unwrap()[N].cpy)(d, s, n) };
        d
    }
    unsafe fn mov(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe { (MEM.get().unwrap()[N].mov)(d, s, n) };
        d
    }
    unsafe fn set(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        let m = &MEM.get().unwrap()[N];
        if c == 0 && n % 3 != 0 { unsafe { (m.clr)(d, n) } } else { unsafe { (m.set)(d, n, c) } }
        d
    }
    unsafe fn cmp(_: *const u8, _: *const u8, _: usize) -> i32 {
        unreachable!()
    }
    unsafe fn bcmp(_: *const u8, _: *const u8, _: usize) -> i32 {
        unreachable!()
    }
    unsafe fn len(_: *const u8) -> usize {
        unreachable!()
    }
}

/// Copies, moves and fills at multiples of `al` in a window whose start is as aligned.
fn aligned<const N: usize>(num: u64, want: bool) -> (bool, Option<(String, String)>) {
    let al = [1usize, 4, 8][N];
    let mut r = Rng::new(num ^ 0xae_ab1);
    let r = &mut r;
    let blocks = 4 + r.below(if r.clone().below(8) == 0 { 160 } else { 24 }) as usize;
    let w = blocks * al.max(4);
    let w = if al == 1 { w + r.below(8) as usize } else { w };
    let init: Vec<u8> = (0..w).map(|i| if num & 2 == 0 { i as u8 ^ 0x5a } else { r.next() as u8 }).collect();
    let mut steps = vec![];
    for _ in 0..1 + r.below(4) {
        let n = match r.below(4) {
            0 => w - r.below(9).min(w as u64) as usize,
            1 => r.below(20) as usize,
            _ => r.below(w as u64 + 1) as usize,
        };
        let n = n.min(w);
        let at = |r: &mut Rng, n: usize| r.below(((w - n) / al) as u64 + 1) as usize * al;
        match r.below(4) {
            0 => {
                // disjoint, touching or not
                let n = n.min(w / 2);
                let n2 = n.div_ceil(al) * al;
                let lo = r.below(((w.saturating_sub(n2 + n)) / al) as u64 + 1) as usize * al;
                if lo + n2 + n > w {
                    continue;
                }
                let hi = lo + n2 + r.below(((w - n - lo - n2) / al) as u64 + 1) as usize * al;
                let (d, s) = if r.next() & 1 == 0 { (lo, hi) } else { (hi, lo) };
                steps.push(Step { op: CPY, d, s, n });
            }
            1 => {
                let (d, s) = (at(r, n), at(r, n));
                steps.push(Step { op: MOVE, d, s, n });
            }
            _ => {
                let d = at(r, n);
                let c = *r.pick(&[0u32, 0, 1, 0x80, 0xff, 0x1ff, 0x100, 0xffff_ff80, 0x7fff_ff01, 0x1234_5678]);
                steps.push(Step { op: SET, d, s: c as usize, n });
            }
        }
    }
    play::<Aeabi<N>>(num, &init, num & 1 == 1, &steps, want)
}

pub fn c28() -> Vec<Op> {
    let mut w = vec![];
    let v = &mut w;
    for l in &libs() {
        aeabi(v, l);
        divisions(v, l);
        integers(v, l);
        arithmetic(v, l);
        comparisons(v, l);
        conversions(v, l);
        let mut ok = true;
        let mut fns = vec![];
        for k in ["", "4", "8"] {
            let ps: Vec<usize> = ["memcpy", "memmove", "memset", "memclr"]
                .iter()
                .filter_map(|f| {
                    let s = format!("__aeabi_{f}{k}");
                    let p = l.get(&s);
                    if p.is_none() {
                        v.push(missing("mem", &format!("{s}/{}", l.name)));
                    }
                    p
                })
                .collect();
            ok &= ps.len() == 4;
            if ok {
                fns.push(unsafe {
                    MemFns { cpy: std::mem::transmute(ps[0]), mov: std::mem::transmute(ps[1]), set: std::mem::transmute(ps[2]), clr: std::mem::transmute(ps[3]) }
                });
            }
        }
        if ok {
            let _ = MEM.set([fns[0], fns[1], fns[2]]);
            v.push(history("mem", &format!("__aeabi_mem/{}", l.name), 64, aligned::<0>));
            v.push(history("mem", &format!("__aeabi_mem4/{}", l.name), 64, aligned::<1>));
            v.push(history("mem", &format!("__aeabi_mem8/{}", l.name), 64, aligned::<2>));
        }
    }
    w
}

/// Argument reduction has its own table of digits where pointers are narrow.
fn reductions(v: &mut Vec<Op>, l: &Lib) {
    use crate::ops_elem::{TRIG, shaped, within};
    for n in ["sin", "cos", "tan"] {
        let q = crate::glibc::q1(&format!("{n}f128"));
        f1!(v, l, &format!("{n}:64"), n, f64 => f64, |o: Op| o
            .screen(move |a, r| within(64, 1, r.v[0], (q(f64::from_bits(a[0] as u64) as f128) as f64).to_bits() as u128))
            .gen_with(shaped(64, TRIG)));
    }
}

pub fn c30() -> Vec<Op> {
    let mut w = vec![];
    let v = &mut w;
    for l in &libs() {
        divisions(v, l);
        integers(v, l);
        arithmetic(v, l);
        comparisons(v, l);
        conversions(v, l);
        if ["riscv", "avr"].contains(&l.name.as_str()) {
            reductions(v, l);
        }
    }
    w
}

/// Control word and tag word of the x87 unit; a call has to leave them as they were.
fn x87() -> u32 {
    let mut env = [0u32; 7];
    unsafe { std::arch::asm!("fnstenv [{0}]", "fldenv [{0}]", in(reg) env.as_mut_ptr(), options(nostack)) };
    (env[0] & 0xffff) | env[2] << 16
}

/// Math functions with code of their own on 32-bit x86 without SSE2 and on WebAssembly.
pub fn c29() -> Vec<Op> {
    use crate::ops_elem::{EXP, shaped, within};
    use crate::ops_exact::roundgen;
    let mut w = vec![];
    let v = &mut w;
    for l in &libs() {
        macro_rules! exact {
            ($op:expr, $name:expr, $t:ident, $w:expr, $r:expr) => {
                f1!(v, l, &format!("{}:{}", $op, $w), $name, $t => $t, |o: Op| {
                    let o = o.ref1::<$t, $t>($r).gen_with(roundgen($w));
                    if $w == 32 { o.sweep() } else { o }
                })
            };
        }
        if l.name == "wasm32" {
            exact!("ceil", "ceil", f64, 64, |x: f64| x.ceil());
            exact!("ceil", "ceilf", f32, 32, |x: f32| x.ceil());
            exact!("floor", "floor", f64, 64, |x: f64| x.floor());
            exact!("floor", "floorf", f32, 32, |x: f32| x.floor());
            exact!("trunc", "trunc", f64, 64, |x: f64| x.trunc());
            exact!("trunc", "truncf", f32, 32, |x: f32| x.trunc());
            exact!("rint", "rint", f64, 64, |x: f64| x.round_ties_even());
            exact!("rint", "rintf", f32, 32, |x: f32| x.round_ties_even());
            exact!("sqrt", "sqrt", f64, 64, |x: f64| x.sqrt());
            exact!("sqrt", "sqrtf", f32, 32, |x: f32| x.sqrt());
            exact!("fabs", "fabs", f64, 64, |x: f64| x.abs());
            exact!("fabs", "fabsf", f32, 32, |x: f32| x.abs());
        }
        if l.name == "i586" {
            macro_rules! round {
                ($op:expr, $r:expr) => {
                    f!(v, l, &format!("{}:64", $op), $op, (f64) -> f64, |g| |n: &str, c: &str| op1::<f64, (f64, u32)>(n, c, move |x| {
                        let r = unsafe { g(x) };
                        (r, x87())
                    }), |o: Op| o.ref1(|x: f64| ($r(x), 0xffff_037fu32)).gen_with(roundgen(64)).weight(2.0))
                };
            }
            round!("ceil", |x: f64| x.ceil());
            round!("floor", |x: f64| x.floor());
            round!("rint", |x: f64| x.round_ties_even());
            for (n, k) in [("exp", 1), ("exp2", 1), ("exp10", 6)] {
                let q = crate::glibc::q1(&format!("{n}f128"));
                f!(v, l, &format!("{n}:64"), n, (f64) -> f64, |g| |n: &str, c: &str| op1::<f64, (f64, u32)>(n, c, move |x| {
                    let r = unsafe { g(x) };
                    (r, x87())
                }), |o: Op| o
                    .screen(move |a, r| r.v[1] == 0xffff_037f && within(64, k, r.v[0], (q(f64::from_bits(a[0] as u64) as f128) as f64).to_bits() as u128))
                    .gen_with(shaped(64, EXP)));
                let q = crate::glibc::d1(n);
                f!(v, l, &format!("{n}:32"), &format!("{n}f"), (f32) -> f32, |g| |n: &str, c: &str| op1::<f32, (f32, u32)>(n, c, move |x| {
                    let r = unsafe { g(x) };
                    (r, x87())
                }), |o: Op| o
                    .screen(move |a, r| r.v[1] == 0xffff_037f && within(32, k, r.v[0], (q(f32::from_bits(a[0] as u32) as f64) as f32).to_bits() as u128))
                    .gen_with(shaped(32, EXP))
                    .sweep()
                    .weight(0.5));
            }
        }
    }
    w
}
