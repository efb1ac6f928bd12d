//! Soft-float intrinsics (C03 - C06).
use crate::core::*;
pub use crate::gens::*;
use compiler_builtins::float::{add, cmp, conv, div, extend, mul, sub, trunc};

pub fn label(f: &str) -> String {
    match crate::VARIANT {
        Some(v) if !v.is_empty() => format!("{f}/{}-{v}", crate::CFG),
        _ => format!("{f}/{}", crate::CFG),
    }
}

pub fn c03() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! o {
        ($n:expr, $m:ident::$f:ident, $t:ty, $r:expr, $g:ident) => {
            v.push(op2($n, &label(stringify!($f)), |a: $t, b: $t| $m::$f(a, b)).ref2($r).gen_with($g(<$t as Val>::K.bits())))
        };
    }
    o!("add:16", add::__addhf3, f16, |a: f16, b: f16| a + b, addgen);
    o!("add:32", add::__addsf3, f32, |a: f32, b: f32| a + b, addgen);
    o!("add:64", add::__adddf3, f64, |a: f64, b: f64| a + b, addgen);
    o!("add:128", add::__addtf3, f128, |a: f128, b: f128| a + b, addgen);
    o!("sub:16", sub::__subhf3, f16, |a: f16, b: f16| a - b, addgen);
    o!("sub:32", sub::__subsf3, f32, |a: f32, b: f32| a - b, addgen);
    o!("sub:64", sub::__subdf3, f64, |a: f64, b: f64| a - b, addgen);
    o!("sub:128", sub::__subtf3, f128, |a: f128, b: f128| a - b, addgen);
    o!("mul:16", mul::__mulhf3, f16, |a: f16, b: f16| a * b, fmulgen);
    o!("mul:32", mul::__mulsf3, f32, |a: f32, b: f32| a * b, fmulgen);
    o!("mul:64", mul::__muldf3, f64, |a: f64, b: f64| a * b, fmulgen);
    o!("mul:128", mul::__multf3, f128, |a: f128, b: f128| a * b, fmulgen);
    o!("div:32", div::__divsf3, f32, |a: f32, b: f32| a / b, fdivgen);
    o!("div:64", div::__divdf3, f64, |a: f64, b: f64| a / b, fdivgen);
    o!("div:128", div::__divtf3, f128, |a: f128, b: f128| a / b, fdivgen);
    for o in v.iter_mut().filter(|o| o.name.starts_with("div")) {
        o.gens.push(Box::new(crate::hard::div_hard(o.args[0].bits())));
    }
    v
}

pub fn c04() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! fam {
        ($t:ty, $w:expr, $($k:expr, $f:ident, $r:expr);*) => { $(
            v.push(op2(concat!($k, ":", $w), &label(stringify!($f)), |a: $t, b: $t| cmp::$f(a, b) as i64)
                .screen(|a, r| {
                    let (x, y) = (<$t>::de(a[0]), <$t>::de(a[1]));
                    let f: fn($t, $t, i64) -> bool = $r;
                    f(x, y, r.v[0] as i64)
                })
                .gen_with(cmpgen($w)));
        )* };
    }
    macro_rules! all {
        ($t:ty, $w:expr, $le:ident, $ge:ident, $un:ident, $eq:ident, $lt:ident, $ne:ident, $gt:ident) => {
            fam!($t, $w, "le", $le, |x, y, r| (r <= 0) == (x <= y); "ge", $ge, |x, y, r| (r >= 0) == (x >= y);
                 "unord", $un, |x, y, r| (r != 0) == (x != x || y != y); "eq", $eq, |x, y, r| (r == 0) == (x == y);
                 "lt", $lt, |x, y, r| (r < 0) == (x < y); "ne", $ne, |x, y, r| (r != 0) == (x != y);
                 "gt", $gt, |x, y, r| (r > 0) == (x > y))
        };
    }
    all!(f16, 16, __lehf2, __gehf2, __unordhf2, __eqhf2, __lthf2, __nehf2, __gthf2);
    all!(f32, 32, __lesf2, __gesf2, __unordsf2, __eqsf2, __ltsf2, __nesf2, __gtsf2);
    all!(f64, 64, __ledf2, __gedf2, __unorddf2, __eqdf2, __ltdf2, __nedf2, __gtdf2);
    all!(f128, 128, __letf2, __getf2, __unordtf2, __eqtf2, __lttf2, __netf2, __gttf2);
    v
}

pub fn c05() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! cv {
        ($m:ident::$f:ident, $s:ty, $d:ty, $sw:expr, $dw:expr) => {
            v.push(op1(concat!("conv:", $sw, ":", $dw), &label(stringify!($f)), |a: $s| $m::$f(a))
                .screen(|a, r| {
                    let e = (<$s>::de(a[0]) as $d).en();
                    e == r.v[0] || (is_nan(K::F($dw), e) && is_nan(K::F($dw), r.v[0]) && (r.v[0] >> ($dw - 1)) == (a[0] >> ($sw - 1)))
                })
                .gen_with(truncgen($sw, if $dw < $sw { $dw } else { 16 })));
        };
    }
    cv!(extend::__extendsfdf2, f32, f64, 32, 64);
    cv!(extend::__extendhfsf2, f16, f32, 16, 32);
    cv!(extend::__gnu_h2f_ieee, f16, f32, 16, 32);
    cv!(extend::__extendhfdf2, f16, f64, 16, 64);
    cv!(extend::__extendhftf2, f16, f128, 16, 128);
    cv!(extend::__extendsftf2, f32, f128, 32, 128);
    cv!(extend::__extenddftf2, f64, f128, 64, 128);
    cv!(trunc::__truncdfsf2, f64, f32, 64, 32);
    cv!(trunc::__truncsfhf2, f32, f16, 32, 16);
    cv!(trunc::__gnu_f2h_ieee, f32, f16, 32, 16);
    cv!(trunc::__truncdfhf2, f64, f16, 64, 16);
    cv!(trunc::__trunctfhf2, f128, f16, 128, 16);
    cv!(trunc::__trunctfsf2, f128, f32, 128, 32);
    cv!(trunc::__trunctfdf2, f128, f64, 128, 64);
    for o in v.iter_mut() {
        o.sweep = o.args[0] == K::F(32);
    }
    v
}

pub fn c06() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! i2f {
        ($f:ident, $s:ty, $d:ty, $sw:expr, $dw:expr, $sg:expr) => {
            v.push(op1(concat!("i2f:", $sw, ":", $sg, ":", $dw), &label(stringify!($f)), |a: $s| conv::$f(a)).ref1(|a: $s| a as $d).gen_with(i2fgen($sw, $dw)));
        };
    }
    macro_rules! f2i {
        ($f:ident, $s:ty, $d:ty, $sw:expr, $dw:expr, $sg:expr) => {
            v.push(op1(concat!("f2i:", $sw, ":", $dw, ":", $sg), &label(stringify!($f)), |a: $s| conv::$f(a)).ref1(|a: $s| a as $d).gen_with(f2igen($sw, $dw)));
        };
    }
    i2f!(__floatunsisf, u32, f32, 32, 32, 0);
    i2f!(__floatunsidf, u32, f64, 32, 64, 0);
    i2f!(__floatunsitf, u32, f128, 32, 128, 0);
    i2f!(__floatundisf, u64, f32, 64, 32, 0);
    i2f!(__floatundidf, u64, f64, 64, 64, 0);
    i2f!(__floatunditf, u64, f128, 64, 128, 0);
    i2f!(__floatuntisf, u128, f32, 128, 32, 0);
    i2f!(__floatuntidf, u128, f64, 128, 64, 0);
    i2f!(__floatuntitf, u128, f128, 128, 128, 0);
    i2f!(__floatsisf, i32, f32, 32, 32, 1);
    i2f!(__floatsidf, i32, f64, 32, 64, 1);
    i2f!(__floatsitf, i32, f128, 32, 128, 1);
    i2f!(__floatdisf, i64, f32, 64, 32, 1);
    i2f!(__floatdidf, i64, f64, 64, 64, 1);
    i2f!(__floatditf, i64, f128, 64, 128, 1);
    i2f!(__floattisf, i128, f32, 128, 32, 1);
    i2f!(__floattidf, i128, f64, 128, 64, 1);
    i2f!(__floattitf, i128, f128, 128, 128, 1);
    f2i!(__fixunssfsi, f32, u32, 32, 32, 0);
    f2i!(__fixunssfdi, f32, u64, 32, 64, 0);
    f2i!(__fixunssfti, f32, u128, 32, 128, 0);
    f2i!(__fixunsdfsi, f64, u32, 64, 32, 0);
    f2i!(__fixunsdfdi, f64, u64, 64, 64, 0);
    f2i!(__fixunsdfti, f64, u128, 64, 128, 0);
    f2i!(__fixunstfsi, f128, u32, 128, 32, 0);
    f2i!(__fixunstfdi, f128, u64, 128, 64, 0);
    f2i!(__fixunstfti, f128, u128, 128, 128, 0);
    f2i!(__fixsfsi, f32, i32, 32, 32, 1);
    f2i!(__fixsfdi, f32, i64, 32, 64, 1);
    f2i!(__fixsfti, f32, i128, 32, 128, 1);
    f2i!(__fixdfsi, f64, i32, 64, 32, 1);
    f2i!(__fixdfdi, f64, i64, 64, 64, 1);
    f2i!(__fixdfti, f64, i128, 64, 128, 1);
    f2i!(__fixtfsi, f128, i32, 128, 32, 1);
    f2i!(__fixtfdi, f128, i64, 128, 64, 1);
    f2i!(__fixtfti, f128, i128, 128, 128, 1);
    for o in v.iter_mut() {
        o.sweep = o.args[0].bits() == 32;
    }
    v
}
