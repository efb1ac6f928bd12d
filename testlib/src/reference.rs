//! The multiple-precision reference the repository's tests compare against (C34): the operations of
//! the other properties, computed by the test library instead.
use crate::core::*;
use crate::{ops_elem, ops_exact, ops_float, ops_int};
use libm_test::mpfloat::MpOp;
use libm_test::op;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    /// what the test library wants to keep between calls
    static KEPT: RefCell<HashMap<TypeId, Box<dyn Any>>> = RefCell::new(HashMap::new());
}

fn mp<O: MpOp + 'static>(a: O::RustArgs) -> O::RustRet
where
    O::MpTy: 'static,
{
    let t = TypeId::of::<O>();
    let mut kept = KEPT.with(|k| k.borrow_mut().remove(&t)).unwrap_or_else(|| Box::new(O::new_mp()));
    let r = O::run(kept.downcast_mut::<O::MpTy>().unwrap(), a);
    KEPT.with(|k| k.borrow_mut().insert(t, kept));
    r
}

/// What a compiler would see of the comparison.
fn sense(op: &str, b: bool) -> i64 {
    match op {
        "lt" => -(b as i64),
        "ge" => b as i64 - 1,
        "gt" | "ne" | "unord" => b as i64,
        _ => !b as i64,
    }
}

fn references() -> HashMap<String, Op> {
    let mut m = HashMap::new();
    let mut put = |o: Op| assert!(m.insert(o.name.clone(), o).is_none());
    macro_rules! one {
        ($($n:expr, $f:ident, $t:ty;)*) => { $(put(op1(&$n, "mpfr", |x: $t| mp::<op::$f::Routine>((x,))));)* };
    }
    macro_rules! two {
        ($($n:expr, $f:ident, $t:ty, $u:ty;)*) => { $(put(op2(&$n, "mpfr", |x: $t, y: $u| mp::<op::$f::Routine>((x, y))));)* };
    }
    macro_rules! arith { ($w:literal, $t:ty, $($n:literal $f:ident),*) => { two! { $(format!("{}:{}", $n, $w), $f, $t, $t;)* } } }
    arith!(16, f16, "add" addf16, "sub" subf16, "mul" mulf16);
    arith!(32, f32, "add" addf32, "sub" subf32, "mul" mulf32, "div" divf32);
    arith!(64, f64, "add" addf64, "sub" subf64, "mul" mulf64, "div" divf64);
    arith!(128, f128, "add" addf128, "sub" subf128, "mul" mulf128, "div" divf128);
    macro_rules! cmp { ($w:literal, $t:ty, $($n:literal $f:ident),*) => { $(
        put(op2(&format!("{}:{}", $n, $w), "mpfr", |x: $t, y: $t| sense($n, mp::<op::$f::Routine>((x, y)))));
    )* } }
    cmp!(16, f16, "eq" eqf16, "ne" nef16, "lt" ltf16, "le" lef16, "gt" gtf16, "ge" gef16, "unord" unordf16);
    cmp!(32, f32, "eq" eqf32, "ne" nef32, "lt" ltf32, "le" lef32, "gt" gtf32, "ge" gef32, "unord" unordf32);
    cmp!(64, f64, "eq" eqf64, "ne" nef64, "lt" ltf64, "le" lef64, "gt" gtf64, "ge" gef64, "unord" unordf64);
    cmp!(128, f128, "eq" eqf128, "ne" nef128, "lt" ltf128, "le" lef128, "gt" gtf128, "ge" gef128, "unord" unordf128);
    macro_rules! conv { ($($a:literal $t:ty, $b:literal, $f:ident;)*) => { one! { $(format!("conv:{}:{}", $a, $b), $f, $t;)* } } }
    conv! {
        16 f16, 32, extend_f16_f32; 16 f16, 64, extend_f16_f64; 16 f16, 128, extend_f16_f128;
        32 f32, 64, extend_f32_f64; 32 f32, 128, extend_f32_f128; 64 f64, 128, extend_f64_f128;
        128 f128, 16, narrow_f128_f16; 128 f128, 32, narrow_f128_f32; 128 f128, 64, narrow_f128_f64;
        64 f64, 16, narrow_f64_f16; 64 f64, 32, narrow_f64_f32; 32 f32, 16, narrow_f32_f16;
    }
    macro_rules! ints { ($($w:literal $t:ty, $b:literal $s:literal $i:ty, $f:ident $g:ident;)*) => { one! { $(
        format!("f2i:{}:{}:{}", $w, $b, $s), $f, $t;
        format!("i2f:{}:{}:{}", $b, $s, $w), $g, $i;
    )* } } }
    ints! {
        32 f32, 32 1 i32, ftoi_f32_i32 itof_i32_f32; 32 f32, 64 1 i64, ftoi_f32_i64 itof_i64_f32; 32 f32, 128 1 i128, ftoi_f32_i128 itof_i128_f32;
        32 f32, 32 0 u32, ftoi_f32_u32 itof_u32_f32; 32 f32, 64 0 u64, ftoi_f32_u64 itof_u64_f32; 32 f32, 128 0 u128, ftoi_f32_u128 itof_u128_f32;
        64 f64, 32 1 i32, ftoi_f64_i32 itof_i32_f64; 64 f64, 64 1 i64, ftoi_f64_i64 itof_i64_f64; 64 f64, 128 1 i128, ftoi_f64_i128 itof_i128_f64;
        64 f64, 32 0 u32, ftoi_f64_u32 itof_u32_f64; 64 f64, 64 0 u64, ftoi_f64_u64 itof_u64_f64; 64 f64, 128 0 u128, ftoi_f64_u128 itof_u128_f64;
        128 f128, 32 1 i32, ftoi_f128_i32 itof_i32_f128; 128 f128, 64 1 i64, ftoi_f128_i64 itof_i64_f128; 128 f128, 128 1 i128, ftoi_f128_i128 itof_i128_f128;
        128 f128, 32 0 u32, ftoi_f128_u32 itof_u32_f128; 128 f128, 64 0 u64, ftoi_f128_u64 itof_u64_f128; 128 f128, 128 0 u128, ftoi_f128_u128 itof_u128_f128;
    }
    macro_rules! un { ($w:literal, $t:ty, $($n:literal $f:ident),*) => { one! { $(format!("{}:{}", $n, $w), $f, $t;)* } } }
    un!(16, f16, "ceil" ceilf16, "floor" floorf16, "rint" rintf16, "round" roundf16, "roundeven" roundevenf16, "trunc" truncf16, "sqrt" sqrtf16,
        "fabs" fabsf16, "frexp" frexpf16, "ilogb" ilogbf16);
    un!(32, f32, "ceil" ceilf, "floor" floorf, "rint" rintf, "round" roundf, "roundeven" roundevenf, "trunc" truncf, "sqrt" sqrtf,
        "fabs" fabsf, "frexp" frexpf, "ilogb" ilogbf, "cbrt" cbrtf, "modf" modff);
    un!(64, f64, "ceil" ceil, "floor" floor, "rint" rint, "round" round, "roundeven" roundeven, "trunc" trunc, "sqrt" sqrt,
        "fabs" fabs, "frexp" frexp, "ilogb" ilogb, "cbrt" cbrt, "modf" modf);
    un!(128, f128, "ceil" ceilf128, "floor" floorf128, "rint" rintf128, "round" roundf128, "roundeven" roundevenf128, "trunc" truncf128, "sqrt" sqrtf128,
        "fabs" fabsf128, "frexp" frexpf128, "ilogb" ilogbf128);
    arith!(16, f16, "fmod" fmodf16, "copysign" copysignf16, "fdim" fdimf16, "fmax" fmaxf16, "fmin" fminf16, "fmaximum" fmaximumf16,
        "fminimum" fminimumf16, "fmaximum_num" fmaximum_numf16, "fminimum_num" fminimum_numf16);
    arith!(32, f32, "fmod" fmodf, "copysign" copysignf, "fdim" fdimf, "fmax" fmaxf, "fmin" fminf, "fmaximum" fmaximumf,
        "fminimum" fminimumf, "fmaximum_num" fmaximum_numf, "fminimum_num" fminimum_numf, "remainder" remainderf, "remquo" remquof,
        "pow" powf, "atan2" atan2f);
    arith!(64, f64, "fmod" fmod, "copysign" copysign, "fdim" fdim, "fmax" fmax, "fmin" fmin, "fmaximum" fmaximum,
        "fminimum" fminimum, "fmaximum_num" fmaximum_num, "fminimum_num" fminimum_num, "remainder" remainder, "remquo" remquo,
        "pow" pow, "atan2" atan2);
    arith!(128, f128, "fmod" fmodf128, "copysign" copysignf128, "fdim" fdimf128, "fmax" fmaxf128, "fmin" fminf128, "fmaximum" fmaximumf128,
        "fminimum" fminimumf128, "fmaximum_num" fmaximum_numf128, "fminimum_num" fminimum_numf128);
    two! {
        "hypot:32:1".to_string(), hypotf, f32, f32; "hypot:64:0".to_string(), hypot, f64, f64;
        "scalbn:16".to_string(), scalbnf16, f16, i32; "scalbn:32".to_string(), scalbnf, f32, i32;
        "scalbn:64".to_string(), scalbn, f64, i32; "scalbn:128".to_string(), scalbnf128, f128, i32;
        "ldexp:16".to_string(), ldexpf16, f16, i32; "ldexp:32".to_string(), ldexpf, f32, i32;
        "ldexp:64".to_string(), ldexp, f64, i32; "ldexp:128".to_string(), ldexpf128, f128, i32;
        "jn:32".to_string(), jnf, i32, f32; "jn:64".to_string(), jn, i32, f64;
        "yn:32".to_string(), ynf, i32, f32; "yn:64".to_string(), yn, i32, f64;
    }
    macro_rules! fma { ($($w:literal $t:ty, $f:ident;)*) => { $(
        put(op3(&format!("fma:{}", $w), "mpfr", |x: $t, y: $t, z: $t| mp::<op::$f::Routine>((x, y, z))));
    )* } }
    fma! { 16 f16, fmaf16; 32 f32, fmaf; 64 f64, fma; 128 f128, fmaf128; }
    un!(32, f32, "exp" expf, "exp2" exp2f, "exp10" exp10f, "expm1" expm1f, "log" logf, "log2" log2f, "log10" log10f, "log1p" log1pf,
        "sin" sinf, "cos" cosf, "tan" tanf, "asin" asinf, "acos" acosf, "atan" atanf, "sinh" sinhf, "cosh" coshf, "tanh" tanhf,
        "asinh" asinhf, "acosh" acoshf, "atanh" atanhf, "sincos" sincosf, "erf" erff, "erfc" erfcf, "tgamma" tgammaf, "lgamma" lgammaf,
        "lgamma_r" lgammaf_r, "j0" j0f, "j1" j1f, "y0" y0f, "y1" y1f);
    un!(64, f64, "exp" exp, "exp2" exp2, "exp10" exp10, "expm1" expm1, "log" log, "log2" log2, "log10" log10, "log1p" log1p,
        "sin" sin, "cos" cos, "tan" tan, "asin" asin, "acos" acos, "atan" atan, "sinh" sinh, "cosh" cosh, "tanh" tanh,
        "asinh" asinh, "acosh" acosh, "atanh" atanh, "sincos" sincos, "erf" erf, "erfc" erfc, "tgamma" tgamma, "lgamma" lgamma,
        "lgamma_r" lgamma_r, "j0" j0, "j1" j1, "y0" y0, "y1" y1);
    macro_rules! div { ($($t:ty, $d:ident $x:literal, $m:ident $y:literal, $dm:ident $z:literal;)*) => { two! { $(
        $x.to_string(), $d, $t, $t; $y.to_string(), $m, $t, $t; $z.to_string(), $dm, $t, $t;
    )* } } }
    div! {
        u32, idiv_u32 "__udivsi3", imod_u32 "__umodsi3", idivmod_u32 "__udivmodsi4";
        u64, idiv_u64 "__udivdi3", imod_u64 "__umoddi3", idivmod_u64 "__udivmoddi4";
        u128, idiv_u128 "__udivti3", imod_u128 "__umodti3", idivmod_u128 "__udivmodti4";
        i32, idiv_i32 "__divsi3", imod_i32 "__modsi3", idivmod_i32 "__divmodsi4";
        i64, idiv_i64 "__divdi3", imod_i64 "__moddi3", idivmod_i64 "__divmoddi4";
        i128, idiv_i128 "__divti3", imod_i128 "__modti3", idivmod_i128 "__divmodti4";
    }
    two! {
        "__rust_u128_add".to_string(), iadd_u128, u128, u128; "__rust_i128_add".to_string(), iadd_i128, i128, i128;
        "__rust_u128_sub".to_string(), isub_u128, u128, u128; "__rust_i128_sub".to_string(), isub_i128, i128, i128;
        "__rust_u128_addo".to_string(), iaddo_u128, u128, u128; "__rust_i128_addo".to_string(), iaddo_i128, i128, i128;
        "__rust_u128_subo".to_string(), isubo_u128, u128, u128; "__rust_i128_subo".to_string(), isubo_i128, i128, i128;
        "__rust_u128_mulo".to_string(), imulo_u128, u128, u128; "__muloti4".to_string(), imulo_i128, i128, i128;
        "__mulosi4".to_string(), imulo_i32, i32, i32; "__mulodi4".to_string(), imulo_i64, i64, i64;
        "__muldi3".to_string(), imul_u64, u64, u64; "__multi3".to_string(), imul_i128, i128, i128;
        "__ashlsi3".to_string(), ashl_u32, u32, u32; "__ashldi3".to_string(), ashl_u64, u64, u32; "__ashlti3".to_string(), ashl_u128, u128, u32;
        "__lshrsi3".to_string(), lshr_u32, u32, u32; "__lshrdi3".to_string(), lshr_u64, u64, u32; "__lshrti3".to_string(), lshr_u128, u128, u32;
        "__ashrsi3".to_string(), ashr_i32, i32, u32; "__ashrdi3".to_string(), ashr_i64, i64, u32; "__ashrti3".to_string(), ashr_i128, i128, u32;
    }
    one! {
        "__clzsi2".to_string(), leading_zeros_u32, u32; "__clzdi2".to_string(), leading_zeros_u64, u64; "__clzti2".to_string(), leading_zeros_u128, u128;
        "__ctzsi2".to_string(), trailing_zeros_u32, u32; "__ctzdi2".to_string(), trailing_zeros_u64, u64; "__ctzti2".to_string(), trailing_zeros_u128, u128;
    }
    m
}

/// The reference takes very long for the Bessel functions of large order or argument.
fn bounded(o: Op) -> Op {
    let (n, w) = o.name.split_once(':').unwrap_or((&o.name, "0"));
    let (i, order) = match n {
        "j0" | "j1" | "y0" | "y1" => (0, false),
        "jn" | "yn" => (1, true),
        _ => return o,
    };
    let f = ff(w.parse().unwrap());
    let old = o.filter;
    let o = Op { filter: None, ..o };
    o.filter(move |a| {
        old.as_ref().is_none_or(|g| g(a)) && f.expo(a[i]) <= f.bias() + 11 && (!order || (a[0] as u32 as i32).unsigned_abs() <= 60)
    })
}

pub fn c34() -> Vec<Op> {
    let mut refs = references();
    let mut v = vec![];
    for ops in [
        ops_int::c01(), ops_int::c02(), ops_float::c03(), ops_float::c04(), ops_float::c05(), ops_float::c06(), ops_exact::c08(), ops_exact::c09(),
        ops_exact::c10(), ops_exact::c11(), ops_exact::c12(), ops_exact::c13(), ops_elem::c14(), ops_elem::c15(), ops_elem::c16(),
    ] {
        for mut o in ops {
            let Some(r) = refs.remove(&o.name) else { continue };
            assert_eq!(o.args, r.args, "{}", o.name);
            o.cfg = r.cfg;
            o.run = r.run;
            o.expand = None;
            if o.args.len() == 1 && o.args[0].bits() == 16 {
                o.base = 0;
            }
            v.push(bounded(o));
        }
    }
    assert!(refs.is_empty(), "{:?}", refs.keys());
    v
}
