//! Special values, symmetries and exact cases (C17).
use crate::core::*;
use crate::ops_elem::*;
use libm::generic as g;

fn special_list(w: u32) -> Vec<u128> {
    let f = ff(w);
    let one = f.make(0, f.bias(), 0);
    let mut v = vec![
        0, 1, 2, f.make(0, 1, 0), f.make(0, 1, 0) - 1, one, one + 1, one - 1, f.make(0, f.bias() + 1, 0), f.make(0, f.bias() + 1, 1 << (f.mw - 1)), f.make(0, f.bias() - 1, 0),
        f.make(0, f.bias() + 2, 0), f.make(0, f.bias() + 2, 1 << (f.mw - 2)), f.make(0, f.bias(), 1 << (f.mw - 1)), f.make(0, f.bias() + 1, 1 << (f.mw - 2)),
        // the largest odd integers, the smallest even-only binade
        f.make(0, f.bias() + f.mw as i64, mask(f.mw)), f.make(0, f.bias() + f.mw as i64, mask(f.mw) - 1), f.make(0, f.bias() + f.mw as i64 - 1, mask(f.mw)),
        f.make(0, f.bias() + f.mw as i64 + 1, 0), f.make(0, f.bias() + f.mw as i64 + 1, 1), f.make(0, f.bias() + 31, 0), f.make(0, f.bias() + 63, 0),
        f.inf() - 1, f.inf(), f.inf() + 1, f.inf() | 1 << (f.mw - 1), f.inf() | mask(f.mw), f.inf() | 1 << (f.mw - 1) | 0x2a, f.inf() | mask(f.mw - 1),
    ];
    for i in 3..40u128 {
        v.push(if w == 32 { (i as f32).to_bits() as u128 } else { (i as f64).to_bits() as u128 });
    }
    let n = v.len();
    for i in 0..n {
        v.push(v[i] | 1 << (w - 1));
    }
    v.sort();
    v.dedup();
    v
}

/// The operations of C14 to C16, called at special points only.
fn specials(v: &mut Vec<Op>) {
    for mut o in c14().into_iter().chain(c15()).chain(c16()) {
        let ws: Vec<u32> = o.args.iter().map(|k| k.bits()).collect();
        let first = if let K::F(w) = o.args[0] { special_list(w) } else { lattice(K::S(32)) };
        o.extra.clear();
        o.gens.clear();
        if ws.len() == 1 {
            let l = first.clone();
            o.extra.extend(l.iter().map(|x| [*x, 0, 0, 0]));
            let w = ws[0];
            o.gens.push(Box::new(move |r| [around(r, w, &l), 0, 0, 0]));
        } else {
            let second = special_list(ws[1]);
            for x in &first {
                for y in &second {
                    o.extra.push([*x, *y, 0, 0]);
                }
            }
            let (w0, w1) = (if let K::F(w) = o.args[0] { w } else { 0 }, ws[1]);
            o.gens.push(Box::new(move |r| {
                let x = if w0 == 0 { *r.pick(&first) } else { around(r, w0, &first) };
                [x, around(r, w1, &second), 0, 0]
            }));
        }
        o.base = if ws.len() == 1 { 2000 } else { 4000 };
        o.weight = 0.02;
        o.sweep = false;
        o.lattice = false;
        o.filter = None;
        if let K::S(_) = o.args[0] {
            // the recurrences take one step per order
            o.screen = None;
            let w = ws[1];
            let special = move |x: u128| x & mask(w - 1) == 0 || x & mask(w - 1) >= ff(w).inf();
            o.filter = Some(Box::new(move |a| (a[0] as i32).unsigned_abs() < 2000 || special(a[1])));
        }
        v.push(o);
    }
}
/// A special point, or another NaN or a neighbour.
fn around(r: &mut Rng, w: u32, l: &[u128]) -> u128 {
    let f = ff(w);
    match r.below(6) {
        0 => f.inf() | 1 | rbits(r, f.mw) | ((r.next() & 1) as u128) << (w - 1),
        1 => r.pick(l).wrapping_add(r.below(3) as u128).wrapping_sub(1) & mask(w),
        _ => *r.pick(l),
    }
}

fn rel(w: u32, neg: bool, zeros: bool) -> impl Fn(&A, &R) -> bool + Send + Sync + 'static {
    move |_, r| {
        let k = K::F(w);
        let (a, b) = (r.v[0], r.v[1]);
        if is_nan(k, a) || is_nan(k, b) {
            return is_nan(k, a) && is_nan(k, b);
        }
        a == if neg { b ^ 1 << (w - 1) } else { b } || (zeros && (a | b) & mask(w - 1) == 0)
    }
}

macro_rules! law1 {
    ($v:ident, $rel:expr, $w:expr, $t:ty, $name:ident, $neg:expr, $wt:expr) => {
        law1!($v, $rel, $w, $t, stringify!($name), libm::$name, libm::$name, $neg, $wt)
    };
    ($v:ident, $rel:expr, $w:expr, $t:ty, $label:expr, $f:expr, $h:expr, $neg:expr, $wt:expr) => {
        $v.push(
            op1::<$t, ($t, $t)>(&format!("{}:{}", $rel, $w), &format!("{}/{}", $label, crate::CFG), |x: $t| ($f(x), $h(-x)))
                .screen(rel($w, $neg, $rel == "negz"))
                .sweep()
                .weight($wt)
                .base(300),
        )
    };
}
macro_rules! law2 {
    ($v:ident, $rel:expr, $w:expr, $t:ty, $label:expr, $f:expr, $h:expr, $zeros:expr, $wt:expr) => {
        $v.push(
            op2::<$t, $t, ($t, $t)>(&format!("{}:{}", $rel, $w), &format!("{}/{}", $label, crate::CFG), |x: $t, y: $t| ($f(x, y), $h(x, y)))
                .screen(rel($w, $rel != "same", $zeros))
                .weight($wt)
                .base(300),
        )
    };
}

pub fn c17() -> Vec<Op> {
    let mut v = vec![];
    specials(&mut v);
    macro_rules! oddeven {
        ($w:expr, $t:ty, odd[$($o:ident)*], even[$($e:ident)*], $wt:expr) => {
            $(law1!(v, "neg", $w, $t, $o, true, $wt);)*
            $(law1!(v, "same", $w, $t, $e, false, $wt);)*
        };
    }
    oddeven!(32, f32, odd[sinf tanf asinf atanf sinhf tanhf asinhf atanhf erff cbrtf truncf rintf roundf roundevenf], even[cosf coshf j0f fabsf], 1.0);
    oddeven!(64, f64, odd[sin tan asin atan sinh tanh asinh atanh erf cbrt trunc rint round roundeven], even[cos cosh j0 fabs], 1.0);
    oddeven!(16, f16, odd[truncf16 rintf16 roundf16 roundevenf16], even[fabsf16], 0.2);
    oddeven!(128, f128, odd[truncf128 rintf128 roundf128 roundevenf128], even[fabsf128], 0.2);
    // the zero these return at infinity has no particular sign
    law1!(v, "negz", 32, f32, "j1f", libm::j1f, libm::j1f, true, 1.0);
    law1!(v, "negz", 64, f64, "j1", libm::j1, libm::j1, true, 1.0);
    law1!(v, "neg", 32, f32, "sincosf.0", |x| libm::sincosf(x).0, |x| libm::sincosf(x).0, true, 1.0);
    law1!(v, "same", 32, f32, "sincosf.1", |x| libm::sincosf(x).1, |x| libm::sincosf(x).1, false, 1.0);
    law1!(v, "neg", 64, f64, "sincos.0", |x| libm::sincos(x).0, |x| libm::sincos(x).0, true, 1.0);
    law1!(v, "same", 64, f64, "sincos.1", |x| libm::sincos(x).1, |x| libm::sincos(x).1, false, 1.0);
    macro_rules! halves {
        ($w:expr, $t:ty, $floor:ident $ceil:ident $frexp:ident $modf:ident $fmod:ident $rem:ident $remquo:ident $hypot:ident $atan2:ident) => {
            law1!(v, "neg", $w, $t, "modf.0", |x| libm::$modf(x).0, |x| libm::$modf(x).0, true, 0.3);
            law1!(v, "neg", $w, $t, "modf.1", |x| libm::$modf(x).1, |x| libm::$modf(x).1, true, 0.3);
            law2!(v, "neg", $w, $t, "remainder", libm::$rem, |x: $t, y| libm::$rem(-x, y), false, 0.3);
            law2!(v, "same", $w, $t, "remainder.y", libm::$rem, |x, y: $t| libm::$rem(x, -y), false, 0.3);
            law2!(v, "neg", $w, $t, "remquo", |x, y| libm::$remquo(x, y).0, |x: $t, y| libm::$remquo(-x, y).0, false, 0.3);
            law2!(v, "same", $w, $t, "remquo.y", |x, y| libm::$remquo(x, y).0, |x, y: $t| libm::$remquo(x, -y).0, false, 0.3);
            law2!(v, "same", $w, $t, "hypot.comm", libm::$hypot, |x, y| libm::$hypot(y, x), false, 0.3);
            law2!(v, "same", $w, $t, "hypot.x", libm::$hypot, |x: $t, y| libm::$hypot(-x, y), false, 0.3);
            law2!(v, "same", $w, $t, "hypot.y", libm::$hypot, |x, y: $t| libm::$hypot(x, -y), false, 0.3);
            law2!(v, "neg", $w, $t, "atan2", libm::$atan2, |y: $t, x| libm::$atan2(-y, x), false, 0.5);
        };
    }
    halves!(32, f32, floorf ceilf frexpf modff fmodf remainderf remquof hypotf atan2f);
    halves!(64, f64, floor ceil frexp modf fmod remainder remquo hypot atan2);
    macro_rules! all4 {
        ($w:expr, $t:ty, $floor:ident $ceil:ident $frexp:ident $fmod:ident $fma:ident $scalbn:ident $fdim:ident) => {
            law1!(v, "neg", $w, $t, "floor", libm::$floor, libm::$ceil, true, 0.5);
            law1!(v, "neg", $w, $t, "frexp", |x| libm::$frexp(x).0, |x| libm::$frexp(x).0, true, 0.3);
            law2!(v, "neg", $w, $t, "fmod", libm::$fmod, |x: $t, y| libm::$fmod(-x, y), false, 0.3);
            law2!(v, "same", $w, $t, "fmod.y", libm::$fmod, |x, y: $t| libm::$fmod(x, -y), false, 0.3);
            law2!(v, "same", $w, $t, "add", |x: $t, y: $t| x + y, |x: $t, y: $t| y + x, false, 0.3);
            law2!(v, "negz", $w, $t, "fdimsub", |x: $t, y: $t| libm::$fdim(x, y) - libm::$fdim(y, x), |x: $t, y: $t| libm::$fdim(y, x) - libm::$fdim(x, y), true, 0.3);
            v.push(
                op3::<$t, $t, $t, ($t, $t)>(&format!("same:{}", $w), &format!("fma.comm/{}", crate::CFG), |x: $t, y: $t, z: $t| (libm::$fma(x, y, z), libm::$fma(y, x, z)))
                    .screen(rel($w, false, false)).weight(0.5).base(300).gen_with(crate::ops_exact::fmagen($w)),
            );
            v.push(
                op3::<$t, $t, $t, ($t, $t)>(&format!("same:{}", $w), &format!("fma.signs/{}", crate::CFG), |x: $t, y: $t, z: $t| (libm::$fma(x, y, z), libm::$fma(-x, -y, z)))
                    .screen(rel($w, false, false)).weight(0.5).base(300).gen_with(crate::ops_exact::fmagen($w)),
            );
            v.push(
                op3::<$t, $t, $t, ($t, $t)>(&format!("negz:{}", $w), &format!("fma.neg/{}", crate::CFG), |x: $t, y: $t, z: $t| (libm::$fma(x, y, z), libm::$fma(-x, y, -z)))
                    .screen(rel($w, true, true)).weight(0.5).base(300).gen_with(crate::ops_exact::fmagen($w)),
            );
            v.push(
                op2::<$t, i32, ($t, $t)>(&format!("neg:{}", $w), &format!("scalbn/{}", crate::CFG), |x: $t, n: i32| (libm::$scalbn(x, n), libm::$scalbn(-x, n)))
                    .screen(rel($w, true, false)).weight(0.3).base(300).gen_with(|r| [rfloat(r, $w, None), r.range(-40000, 40000) as i32 as u32 as u128, 0, 0]),
            );
        };
    }
    all4!(16, f16, floorf16 ceilf16 frexpf16 fmodf16 fmaf16 scalbnf16 fdimf16);
    all4!(32, f32, floorf ceilf frexpf fmodf fmaf scalbnf fdimf);
    all4!(64, f64, floor ceil frexp fmod fma scalbn fdim);
    all4!(128, f128, floorf128 ceilf128 frexpf128 fmodf128 fmaf128 scalbnf128 fdimf128);
    // pow with an integer exponent: pow(-x, n) = (-1)^n pow(x, n)
    let l = crate::CFG;
    macro_rules! powint {
        ($w:expr, $t:ty, $pow:ident, $jn:ident, $yn:ident) => {
            v.push(
                op2::<$t, i32, ($t, $t)>(&format!("same:{}", $w), &format!("pow.even/{l}"), |x: $t, n: i32| (libm::$pow(x, (n as i64 * 2) as $t), libm::$pow(-x, (n as i64 * 2) as $t)))
                    .screen(rel($w, false, false)).weight(0.5).base(300).gen_with(|r| [rfloat(r, $w, Some(ff($w).bias())), r.range(-300, 300) as i32 as u32 as u128, 0, 0]),
            );
            v.push(
                op2::<$t, i32, ($t, $t)>(&format!("neg:{}", $w), &format!("pow.odd/{l}"), |x: $t, n: i32| {
                    let n = ((n >> 10) | 1) as $t; // odd, and exact in the format
                    (libm::$pow(x, n), libm::$pow(-x, n))
                })
                .screen(rel($w, true, false)).weight(0.5).base(300).gen_with(|r| [rfloat(r, $w, Some(ff($w).bias())), r.range(-300 << 10, 300 << 10) as i32 as u32 as u128, 0, 0]),
            );
            // J_{-n}(x) = (-1)^n J_n(x) = J_n(-x);  Y_{-n} = (-1)^n Y_n
            let small = |r: &mut Rng| [r.range(0, 60) as u128, rfloat(r, $w, Some(ff($w).bias())), 0, 0];
            v.push(op2::<i32, $t, ($t, $t)>(&format!("same:{}", $w), &format!("jn/{l}"), |n: i32, x: $t| (libm::$jn(-(n & 63), x), libm::$jn(n & 63, -x)))
                .screen(rel($w, false, false)).weight(0.05).base(300).gen_with(small));
            v.push(op2::<i32, $t, ($t, $t)>(&format!("same:{}", $w), &format!("jn.even/{l}"), |n: i32, x: $t| (libm::$jn(n & 62, x), libm::$jn(n & 62, -x)))
                .screen(rel($w, false, false)).weight(0.05).base(300).gen_with(small));
            v.push(op2::<i32, $t, ($t, $t)>(&format!("negz:{}", $w), &format!("jn.odd/{l}"), |n: i32, x: $t| (libm::$jn(n & 62 | 1, x), libm::$jn(n & 62 | 1, -x)))
                .screen(rel($w, true, true)).weight(0.05).base(300).gen_with(small));
            v.push(op2::<i32, $t, ($t, $t)>(&format!("same:{}", $w), &format!("yn.even/{l}"), |n: i32, x: $t| (libm::$yn(n & 62, x), libm::$yn(-(n & 62), x)))
                .screen(rel($w, false, false)).weight(0.05).base(300).gen_with(small));
            v.push(op2::<i32, $t, ($t, $t)>(&format!("negz:{}", $w), &format!("yn.odd/{l}"), |n: i32, x: $t| (libm::$yn(n & 62 | 1, x), libm::$yn(-(n & 62 | 1), x)))
                .screen(rel($w, true, true)).weight(0.05).base(300).gen_with(small));
        };
    }
    powint!(32, f32, powf, jnf, ynf);
    powint!(64, f64, pow, jn, yn);
    // exact cases
    v.push(op1::<i32, f32>("exp2n:32", l, |n: i32| libm::exp2f(n as f32)).extra((-200..200i32).map(|n| [n as u32 as u128, 0, 0, 0])).weight(0.002));
    v.push(op1::<i32, f64>("exp2n:64", l, |n: i32| libm::exp2(n as f64)).extra((-1200..1200i32).map(|n| [n as u32 as u128, 0, 0, 0])).weight(0.002).base(2400));
    v.push(op1::<i32, f32>("log2p:32", l, |n: i32| libm::log2f(libm::scalbnf(1.0, n))).extra((-149..128i32).map(|n| [n as u32 as u128, 0, 0, 0])).filter(|a| (-149..128).contains(&(a[0] as i32))).weight(0.002));
    v.push(op1::<i32, f64>("log2p:64", l, |n: i32| libm::log2(libm::scalbn(1.0, n))).extra((-1074..1024i32).map(|n| [n as u32 as u128, 0, 0, 0])).filter(|a| (-1074..1024).contains(&(a[0] as i32))).weight(0.002).base(2400));
    v.push(op1::<i32, f32>("exp10n:32", l, |n: i32| libm::exp10f(n as f32)).extra((0..11).map(|n| [n as u128, 0, 0, 0])).filter(|a| a[0] < 11).weight(0.002));
    v.push(op1::<i32, f64>("exp10n:64", l, |n: i32| libm::exp10(n as f64)).extra((0..16).map(|n| [n as u128, 0, 0, 0])).filter(|a| a[0] < 16).weight(0.002));
    v.push(op1::<i32, f32>("gamman:32", l, |n: i32| libm::tgammaf(n as f32)).extra((1..36).map(|n| [n as u128, 0, 0, 0])).filter(|a| a[0] >= 1 && a[0] < 36).weight(0.002));
    v.push(op1::<i32, f64>("gamman:64", l, |n: i32| libm::tgamma(n as f64)).extra((1..24).map(|n| [n as u128, 0, 0, 0])).filter(|a| a[0] >= 1 && a[0] < 24).weight(0.002));
    v
}
