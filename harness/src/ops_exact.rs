//! Exactly specified libm functions (C08 - C13), through every public route to them.
use crate::core::*;
use crate::hard::*;
use crate::glibc;
use crate::ops_float::{addgen, fdivgen, fmulgen, label, wide};
use compiler_builtins::math::full_availability as cb;
use libm::support::{Round, FpResult};
use libm::{Libm, generic};

/// Round-to-integral inputs: values with a fraction around the interesting positions.
pub fn roundgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let e = f.bias() + r.range(-3, f.mw as i64 + 2);
        // integer part random, fraction one of the critical patterns
        let fb = (f.mw as i64 - (e - f.bias())).clamp(0, f.mw as i64) as u32;
        let m = rbits(r, f.mw) & !mask(fb);
        let half = if fb > 0 { 1u128 << (fb - 1) } else { 0 };
        let frac = match r.below(7) {
            0 => 0,
            1 => half,
            2 => half.wrapping_sub(1) & mask(fb),
            3 => (half + 1) & mask(fb),
            4 => mask(fb),
            5 => 1 & mask(fb),
            _ => rbits(r, fb),
        };
        [f.make(r.next(), e, m | frac), 0, 0, 0]
    }
}

pub fn fmagen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let p = f.mw + 1;
        let hid = 1u128 << f.mw;
        let [x, y, ..] = fmulgen(w)(r);
        let (ex, ey) = (f.expo(x), f.expo(y));
        let prod_e = ex + ey - f.bias();
        let s = r.next();
        match r.below(6) {
            0 => {
                // z close to -(x*y)
                let (mx, my) = ((x & mask(f.mw)) | hid, (y & mask(f.mw)) | hid);
                let t = crate::ops_float::prod_top(mx, my, p);
                let (h, l) = wide(mx, my);
                let len = if h != 0 { 256 - h.leading_zeros() } else { 128 - l.leading_zeros() };
                let ez = prod_e + (len as i64 - (2 * p as i64 - 1));
                let z = f.make(!((x ^ y) >> (w - 1)) as u64, ez, t);
                let z = z.wrapping_add(r.below(5) as u128).wrapping_sub(2) & mask(w);
                [x, y, z, 0]
            }
            1 | 2 => {
                // |x*y| a hair above or below a power of two; z so large that the product is half an ulp of it
                let mx = hid | rbits(r, f.mw);
                // my = 2^k / mx rounded, k = 2p-1 or 2p-2 (mx*my ~ 2^k)
                let k = 2 * p - 1;
                let mut q = 0u128;
                let mut rem = 0u128;
                for i in (0..=k).rev() {
                    rem = (rem << 1) | (i == k) as u128;
                    q <<= 1;
                    if rem >= mx {
                        rem -= mx;
                        q |= 1;
                    }
                }
                let my = if r.next() & 1 == 0 { q } else { q + 1 };
                let (mx, my) = if my >> p != 0 { (mx, my >> 1) } else { (mx, my) };
                let ex = f.bias() + r.range(-40, 40);
                let ey = f.bias() + r.range(-40, 40);
                let pe = ex + ey - f.bias();
                // product ~ 2^(pe + 1 - bias) or so; half ulp of z is 2^(ez - p)
                let ez = pe + p as i64 + r.range(-1, 3);
                let mz = rbits(r, f.mw);
                [f.make(s, ex, mx), f.make(s >> 1, ey, my), f.make(s >> 2, ez, mz), 0]
            }
            3 => {
                // z much smaller: breaks ties of the product
                let ez = prod_e - p as i64 + r.range(-(2 * p as i64), 3);
                let mz = rbits(r, f.mw);
                [x, y, f.make(s, ez, mz), 0]
            }
            4 => {
                let ez = prod_e + r.range(-3, p as i64 + 3);
                let mz = rbits(r, f.mw);
                [x, y, f.make(s, ez, mz), 0]
            }
            _ => {
                // x*y short and tiny relative to z, or z far above
                let kx = r.below(f.mw as u64 + 1) as u32;
                let mx = r.u128() & mask(f.mw) & !mask(kx);
                let my = r.u128() & mask(f.mw) & !mask(f.mw - kx);
                let ez = prod_e + r.range(p as i64 - 2, 3 * p as i64);
                let mz = rbits(r, f.mw);
                [f.make(s, ex, mx), f.make(s >> 1, ey, my), f.make(s >> 2, ez, mz), 0]
            }
        }
    }
}

/// Operand pairs with a large exponent difference, multiples, halves of multiples.
fn remgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let hid = 1u128 << f.mw;
        let my = hid | rbits(r, f.mw);
        let my = if r.next() & 1 == 0 { my & !mask(r.below(f.mw as u64) as u32) } else { my };
        let my = my | hid;
        let ey = match r.below(4) {
            0 => r.range(0, 3),
            1 => f.bias() + r.range(-8, 8),
            2 => f.emax() - r.range(1, 5),
            _ => r.range(0, f.emax() - 1),
        };
        let s = r.next();
        match r.below(4) {
            0 => {
                // x = (n or n+1/2) * y, exactly or next to it
                let k = 1 + r.below(f.mw as u64 + 1) as u32;
                let n = ((1u128 << k) | (r.u128() & mask(k))) | (r.next() & 1) as u128;
                let t = crate::ops_float::prod_top(n, my, f.mw + 1);
                let ex = ey + k as i64 - (r.next() & 1) as i64;
                let x = f.make(s, ex, t).wrapping_add(r.below(3) as u128).wrapping_sub(1) & mask(w);
                [x, f.make(s >> 1, ey, my), 0, 0]
            }
            1 => {
                // small multiples with short y: exact ties
                let k = r.below(f.mw as u64) as u32;
                let ys = (hid | (r.u128() & mask(f.mw))) & !mask(k);
                let n = 1 + r.below(1 << (k.min(20))) as u128;
                let prod = (ys >> k).wrapping_mul(n);
                let sh = prod.leading_zeros() as i64 - (127 - f.mw as i64);
                let m = if sh >= 0 { prod << sh } else { prod >> -sh };
                let ex = ey + k as i64 - sh - (r.next() & 1) as i64;
                [f.make(s, ex, m), f.make(s >> 1, ey, ys), 0, 0]
            }
            2 => {
                let ex = ey + r.range(-2, 70);
                let mx = rbits(r, f.mw);
                [f.make(s, ex, mx), f.make(s >> 1, ey, my), 0, 0]
            }
            _ => {
                let ex = r.range(ey.min(f.emax() - 1), f.emax() - 1);
                let mx = rbits(r, f.mw);
                [f.make(s, ex, mx), f.make(s >> 1, ey, my), 0, 0]
            }
        }
    }
}

fn scalegen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let p = f.mw as i64 + 1;
        let x = if r.below(3) == 0 { f.make(r.next(), 0, rbits(r, f.mw)) } else { rfloat(r, w, None) };
        let e = f.expo(x);
        let n = match r.below(6) {
            0 => -e + r.range(-p - 3, 4),
            1 => f.emax() - e + r.range(-3, 2 + p),
            2 => r.range(-3 * f.bias(), 3 * f.bias()),
            3 => *r.pick(&[i32::MIN as i64, i32::MAX as i64, 0, 1, -1]),
            4 => (r.next() as i32) as i64,
            _ => r.range(-2, 2) + *r.pick(&[f.bias(), -f.bias(), 2 * f.bias(), -2 * f.bias(), 3 * f.bias(), -3 * f.bias()]),
        };
        [x, (n as i32 as u32) as u128, 0, 0]
    }
}

fn paircmp(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let a = rfloat(r, w, None);
        let s = 1u128 << (w - 1);
        let b = match r.below(6) {
            0 => a ^ s,
            1 => a,
            2 => a.wrapping_add(1) & mask(w),
            3 => a.wrapping_sub(1) & mask(w),
            4 => (r.next() & 1) as u128 * s,
            _ => ff(w).inf() | (r.next() & 1) as u128 * s | (r.next() & 1) as u128,
        };
        if r.next() & 1 == 0 { [a, b, 0, 0] } else { [b, a, 0, 0] }
    }
}

/// Arguments next to exact squares / cubes and next to rounding boundaries of the root.
fn rootgen(w: u32, k: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let p = f.mw + 1;
        // root with about p/k (exact) or p+1 (midpoint) bits
        let bits = if r.next() & 1 == 0 { 1 + r.below((p / k) as u64) as u32 } else { p + 1 };
        let t = (1u128 << (bits - 1)) | (r.u128() & mask(bits - 1)) | 1;
        let mut m = crate::ops_float::prod_top(t, t, p.max(1));
        if k == 3 {
            m = if bits * 3 <= 127 { crate::ops_float::prod_top(t * t, t, p) } else { crate::ops_float::prod_top(crate::ops_float::prod_top(t, t, 127), t, p) };
        }
        let e = match r.below(3) {
            0 => r.range(0, f.emax() - 1),
            1 => f.bias() + r.range(-9, 9),
            _ => r.range(0, 3),
        };
        let x = f.make(if k == 3 { r.next() } else { 0 }, e, m);
        [x.wrapping_add(r.below(5) as u128).wrapping_sub(2) & mask(w), 0, 0, 0]
    }
}

fn hypotgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let p = f.mw as i64 + 1;
        let x = rfloat(r, w, None);
        let e = f.expo(x);
        let y = match r.below(4) {
            0 => f.make(r.next(), e - r.range(0, 4), rbits(r, f.mw)),
            1 => f.make(r.next(), e - r.range(p / 2 - 3, p + 4), rbits(r, f.mw)),
            2 => {
                // Pythagorean: m^2-n^2, 2mn
                let k = 1 + r.below(p as u64 / 2 - 1) as u32;
                let m = (1u128 << k) | (r.u128() & mask(k));
                let n = 1 + r.u128() % m;
                let put = |v: u128, e: i64| {
                    let l = 128 - v.leading_zeros() as i64;
                    let sh = f.mw as i64 + 1 - l;
                    f.make(0, e + l, if sh >= 0 { v << sh } else { v >> -sh })
                };
                let e0 = match r.below(3) {
                    0 => r.range(1, 10),
                    1 => f.emax() - 2 * k as i64 - r.range(2, 6),
                    _ => f.bias(),
                };
                let j = r.below(3) as u128;
                return [put(m * m - n * n + (m == n) as u128, e0), put(2 * m * n, e0).wrapping_add(j).wrapping_sub(1) & mask(w), 0, 0];
            }
            _ => rfloat(r, w, Some(e)),
        };
        if r.next() & 1 == 0 { [x, y, 0, 0] } else { [y, x, 0, 0] }
    }
}

macro_rules! un {
    // kind, type, width, screen function, list of (label, function)
    ($v:ident, $k:expr, $t:ty, $w:tt, $gen:expr, $ref:expr, $($lab:expr => $f:expr),+ $(,)?) => {{
        let rf: fn($t) -> $t = $ref;
        $( $v.push(op1(concat!($k, ":", $w), &label($lab), |a: $t| { let f: fn($t) -> $t = $f; f(a) }).ref1(move |a: $t| rf(a)).gen_with($gen)); )+
    }};
}
macro_rules! bi {
    ($v:ident, $k:expr, $t:ty, $w:tt, $gen:expr, $ref:expr, $($lab:expr => $f:expr),+ $(,)?) => {{
        let rf: fn($t, $t) -> $t = $ref;
        $( $v.push(op2(concat!($k, ":", $w), &label($lab), |a: $t, b: $t| { let f: fn($t, $t) -> $t = $f; f(a, b) }).ref2(move |a: $t, b: $t| rf(a, b)).gen_with($gen)); )+
    }};
}

pub fn c08() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! fam {
        ($k:expr, $m:ident, $f16:ident, $f32:ident, $f64:ident, $f128:ident, $($g:expr => $gf:ident),*) => {
            un!(v, $k, f16, 16, roundgen(16), |x| (x as f64).$m() as f16, "libm" => |x| libm::$f16(x), "cb" => |x| cb::$f16(x) $(, $g => |x| generic::$gf(x).val)*);
            un!(v, $k, f32, 32, roundgen(32), |x| (x as f64).$m() as f32, "libm" => |x| libm::$f32(x), "cb" => |x| cb::$f32(x), "helper" => |x| Libm::<f32>::$f64(x) $(, $g => |x| generic::$gf(x).val)*);
            un!(v, $k, f64, 64, roundgen(64), |x: f64| x.$m(), "libm" => |x| libm::$f64(x), "cb" => |x| cb::$f64(x), "helper" => |x| Libm::<f64>::$f64(x) $(, $g => |x| generic::$gf(x).val)*);
            let q = glibc::q1(concat!(stringify!($f64), "f128"));
            let q = move |x: f128| q(x);
            for (l, f) in [("libm", libm::$f128 as fn(f128) -> f128), ("cb", |x| cb::$f128(x)), ("helper", |x| Libm::<f128>::$f64(x))] {
                v.push(op1(concat!($k, ":128"), &label(l), move |a: f128| f(a)).ref1(q).gen_with(roundgen(128)));
            }
            $( v.push(op1(concat!($k, ":128"), &label($g), |a: f128| generic::$gf(a).val).ref1(q).gen_with(roundgen(128))); )*
        };
    }
    fam!("ceil", ceil, ceilf16, ceilf, ceil, ceilf128, "generic" => ceil_status);
    fam!("floor", floor, floorf16, floorf, floor, floorf128, "generic" => floor_status);
    fam!("trunc", trunc, truncf16, truncf, trunc, truncf128, "generic" => trunc_status);
    fam!("round", round, roundf16, roundf, round, roundf128,);
    fam!("roundeven", round_ties_even, roundevenf16, roundevenf, roundeven, roundevenf128,);
    fam!("rint", round_ties_even, rintf16, rintf, rint, rintf128,);
    un!(v, "rint", f16, 16, roundgen(16), |x| (x as f64).round_ties_even() as f16, "generic" => |x| generic::rint_status(x).val);
    un!(v, "rint", f32, 32, roundgen(32), |x| (x as f64).round_ties_even() as f32, "generic" => |x| generic::rint_status(x).val);
    un!(v, "rint", f64, 64, roundgen(64), |x: f64| x.round_ties_even(), "generic" => |x| generic::rint_status(x).val);
    un!(v, "round", f16, 16, roundgen(16), |x| (x as f64).round() as f16, "generic" => |x| generic::round(x));
    un!(v, "round", f32, 32, roundgen(32), |x| (x as f64).round() as f32, "generic" => |x| generic::round(x));
    un!(v, "round", f64, 64, roundgen(64), |x: f64| x.round(), "generic" => |x| generic::round(x));
    for o in v.iter_mut() {
        if o.args[0] == K::F(32) {
            o.sweep = true;
        }
        // all 65536 half-precision inputs of the public function are judged
        if o.args[0] == K::F(16) && o.cfg.starts_with("libm/") {
            o.base = 65536;
        }
    }
    v
}

pub fn c09() -> Vec<Op> {
    let mut v = vec![];
    let ref16 = |x: f16, y: f16, z: f16| (x as f128 * y as f128 + z as f128) as f16;
    v.push(op3("fma:16", &label("libm"), |x: f16, y, z| libm::fmaf16(x, y, z)).ref3(ref16).gen_with(fmagen(16)));
    v.push(op3("fma:16", &label("wide"), |x: f16, y, z| generic::fma_wide_round(x, y, z, Round::Nearest).val).ref3(ref16).gen_with(fmagen(16)));
    let (g32, g64, g128) = (glibc::f3("fmaf"), glibc::d3("fma"), glibc::q3("fmaf128"));
    let r32 = move |x: f32, y: f32, z: f32| g32(x, y, z);
    let r64 = move |x: f64, y: f64, z: f64| g64(x, y, z);
    let r128 = move |x: f128, y: f128, z: f128| g128(x, y, z);
    v.push(op3("fma:32", &label("libm"), |x: f32, y, z| libm::fmaf(x, y, z)).ref3(r32).gen_with(fmagen(32)));
    v.push(op3("fma:32", &label("cb"), |x: f32, y, z| cb::fmaf(x, y, z)).ref3(r32).gen_with(fmagen(32)));
    v.push(op3("fma:32", &label("wide"), |x: f32, y: f32, z: f32| generic::fma_wide_round(x, y, z, Round::Nearest).val).ref3(r32).gen_with(fmagen(32)));
    v.push(op3("fma:64", &label("libm"), |x: f64, y, z| libm::fma(x, y, z)).ref3(r64).gen_with(fmagen(64)));
    v.push(op3("fma:64", &label("cb"), |x: f64, y, z| cb::fma(x, y, z)).ref3(r64).gen_with(fmagen(64)));
    v.push(op3("fma:64", &label("generic"), |x: f64, y: f64, z: f64| generic::fma_round(x, y, z, Round::Nearest).val).ref3(r64).gen_with(fmagen(64)));
    v.push(op3("fma:128", &label("libm"), |x: f128, y, z| libm::fmaf128(x, y, z)).ref3(r128).gen_with(fmagen(128)));
    v.push(op3("fma:128", &label("cb"), |x: f128, y, z| cb::fmaf128(x, y, z)).ref3(r128).gen_with(fmagen(128)));
    v
}

pub fn c10() -> Vec<Op> {
    let mut v = vec![];
    un!(v, "sqrt", f16, 16, rootgen(16, 2), |x| (x as f64).sqrt() as f16, "libm" => |x| libm::sqrtf16(x), "cb" => |x| cb::sqrtf16(x),
        "generic" => |x| generic::sqrt_round(x, Round::Nearest).val);
    un!(v, "sqrt", f32, 32, rootgen(32, 2), |x: f32| x.sqrt(), "libm" => |x| libm::sqrtf(x), "cb" => |x| cb::sqrtf(x),
        "generic" => |x| generic::sqrt_round(x, Round::Nearest).val);
    un!(v, "sqrt", f64, 64, rootgen(64, 2), |x: f64| x.sqrt(), "libm" => |x| libm::sqrt(x), "cb" => |x| cb::sqrt(x),
        "generic" => |x| generic::sqrt_round(x, Round::Nearest).val);
    let q = glibc::q1("sqrtf128");
    let q = move |x: f128| q(x);
    v.push(op1("sqrt:128", &label("libm"), |x: f128| libm::sqrtf128(x)).ref1(q).gen_with(rootgen(128, 2)));
    v.push(op1("sqrt:128", &label("cb"), |x: f128| cb::sqrtf128(x)).ref1(q).gen_with(rootgen(128, 2)));
    for o in v.iter_mut() {
        o.sweep = o.args[0] == K::F(32);
        if o.args[0] == K::F(16) && o.cfg.starts_with("libm/") {
            o.base = 65536;
        }
        o.gens.push(Box::new(sqrt_hard(o.args[0].bits())));
    }
    // the reference rounds glibc's quad result, good enough to select suspects
    let c = glibc::q1("cbrtf128");
    let c32 = move |x: f32| (x as f64).cbrt() as f32;
    let c64 = move |a: &A, r: &R| {
        let (x, y) = (f64::de(a[0]), f64::de(r.v[0]));
        cbrt_ok(x, y).unwrap_or_else(|| same(K::F(64), (c(x as f128) as f64).en(), r.v[0]))
    };
    let mut w = vec![];
    w.push(op1("cbrt:32", &label("libm"), |x: f32| libm::cbrtf(x)).ref1(c32).gen_with(rootgen(32, 3)).sweep());
    w.push(op1("cbrt:32", &label("cb"), |x: f32| cb::cbrtf(x)).ref1(c32).gen_with(rootgen(32, 3)));
    w.push(op1("cbrt:64", &label("libm"), |x: f64| libm::cbrt(x)).screen(c64).gen_with(rootgen(64, 3)).gen_with(cbrt_hard()).weight(0.5));
    w.push(op1("cbrt:64", &label("cb"), |x: f64| cb::cbrt(x)).screen(c64).gen_with(rootgen(64, 3)).gen_with(cbrt_hard()).weight(0.2));
    let hq = glibc::q2("hypotf128");
    w.push(op2("hypot:32:1", &label("libm"), |x: f32, y: f32| libm::hypotf(x, y))
        .screen(|a, r| {
            let h = (f32::de(a[0]) as f64).hypot(f32::de(a[1]) as f64) as f32;
            ulp_dist(K::F(32), h.en(), r.v[0]) <= 1
        })
        .gen_with(hypotgen(32)));
    w.push(op2("hypot:64:0", &label("libm"), |x: f64, y: f64| libm::hypot(x, y)).screen(move |a, r| {
        let (x, y, h) = (f64::de(a[0]), f64::de(a[1]), f64::de(r.v[0]));
        hypot_ok(x, y, h).unwrap_or_else(|| same(K::F(64), (hq(x as f128, y as f128) as f64).en(), r.v[0]))
    }).gen_with(hypotgen(64)).gen_with(hypot_hard()));
    for o in w.iter_mut() {
        o.base = 20000;
    }
    v.extend(w);
    v
}

pub fn c11() -> Vec<Op> {
    let mut v = vec![];
    let q = glibc::q2("fmodf128");
    let rq = glibc::qqp("remquof128");
    bi!(v, "fmod", f16, 16, remgen(16), |x, y| (x as f64 % y as f64) as f16, "libm" => |x, y| libm::fmodf16(x, y), "cb" => |x, y| cb::fmodf16(x, y), "generic" => |x, y| generic::fmod(x, y));
    bi!(v, "fmod", f32, 32, remgen(32), |x, y| x % y, "libm" => |x, y| libm::fmodf(x, y), "cb" => |x, y| cb::fmodf(x, y), "generic" => |x, y| generic::fmod(x, y));
    bi!(v, "fmod", f64, 64, remgen(64), |x, y| x % y, "libm" => |x, y| libm::fmod(x, y), "cb" => |x, y| cb::fmod(x, y), "generic" => |x, y| generic::fmod(x, y));
    v.push(op2("fmod:128", &label("libm"), |x: f128, y: f128| libm::fmodf128(x, y)).ref2(move |x: f128, y: f128| q(x, y)).gen_with(remgen(128)).weight(0.3));
    v.push(op2("fmod:128", &label("cb"), |x: f128, y: f128| cb::fmodf128(x, y)).ref2(move |x: f128, y: f128| q(x, y)).gen_with(remgen(128)).weight(0.3));
    let (r32, r64) = (glibc::f2("remainderf"), glibc::d2("remainder"));
    v.push(op2("remainder:32", &label("libm"), |x: f32, y: f32| libm::remainderf(x, y)).ref2(move |x: f32, y: f32| r32(x, y)).gen_with(remgen(32)));
    v.push(op2("remainder:64", &label("libm"), |x: f64, y: f64| libm::remainder(x, y)).ref2(move |x: f64, y: f64| r64(x, y)).gen_with(remgen(64)));
    let (q32, q64) = (glibc::ffp("remquof"), glibc::ddp("remquo"));
    let low3 = |k: K, e: u128, n: i32, r: &R| same(k, e, r.v[0]) && ((r.v[1] as u32 as i32).wrapping_sub(n) & 7) == 0;
    v.push(op2("remquo:32", &label("libm"), |x: f32, y: f32| libm::remquof(x, y))
        .screen(move |a, r| {
            let mut n = 0;
            let e = q32(f32::de(a[0]), f32::de(a[1]), &mut n);
            e != e || low3(K::F(32), e.en(), n, r)
        })
        .gen_with(remgen(32)));
    v.push(op2("remquo:64", &label("libm"), |x: f64, y: f64| libm::remquo(x, y))
        .screen(move |a, r| {
            let mut n = 0;
            let e = q64(f64::de(a[0]), f64::de(a[1]), &mut n);
            e != e || low3(K::F(64), e.en(), n, r)
        })
        .gen_with(remgen(64)));
    v
}

pub fn c12() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! sc {
        ($k:expr, $t:ty, $w:tt, $ref:expr, $wt:expr, $($lab:expr => $f:expr),+) => {{ $(
            v.push(op2(concat!($k, ":", $w), &label($lab), |x: $t, n: i32| { let f: fn($t, i32) -> $t = $f; f(x, n) }).ref2($ref).gen_with(scalegen($w)).weight($wt));
        )+ }};
    }
    let (s32, s64, s128) = (glibc::fi("scalbnf"), glibc::di("scalbn"), glibc::qi("scalbnf128"));
    let s16 = move |x: f16, n: i32| s64(x as f64, n.clamp(-100, 100)) as f16;
    sc!("scalbn", f16, 16, s16, 1.0, "libm" => |x, n| libm::scalbnf16(x, n), "generic" => |x, n| generic::scalbn(x, n));
    sc!("scalbn", f32, 32, move |x: f32, n: i32| s32(x, n), 1.0, "libm" => |x, n| libm::scalbnf(x, n), "generic" => |x, n| generic::scalbn(x, n));
    sc!("scalbn", f64, 64, move |x: f64, n: i32| s64(x, n), 1.0, "libm" => |x, n| libm::scalbn(x, n), "generic" => |x, n| generic::scalbn(x, n));
    sc!("scalbn", f128, 128, move |x: f128, n: i32| s128(x, n), 0.5, "libm" => |x, n| libm::scalbnf128(x, n));
    sc!("ldexp", f16, 16, s16, 0.5, "libm" => |x, n| libm::ldexpf16(x, n));
    sc!("ldexp", f32, 32, move |x: f32, n: i32| s32(x, n), 0.5, "libm" => |x, n| libm::ldexpf(x, n));
    sc!("ldexp", f64, 64, move |x: f64, n: i32| s64(x, n), 0.5, "libm" => |x, n| libm::ldexp(x, n));
    sc!("ldexp", f128, 128, move |x: f128, n: i32| s128(x, n), 0.5, "libm" => |x, n| libm::ldexpf128(x, n));
    let (fr32, fr64, fr128) = (glibc::fp("frexpf"), glibc::dp("frexp"), glibc::qp("frexpf128"));
    macro_rules! frexp {
        ($t:ty, $w:expr, $f:expr, $g:expr, $wide:ty) => {
            v.push(op1(concat!("frexp:", $w), &label("libm"), |x: $t| $f(x))
                .screen(move |a, r| {
                    let x = <$t>::de(a[0]);
                    let mut e = 0;
                    let m = $g(x as $wide, &mut e) as $t;
                    x != x || x - x != 0.0 || (m.en() == r.v[0] && e == r.v[1] as i32)
                }));
        };
    }
    frexp!(f16, 16, libm::frexpf16, fr64, f64);
    frexp!(f32, 32, libm::frexpf, fr32, f32);
    frexp!(f64, 64, libm::frexp, fr64, f64);
    frexp!(f128, 128, libm::frexpf128, fr128, f128);
    macro_rules! ilogb {
        ($t:ty, $w:expr, $f:expr, $g:expr, $wide:ty) => {
            v.push(op1(concat!("ilogb:", $w), &label("libm"), |x: $t| $f(x))
                .screen(move |a, r| {
                    let x = <$t>::de(a[0]);
                    let mut e = 0;
                    $g(x as $wide, &mut e);
                    x != x || x - x != 0.0 || x == 0.0 || (e - 1 == r.v[0] as i32)
                }));
        };
    }
    ilogb!(f16, 16, libm::ilogbf16, fr64, f64);
    ilogb!(f32, 32, libm::ilogbf, fr32, f32);
    ilogb!(f64, 64, libm::ilogb, fr64, f64);
    ilogb!(f128, 128, libm::ilogbf128, fr128, f128);
    v.push(op1("modf:32", &label("libm"), |x: f32| libm::modff(x)).ref1(|x: f32| if x.is_infinite() { (0f32.copysign(x), x) } else { ((x - x.trunc()).copysign(x), x.trunc()) }).gen_with(roundgen(32)));
    v.push(op1("modf:64", &label("libm"), |x: f64| libm::modf(x)).ref1(|x: f64| if x.is_infinite() { (0f64.copysign(x), x) } else { ((x - x.trunc()).copysign(x), x.trunc()) }).gen_with(roundgen(64)));
    let (n32, n64) = (glibc::f2("nextafterf"), glibc::d2("nextafter"));
    v.push(op2("nextafter:32", &label("libm"), |x: f32, y: f32| libm::nextafterf(x, y)).ref2(move |x: f32, y: f32| n32(x, y)).gen_with(paircmp(32)));
    v.push(op2("nextafter:64", &label("libm"), |x: f64, y: f64| libm::nextafter(x, y)).ref2(move |x: f64, y: f64| n64(x, y)).gen_with(paircmp(64)));
    for o in v.iter_mut() {
        o.sweep = o.args.len() == 1 && o.args[0] == K::F(32);
        if o.args.len() == 1 && o.args[0] == K::F(16) {
            o.base = 65536;
        }
    }
    v
}

pub fn c13() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! mm {
        ($k:expr, $t:ty, $w:tt, $chk:expr, $($lab:expr => $f:expr),+) => {{ $(
            v.push(op2(concat!($k, ":", $w), &label($lab), |x: $t, y: $t| { let f: fn($t, $t) -> $t = $f; f(x, y) })
                .screen(|a, r| {
                    let c: fn($t, $t, $t) -> bool = $chk;
                    c(<$t>::de(a[0]), <$t>::de(a[1]), <$t>::de(r.v[0]))
                })
                .gen_with(paircmp($w)));
        )+ }};
    }
    macro_rules! all {
        ($t:ty, $w:tt, $min:ident, $max:ident, $mini:ident, $maxi:ident, $minn:ident, $maxn:ident, $dim:ident, $abs:ident, $cs:ident) => {
            mm!("fmin", $t, $w, |x, y, r| if x != x { r.en() == y.en() || (y != y && r != r) } else if y != y { r.en() == x.en() } else { r == (if x < y { x } else { y }) },
                "libm" => |x, y| libm::$min(x, y), "cb" => |x, y| cb::$min(x, y), "generic" => |x, y| generic::fmin(x, y));
            mm!("fmax", $t, $w, |x, y, r| if x != x { r.en() == y.en() || (y != y && r != r) } else if y != y { r.en() == x.en() } else { r == (if x > y { x } else { y }) },
                "libm" => |x, y| libm::$max(x, y), "cb" => |x, y| cb::$max(x, y), "generic" => |x, y| generic::fmax(x, y));
            mm!("fminimum", $t, $w, |x, y, r| if x != x || y != y { r != r } else if x == y { r == x && r.is_sign_negative() == (x.is_sign_negative() || y.is_sign_negative()) } else { r == (if x < y { x } else { y }) },
                "libm" => |x, y| libm::$mini(x, y), "cb" => |x, y| cb::$mini(x, y), "generic" => |x, y| generic::fminimum(x, y));
            mm!("fmaximum", $t, $w, |x, y, r| if x != x || y != y { r != r } else if x == y { r == x && r.is_sign_negative() == (x.is_sign_negative() && y.is_sign_negative()) } else { r == (if x > y { x } else { y }) },
                "libm" => |x, y| libm::$maxi(x, y), "cb" => |x, y| cb::$maxi(x, y), "generic" => |x, y| generic::fmaximum(x, y));
            mm!("fminimum_num", $t, $w, |x, y, r| if x != x { r.en() == y.en() || (y != y && r != r) } else if y != y { r.en() == x.en() } else if x == y { r == x && r.is_sign_negative() == (x.is_sign_negative() || y.is_sign_negative()) } else { r == (if x < y { x } else { y }) },
                "libm" => |x, y| libm::$minn(x, y), "cb" => |x, y| cb::$minn(x, y), "generic" => |x, y| generic::fminimum_num(x, y));
            mm!("fmaximum_num", $t, $w, |x, y, r| if x != x { r.en() == y.en() || (y != y && r != r) } else if y != y { r.en() == x.en() } else if x == y { r == x && r.is_sign_negative() == (x.is_sign_negative() && y.is_sign_negative()) } else { r == (if x > y { x } else { y }) },
                "libm" => |x, y| libm::$maxn(x, y), "cb" => |x, y| cb::$maxn(x, y), "generic" => |x, y| generic::fmaximum_num(x, y));
            mm!("fdim", $t, $w, |x, y, r| if x <= y { r.en() == 0 } else { same(K::F($w), (x - y).en(), r.en()) },
                "libm" => |x, y| libm::$dim(x, y), "cb" => |x, y| cb::$dim(x, y), "generic" => |x, y| generic::fdim(x, y));
            mm!("copysign", $t, $w, |x, y, r| r.en() == (x.en() & (mask($w) >> 1)) | (y.en() & (1u128 << ($w - 1))),
                "libm" => |x, y| libm::$cs(x, y), "cb" => |x, y| cb::$cs(x, y), "generic" => |x, y| generic::copysign(x, y));
            v.push(op1(concat!("fabs:", $w), &label("libm"), |x: $t| libm::$abs(x)).screen(|a, r| r.v[0] == a[0] & (mask($w) >> 1)));
            v.push(op1(concat!("fabs:", $w), &label("cb"), |x: $t| cb::$abs(x)).screen(|a, r| r.v[0] == a[0] & (mask($w) >> 1)));
            v.push(op1(concat!("fabs:", $w), &label("generic"), |x: $t| generic::fabs(x)).screen(|a, r| r.v[0] == a[0] & (mask($w) >> 1)));
        };
    }
    all!(f16, 16, fminf16, fmaxf16, fminimumf16, fmaximumf16, fminimum_numf16, fmaximum_numf16, fdimf16, fabsf16, copysignf16);
    all!(f32, 32, fminf, fmaxf, fminimumf, fmaximumf, fminimum_numf, fmaximum_numf, fdimf, fabsf, copysignf);
    all!(f64, 64, fmin, fmax, fminimum, fmaximum, fminimum_num, fmaximum_num, fdim, fabs, copysign);
    all!(f128, 128, fminf128, fmaxf128, fminimumf128, fmaximumf128, fminimum_numf128, fmaximum_numf128, fdimf128, fabsf128, copysignf128);
    for o in v.iter_mut() {
        if o.name.starts_with("fdim") {
            let w = o.args[0].bits();
            o.gens.push(Box::new(addgen(w)));
        }
    }
    v
}
