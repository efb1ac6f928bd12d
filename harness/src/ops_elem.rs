//! Elementary functions (C14, C15): every call is compared with the C library's next wider format.
use crate::core::*;
use crate::glibc;

/// Where the inputs of a function are interesting.
#[derive(Clone, Copy)]
pub struct Shape {
    /// an interval to draw from uniformly
    pub lo: f64,
    pub hi: f64,
    /// multiples of this constant are critical
    pub step: f64,
    /// points that are critical
    pub pts: &'static [f64],
}

fn step_bits(k: K, b: u128, d: i64) -> u128 {
    (b as i128).wrapping_add(d as i128) as u128 & mask(k.bits())
}
fn put(w: u32, v: f128) -> u128 {
    if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 }
}
pub fn get(w: u32, b: u128) -> f64 {
    if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) }
}
/// A small signed number of units in the last place, now and then a large one.
fn nudge(r: &mut Rng) -> i64 {
    match r.below(8) {
        0..=3 => 0,
        4 | 5 => r.range(-2, 2),
        6 => r.range(-16, 16),
        _ => {
            let k = r.below(30);
            r.range(-(1 << k), 1 << k)
        }
    }
}
fn unit(r: &mut Rng) -> f64 {
    (r.next() >> 11) as f64 / (1u64 << 53) as f64
}

pub fn shaped(w: u32, s: Shape) -> impl Fn(&mut Rng) -> A + Send + Sync + 'static {
    move |r| {
        let k = K::F(w);
        let b = match r.below(8) {
            0..=2 => put(w, (s.lo + (s.hi - s.lo) * unit(r)) as f128),
            3 | 4 if s.step != 0.0 => {
                let top = r.below(if w == 32 { 30 } else { 54 });
                let n = (r.next() >> 1 >> (62 - top)) as f128;
                let v = n * s.step as f128;
                // the constant itself is only approximate; more of it for the critical multiples of pi
                let v = if s.step == std::f64::consts::FRAC_PI_2 { n * (s.step as f128 + 6.123233995736766035868820147292e-17f128) } else { v };
                step_bits(k, put(w, if r.next() & 1 == 0 { v } else { -v }), nudge(r))
            }
            5 | 6 if !s.pts.is_empty() => step_bits(k, put(w, *r.pick(s.pts) as f128), nudge(r)),
            _ => {
                // logarithmic in the interval's magnitude
                let m = s.hi.abs().max(s.lo.abs());
                let e = m * (2.0f64).powf(-unit(r) * if w == 32 { 40.0 } else { 80.0 });
                put(w, (if r.next() & 1 == 0 { e } else { -e }) as f128)
            }
        };
        [b, 0, 0, 0]
    }
}

/// Distance screen in units of the last place.
pub fn within(w: u32, k: u128, got: u128, want: u128) -> bool {
    let kk = K::F(w);
    (ulp_dist(kk, got, want) <= k) && (is_nan(kk, got) || want & mask(w - 1) == 0 || got >> (w - 1) == want >> (w - 1))
}

macro_rules! elem1 {
    ($v:ident, $s:expr, $k:expr, $name:ident, $namef:ident, $ref:expr) => {{
        let cfg = crate::CFG;
        let g = glibc::d1($ref);
        $v.push(
            op1::<f32, f32>(concat!(stringify!($name), ":32"), cfg, libm::$namef)
                .screen(move |a, r| within(32, $k, r.v[0], (g(f32::from_bits(a[0] as u32) as f64) as f32).to_bits() as u128))
                .gen_with(shaped(32, $s))
                .sweep()
                .weight(0.5),
        );
        let q = glibc::q1(concat!($ref, "f128"));
        $v.push(
            op1::<f64, f64>(concat!(stringify!($name), ":64"), cfg, libm::$name)
                .screen(move |a, r| within(64, $k, r.v[0], (q(f64::from_bits(a[0] as u64) as f128) as f64).to_bits() as u128))
                .gen_with(shaped(64, $s)),
        );
    }};
}

const LN2: f64 = std::f64::consts::LN_2;
const PIO2: f64 = std::f64::consts::FRAC_PI_2;

pub const EXP: Shape = Shape { lo: -760.0, hi: 760.0, step: LN2 / 2.0, pts: &[709.782712893384, -708.3964185322641, -745.1332191019411, 88.72283905206835, -87.33654475055310, -103.97207708399179, 0.3465735902799726, 1.0397207708399179, 1.0, -1.0, 56.0 * LN2, 0.5, -0.5, 0.25, 1024.0, -1022.0, -1074.0, -1075.0, 128.0, -126.0, -149.0, -150.0, 308.25471555991674, -307.6526555685888, -323.3062153431158, 38.53183944498959, -37.9297794536, -44.8534693539332] };

pub fn c14() -> Vec<Op> {
    let mut v = vec![];
    let e = |m: f64, step: f64| Shape { lo: -m, hi: m, step, ..EXP };
    elem1!(v, e(760.0, LN2 / 2.0), 1, exp, expf, "exp");
    elem1!(v, e(1100.0, 0.5 / 128.0), 1, exp2, exp2f, "exp2");
    elem1!(v, e(330.0, 0.125), 6, exp10, exp10f, "exp10");
    elem1!(v, e(720.0, LN2 / 2.0), 1, expm1, expm1f, "expm1");
    let l = Shape { lo: 0.4, hi: 2.5, step: 0.0078125, pts: &[1.0, 2.0, 0.5, 1.4142135623730951, 0.7071067811865476, 10.0, 100.0, 1000.0, 0.1, 1.0e15, 4.0, 0.9394130628134758, 1.0644944589178593, 0.9375, 1.0645] };
    elem1!(v, l, 1, log, logf, "log");
    elem1!(v, l, 1, log2, log2f, "log2");
    elem1!(v, l, 1, log10, log10f, "log10");
    elem1!(v, Shape { lo: -1.0, hi: 2.0, step: 0.0078125, pts: &[-1.0, -0.2928932188134524, 0.41421356237309515, 1.0, -0.5, 1e-5, 1.1102230246251565e-16, 5.9604645e-8, 9007199254740992.0, 0.0] }, 1, log1p, log1pf, "log1p");
    let cfg = crate::CFG;
    let g = glibc::d2("pow");
    v.push(
        op2::<f32, f32, f32>("pow:32", cfg, libm::powf)
            .screen(move |a, r| pow_one(32, a, r.v[0]) || within(32, 1, r.v[0], (g(f32::from_bits(a[0] as u32) as f64, f32::from_bits(a[1] as u32) as f64) as f32).to_bits() as u128))
            .gen_with(powgen(32))
            .weight(4.0),
    );
    let q = glibc::q2("powf128");
    v.push(
        op2::<f64, f64, f64>("pow:64", cfg, libm::pow)
            .screen(move |a, r| pow_one(64, a, r.v[0]) || within(64, 1, r.v[0], (q(f64::from_bits(a[0] as u64) as f128, f64::from_bits(a[1] as u64) as f128) as f64).to_bits() as u128))
            .gen_with(powgen(64))
            .weight(2.0),
    );
    v
}

/// pow(1, y) and pow(x, 0) are 1 even for NaN; the C library disagrees for signaling ones.
fn pow_one(w: u32, a: &A, r: u128) -> bool {
    let one = put(w, 1.0);
    r == one && (a[0] == one || a[1] & mask(w - 1) == 0)
}

/// Powers whose result is in range, exact, or at a limit of the range.
pub fn powgen(w: u32) -> impl Fn(&mut Rng) -> A + Send + Sync + 'static {
    move |r| {
        let f = ff(w);
        let k = K::F(w);
        let x = match r.below(6) {
            0 | 1 => rfloat(r, w, Some(f.bias())) & mask(w - 1),
            2 => step_bits(k, f.make(0, f.bias(), 0), nudge(r)),
            3 => put(w, r.range(2, 40) as f128),
            4 => put(w, (r.range(1, 255) as f128) / 16.0),
            _ => f.make(0, r.range(0, f.emax() - 1), rbits(r, f.mw)),
        };
        let lim = if w == 32 { (128.0, -150.0) } else { (1024.0, -1075.0) };
        let l = get(w, x).log2();
        let y = match r.below(6) {
            // y log2 x anywhere in range
            0 | 1 | 2 if l != 0.0 && l.is_finite() => put(w, ((lim.1 + (lim.0 - lim.1) * 1.05 * unit(r)) / l) as f128),
            // at a limit
            3 if l != 0.0 && l.is_finite() => {
                let t = *r.pick(&[lim.0, lim.1, lim.1 + 1.0, -lim.0 + 2.0]);
                step_bits(k, put(w, (t / l) as f128), nudge(r))
            }
            4 => put(w, r.range(-80, 80) as f128 / if r.next() & 3 == 0 { 2.0 } else { 1.0 }),
            _ => rfloat(r, w, Some(f.bias())),
        };
        // negative bases make sense with integers
        let s = (r.below(4) == 0) as u128;
        let y = if s == 1 && r.next() & 1 == 0 { put(w, get(w, y).round() as f128) } else { y };
        [x | s << (w - 1), y, 0, 0]
    }
}

pub const TRIG: Shape = Shape { lo: -40.0, hi: 40.0, step: PIO2, pts: &[0.7853981633974483, 2.356194490192345, 3.9269908169872414, 5.497787143782138, 7.0685834705770345, 0.6744, 0.67434, 0.3, 0.78125, 1647099.3291652855, 843314856.5, 4.2165e8, 2.684354560e8] };

pub fn c15() -> Vec<Op> {
    let mut v = vec![];
    let t = TRIG;
    elem1!(v, t, 1, sin, sinf, "sin");
    elem1!(v, t, 1, cos, cosf, "cos");
    elem1!(v, t, 1, tan, tanf, "tan");
    let cfg = crate::CFG;
    let (gs, gc) = (glibc::d1("sin"), glibc::d1("cos"));
    v.push(
        op1::<f32, (f32, f32)>("sincos:32", cfg, libm::sincosf)
            .screen(move |a, r| {
                let x = f32::from_bits(a[0] as u32) as f64;
                within(32, 1, r.v[0], (gs(x) as f32).to_bits() as u128) && within(32, 1, r.v[1], (gc(x) as f32).to_bits() as u128)
            })
            .gen_with(shaped(32, t))
            .sweep()
            .weight(0.5),
    );
    let (gs, gc) = (glibc::q1("sinf128"), glibc::q1("cosf128"));
    v.push(
        op1::<f64, (f64, f64)>("sincos:64", cfg, libm::sincos)
            .screen(move |a, r| {
                let x = f64::from_bits(a[0] as u64) as f128;
                within(64, 1, r.v[0], (gs(x) as f64).to_bits() as u128) && within(64, 1, r.v[1], (gc(x) as f64).to_bits() as u128)
            })
            .gen_with(shaped(64, t)),
    );
    let a = Shape { lo: -1.0, hi: 1.0, step: 0.0078125, pts: &[0.5, -0.5, 1.0, -1.0, 0.975, 0.25, 0.707, 7.450580596923828e-9, 0.00024414062] };
    elem1!(v, a, 1, asin, asinf, "asin");
    elem1!(v, a, 1, acos, acosf, "acos");
    elem1!(v, Shape { lo: -4.0, hi: 4.0, step: 0.0078125, pts: &[0.4375, 0.6875, 1.1875, 2.4375, 7.378697629483821e19, 1.0, 1.5] }, 1, atan, atanf, "atan");
    let h = Shape { lo: -30.0, hi: 30.0, step: LN2 / 2.0, pts: &[0.3465735902799726, 1.0397207708399179, 709.782712893384, 710.4758600739439, 88.72283905206835, 89.4159858, 22.0, 9.0, 20.0, 10.0, 0.5493061443340549, 0.2554128118829953, 0.00024414062, 1.0] };
    elem1!(v, h, 2, sinh, sinhf, "sinh");
    elem1!(v, h, 1, cosh, coshf, "cosh");
    elem1!(v, h, 2, tanh, tanhf, "tanh");
    elem1!(v, Shape { lo: -4.0, hi: 4.0, step: 0.015625, pts: &[2.0, 67108864.0, 4096.0, 1.4901161193847656e-8, 0.000244140625] }, 2, asinh, asinhf, "asinh");
    elem1!(v, Shape { lo: 1.0, hi: 4.0, step: 0.015625, pts: &[1.0, 2.0, 67108864.0, 4096.0, 1.25] }, 4, acosh, acoshf, "acosh");
    elem1!(v, Shape { lo: -1.0, hi: 1.0, step: 0.0078125, pts: &[0.5, 1.0, -1.0, 2.3283064365386963e-10, 0.25] }, 2, atanh, atanhf, "atanh");
    let g = glibc::d2("atan2");
    v.push(
        op2::<f32, f32, f32>("atan2:32", cfg, libm::atan2f)
            .screen(move |a, r| within(32, 2, r.v[0], (g(f32::from_bits(a[0] as u32) as f64, f32::from_bits(a[1] as u32) as f64) as f32).to_bits() as u128))
            .gen_with(atan2gen(32))
            .weight(2.0),
    );
    let q = glibc::q2("atan2f128");
    v.push(
        op2::<f64, f64, f64>("atan2:64", cfg, libm::atan2)
            .screen(move |a, r| within(64, 2, r.v[0], (q(f64::from_bits(a[0] as u64) as f128, f64::from_bits(a[1] as u64) as f128) as f64).to_bits() as u128))
            .gen_with(atan2gen(64))
            .weight(2.0),
    );
    v
}

pub fn atan2gen(w: u32) -> impl Fn(&mut Rng) -> A + Send + Sync + 'static {
    move |r| {
        let f = ff(w);
        let x = rfloat(r, w, Some(f.bias()));
        let s = r.next();
        let y = match r.below(4) {
            // the ratio at one of the algorithm's boundaries or an extreme
            0 => {
                let d = *r.pick(&[24i64, 25, 26, 27, 52, 53, 54, 59, 60, 61, 62, 63, 64, 65, 66, 126, 149, 150, 1022, 1074]);
                f.make(s, f.expo(x) + if r.next() & 1 == 0 { d } else { -d }, rbits(r, f.mw))
            }
            1 => {
                let q = *r.pick(&[0.4375f64, 0.6875, 1.0, 1.1875, 2.4375, 0.5, 1.5]);
                step_bits(K::F(w), put(w, (get(w, x) * q) as f128), nudge(r)) ^ ((s & 1) as u128) << (w - 1)
            }
            _ => rfloat(r, w, Some(f.expo(x))),
        };
        [y, x, 0, 0]
    }
}

// ---------------------------------------------------------------- C16

const GAMMA_PTS: &[f64] = &[1.0, 2.0, 3.0, 0.5, 1.5, -0.5, -1.5, -2.5, 0.9, 1.2316, 1.7316, 1.4616321449683623, 4.0, 8.0, 12.0, 171.0, 171.6243769563027, 35.04010009765625, 34.0, -170.5, -177.5, -183.5, -0.001, 1e-10, 23.0, 22.999, -34.5, -42.5, 0.23164, 0.73159];
const ERF_PTS: &[f64] = &[0.84375, 1.25, 2.857142857142857, 6.0, 28.0, 27.2, 26.543, 3.0, 4.0, -6.0, 5.0, 9.0, 10.05, 3.725290298461914e-9, 0.25];

fn big(w: u32, v: f128) -> u128 {
    put(w, v)
}

macro_rules! special1 {
    ($v:ident, $s:expr, $k32:expr, $k64:expr, $name:ident, $namef:ident, $ref:expr, $skip:expr) => {{
        let cfg = crate::CFG;
        let g = glibc::q1(concat!($ref, "f128"));
        $v.push(
            op1::<f32, f32>(concat!(stringify!($name), ":32"), cfg, libm::$namef)
                .screen(move |a, r| {
                    let x = f32::from_bits(a[0] as u32) as f128;
                    let e = g(x);
                    within(32, $k32, r.v[0], put(32, e)) || $skip(32, x as f64, e as f64)
                })
                .gen_with(shaped(32, $s))
                .sweep(),
        );
        $v.push(
            op1::<f64, f64>(concat!(stringify!($name), ":64"), cfg, libm::$name)
                .screen(move |a, r| {
                    let x = f64::from_bits(a[0] as u64) as f128;
                    let e = g(x);
                    within(64, $k64, r.v[0], put(64, e)) || $skip(64, x as f64, e as f64)
                })
                .gen_with(shaped(64, $s)),
        );
    }};
}

/// Where lgamma is ill-conditioned: next to its zeros and poles on the negative axis.
fn lgamma_skip(w: u32, x: f64, e: f64) -> bool {
    x < -2.0 && x > if w == 32 { -13.0625 } else { -32.0 } && (e.abs() < 1.0 || (x - x.round()).abs() < 0.02)
}

/// Relative to the larger of the value and the amplitude of the function.
pub fn bessel_err(w: u32, x: f64, n: f64, got: u128, want: f128) -> f64 {
    let g = get(w, got);
    let e = want as f64;
    if g.is_nan() || e.is_nan() {
        return if g.is_nan() && e.is_nan() { 0.0 } else { f64::INFINITY };
    }
    if put(w, want) == got {
        return 0.0;
    }
    let amp = if x.abs() > n { (2.0 / (std::f64::consts::PI * x.abs())).sqrt().min(1.0) } else { 0.0 };
    let tiny = if w == 32 { 2f64.powi(-149) } else { 2f64.powi(-1074) };
    let d = ((g as f128 - want) as f64).abs();
    if d <= 4.0 * tiny { 0.0 } else { d / e.abs().max(amp) }
}

/// Tolerances of j0, j1, y0, y1 and of jn, yn: (f32, f64).
pub const JTOL: (f64, f64) = (9.5e-7, 1.77e-15);
pub const NTOL: (f64, f64) = (7.6e-6, 2.8e-14);

macro_rules! bessel1 {
    ($v:ident, $name:ident, $namef:ident, $ref:expr, $n:expr) => {{
        let cfg = crate::CFG;
        let s = Shape { lo: 0.0, hi: 70.0, step: PIO2 / 2.0, pts: &[2.0, 4.5454, 2.857, 8.0, 0.5, 1e-3, 64.0, 129.0, 25.0, 2.404825557695773, 3.831705970207512, 0.8935769662791675, 2.197141326031017] };
        let g = glibc::q1(concat!($ref, "f128"));
        $v.push(
            op1::<f32, f32>(concat!(stringify!($name), ":32"), cfg, libm::$namef)
                .screen(move |a, r| {
                    let x = f32::from_bits(a[0] as u32);
                    bessel_err(32, x as f64, $n, r.v[0], g(x as f128)) <= JTOL.0
                })
                .gen_with(shaped(32, s))
                .filter(move |a| f32::from_bits(a[0] as u32).abs() < 2f32.powi(100)),
        );
        $v.push(
            op1::<f64, f64>(concat!(stringify!($name), ":64"), cfg, libm::$name)
                .screen(move |a, r| {
                    let x = f64::from_bits(a[0] as u64);
                    bessel_err(64, x, $n, r.v[0], g(x as f128)) <= JTOL.1
                })
                .gen_with(shaped(64, s))
                .filter(move |a| f64::from_bits(a[0] as u64).abs() < 2f64.powi(100)),
        );
    }};
}
/// Orders and arguments for which the specification computes J and Y.
fn moderate(n: i32, x: f64, y: bool) -> bool {
    let x = x.abs();
    let m = n.unsigned_abs();
    m <= 60 && x < 2f64.powi(100) && (y && x >= 1.0 / 1024.0 || !y) && (x <= 60.0 || m as f64 <= x)
}
fn ordergen(w: u32) -> impl Fn(&mut Rng) -> A + Send + Sync + 'static {
    move |r| {
        let n = if r.next() & 1 == 0 { r.range(-60, 60) } else { r.range(-4, 4) };
        let x = match r.below(4) {
            0 => unit(r) * 2.0 * n.abs() as f64,
            1 => unit(r) * 60.0,
            2 => n as f64 + r.range(-3, 3) as f64 * unit(r),
            _ => get(w, rfloat(r, w, Some(ff(w).bias()))),
        };
        let x = if x.is_nan() { 1.0 } else { x };
        [n as i32 as u32 as u128, put(w, (if r.below(4) == 0 { -x } else { x.abs() }) as f128), 0, 0]
    }
}
macro_rules! besseln {
    ($v:ident, $name:ident, $namef:ident, $ref:expr, $y:expr) => {{
        let cfg = crate::CFG;
        let g = glibc::qn(concat!($ref, "f128"));
        $v.push(
            op2::<i32, f32, f32>(concat!(stringify!($name), ":32"), cfg, libm::$namef)
                .screen(move |a, r| {
                    let (n, x) = (a[0] as i32, f32::from_bits(a[1] as u32));
                    bessel_err(32, x as f64, n.abs() as f64, r.v[0], g(n, x as f128)) <= NTOL.0
                })
                .gen_with(ordergen(32))
                .filter(move |a| moderate(a[0] as i32, f32::from_bits(a[1] as u32) as f64, $y)),
        );
        $v.push(
            op2::<i32, f64, f64>(concat!(stringify!($name), ":64"), cfg, libm::$name)
                .screen(move |a, r| {
                    let (n, x) = (a[0] as i32, f64::from_bits(a[1] as u64));
                    bessel_err(64, x, n.abs() as f64, r.v[0], g(n, x as f128)) <= NTOL.1
                })
                .gen_with(ordergen(64))
                .filter(move |a| moderate(a[0] as i32, f64::from_bits(a[1] as u64), $y)),
        );
    }};
}

pub fn c16() -> Vec<Op> {
    let mut v = vec![];
    let none = |_: u32, _: f64, _: f64| false;
    let e = Shape { lo: -7.0, hi: 28.0, step: 0.0625, pts: ERF_PTS };
    special1!(v, e, 1, 1, erf, erff, "erf", none);
    special1!(v, e, 4, 4, erfc, erfcf, "erfc", none);
    special1!(v, Shape { lo: -185.0, hi: 175.0, step: 0.5, pts: GAMMA_PTS }, 1, 20, tgamma, tgammaf, "tgamma", none);
    let l = Shape { lo: -40.0, hi: 40.0, step: 0.25, pts: GAMMA_PTS };
    special1!(v, l, 4, 4, lgamma, lgammaf, "lgamma", lgamma_skip);
    let cfg = crate::CFG;
    let g = glibc::qp("lgammaf128_r");
    v.push(
        op1::<f32, (f32, i32)>("lgamma_r:32", cfg, libm::lgammaf_r)
            .screen(move |a, r| {
                let x = f32::from_bits(a[0] as u32) as f128;
                let mut s = 0;
                let e = g(x, &mut s);
                (within(32, 4, r.v[0], put(32, e)) || lgamma_skip(32, x as f64, e as f64)) && (r.v[1] as i32 == s || !(e as f64).is_finite())
            })
            .gen_with(shaped(32, l))
            .sweep(),
    );
    v.push(
        op1::<f64, (f64, i32)>("lgamma_r:64", cfg, libm::lgamma_r)
            .screen(move |a, r| {
                let x = f64::from_bits(a[0] as u64) as f128;
                let mut s = 0;
                let e = g(x, &mut s);
                (within(64, 4, r.v[0], put(64, e)) || lgamma_skip(64, x as f64, e as f64)) && (r.v[1] as i32 == s || !(e as f64).is_finite())
            })
            .gen_with(shaped(64, l)),
    );
    bessel1!(v, j0, j0f, "j0", 0.0);
    bessel1!(v, j1, j1f, "j1", 1.0);
    bessel1!(v, y0, y0f, "y0", 0.0);
    bessel1!(v, y1, y1f, "y1", 1.0);
    besseln!(v, jn, jnf, "jn", false);
    besseln!(v, yn, ynf, "yn", true);
    v
}
