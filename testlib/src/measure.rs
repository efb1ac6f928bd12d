//! What the repository's tests measure results with (C33).
use crate::core::*;
use libm_test::domain::get_domain;
use libm_test::generate::{edge_cases, random, spaced};
use libm_test::{CheckBasis, CheckCtx, CheckOutput, Float, FloatExt, GeneratorKind, Identifier, Int, MathOp, MinInt, linear_ints, logspace, op};
use std::fmt::Debug;

/// Adjacent to where the ordering of bit patterns changes, and a step count that matters there.
fn stepgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let s = 1u128 << (w - 1);
        let inf = ff(w).inf();
        let near = |r: &mut Rng, p: u128| p.wrapping_add(r.below(9) as u128).wrapping_sub(4) & mask(w);
        let at = [0, 1, inf, inf - 1, 1u128 << ff(w).mw, s - 1];
        let p = *r.pick(&at) | (r.next() & 1) as u128 * s;
        let x = match r.below(3) { 0 => near(r, p), 1 => rbits(r, w), _ => rfloat(r, w, None) };
        let m = x & (s - 1);
        let n = match r.below(7) {
            0 => near(r, m),                                            // to zero
            1 => { let d = m.wrapping_add(inf); near(r, d) }            // through zero to infinity
            2 => { let d = inf.wrapping_sub(m); near(r, d) }            // to infinity
            3 => r.below(5) as u128,
            4 => { let k = r.below(w as u64 + 1) as u32; rbits(r, k) }
            5 => mask(w) - r.below(3) as u128,
            _ => rbits(r, w),
        };
        [x, n & mask(w), 0, 0]
    }
}

fn kind(m: u32) -> (CheckBasis, GeneratorKind) {
    let b = match m % 3 { 0 => CheckBasis::Mpfr, 1 => CheckBasis::Musl, _ => CheckBasis::None };
    let g = [GeneratorKind::EdgeCases, GeneratorKind::Spaced, GeneratorKind::Random, GeneratorKind::List][m as usize / 3 % 4];
    (b, g)
}

fn context(id: Identifier, m: u32, ulp: u32) -> CheckCtx {
    let (b, g) = kind(m);
    let mut c = CheckCtx::new(id, b, g).extensive(m >= 12);
    if c.ulp.is_some() {
        c.ulp = Some(ulp);
    }
    c
}

/// An expected result, an actual one some steps away, a tolerance about as large, and how they are compared.
fn pairgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let e = stepgen(w)(r)[0];
        let u = match r.below(4) { 0 => 0, 1 => r.below(4), 2 => r.below(1 << 32), _ => (1u64 << r.below(32)) - r.below(2) } as u128;
        let d = match r.below(5) { 0 => 0, 1 => u, 2 => u + 1, 3 => u.saturating_sub(1), _ => u + (1u128 << 32) };
        let a = match r.below(6) { 0 | 1 => e.wrapping_add(d), 2 | 3 => e.wrapping_sub(d), 4 => e ^ 1u128 << (w - 1), _ => stepgen(w)(r)[0] };
        [a & mask(w), e, u, r.below(24) as u128]
    }
}

/// Ends of a range in order, a number of steps and the index of an item to look at.
fn rangegen(w: u32, ints: bool) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let pick = |r: &mut Rng| match r.below(4) { 0 => rbits(r, w), 1 => rbits(r, 8.min(w)), 2 => stepgen(w)(r)[0], _ => stepgen(w)(r)[1] };
        let a = pick(r);
        let b = match r.below(3) { 0 => a.wrapping_add(r.below(3000) as u128), 1 => a ^ 1u128 << (w - 1), _ => pick(r) } & mask(w);
        let n = match r.below(3) { 0 => 2 + r.below(3), 1 => 2 + r.below(40), _ => 2 + r.below(2000) };
        let k = match r.below(3) { 0 => n - 1, 1 => r.below(n), _ => r.below(3) };
        [a, b, n as u128, k as u128]
    }
}

fn float<F: FloatExt + Val + Debug>(w: u32, add: Identifier, v: &mut Vec<Op>)
where
    F::Int: Val,
    F: CheckOutput<(F, F)>,
    (F, F): Copy,
    std::ops::RangeInclusive<F::Int>: Iterator,
    u128: TryFrom<F::Int>,
    F::Int: TryFrom<u128>,
{
    let n = |s: &str| format!("{s}:{w}");
    let t = "testlib";
    v.push(op1(&n("nextup"), t, |x: F| FloatExt::next_up(x)).gen_with(stepgen(w)));
    v.push(op1(&n("nextdown"), t, |x: F| FloatExt::next_down(x)).gen_with(stepgen(w)));
    v.push(op2(&n("nup"), t, |x: F, k: F::Int| x.n_up(k)).gen_with(stepgen(w)));
    v.push(op2(&n("ndown"), t, |x: F, k: F::Int| x.n_down(k)).gen_with(stepgen(w)));
    v.push(op1(&n("nan"), t, |i: u32| {
        let c = F::consts();
        match i {
            0..=7 => c.iter().nth(i as usize).unwrap(),
            8 => c.pos_nan,
            9 => c.neg_nan,
            10 => c.max_qnan,
            11 => c.min_snan,
            12 => c.max_snan,
            13 => c.neg_max_qnan,
            14 => c.neg_min_snan,
            _ => c.neg_max_snan,
        }
    }).filter(|a| a[0] < 16).extra((0..16).map(|i| [i, 0, 0, 0])).no_lattice().gen_with(|r| [r.below(16) as u128, 0, 0, 0]).weight(0.01));
    v.push(op4(&n("validate"), t, move |a: F, e: F, u: u32, m: u32| {
        a.validate(e, (F::ONE, F::ONE), &context(add, m, u)).is_ok()
    }).filter(|a| a[3] < 12).gen_with(pairgen(w)).no_lattice());
    v.push(op4(&n("logspace"), t, |a: F, b: F, n: u32, k: u32| {
        let (it, said) = logspace(a, b, F::Int::try_from(n as u128).ok().unwrap());
        let items: Vec<F> = it.collect();
        (u128::try_from(said).ok().unwrap(), items.len() as u64, items[(k as usize).min(items.len() - 1)])
    }).filter(move |a| {
        let (x, y) = (F::de(a[0]), F::de(a[1]));
        !x.is_nan() && !y.is_nan() && x <= y && a[2] >= 2 && a[2] <= 2002
    }).gen_with(rangegen(w, false)).no_lattice().weight(0.02));
}

fn int<I: Val + Int + 'static + TryFrom<u128> + CheckOutput<(I, I)>>(w: u32, s: u32, id: Identifier, v: &mut Vec<Op>)
where
    <I as TryFrom<u128>>::Error: Debug,
    u128: TryFrom<I::Unsigned>,
    <u128 as TryFrom<I::Unsigned>>::Error: Debug,
{
    let t = "testlib";
    v.push(op4(&format!("linear:{w}:{s}"), t, |a: I, b: I, n: u32, k: u32| {
        let (it, said) = linear_ints(a..=b, n as u64);
        let items: Vec<I> = it.collect();
        (said, items.len() as u64, items[(k as usize).min(items.len() - 1)])
    }).filter(move |a| {
        // the distance between two items has to be representable
        let (x, y) = (I::de(a[0]), I::de(a[1]));
        let d = a[1].wrapping_sub(a[0]) & mask(w);
        x <= y && a[2] >= 2 && a[2] <= 2002 && d / (a[2] - 1) <= mask(w - s)
    }).gen_with(rangegen(w, true)).no_lattice().weight(0.02));
    v.push(op3(&format!("validint:{w}:{s}"), t, move |a: I, e: I, m: u32| {
        a.validate(e, (I::ZERO, I::ONE), &context(id, m, 0)).is_ok()
    }).filter(|a| a[2] < 24).gen_with(move |r| {
        let x = rbits(r, w);
        let y = match r.below(3) { 0 => x, 1 => x ^ 1u128 << r.below(w as u64), _ => rbits(r, w) };
        [x, y, r.below(24) as u128, 0]
    }).no_lattice().weight(0.1));
}

/// Pairs are accepted if both parts are.
fn pairs(v: &mut Vec<Op>) {
    v.push(op4("validpair:32", "testlib", |a: f32, e: f32, i: i32, j: i32| {
        (a, i).validate((e, j), (1f32,), &context(Identifier::Frexpf, if j & 4 == 0 { 0 } else { 12 }, 3)).is_ok()
    }).gen_with(|r| { let a = pairgen(32)(r); let i = rbits(r, 32); [a[0], a[1], i, if r.next() & 1 == 0 { i } else { i ^ 1u128 << r.below(32) }] }).no_lattice());
    v.push(op4("validpair:64", "testlib", |a: f64, e: f64, i: i32, j: i32| {
        (a, i).validate((e, j), (1f64,), &context(Identifier::Frexp, if j & 4 == 0 { 0 } else { 12 }, 3)).is_ok()
    }).gen_with(|r| { let a = pairgen(64)(r); let i = rbits(r, 32); [a[0], a[1], i, if r.next() & 1 == 0 { i } else { i ^ 1u128 << r.below(32) }] }).no_lattice());
}

/// The tolerance the tests grant each function against the exact result.
fn tolerances(v: &mut Vec<Op>) {
    for id in Identifier::ALL {
        let u = CheckCtx::new(*id, CheckBasis::Mpfr, GeneratorKind::Spaced).ulp;
        if u.is_some() {
            let id = *id;
            let w = match id.math_op().rust_sig.returns[0] {
                libm_test::Ty::F16 => 16,
                libm_test::Ty::F32 => 32,
                libm_test::Ty::F64 => 64,
                libm_test::Ty::F128 => 128,
                _ => 0,
            };
            let name = format!("tolerance:{w}");
            v.push(once(&name, id.base_name().as_str(), move || {
                let u = CheckCtx::new(id, CheckBasis::Mpfr, GeneratorKind::Spaced).ulp;
                ("0".into(), format!("{:x}", u.unwrap()))
            }));
        }
    }
}

/// A record that is made once.
fn once(name: &str, cfg: &str, f: impl Fn() -> (String, String) + Send + Sync + 'static) -> Op {
    let mut o = history(name, cfg, 64, move |_, _| (false, Some(f())));
    o.extra = vec![[0; 4]];
    o.gens.clear();
    o.weight = 0.0;
    o.filter(|a| a[0] == 0)
}

fn hex<T: Val>(v: &[T]) -> String {
    v.iter().map(|x| format!("{:x}", x.en())).collect::<Vec<_>>().join(" ")
}

/// The two factors of a product of sequences.
fn factors<X: Val + PartialEq, Y: Val>(all: &[(X, Y)]) -> (Vec<X>, Vec<Y>) {
    let first = all[0].0.en();
    let n = all.iter().take_while(|p| p.0.en() == first).count();
    (all.iter().step_by(n).map(|p| p.0).collect(), all[..n].iter().map(|p| p.1).collect())
}

macro_rules! generators {
    ($v:ident, unary $t:ty, $w:literal, $($f:ident $id:ident),*) => { $(
        $v.push(once(concat!("edgef:", $w), concat!(stringify!($f), "/0"), || {
            let c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::EdgeCases);
            let (it, n) = edge_cases::get_test_cases::<op::$f::Routine>(&c);
            let x: Vec<$t> = it.map(|x| x.0).collect();
            let d = get_domain::<$t, i8>(Identifier::$id, 0).unwrap_float();
            (format!("{:x} {:x} {:x}", d.range_start().en(), d.range_end().en(), n), hex(&x))
        }));
        for steps in [2u64, 3, 50, 1000] {
            $v.push(once(concat!("spacedf:", $w), concat!(stringify!($f), "/0"), move || {
                let mut c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::Spaced);
                c.override_iterations(steps);
                let (it, n) = spaced::get_test_cases::<op::$f::Routine>(&c);
                let x: Vec<$t> = it.map(|x| x.0).collect();
                let d = get_domain::<$t, i8>(Identifier::$id, 0).unwrap_float();
                (format!("{:x} {:x} {:x} {:x}", d.range_start().en(), d.range_end().en(), steps, n), hex(&x))
            }));
        }
        $v.push(once("random:1", stringify!($f), || {
            let mut c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::Random);
            c.override_iterations(500);
            let run = || { let (it, n) = random::get_test_cases::<($t,)>(&c); (n, it.map(|x| x.0.en()).collect::<Vec<_>>()) };
            let ((n, x), (_, y)) = (run(), run());
            (format!("{:x} {:x}", 500, n), format!("{:x} {:x} {:x}", x.len(), (x == y) as u32, distinct(&x)))
        }));
    )* };
    ($v:ident, binary $t:ty, $w:literal, $($f:ident $id:ident),*) => { $(
        for arg in 0..2 {
            $v.push(once(concat!("edgef:", $w), &format!("{}/{}", stringify!($f), arg), move || {
                let c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::EdgeCases);
                let (it, n) = edge_cases::get_test_cases::<op::$f::Routine>(&c);
                let (x, y) = factors(&it.collect::<Vec<($t, $t)>>());
                let d = get_domain::<$t, i8>(Identifier::$id, arg).unwrap_float();
                let (this, other) = if arg == 0 { (&x, &y) } else { (&y, &x) };
                // the number announced is that of the product
                let n = if n % other.len() as u64 == 0 { n / other.len() as u64 } else { 0 };
                (format!("{:x} {:x} {:x}", d.range_start().en(), d.range_end().en(), n), hex(this))
            }));
            $v.push(once(concat!("spacedf:", $w), &format!("{}/{}", stringify!($f), arg), move || {
                let mut c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::Spaced);
                c.override_iterations(900);
                let (it, n) = spaced::get_test_cases::<op::$f::Routine>(&c);
                let (x, y) = factors(&it.collect::<Vec<($t, $t)>>());
                let d = get_domain::<$t, i8>(Identifier::$id, arg).unwrap_float();
                let (this, other) = if arg == 0 { (&x, &y) } else { (&y, &x) };
                let n = if n % other.len() as u64 == 0 { n / other.len() as u64 } else { 0 };
                (format!("{:x} {:x} {:x} {:x}", d.range_start().en(), d.range_end().en(), 30, n), hex(this))
            }));
        }
        $v.push(once("random:2", stringify!($f), || {
            let mut c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::Random);
            c.override_iterations(900);
            let run = || { let (it, n) = random::get_test_cases::<($t, $t)>(&c); (n, it.map(|x| (x.0.en(), x.1.en())).collect::<Vec<_>>()) };
            let ((n, x), (_, y)) = (run(), run());
            (format!("{:x} {:x}", 900, n), format!("{:x} {:x} {:x}", x.len(), (x == y) as u32, distinct(&x)))
        }));
    )* };
    ($v:ident, scale $t:ty, $w:literal, $($f:ident $id:ident),*) => { $(
        $v.push(once(concat!("edgef:", $w), concat!(stringify!($f), "/0"), || {
            let c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::EdgeCases);
            let (it, n) = edge_cases::get_test_cases::<op::$f::Routine>(&c);
            let (x, y) = factors(&it.collect::<Vec<($t, i32)>>());
            let d = get_domain::<$t, i8>(Identifier::$id, 0).unwrap_float();
            let n = if n % y.len() as u64 == 0 { n / y.len() as u64 } else { 0 };
            (format!("{:x} {:x} {:x}", d.range_start().en(), d.range_end().en(), n), hex(&x))
        }));
        $v.push(once("edgei:32:1", concat!(stringify!($f), "/1"), || {
            let c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::EdgeCases);
            let (it, n) = edge_cases::get_test_cases::<op::$f::Routine>(&c);
            let (x, y) = factors(&it.collect::<Vec<($t, i32)>>());
            let n = if n % x.len() as u64 == 0 { n / x.len() as u64 } else { 0 };
            (format!("{:x} {:x}", 0, n), hex(&y))
        }));
    )* };
    ($v:ident, ints $t:ty, $u:ty, $w:literal $s:literal, $w1:literal $s1:literal, $shift:literal, $($f:ident $id:ident),*) => { $(
        for arg in 0..2 {
            let (w, s, lim) = if arg == 0 { ($w, $s, 0) } else { ($w1, $s1, $shift) };
            $v.push(once(&format!("edgei:{w}:{s}"), &format!("{}/{}", stringify!($f), arg), move || {
                let c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::EdgeCases);
                let (it, n) = edge_cases::get_test_cases::<op::$f::Routine>(&c);
                let (x, y) = factors(&it.collect::<Vec<($t, $u)>>());
                let other = if arg == 0 { y.len() } else { x.len() } as u64;
                let n = if n % other == 0 { n / other } else { 0 };
                (format!("{lim:x} {n:x}"), if arg == 0 { hex(&x) } else { hex(&y) })
            }));
            // more items than values there are, for the amounts of shifts
            for n in if lim == 0 { vec![30u64] } else { vec![30, 160] } {
                $v.push(once(&format!("spacedi:{w}:{s}"), &format!("{}/{}", stringify!($f), arg), move || {
                    let mut c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::Spaced);
                    c.override_iterations(n * n);
                    let (it, total) = spaced::get_test_cases::<op::$f::Routine>(&c);
                    let (x, y) = factors(&it.collect::<Vec<($t, $u)>>());
                    let other = if arg == 0 { y.len() } else { x.len() } as u64;
                    let len = if total % other == 0 { total / other } else { 0 };
                    (format!("{lim:x} {n:x} {len:x}"), if arg == 0 { hex(&x) } else { hex(&y) })
                }));
            }
            $v.push(once(&format!("randomi:{w}:{s}"), &format!("{}/{}", stringify!($f), arg), move || {
                let mut c = CheckCtx::new(Identifier::$id, CheckBasis::Mpfr, GeneratorKind::Random);
                c.override_iterations(900);
                let (it, n) = random::get_test_cases::<($t, $u)>(&c);
                let (x, y) = factors(&it.collect::<Vec<($t, $u)>>());
                let other = if arg == 0 { y.len() } else { x.len() } as u64;
                let n = if n % other == 0 { n / other } else { 0 };
                (format!("{lim:x} {:x} {n:x}", 30), if arg == 0 { hex(&x) } else { hex(&y) })
            }));
        }
    )* };
}

fn distinct<T: Ord + Clone>(x: &[T]) -> usize {
    let mut y = x.to_vec();
    y.sort();
    y.dedup();
    y.len()
}

fn gens(v: &mut Vec<Op>) {
    generators!(v, unary f16, 16, sqrtf16 Sqrtf16, fabsf16 Fabsf16, ceilf16 Ceilf16);
    generators!(v, unary f32, 32, sinf Sinf, sqrtf Sqrtf, lgammaf Lgammaf, tgammaf Tgammaf, acoshf Acoshf, logf Logf, log1pf Log1pf, asinf Asinf, atanhf Atanhf,
        tanf Tanf, expf Expf, y0f Y0f, cbrtf Cbrtf);
    generators!(v, unary f64, 64, sin Sin, sqrt Sqrt, lgamma Lgamma, tgamma Tgamma, acosh Acosh, log Log, log1p Log1p, asin Asin, atanh Atanh,
        tan Tan, exp Exp, y0 Y0, cbrt Cbrt);
    generators!(v, unary f128, 128, sqrtf128 Sqrtf128, fabsf128 Fabsf128, floorf128 Floorf128);
    generators!(v, binary f16, 16, fmodf16 Fmodf16);
    generators!(v, binary f32, 32, powf Powf, atan2f Atan2f);
    generators!(v, binary f64, 64, pow Pow, hypot Hypot);
    generators!(v, binary f128, 128, fmodf128 Fmodf128);
    generators!(v, scale f16, 16, scalbnf16 Scalbnf16);
    generators!(v, scale f32, 32, scalbnf Scalbnf, ldexpf Ldexpf);
    generators!(v, scale f64, 64, scalbn Scalbn);
    generators!(v, scale f128, 128, scalbnf128 Scalbnf128);
    generators!(v, ints i32, i32, 32 1, 32 1, 0, idiv_i32 IdivI32);
    generators!(v, ints u64, u64, 64 0, 64 0, 0, idiv_u64 IdivU64);
    generators!(v, ints i128, i128, 128 1, 128 1, 0, iadd_i128 IaddI128);
    generators!(v, ints u32, u32, 32 0, 32 0, 32, ashl_u32 AshlU32, lshr_u32 LshrU32);
    generators!(v, ints u64, u32, 64 0, 32 0, 64, ashl_u64 AshlU64);
    generators!(v, ints i64, u32, 64 1, 32 0, 64, ashr_i64 AshrI64);
    generators!(v, ints i128, u32, 128 1, 32 0, 128, ashr_i128 AshrI128);
    generators!(v, ints u128, u32, 128 0, 32 0, 128, lshr_u128 LshrU128);
}

pub fn c33() -> Vec<Op> {
    let mut v = vec![];
    float::<f16>(16, Identifier::Addf16, &mut v);
    float::<f32>(32, Identifier::Addf32, &mut v);
    float::<f64>(64, Identifier::Addf64, &mut v);
    float::<f128>(128, Identifier::Addf128, &mut v);
    int::<i32>(32, 1, Identifier::IdivI32, &mut v);
    int::<u32>(32, 0, Identifier::IdivU32, &mut v);
    int::<i64>(64, 1, Identifier::IdivI64, &mut v);
    int::<u64>(64, 0, Identifier::IdivU64, &mut v);
    int::<i128>(128, 1, Identifier::IdivI128, &mut v);
    int::<u128>(128, 0, Identifier::IdivU128, &mut v);
    pairs(&mut v);
    tolerances(&mut v);
    gens(&mut v);
    v
}
