//! The `Float` and `Int` traits everything else is written with (C32).
use crate::core::*;
use crate::ops_float::label;
use libm::support as s;
use libm::support::{CastFrom, CastInto, Float, Int, MinInt, NarrowFloat, Status, WideFloat};

fn consts<F: Float>(i: u32) -> u128
where
    F: Val,
    F::Int: Val,
{
    let x = |v: i32| v as u32 as u128;
    match i {
        0 => F::ZERO.en(),
        1 => F::NEG_ZERO.en(),
        2 => F::ONE.en(),
        3 => F::NEG_ONE.en(),
        4 => F::INFINITY.en(),
        5 => F::NEG_INFINITY.en(),
        6 => F::MAX.en(),
        7 => F::MIN.en(),
        8 => F::NAN.en(),
        9 => F::SNAN.en(),
        10 => F::NEG_NAN.en(),
        11 => F::NEG_SNAN.en(),
        12 => F::EPSILON.en(),
        13 => F::PI.en(),
        14 => F::NEG_PI.en(),
        15 => F::FRAC_PI_2.en(),
        16 => F::MIN_POSITIVE_NORMAL.en(),
        17 => F::MIN_POSITIVE_SUBNORMAL.en(),
        18 => F::BITS as u128,
        19 => F::SIG_BITS as u128,
        20 => F::EXP_BITS as u128,
        21 => F::EXP_SAT as u128,
        22 => F::EXP_BIAS as u128,
        23 => x(F::EXP_MAX),
        24 => x(F::EXP_MIN),
        25 => x(F::EXP_MIN_SUBNORM),
        26 => F::SIGN_MASK.en(),
        27 => F::SIG_MASK.en(),
        28 => F::EXP_MASK.en(),
        29 => F::IMPLICIT_BIT.en(),
        _ => F::SIG_TOP_BIT.en(),
    }
}

/// Adjacent to the boundaries of the fields.
fn fieldgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let e = *r.pick(&[0i64, 1, 2, f.bias() - 1, f.bias(), f.bias() + 1, f.emax() - 1, f.emax()]);
        let k = r.below(f.mw as u64 + 1) as u32;
        let m = match r.below(5) {
            0 => 0,
            1 => mask(f.mw),
            2 => (1u128 << k) & mask(f.mw),
            3 => mask(k),
            _ => rbits(r, f.mw),
        };
        let y = rfloat(r, w, None);
        [(e as u128) << f.mw | m | ((r.next() & 1) as u128) << (w - 1), y, 0, 0]
    }
}

fn flags(b: &[bool]) -> u32 {
    b.iter().enumerate().map(|(i, b)| (*b as u32) << i).sum()
}

fn float<F: Float + Val>(w: u32, l: &str, v: &mut Vec<Op>)
where
    F::Int: Val,
    F::SignedInt: Val,
{
    let n = |s: &str| format!("{s}:{w}");
    let first = v.len();
    v.push(op1(&n("fconst"), l, |i: u32| consts::<F>(i)).filter(|a| a[0] < 31).extra((0..31).map(|i| [i, 0, 0, 0])).no_lattice()
        .gen_with(|r| [r.below(31) as u128, 0, 0, 0]).weight(0.01));
    v.push(op1(&n("fclass"), l, |x: F| {
        (flags(&[Float::is_nan(x), x.is_qnan(), x.is_snan(), Float::is_infinite(x), Float::is_sign_negative(x), Float::is_sign_positive(x),
            Float::is_subnormal(x)]), x.ex(), x.exp_unbiased())
    }).gen_with(fieldgen(w)));
    v.push(op1(&n("fbits"), l, |x: F| (Float::to_bits(x), x.to_bits_signed(), x.frac())).gen_with(fieldgen(w)));
    v.push(op1(&n("frombits"), l, |x: F::Int| F::from_bits(x)).gen_with(fieldgen(w)));
    v.push(op3(&n("fromparts"), l, |s: bool, e: u32, m: F::Int| F::from_parts(s, e, m)).filter(|a| a[0] < 2).gen_with(move |r| {
        let f = ff(w);
        let e = match r.below(4) {
            0 => r.below(4),
            1 => f.emax() as u64 + 1 - r.below(4),
            2 => r.next() & 0xffff_ffff,
            _ => r.below(f.emax() as u64 + 1),
        };
        let m = match r.below(3) { 0 => rbits(r, w), 1 => mask(f.mw), _ => rbits(r, f.mw) };
        [(r.next() & 1) as u128, e as u128, m, 0]
    }).no_lattice());
    v.push(op2(&n("feq"), l, |x: F, y: F| flags(&[x.biteq(y), x.eq_repr(y)])).gen_with(move |r| {
        // near each other
        let x = fieldgen(w)(r)[0];
        let y = match r.below(4) { 0 => x, 1 => x ^ (1u128 << (w - 1)), 2 => x ^ (1u128 << r.below(w as u64)), _ => rfloat(r, w, None) };
        [x, y, 0, 0]
    }));
    v.push(op1(&n("fabs"), l, |x: F| Float::abs(x)).gen_with(fieldgen(w)));
    v.push(op1(&n("signum"), l, |x: F| Float::signum(x)).gen_with(fieldgen(w)));
    v.push(op1(&n("canon"), l, |x: F| Float::canonicalize(x)).gen_with(fieldgen(w)));
    v.push(op2(&n("copysign"), l, |x: F, y: F| Float::copysign(x, y)).gen_with(fieldgen(w)));
    v.push(op3(&n("fma"), l, |x: F, y: F, z: F| Float::fma(x, y, z)).gen_with(crate::ops_exact::fmagen(w)).no_lattice().weight(0.2));
    v.push(op1(&n("normalize"), l, |m: F::Int| F::normalize(m)).filter(move |a| a[0] > 0 && a[0] < 2u128 << ff(w).mw).gen_with(move |r| {
        let k = 1 + r.below(ff(w).mw as u64 + 1) as u32;
        [rbits(r, k) | 1u128 << (k - 1), 0, 0, 0]
    }));
    for o in &mut v[first..] {
        o.base = 4000;
    }
}

fn status(i: u32) -> Status {
    [Status::OK, Status::INVALID, Status::DIVIDE_BY_ZERO, Status::OVERFLOW, Status::UNDERFLOW, Status::INEXACT][i as usize]
}

fn option<T: Val + MinInt>(x: Option<T>) -> (bool, T) {
    match x {
        Some(v) => (true, v),
        None => (false, T::ZERO),
    }
}

pub fn c32() -> Vec<Op> {
    let l = label("");
    let l = &l[..];
    let mut v: Vec<Op> = vec![];
    float::<f16>(16, l, &mut v);
    float::<f32>(32, l, &mut v);
    float::<f64>(64, l, &mut v);
    float::<f128>(128, l, &mut v);
    macro_rules! resize { ($($h:ty, $w:expr, $d:ty, $x:expr);*) => { $(
        v.push(op1(&format!("conv:{}:{}", $w, $x), l, |x: $h| NarrowFloat::widen(x)));
        v.push(op1(&format!("conv:{}:{}", $x, $w), l, |x: $d| WideFloat::narrow(x)).gen_with(|r| {
            // close to a number of the narrow format or half way between two
            let (f, g) = (ff($x), ff($w));
            let e = f.bias() + r.range(-g.bias() - g.mw as i64 - 2, g.bias() + 1);
            let k = f.mw - r.below(g.mw as u64 + 2) as u32;
            let t = match r.below(4) { 0 => 0, 1 => 1u128 << (k - 1), 2 => (1u128 << (k - 1)) + 1, _ => (1u128 << (k - 1)) - 1 };
            [f.make(r.next(), e, (rbits(r, f.mw) & !mask(k)) | t), 0, 0, 0]
        }));
    )* } }
    resize!(f16, 16, f32, 32; f32, 32, f64, 64; f64, 64, f128, 128);

    // the last parameter tells usize and isize from u64 and i64
    macro_rules! ints { ($($t:ty, $w:expr, $s:expr, $z:expr);*) => { $({
        let n = |s: &str| format!("{s}:{}:{}:{}", $w, $s, $z);
        let sh = |r: &mut Rng| [rval(r, <$t as Val>::K, None), match r.below(4) { 0 => r.next() as u32 as u128, _ => r.below($w + 2) as u128 }, 0, 0];
        // the sum (difference) at the end of the range, or one or two beyond
        let border = |sub: bool| move |r: &mut Rng| {
            let x = rval(r, <$t as Val>::K, None);
            let t = [0, mask($w), 1 << ($w - 1), mask($w - 1)][r.below(4) as usize].wrapping_add(r.below(5) as u128).wrapping_sub(2);
            let y = if sub { x.wrapping_sub(t) } else { t.wrapping_sub(x) };
            [x, y & mask($w), r.below(2) as u128, 0]
        };
        v.push(op1(&n("iconst"), l, |i: u32| -> u128 {
            match i {
                0 => <$t as MinInt>::ZERO.en(),
                1 => <$t as MinInt>::ONE.en(),
                2 => <$t as MinInt>::MIN.en(),
                3 => <$t as MinInt>::MAX.en(),
                4 => <$t as MinInt>::BITS as u128,
                _ => <$t as MinInt>::SIGNED as u128,
            }
        }).filter(|a| a[0] < 6).extra((0..6).map(|i| [i, 0, 0, 0])).no_lattice().gen_with(|r| [r.below(6) as u128, 0, 0, 0]).weight(0.01));
        v.push(op1(&n("isign"), l, |x: $t| (Int::signed(x), Int::unsigned(x), <$t as Int>::from_unsigned(Int::unsigned(x)))).weight(0.1));
        v.push(op1(&n("ibool"), l, |x: bool| <$t as Int>::from_bool(x)).filter(|a| a[0] < 2).weight(0.01));
        v.push(op1(&n("izero"), l, |x: $t| Int::is_zero(x)).weight(0.1));
        v.push(op2(&n("icadd"), l, |x: $t, y: $t| option(Int::checked_add(x, y))).ref2(|x: $t, y: $t| option(x.checked_add(y))).gen_with(border(false)));
        v.push(op2(&n("icsub"), l, |x: $t, y: $t| option(Int::checked_sub(x, y))).ref2(|x: $t, y: $t| option(x.checked_sub(y))).gen_with(border(true)));
        v.push(op2(&n("ioadd"), l, |x: $t, y: $t| Int::overflowing_add(x, y)).ref2(|x: $t, y: $t| x.overflowing_add(y)).gen_with(border(false)));
        v.push(op2(&n("iosub"), l, |x: $t, y: $t| Int::overflowing_sub(x, y)).ref2(|x: $t, y: $t| x.overflowing_sub(y)).gen_with(border(true)));
        v.push(op1(&n("iwneg"), l, |x: $t| Int::wrapping_neg(x)).ref1(|x: $t| x.wrapping_neg()));
        v.push(op2(&n("iwadd"), l, |x: $t, y: $t| Int::wrapping_add(x, y)).ref2(|x: $t, y: $t| x.wrapping_add(y)));
        v.push(op2(&n("iwsub"), l, |x: $t, y: $t| Int::wrapping_sub(x, y)).ref2(|x: $t, y: $t| x.wrapping_sub(y)));
        v.push(op2(&n("iwmul"), l, |x: $t, y: $t| Int::wrapping_mul(x, y)).ref2(|x: $t, y: $t| x.wrapping_mul(y)));
        v.push(op2(&n("iwshl"), l, |x: $t, k: u32| Int::wrapping_shl(x, k)).gen_with(sh).no_lattice());
        v.push(op2(&n("iwshr"), l, |x: $t, k: u32| Int::wrapping_shr(x, k)).gen_with(sh).no_lattice());
        v.push(op2(&n("ilshr"), l, |x: $t, k: u32| Int::logical_shr(x, k)).gen_with(sh).no_lattice());
        v.push(op2(&n("irotl"), l, |x: $t, k: u32| Int::rotate_left(x, k)).gen_with(sh).no_lattice());
        v.push(op1(&n("icount"), l, |x: $t| (Int::leading_zeros(x), Int::trailing_zeros(x), Int::count_ones(x)))
            .ref1(|x: $t| (x.leading_zeros(), x.trailing_zeros(), x.count_ones())));
        v.push(op1(&n("ilog2"), l, |x: $t| Int::ilog2(x)).filter(|a| a[0] != 0 && ($s == 0 || a[0] >> ($w - 1) == 0)));
        v.push(op2(&n("iabsdiff"), l, |x: $t, y: $t| Int::abs_diff(x, y)).gen_with(border(true)));
        v.push(op3(&n("icarry"), l, |x: $t, y: $t, c: bool| Int::carrying_add(x, y, c)).filter(|a| a[2] < 2).gen_with(border(false)));
        v.push(op3(&n("iborrow"), l, |x: $t, y: $t, c: bool| Int::borrowing_sub(x, y, c)).filter(|a| a[2] < 2).gen_with(border(true)));
    })* } }
    ints!(u8, 8, 0, 0; u16, 16, 0, 0; u32, 32, 0, 0; u64, 64, 0, 0; u128, 128, 0, 0; usize, 64, 0, 1;
          i8, 8, 1, 0; i16, 16, 1, 0; i32, 32, 1, 0; i64, 64, 1, 0; i128, 128, 1, 0; isize, 64, 1, 1);
    macro_rules! sints { ($($t:ty, $w:expr, $z:expr);*) => { $({
        v.push(op1(&format!("iabs:{}:1:{}", $w, $z), l, |x: $t| Int::abs(x)).filter(|a| a[0] != 1u128 << ($w - 1)).weight(0.2));
        v.push(op1(&format!("iuabs:{}:1:{}", $w, $z), l, |x: $t| Int::unsigned_abs(x)).weight(0.2));
    })* } }
    sints!(i8, 8, 0; i16, 16, 0; i32, 32, 0; i64, 64, 0; i128, 128, 0; isize, 64, 1);

    // casts: any value where bits may be lost, only those that fit where they may not
    macro_rules! cast { ($t:ty, $w:expr, $s:expr, $z:expr => $($d:ty, $x:expr, $g:expr, $y:expr);*) => { $({
        let n = |s: &str| format!("{s}:{}:{}:{}:{}:{}:{}", $w, $s, $x, $g, $z, $y);
        v.push(op1(&n("cast"), l, |x: $t| {
            let a: $d = CastInto::<$d>::cast_lossy(x);
            (a, <$d as CastFrom<$t>>::cast_from_lossy(x))
        }).weight(0.1));
        v.push(op1(&n("castx"), l, |x: $t| {
            let a: $d = CastInto::<$d>::cast(x);
            (a, <$d as CastFrom<$t>>::cast_from(x))
        }).filter(|a| <$d>::try_from(<$t as Val>::de(a[0])).is_ok()).gen_with(|r| [rbits(r, ($w).min($x) - 1), 0, 0, 0]).weight(0.1));
    })* } }
    macro_rules! casts { ($($t:ty, $w:expr, $s:expr, $z:expr);*) => { $(
        cast!($t, $w, $s, $z => u8, 8, 0, 0; u16, 16, 0, 0; u32, 32, 0, 0; u64, 64, 0, 0; u128, 128, 0, 0; usize, 64, 0, 1;
              i8, 8, 1, 0; i16, 16, 1, 0; i32, 32, 1, 0; i64, 64, 1, 0; i128, 128, 1, 0; isize, 64, 1, 1);
    )* } }
    casts!(u8, 8, 0, 0; u16, 16, 0, 0; u32, 32, 0, 0; u64, 64, 0, 0; u128, 128, 0, 0; usize, 64, 0, 1;
           i8, 8, 1, 0; i16, 16, 1, 0; i32, 32, 1, 0; i64, 64, 1, 0; i128, 128, 1, 0; isize, 64, 1, 1);
    macro_rules! fcast { ($t:ty, $w:expr => $($d:ty, $x:expr);*) => { $({
        v.push(op1(&format!("fcast:{}:{}", $w, $x), l, |x: $t| {
            let a: $d = CastInto::<$d>::cast_lossy(x);
            (a, <$d as CastFrom<$t>>::cast_from_lossy(x))
        }).weight(0.1));
        // fewer bits than the precision: nothing is lost
        v.push(op1(&format!("fcast:{}:{}:1", $w, $x), l, |x: $t| {
            let a: $d = CastInto::<$d>::cast(x);
            (a, <$d as CastFrom<$t>>::cast_from(x))
        }).filter(|a| { let m = (<$t as Val>::de(a[0]) as i128).unsigned_abs(); m <= mask(($w - 1).min(ff($x).mw + 1)) })
        .gen_with(|r| { let m = rbits(r, ($w - 1).min(ff($x).mw + 1)); [if r.next() & 1 == 0 { m } else { m.wrapping_neg() & mask($w) }, 0, 0, 0] }).weight(0.1));
    })* } }
    macro_rules! fcasts { ($($t:ty, $w:expr);*) => { $( fcast!($t, $w => f16, 16; f32, 32; f64, 64; f128, 128); )* } }
    fcasts!(i8, 8; i16, 16; i32, 32; i64, 64; i128, 128);

    v.push(op2("divceil", l, |a: u32, b: u32| s::div_ceil_u32(a, b)).filter(|a| a[1] != 0).ref2(|a: u32, b: u32| a.div_ceil(b))
        .gen_with(|r| { let b = 1 + rbits(r, 16); let q = rbits(r, 15); [b * q + r.below(3) as u128 * (b - 1) / 2, b, 0, 0] }));
    v.push(op2("ushr", l, |a: u64, k: u32| s::unbounded_shr_u64(a, k)).gen_with(|r| [rbits(r, 64), match r.below(4) { 0 => r.next() as u32, _ => r.below(70) as u32 } as u128, 0, 0]).no_lattice());
    v.push(op2("udiv:32", l, |a: i32, b: i32| unsafe { s::unchecked_div_i32(a, b) }).filter(|a| a[1] != 0 && a[0] != 1 << 31));
    v.push(op2("udiv:64", l, |a: isize, b: isize| unsafe { s::unchecked_div_isize(a, b) }).filter(|a| a[1] != 0 && a[0] != 1 << 63));
    // one flag set to begin with, then up to eight changes, two bits each: which flag, and its new value
    v.push(op2("status", l, |i: u32, h: u16| {
        let mut st = status(i);
        for k in 0..8 {
            let c = h >> (2 * k) & 3;
            if c & 1 == 0 { st.set_underflow(c & 2 != 0) } else { st.set_inexact(c & 2 != 0) }
        }
        flags(&[st.underflow(), st.overflow(), st.inexact(), st == status(i), st == Status::OK])
    }).filter(|a| a[0] < 6).gen_with(|r| [r.below(6) as u128, rbits(r, 16), 0, 0]));
    v.push(op1("status0", l, |i: u32| {
        let st = status(i);
        flags(&[st.underflow(), st.overflow(), st.inexact(), st == Status::OK])
    }).filter(|a| a[0] < 6).extra((0..6).map(|i| [i, 0, 0, 0])).no_lattice().gen_with(|r| [r.below(6) as u128, 0, 0, 0]).weight(0.01));
    v
}
