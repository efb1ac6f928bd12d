//! Operands whose results lie next to (or on) the middle between two floats, by construction:
//! square root, cube root, hypotenuse and quotient. And exact decisions for those results.
use crate::core::*;
use crate::gens::wide;
use std::sync::OnceLock;

/// A square root of c (1 modulo 8) modulo 2^k, one of the four at random.
fn sqrt_mod(r: &mut Rng, c: u128, k: u32) -> u128 {
    let mut s = 1u128;
    for i in 3..k {
        if (s.wrapping_mul(s).wrapping_sub(c) >> i) & 1 == 1 {
            s = s.wrapping_add(1u128 << (i - 1));
        }
    }
    if r.next() & 1 == 1 {
        s = s.wrapping_neg();
    }
    if r.next() & 1 == 1 {
        s = s.wrapping_add(1u128 << (k - 1));
    }
    s & mask(k)
}

fn inverse(a: u128) -> u128 {
    let mut v = a;
    for _ in 0..6 {
        v = v.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(v)));
    }
    v
}

fn len(x: u128) -> u32 {
    128 - x.leading_zeros()
}

/// Small, of either sign, the given residue modulo 8.
fn small(r: &mut Rng, m8: u128) -> u128 {
    let k = r.below(14) as u32;
    let j = r.u128() & mask(k);
    let c = (j << 3).wrapping_add(m8 & 7);
    if r.next() & 1 == 0 { c } else { c.wrapping_sub(((j << 4) | 8) & !7) }
}

/// (a*b + c) / 2^k for a small signed c with an exact quotient.
fn muladd_shift(a: u128, b: u128, c: u128, k: u32) -> u128 {
    let (mut h, mut l) = wide(a, b);
    let (s, o) = l.overflowing_add(c);
    l = s;
    h = h.wrapping_add(o as u128).wrapping_sub(((c as i128) < 0) as u128);
    if k == 0 { l } else if k >= 128 { h >> (k - 128) } else { (h << (128 - k)) | (l >> k) }
}

/// The root is the middle of two floats but for a few units far below.
pub fn sqrt_hard(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let p = f.mw + 1;
        for _ in 0..32 {
            let k = p + 1 + (r.next() & 1) as u32;
            let c = small(r, 1);
            let m = sqrt_mod(r, c, k);
            if len(m) != p + 1 {
                continue;
            }
            let x = muladd_shift(m, m, c.wrapping_neg(), k);
            if len(x) != p {
                continue;
            }
            // x * 2^e with e of the parity of k
            let mut e = match r.below(3) { 0 => r.range(1, f.emax() - 1), 1 => f.bias() + r.range(-9, 9), _ => r.range(1, 4) };
            if (e - f.bias() - f.mw as i64 - k as i64) % 2 != 0 {
                e = if e > 1 { e - 1 } else { e + 1 };
            }
            return [f.make(0, e, x), 0, 0, 0];
        }
        [rbits(r, w), 0, 0, 0]
    }
}

/// Least t with l <= a + b*t mod m <= h, if there is one.
fn first_between(a: u128, b: u128, m: u128, l: u128, h: u128) -> Option<u128> {
    // b*t mod m within [l - a, h - a]
    let (l, h) = ((l + m - a % m) % m, (h + m - a % m) % m);
    if l > h {
        return Some(0);
    }
    solve(b % m, m, l, h)
}
fn solve(b: u128, m: u128, l: u128, h: u128) -> Option<u128> {
    if l == 0 {
        return Some(0);
    }
    if b == 0 {
        return None;
    }
    if 2 * b > m {
        return solve(m - b, m, m - h, m - l);
    }
    let c = l.div_ceil(b);
    if b * c <= h {
        return Some(c);
    }
    let y = solve((b - m % b) % b, b, l % b, h % b)?;
    Some((l + m * y).div_ceil(b))
}

/// Cubes of middles that are almost floats.
fn cbrt_pool(seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed ^ 0xcb47);
    let mut v = vec![];
    for _ in 0..400_000 {
        // m odd of 54 bits, m^3 of 160 to 162 bits; step m by 2t
        let m = (1u128 << 53) | (r.u128() & mask(53)) | 1;
        let (_, sq) = wide(m, m);
        let cube = |m: u128| wide(m * m, m);
        let (h, lo) = cube(m);
        let n = 256 - h.leading_zeros();
        let u = n - 53;
        // modulo 2^u, the linear term of (m + 2t)^3 is 6 m^2 t; keep the leading 60 bits of the residues
        let q = u - 60;
        let res = |x: u128| (x & mask(u)) >> q;
        let close = 60 - (18 + r.below(12) as u32);
        let (a, b) = (res(lo), res(sq.wrapping_mul(6)));
        let md = 1u128 << 60;
        let lim = 1u128 << close;
        let tries = if close > 36 { 1 } else { 40 };
        let Some(mut t) = first_between(a + lim, b, md, 0, 2 * lim) else { continue };
        for _ in 0..tries {
            if t > 1 << 17 {
                break;
            }
            let m2 = m + 2 * t;
            let (h2, l2) = cube(m2);
            if len(m2) == 54 && 256 - h2.leading_zeros() == n {
                let d = l2 & mask(u);
                let d = d.min((1 << u) - d);
                if d >> (q + close + 1) == 0 {
                    // rounded to 53 bits
                    let x = (h2 << (128 - u)) | (l2 >> u);
                    let x = x + ((l2 >> (u - 1)) & 1);
                    // m2 stands for a number with exponent 0, its cube is x * 2^u / 2^(3*53)
                    let e = u as i64 - 159 + 52;
                    if len(x) == 53 {
                        v.push(((e + 1023) as u64) << 52 | (x as u64 & (u64::MAX >> 12)));
                    }
                    break;
                }
            }
            match first_between(a + lim + b * (t + 1) % md, b, md, 0, 2 * lim) {
                Some(d) => t += d + 1,
                None => break,
            }
        }
    }
    v
}

pub fn cbrt_hard() -> impl Fn(&mut Rng) -> A {
    static POOL: OnceLock<Vec<u64>> = OnceLock::new();
    |r| {
        let pool = POOL.get_or_init(|| cbrt_pool(crate::core::SEED.load(std::sync::atomic::Ordering::Relaxed)));
        if pool.is_empty() {
            return [rbits(r, 64), 0, 0, 0];
        }
        let x = *r.pick(pool);
        let e = (x >> 52) as i64;
        let k = match r.below(3) { 0 => r.range(-e / 3 + 1, (2046 - e) / 3), 1 => 0, _ => r.range(-3, 3) };
        [(((e + 3 * k) as u64) << 52 | (x & (u64::MAX >> 12)) | (r.next() & 1) << 63) as u128, 0, 0, 0]
    }
}

/// x^2 + y^2 is the square of a middle between two floats but for a few units far below: with k odd,
/// (x + k/2)^2 - x^2 = k*x + k^2/4, and y^2 is that but for c.
pub fn hypot_hard() -> impl Fn(&mut Rng) -> A {
    |r| {
        for _ in 0..64 {
            let j = r.below(24) as u32;
            let k = if j == 0 { 1 } else { (1u128 << j) | (r.u128() & mask(j)) | 1 };
            // y = k*a / 2^s
            let upper = r.next() & 1 == 1;
            let s2 = (52 - j + r.below(3) as u32).saturating_sub(1) & !1;
            let n = s2 + upper as u32; // modulus
            // in the lower binade k*a^2 = 2^s2 * x + k * 2^(s2-2) + c, in the upper k*a^2 = 2^(s2+1) * x + k * 2^s2 + c
            let tie = if upper { 1u128 << s2 } else { 1u128 << (s2 - 2) };
            let (a, c) = if r.below(4) == 0 {
                // exact
                let a0 = (r.u128() | 1) << if upper { s2 / 2 } else { s2 / 2 - 1 };
                (a0 & mask(n), 0)
            } else {
                let c = small(r, k);
                let t = tie.wrapping_add(inverse(k).wrapping_mul(c));
                if t & 7 != 1 {
                    continue;
                }
                (sqrt_mod(r, t, n), c)
            };
            // more bits above
            let top = 53u32.saturating_sub(len(k) + n);
            let a = a | (r.u128() & mask(top)) << n;
            if a == 0 || len(k * a) > 53 {
                continue;
            }
            let v = (k * a).wrapping_mul(a).wrapping_sub(k.wrapping_mul(tie)).wrapping_sub(c);
            if v & mask(n) != 0 {
                continue;
            }
            let x = v >> n;
            if len(x) != 53 {
                continue;
            }
            let m = if upper { x + k } else { x };
            if upper && (len(m) != 54 || m & 1 == 0) || !upper && len(x + k / 2 + 1) != 53 {
                continue;
            }
            let y = k * a;
            let ly = len(y) as i64;
            let f = ff(64);
            let e = match r.below(4) { 0 => 1023, 1 => r.range(60, 1990), 2 => r.range(54, 90), _ => 2046 - r.range(0, 3) };
            // x has exponent e, so its unit is 2^(e - 52); y = k*a * 2^-s of those
            let ey = e - 52 - (s2 / 2) as i64 + ly - 1;
            if ey < 1 {
                continue;
            }
            let fx = f.make(r.next(), e, x);
            let fy = f.make(r.next(), ey, y << (53 - ly));
            return if r.next() & 1 == 0 { [fx, fy, 0, 0] } else { [fy, fx, 0, 0] };
        }
        [rbits(r, 64), rbits(r, 64), 0, 0]
    }
}

/// The quotient is the middle of two floats (of the precision the result has) but for a few units far below.
pub fn div_hard(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let p = f.mw + 1;
        for _ in 0..32 {
            let q = if r.next() & 1 == 0 { p } else { 1 + r.below(p as u64) as u32 };
            let b = (1u128 << f.mw) | rbits(r, f.mw) | 1;
            // m*b + c = a * 2^k
            let k = q + (r.next() & 1) as u32;
            let c = small(r, 2 * r.clone().below(4) as u128 + 1);
            let mut m = inverse(b).wrapping_mul(c.wrapping_neg()) & mask(k);
            if k == q {
                m |= 1u128 << q;
            }
            if len(m) != q + 1 {
                continue;
            }
            let a = muladd_shift(m, b, c, k);
            if len(a) != p {
                continue;
            }
            let t = if q < p { q as i64 - p as i64 + 1 } else { match r.below(3) { 0 => r.range(1, f.emax() - 1), 1 => r.range(1, 3), _ => f.bias() + r.range(-3, 3) } };
            let d = t - f.bias() + (a < b) as i64;
            let eb = r.range((-d).max(0) + 1, (f.emax() - 1 - d).min(f.emax() - 1));
            return [f.make(r.next(), eb + d, a), f.make(r.next(), eb, b), 0, 0];
        }
        [rbits(r, w), rbits(r, w), 0, 0]
    }
}

/// Significand and exponent of a positive finite double: m * 2^e.
fn parts(x: f64) -> (u128, i64) {
    let b = x.to_bits();
    let e = (b >> 52) as i64 & 0x7ff;
    let m = (b & (u64::MAX >> 12)) as u128;
    if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) }
}
fn shl(x: (u128, u128), k: u32) -> (u128, u128) {
    if k == 0 { x } else if k >= 128 { (x.1 << (k - 128), 0) } else { (x.0 << k | x.1 >> (128 - k), x.1 << k) }
}
fn add(x: (u128, u128), y: (u128, u128)) -> (u128, u128) {
    let (l, c) = x.1.overflowing_add(y.1);
    (x.0 + y.0 + c as u128, l)
}

/// Whether h is sqrt(x^2 + y^2) rounded; None if that is not decided here.
pub fn hypot_ok(x: f64, y: f64, h: f64) -> Option<bool> {
    let (x, y) = (x.abs().max(y.abs()), x.abs().min(y.abs()));
    if !x.is_finite() || !h.is_normal() || y == 0.0 {
        return None;
    }
    let ((mx, ex), (my, ey), (mh, eh)) = (parts(x), parts(y), parts(h.abs()));
    if ex - ey > 40 || eh < ey || eh - ey > 44 || mh == 1 << 52 {
        return None;
    }
    let sq = |m: u128, k: i64| shl(wide(m, m), 2 * k as u32);
    let s = add(sq(2 * mx, ex - ey), sq(2 * my, 0));
    let (lo, hi) = (sq(2 * mh - 1, eh - ey), sq(2 * mh + 1, eh - ey));
    let even = mh & 1 == 0;
    Some(h > 0.0 && if even { lo <= s && s <= hi } else { lo < s && s < hi })
}

/// Whether c is the cube root of x rounded.
pub fn cbrt_ok(x: f64, c: f64) -> Option<bool> {
    if !x.is_finite() || x == 0.0 || !c.is_normal() {
        return None;
    }
    let ((mx, ex), (mc, ec)) = (parts(x.abs()), parts(c.abs()));
    let k = ex - 3 * ec + 3;
    if k < 0 || k > 180 || mc == 1 << 52 || len(mx) + k as u32 > 250 {
        return None;
    }
    let v = shl((0, mx), k as u32);
    let cube = |m: u128| wide(m * m, m);
    Some(x.is_sign_positive() == c.is_sign_positive() && cube(2 * mc - 1) < v && v < cube(2 * mc + 1))
}
