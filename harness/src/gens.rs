//! Operands that exercise rounding, cancellation and correction steps.
use crate::core::*;

/// 128 x 128 -> 256 bit product.
pub fn wide(a: u128, b: u128) -> (u128, u128) {
    let m = u64::MAX as u128;
    let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
    let t = a0 * b0;
    let u = a1 * b0 + (t >> 64);
    let v = a0 * b1 + (u & m);
    (a1 * b1 + (u >> 64) + (v >> 64), (v << 64) | (t & m))
}
/// The top `k` bits of the product, truncated.
pub fn prod_top(a: u128, b: u128, k: u32) -> u128 {
    let (h, l) = wide(a, b);
    let len = if h != 0 { 256 - h.leading_zeros() } else { 128 - l.leading_zeros() };
    if len <= k {
        return l << (k - len);
    }
    let s = len - k;
    if s >= 128 { h >> (s - 128) } else if s == 0 { l } else { (h << (128 - s)) | (l >> s) }
}

/// A mantissa (without hidden bit) whose tail beyond a random position is a tie pattern.
pub fn tie_mant(r: &mut Rng, mw: u32) -> u128 {
    let k = 1 + r.below(mw as u64) as u32;
    let head = r.u128() & mask(mw) & !mask(k);
    let half = 1u128 << (k - 1);
    head | match r.below(5) {
        0 => half,
        1 => half - 1,
        2 => (half + 1) & mask(k),
        3 => 0,
        _ => mask(k),
    }
}
pub fn mant(r: &mut Rng, mw: u32) -> u128 {
    if r.next() & 1 == 0 { tie_mant(r, mw) } else { rbits(r, mw) }
}

pub fn addgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let p = f.mw as i64 + 1;
        let a = rfloat(r, w, None);
        let ea = f.expo(a);
        let b = match r.below(4) {
            0 => {
                // close to -a: cancellation
                let d = rbits(r, 1 + r.clone().below(f.mw as u64) as u32);
                let x = if r.next() & 1 == 0 { a.wrapping_add(d) } else { a.wrapping_sub(d) };
                (x ^ (1u128 << (w - 1))) & mask(w)
            }
            1 => {
                let m = mant(r, f.mw);
                f.make(r.next(), ea - r.range(p - 3, p + 4), m)
            }
            2 => {
                let m = mant(r, f.mw);
                f.make(r.next(), ea - r.range(0, p + 1), m)
            }
            _ => {
                // sums that carry into the next binade, or into infinity
                let m = mask(f.mw) & !rbits(r, 1 + r.clone().below(f.mw as u64) as u32);
                f.make((a >> (w - 1)) as u64, ea - r.range(0, p), m)
            }
        };
        if r.next() & 1 == 0 { [a, b, 0, 0] } else { [b, a, 0, 0] }
    }
}

/// Biased exponents around which results of a format become special.
pub fn target(r: &mut Rng, f: &FF) -> i64 {
    let p = f.mw as i64 + 1;
    match r.below(5) {
        0 | 1 => r.range(-p - 3, 3),
        2 => f.emax() - r.range(-2, 3),
        3 => r.range(-p, f.emax() + 1),
        _ => f.bias() + r.range(-3, 3),
    }
}

pub fn fmulgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let t = target(r, &f);
        // ea + eb - bias = t
        let ea = r.range((t + f.bias() - f.emax() + 1).max(0).min(f.emax()), (t + f.bias()).clamp(0, f.emax()));
        let eb = t + f.bias() - ea;
        let (ma, mb) = match r.below(5) {
            0 => (mant(r, f.mw), mant(r, f.mw)),
            3 | 4 => {
                let (a, b) = prodlow(r, f.mw + 1);
                // normalise; the exponents no longer matter exactly
                let n = |x: u128| (x << (x.leading_zeros() - (127 - f.mw))) & mask(f.mw);
                (n(a), n(b))
            }
            1 => {
                // short factors: exact products, ties
                let k = r.below(f.mw as u64 + 1) as u32;
                let a = r.u128() & mask(f.mw) & !mask(k);
                let b = r.u128() & mask(f.mw) & !mask(f.mw - k.min(f.mw).max(0));
                (a, b)
            }
            _ => {
                // b close to m/a for a short m: products next to ties
                let a = mant(r, f.mw) | 1u128 << f.mw;
                let q = mant(r, f.mw) | 1u128 << f.mw;
                (a & mask(f.mw), div_top(q, a, f.mw + 1).wrapping_add(r.below(3) as u128).wrapping_sub(1) & mask(f.mw))
            }
        };
        [f.make(r.next(), ea, ma), f.make(r.next(), eb, mb), 0, 0]
    }
}

/// Odd factors of at most p bits whose product has a long prescribed tail: a lone bit far below
/// the others, a tie with a lone bit far below it, or all ones.
pub fn prodlow(r: &mut Rng, p: u32) -> (u128, u128) {
    let extra = if r.below(32) == 0 { r.below(12) as u32 } else { 0 };
    let g = (2 + r.below(p as u64 - 1) as u32 + extra).min(127);
    let h = 1 + r.below(g as u64 - 1) as u32;
    for _ in 0..1u32 << extra.min(11) {
        let k = 2 + r.below(p as u64 - 1) as u32;
        let a = (1u128 << (k - 1)) | (r.u128() & mask(k)) | 1;
        let c = match r.below(4) {
            0 => 1,
            1 => (1u128 << h) | 1,
            2 => mask(g),
            _ => (1u128 << h) - 1,
        };
        let mut inv = a;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(inv)));
        }
        let b = inv.wrapping_mul(c) & mask(g);
        if b >> p == 0 && b != 0 {
            let hi = if g < p && r.next() & 1 == 0 { (r.u128() << g) & mask(p) } else { 0 };
            return (a, b | hi);
        }
    }
    (1, 1)
}

/// q/a scaled so that it has k bits.
pub fn div_top(q: u128, a: u128, k: u32) -> u128 {
    let mut rem = q;
    let mut out = 0u128;
    for _ in 0..2 * k + 2 {
        if out >> (k - 1) != 0 {
            break;
        }
        out <<= 1;
        if rem >= a {
            out |= 1;
            rem -= a;
        }
        rem <<= 1;
    }
    out
}

pub fn fdivgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let t = target(r, &f);
        // ea - eb + bias = t
        let d = t - f.bias();
        let eb = r.range((-d).max(0).min(f.emax()), (f.emax() - d).clamp(0, f.emax()));
        let ea = eb + d + r.range(-1, 1);
        let mb = mant(r, f.mw) | 1u128 << f.mw;
        let ma = match r.below(3) {
            0 => mant(r, f.mw),
            _ => {
                // a next to q*b, with q a tie of some precision
                let k = 1 + r.below(f.mw as u64 + 2) as u32;
                let q = (1u128 << k) | (r.u128() & mask(k)) | (r.next() & 1) as u128;
                prod_top(q, mb, f.mw + 1).wrapping_add(r.below(3) as u128).wrapping_sub(1)
            }
        };
        [f.make(r.next(), ea, ma), f.make(r.next(), eb, mb), 0, 0]
    }
}

pub fn cmpgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let a = rfloat(r, w, None);
        let s = 1u128 << (w - 1);
        let b = match r.below(6) {
            0 => a,
            1 => a ^ s,
            2 => a.wrapping_add(1) & mask(w),
            3 => a.wrapping_sub(1) & mask(w),
            4 => {
                // differ in one bit
                a ^ (1u128 << r.below(w as u64))
            }
            _ => {
                let m = rbits(r, f.mw);
                f.make(r.next(), f.emax(), m)
            }
        };
        if r.next() & 1 == 0 { [a, b, 0, 0] } else { [b, a, 0, 0] }
    }
}

pub fn truncgen(w: u32, v: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let (f, g) = (ff(w), ff(v));
        let p = g.mw as i64 + 1;
        let e = match r.below(4) {
            0 => 1 - g.bias() - r.range(-2, p + 3),
            1 => g.bias() + r.range(-1, 3),
            2 => r.range(1 - g.bias() - p - 1, g.bias() + 1),
            _ => *r.pick(&[1 - g.bias(), -g.bias(), 1 - g.bias() - p, 2 - g.bias() - p]),
        } + f.bias();
        let mut m = match r.below(3) {
            0 => tie_mant(r, f.mw),
            1 => {
                // tie at the destination's own precision
                let k = f.mw - g.mw;
                let h = r.u128() & mask(f.mw) & !mask(k);
                let half = 1u128 << (k - 1);
                h | match r.below(4) {
                    0 => half,
                    1 => half - 1,
                    2 => half + 1,
                    _ => half | 1u128 << r.below(k as u64),
                }
            }
            _ => rbits(r, f.mw),
        };
        if r.below(16) == 0 {
            m = mask(f.mw) ^ (m & mask(f.mw - g.mw));
        }
        [f.make(r.next(), e, m), 0, 0, 0]
    }
}

pub fn i2fgen(w: u32, v: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let g = ff(v);
        let len = 1 + r.below(w as u64) as u32;
        let mut x = (1u128 << (len - 1)) | (r.u128() & mask(len - 1));
        if len > g.mw + 1 {
            let k = len - g.mw - 1;
            let half = 1u128 << (k - 1);
            x &= !mask(k);
            if r.below(4) == 0 {
                x = mask(len) & !mask(k);
            }
            x |= match r.below(6) {
                0 => half,
                1 => half - 1,
                2 => (half + 1) & mask(k),
                3 => half | 1u128 << r.below(k as u64),
                4 => 1,
                _ => mask(k),
            };
        }
        if r.next() & 1 == 0 { [x & mask(w), 0, 0, 0] } else { [x.wrapping_neg() & mask(w), 0, 0, 0] }
    }
}

pub fn f2igen(w: u32, v: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let e = f.bias() + match r.below(3) {
            0 => v as i64 + r.range(-3, 2),
            1 => r.range(-3, v as i64 + 2),
            _ => r.range(-2, 3),
        };
        let m = mant(r, f.mw);
        let x = f.make(r.next(), e, m);
        [if r.below(4) == 0 { x.wrapping_add(r.below(3) as u128).wrapping_sub(1) & mask(w) } else { x }, 0, 0, 0]
    }
}

pub fn divgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        // dividends built as q*d + t with t near 0 or near d: quotient corrections live there
        let k = 1 + r.below(w as u64) as u32;
        let mut d = rbits(r, k);
        if d == 0 {
            d = 1;
        }
        let room = d.leading_zeros().saturating_sub(128 - w);
        let kq = 1 + r.below(room.max(1) as u64) as u32;
        let q = rbits(r, kq);
        let t = match r.below(4) {
            0 => r.below(3) as u128 % d,
            1 => d - 1 - (r.below(3) as u128 % d),
            2 => r.u128() % d,
            _ => 0,
        };
        let n = q.wrapping_mul(d).wrapping_add(t) & mask(w);
        let neg = |x: u128, b: u64| if b & 1 == 1 { x.wrapping_neg() & mask(w) } else { x };
        let s = if r.next() & 3 == 0 { r.next() } else { 0 };
        [neg(n, s), neg(d, s >> 1), 0, 0]
    }
}

pub fn mulgen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        // products near the overflow boundary
        let k = 1 + r.below(w as u64) as u32;
        let mut a = rbits(r, k);
        if a == 0 {
            a = 1;
        }
        let lim = mask(w) >> (r.next() & 1);
        let b = (lim / a).wrapping_add(r.below(5) as u128).wrapping_sub(2);
        let neg = |x: u128, b: u64| if b & 1 == 1 { x.wrapping_neg() & mask(w) } else { x & mask(w) };
        let s = if r.next() & 1 == 0 { r.next() } else { 0 };
        [neg(a, s), neg(b, s >> 1), 0, 0]
    }
}
