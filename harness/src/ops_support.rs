//! powi (C22), hexadecimal floats (C23), wide integers (C24) and status flags (C26).
use crate::core::*;
use crate::ops_float::{label, wide};
use libm::support::hex_float::{Hex, parse_any, parse_hex_exact};
use libm::support::{DInt, FpResult, HInt, Int, MinInt, NarrowingDiv, Round, Status, i256, linear_mul_reduction, u256};

// ---------------------------------------------------------------- C22

/// x and n such that x^n is neither hopelessly large nor small.
fn powigen(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let nb = 1 + r.below(31);
        let n = match r.below(8) {
            0 => *r.pick(&[0i64, 1, 2, 3, -1, -2, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1, 1 << 30, -(1 << 30)]),
            1 | 2 => r.range(-40, 40),
            _ => (r.below(1 << nb) as i64) * if r.next() & 1 == 0 { 1 } else { -1 },
        };
        // |log2 x| <= bias/|n|
        let lim = (1.2 * f.bias() as f64 + f.mw as f64) / (n.abs() as f64).max(1.0);
        let x = if lim >= 2.0 {
            let l = (lim as i64).min(f.bias());
            f.make(r.next(), f.bias() + r.range(-l, l), rbits(r, f.mw))
        } else {
            // 1 + d with |d| < lim
            let k = (-(lim.log2().floor())) as i64;
            let drop = (k.max(0) as u32 + r.below(3) as u32).min(f.mw);
            let d = rbits(r, f.mw - drop.min(f.mw));
            let one = (f.bias() as u128) << f.mw;
            (if r.next() & 1 == 0 { one + d } else { one - d }) | ((r.next() & 1) as u128) << (w - 1)
        };
        [x, n as i32 as u32 as u128, 0, 0]
    }
}

pub fn c22() -> Vec<Op> {
    use compiler_builtins::float::pow::*;
    let l = label("");
    // results that are not those of the textbook computation in the same precision are recorded
    vec![
        op2("powi:32", &l, |x: f32, n: i32| __powisf2(x, n)).gen_with(powigen(32)).screen(|a, r| same(K::F(32), r.v[0], simple(f32::de(a[0]), i32::de(a[1])).en())),
        op2("powi:64", &l, |x: f64, n: i32| __powidf2(x, n)).gen_with(powigen(64)).screen(|a, r| same(K::F(64), r.v[0], simple(f64::de(a[0]), i32::de(a[1])).en())),
        op2("powi:128", &l, |x: f128, n: i32| __powitf2(x, n)).gen_with(powigen(128)).weight(0.2).screen(|a, r| same(K::F(128), r.v[0], simple(f128::de(a[0]), i32::de(a[1])).en())),
    ]
}
fn simple<T: Copy + std::ops::Mul<Output = T> + std::ops::Div<Output = T> + From<i8>>(x: T, n: i32) -> T {
    let mut m: T = 1i8.into();
    let mut a = x;
    let mut k = n.unsigned_abs();
    while k > 0 {
        if k & 1 == 1 {
            m = m * a;
        }
        k >>= 1;
        if k > 0 {
            a = a * a;
        }
    }
    if n < 0 { T::from(1i8) / m } else { m }
}

// ---------------------------------------------------------------- C23

fn status_bits(s: Status) -> u32 {
    // the flags are private; every combination is told apart by comparison with those that can be built
    let mut v = 0;
    let t = format!("{s:?}").to_uppercase();
    for (i, n) in ["INVALID", "DIVIDE_BY_ZERO", "OVERFLOW", "UNDERFLOW", "INEXACT"].iter().enumerate() {
        if t.contains(n) {
            v |= 1 << i;
        }
    }
    if v == 0 && s != Status::OK { 0x80 } else { v }
}
const MODES: [Round; 4] = [Round::Nearest, Round::Negative, Round::Positive, Round::Zero];

fn digits(r: &mut Rng, n: u64) -> String {
    let set: &[u8] = if r.next() & 1 == 0 { b"0123456789abcdef" } else { b"0123456789ABCDEF" };
    let style = r.below(4);
    (0..n)
        .map(|i| match style {
            0 => '0',
            1 => if i == 0 { *r.pick(b"18f") as char } else { *r.pick(b"0f") as char },
            2 if i > 2 => '0',
            _ => *r.pick(set) as char,
        })
        .collect()
}

/// A literal from a random derivation of the grammar, then perhaps damaged.
pub fn literal(r: &mut Rng, bits: i64, sig: i64) -> Vec<u8> {
    let eb = bits - sig - 1;
    let emax = (1i64 << (eb - 1)) - 1;
    let mut s = String::new();
    s += *r.pick(&["", "", "-", "+"]);
    if r.below(40) == 0 {
        s += *r.pick(&["inf", "INF", "InF", "nan", "NaN", "NAN", "infinity", "in", "nane", "0xinf", "qNaN", ""]);
    } else {
        s += *r.pick(&["0x", "0x", "0x", "0X"]);
        let e;
        let mode = r.below(6);
        if mode <= 2 {
            // a value at a rounding boundary: head of sig+1 bits, then a tail
            let head = (1u128 << sig) | rbits(r, sig as u32);
            let tail = match r.below(8) {
                0 => String::new(),
                1 => "8".into(),
                2 => format!("8{}1", "0".repeat(r.below(40) as usize)),
                3 => format!("7{}", "f".repeat(r.below(40) as usize)),
                4 => format!("{}1", "0".repeat(r.below(40) as usize)),
                5 => "f".repeat(1 + r.below(40) as usize),
                6 => format!("8{}", "0".repeat(r.below(40) as usize)),
                _ => { let n = r.below(40); digits(r, n) }
            };
            let h = format!("{head:x}");
            let lead = "0".repeat(if r.below(4) == 0 { r.below(40) as usize } else { 0 });
            let all = format!("{lead}{h}{tail}");
            let point = match r.below(4) {
                0 => all.len(),
                1 => 0,
                _ => r.below(all.len() as u64 + 1) as usize,
            };
            s += &all[..point];
            if point < all.len() || r.next() & 1 == 0 {
                s += ".";
                s += &all[point..];
            }
            // exponent of the unit of `head`
            let unit = match r.below(6) {
                0 => emax - sig + r.range(-2, 3),
                1 => 1 - emax - sig + r.range(-3, 3),
                2 => 1 - emax - sig - r.range(0, sig + 4),
                3 => r.range(1 - emax - sig, emax - sig),
                4 => *r.pick(&[1i64 << 31, -(1 << 31), (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 65536, 1 << 16, 1 << 20]) + r.range(-300, 300),
                _ => r.range(-200, 200),
            };
            // the point divides the digits: the unit of the last digit is 2^(e - 4*fraction digits)
            e = unit + 4 * (h.len() + lead.len()) as i64 - 4 * point as i64;
        } else {
            let m = if r.below(8) == 0 { 90 } else { 14 };
            let n = r.below(m);
            s += &digits(r, n);
            if r.below(3) > 0 {
                s += ".";
                let m = if r.below(8) == 0 { 90 } else { 14 };
            let n = r.below(m);
                s += &digits(r, n);
            }
            e = match r.below(8) {
                0 => r.range(-(1 << 33), 1 << 33),
                1 => *r.pick(&[1i64 << 31, -(1 << 31), (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 42949672959, -42949672960, 1 << 16, -(1 << 16)]) + r.range(-2, 2),
                2 => emax + r.range(-8, 8),
                3 => 1 - emax - sig + r.range(-8, 8),
                4 => r.range(-40000, 40000),
                _ => r.range(-emax.min(40000) - sig, emax.min(40000)),
            };
        }
        s += *r.pick(&["p", "p", "P"]);
        s += if e < 0 { "-" } else { *r.pick(&["", "+"]) };
        if r.below(10) == 0 {
            s += &"0".repeat(r.below(20) as usize);
        }
        s += &e.unsigned_abs().to_string();
    }
    let mut b = s.into_bytes();
    if r.below(12) == 0 {
        for _ in 0..1 + r.below(2) {
            let c = *r.pick(b"0123456789abcdefABCDEFpPxX.+-_ gGinfnaN/:@`");
            match r.below(4) {
                0 if !b.is_empty() => {
                    let i = r.below(b.len() as u64) as usize;
                    b.remove(i);
                }
                1 if !b.is_empty() => {
                    let i = r.below(b.len() as u64) as usize;
                    b[i] = c;
                }
                2 => {
                    let i = r.below(b.len() as u64 + 1) as usize;
                    b.truncate(i);
                }
                _ => {
                    let i = r.below(b.len() as u64 + 1) as usize;
                    b.insert(i, c);
                }
            }
        }
    }
    b
}
/// Every string up to length 5 over a small alphabet, by number.
fn short(mut k: u64, alpha: &[u8], prefix: &[u8]) -> Vec<u8> {
    let mut b = prefix.to_vec();
    while k > 0 {
        k -= 1;
        b.push(alpha[(k % alpha.len() as u64) as usize]);
        k /= alpha.len() as u64;
    }
    b
}

const FORMATS: [(u32, u32); 12] = [(16, 10), (32, 23), (64, 52), (128, 112), (16, 7), (8, 3), (6, 2), (5, 2), (80, 63), (128, 119), (31, 1), (40, 10)];

fn parse_record(num: u64, b: &[u8], bits: u32, sig: u32) -> (String, String) {
    let mut res = String::new();
    let Ok(s) = std::str::from_utf8(b) else { unreachable!() };
    for m in MODES {
        match std::panic::catch_unwind(|| parse_any(s, bits, sig, m)) {
            Err(_) => return (args(num, b), "!PANIC".into()),
            Ok(Err(_)) => res += "1 0 0 ",
            Ok(Ok((v, st))) => res += &format!("0 {v:x} {:x} ", status_bits(st)),
        }
    }
    match std::panic::catch_unwind(|| parse_hex_exact(s, bits, sig)) {
        Err(_) => return (args(num, b), "!PANIC".into()),
        Ok(Err(_)) => res += "1 0",
        Ok(Ok(v)) => res += &format!("0 {v:x}"),
    }
    fn args(num: u64, b: &[u8]) -> String {
        format!("{num:x} b:{}", b.iter().map(|c| format!("{c:02x}")).collect::<String>())
    }
    (args(num, b), res)
}

pub fn c23() -> Vec<Op> {
    let l = label("");
    let mut v = vec![];
    for (bits, sig) in FORMATS {
        let name = format!("parse:{bits}:{sig}");
        v.push(
            history(&name, &l, 64, move |num, want| {
                let mut r = Rng::new(num);
                let b = literal(&mut r, bits as i64, sig as i64);
                let (a, res) = parse_record(num, &b, bits, sig);
                let susp = res.starts_with('!');
                (susp, if want || susp { Some((a, res)) } else { None })
            })
            .weight(if bits == 64 || bits == 128 || bits == 32 || bits == 16 { 2.0 } else { 1.0 })
            .base(if sig > 100 || bits == 64 { 4000 } else { 2000 }),
        );
        let name = format!("short:{bits}:{sig}");
        v.push(
            history(&name, &l, 64, move |num, want| {
                let (alpha, prefix): (&[u8], &[u8]) = match num % 3 {
                    0 => (b"0x1.p-f", b""),
                    1 => (b"08.1p-", b"0x"),
                    _ => (b"018f.", b"0x"),
                };
                let mut b = short((num / 3) % 50000, alpha, prefix);
                if num % 3 == 2 {
                    b.extend_from_slice(format!("p{}", (num / 150000) as i64 % 41 - 20).as_bytes());
                }
                let (a, res) = parse_record(num, &b, bits, sig);
                let susp = res.starts_with('!');
                (susp, if want || susp { Some((a, res)) } else { None })
            })
            .base(600),
        );
    }
    fn printing<F: Val + libm::support::Float + 'static>(w: u32, l: &str, hf: fn(&str) -> F, v: &mut Vec<Op>) {
        v.push(history(&format!("print:{w}"), l, 64, move |num, want| {
            let mut r = Rng::new(num);
            let x = if num % 5 == 0 { *r.pick(&lattice(K::F(w))) } else { rval(&mut r, K::F(w), None) };
            let t = format!("{}", Hex(F::de(x)));
            let t2 = format!("{:?}", Hex(F::de(x)));
            let t3 = format!("{:x}", Hex(F::de(x)));
            let back = std::panic::catch_unwind(|| hf(&t));
            let mut susp = t != t2 || t != t3;
            let res = match back {
                Ok(y) => {
                    susp |= y.en() != x;
                    format!("b:{} 1 {:x}", t.bytes().map(|c| format!("{c:02x}")).collect::<String>(), y.en())
                }
                Err(_) => format!("b:{} 0 0", t.bytes().map(|c| format!("{c:02x}")).collect::<String>()),
            };
            let res = if t != t2 || t != t3 { "!DIFFERS".into() } else { res };
            let susp = susp && !is_nan(K::F(w), x);
            (susp, if want || susp { Some((format!("{num:x} {x:x}"), res)) } else { None })
        }));
    }
    use libm::support::hex_float::*;
    printing::<f16>(16, &l, hf16, &mut v);
    printing::<f32>(32, &l, hf32, &mut v);
    printing::<f64>(64, &l, hf64, &mut v);
    printing::<f128>(128, &l, hf128, &mut v);
    v
}

// ---------------------------------------------------------------- C24

fn u2(h: u128, l: u128) -> u256 {
    u256 { hi: h, lo: l }
}
fn i2(h: u128, l: u128) -> i256 {
    i256 { hi: h as i128, lo: l }
}
fn pair(r: &mut Rng) -> (u128, u128) {
    match r.below(6) {
        0 => (0, rbits(r, 128)),
        1 => (rbits(r, 128), *r.pick(&[0, 1, u128::MAX, u128::MAX - 1])),
        2 => (u128::MAX, rbits(r, 128)),
        3 => (*r.pick(&[0, 1, 1 << 127, (1 << 127) - 1, u128::MAX]), rbits(r, 128)),
        _ => (rbits(r, 128), rbits(r, 128)),
    }
}
fn pairs(r: &mut Rng) -> A {
    let (a, b) = pair(r);
    let (c, d) = match r.below(6) {
        0 => (a, b),
        1 => (a, rbits(r, 128)),
        2 => (!a, !b),
        3 => (!a, b.wrapping_neg().wrapping_add(r.below(3) as u128)),
        _ => pair(r),
    };
    [a, b, c, d]
}
fn pshift(r: &mut Rng) -> A {
    let (a, b) = pair(r);
    let s = match r.below(4) {
        0 => *r.pick(&[0u64, 1, 127, 128, 129, 255, 64, 63, 65]),
        _ => r.below(256),
    };
    [a, b, s as u128, 0]
}
fn exact_add(a: (u128, u128), b: (u128, u128)) -> (u128, u128, bool) {
    let (l, c) = a.1.overflowing_add(b.1);
    let (h, c1) = a.0.overflowing_add(b.0);
    let (h, c2) = h.overflowing_add(c as u128);
    (h, l, c1 | c2)
}
fn exact_sub(a: (u128, u128), b: (u128, u128)) -> (u128, u128, bool) {
    let (l, c) = a.1.overflowing_sub(b.1);
    let (h, c1) = a.0.overflowing_sub(b.0);
    let (h, c2) = h.overflowing_sub(c as u128);
    (h, l, c1 | c2)
}
const SB: u128 = 1 << 127;

/// x * 2^e mod y by doubling.
fn slow_red(mut x: u128, e: u32, y: u128) -> u128 {
    x %= y;
    for _ in 0..e {
        x <<= 1;
        if x >= y {
            x -= y;
        }
    }
    x
}

pub fn c24() -> Vec<Op> {
    let l = label("");
    let l = &l[..];
    let mut v: Vec<Op> = vec![];
    let ops4 = |n: &str, f: fn(u128, u128, u128, u128) -> (u128, u128)| op4(n, l, f).gen_with(pairs).no_lattice();
    v.push(ops4("add256:0", |a, b, c, d| { let r = u2(a, b) + u2(c, d); (r.hi, r.lo) })
        .filter(|a| !exact_add((a[0], a[1]), (a[2], a[3])).2)
        .screen(|a, r| { let e = exact_add((a[0], a[1]), (a[2], a[3])); (e.0, e.1) == (r.v[0], r.v[1]) }));
    v.push(ops4("add256:1", |a, b, c, d| { let r = i2(a, b) + i2(c, d); (r.hi as u128, r.lo) })
        .filter(|a| { let e = exact_add((a[0], a[1]), (a[2], a[3])); (a[0] ^ a[2]) & SB != 0 || (e.0 ^ a[0]) & SB == 0 })
        .screen(|a, r| { let e = exact_add((a[0], a[1]), (a[2], a[3])); (e.0, e.1) == (r.v[0], r.v[1]) }));
    v.push(ops4("sub256:0", |a, b, c, d| { let r = u2(a, b) - u2(c, d); (r.hi, r.lo) })
        .filter(|a| (a[0], a[1]) >= (a[2], a[3]))
        .screen(|a, r| { let e = exact_sub((a[0], a[1]), (a[2], a[3])); (e.0, e.1) == (r.v[0], r.v[1]) }));
    v.push(ops4("sub256:1", |a, b, c, d| { let r = i2(a, b) - i2(c, d); (r.hi as u128, r.lo) })
        .filter(|a| { let e = exact_sub((a[0], a[1]), (a[2], a[3])); (a[0] ^ a[2]) & SB == 0 || (e.0 ^ a[0]) & SB == 0 })
        .screen(|a, r| { let e = exact_sub((a[0], a[1]), (a[2], a[3])); (e.0, e.1) == (r.v[0], r.v[1]) }));
    v.push(ops4("or256:0", |a, b, c, d| { let r = u2(a, b) | u2(c, d); (r.hi, r.lo) }).screen(|a, r| (a[0] | a[2], a[1] | a[3]) == (r.v[0], r.v[1])));
    v.push(ops4("or256:1", |a, b, c, d| { let r = i2(a, b) | i2(c, d); (r.hi as u128, r.lo) }).screen(|a, r| (a[0] | a[2], a[1] | a[3]) == (r.v[0], r.v[1])));
    fn ord<T: Ord>(a: T, b: T) -> u8 {
        let o = a.cmp(&b) as i8;
        // every comparison operator has to agree
        let ok = (a < b) == (o < 0) && (a <= b) == (o <= 0) && (a > b) == (o > 0) && (a >= b) == (o >= 0) && (a == b) == (o == 0) && (a != b) == (o != 0);
        if ok { (o + 1) as u8 } else { 9 }
    }
    v.push(op4("cmp256:0", l, |a: u128, b: u128, c: u128, d: u128| ord(u2(a, b), u2(c, d))).gen_with(pairs).no_lattice()
        .screen(|a, r| r.v[0] as i64 - 1 == (a[0], a[1]).cmp(&(a[2], a[3])) as i64));
    v.push(op4("cmp256:1", l, |a: u128, b: u128, c: u128, d: u128| ord(i2(a, b), i2(c, d))).gen_with(pairs).no_lattice()
        .screen(|a, r| r.v[0] as i64 - 1 == (a[0] as i128, a[1]).cmp(&(a[2] as i128, a[3])) as i64));
    v.push(op2("not256:0", l, |a: u128, b: u128| { let r = !u2(a, b); (r.hi, r.lo) }));
    v.push(op2("not256:1", l, |a: u128, b: u128| { let r = !i2(a, b); (r.hi as u128, r.lo) }));
    let sh = |n: &str, f: fn(u128, u128, u32) -> (u128, u128)| op3(n, l, f).gen_with(pshift).filter(|a| a[2] < 256).no_lattice();
    fn rshl(h: u128, l: u128, s: u32) -> (u128, u128) {
        (0..s).fold((h, l), |(h, l), _| (h << 1 | l >> 127, l << 1))
    }
    fn rshr(h: u128, l: u128, s: u32, sg: bool) -> (u128, u128) {
        (0..s).fold((h, l), |(h, l), _| ((if sg { ((h as i128) >> 1) as u128 } else { h >> 1 }), l >> 1 | h << 127))
    }
    v.push(sh("shl256:0", |a, b, s| { let r = u2(a, b) << s; (r.hi, r.lo) }).screen(|a, r| rshl(a[0], a[1], a[2] as u32) == (r.v[0], r.v[1])).weight(0.3));
    v.push(sh("shl256:1", |a, b, s| { let r = i2(a, b) << s; (r.hi as u128, r.lo) }).screen(|a, r| rshl(a[0], a[1], a[2] as u32) == (r.v[0], r.v[1])).weight(0.3));
    v.push(sh("shr256:0", |a, b, s| { let r = u2(a, b) >> s; (r.hi, r.lo) }).screen(|a, r| rshr(a[0], a[1], a[2] as u32, false) == (r.v[0], r.v[1])).weight(0.3));
    v.push(sh("shr256:1", |a, b, s| { let r = i2(a, b) >> s; (r.hi as u128, r.lo) }).screen(|a, r| rshr(a[0], a[1], a[2] as u32, true) == (r.v[0], r.v[1])).weight(0.3));
    v.push(op2("sign256:1", l, |a: u128, b: u128| { let r = u2(a, b).signed(); (r.hi as u128, r.lo) }));
    v.push(op2("sign256:0", l, |a: u128, b: u128| { let r = i2(a, b).unsigned(); (r.hi, r.lo) }));

    /// A double-width integer as (high, low) 128-bit words.
    trait Words {
        fn words(self) -> (u128, u128);
        fn build(h: u128, l: u128) -> Self;
    }
    macro_rules! words { ($($t:ty, $u:ty);*) => { $(impl Words for $t {
        fn words(self) -> (u128, u128) { (0, self as $u as u128) }
        fn build(_h: u128, l: u128) -> Self { l as $t }
    })* } }
    words!(u16, u16; u32, u32; u64, u64; u128, u128; i16, u16; i32, u32; i64, u64; i128, u128);
    impl Words for u256 {
        fn words(self) -> (u128, u128) { (self.hi, self.lo) }
        fn build(h: u128, l: u128) -> Self { u2(h, l) }
    }
    impl Words for i256 {
        fn words(self) -> (u128, u128) { (self.hi as u128, self.lo) }
        fn build(h: u128, l: u128) -> Self { i2(h, l) }
    }
    macro_rules! halves { ($($h:ty, $w:expr, $s:expr);*) => { $(
        v.push(op1(&format!("widen:{}:{}", $w, $s), l, |x: $h| HInt::widen(x).words()).weight(0.2));
        v.push(op1(&format!("zwiden:{}:{}", $w, $s), l, |x: $h| HInt::zero_widen(x).words()).weight(0.2));
        v.push(op1(&format!("widenhi:{}:{}", $w, $s), l, |x: $h| HInt::widen_hi(x).words()).weight(0.2));
        v.push(op2(&format!("zwmul:{}:{}", $w, $s), l, |x: $h, y: $h| HInt::zero_widen_mul(x, y).words()).screen(|a, r| {
            let e = wide(a[0], a[1]);
            (e.0, e.1) == (r.v[0], r.v[1])
        }));
        v.push(op2(&format!("lohi:{}:{}", $w, $s), l, |h: u128, x: u128| {
            let d = <<$h as HInt>::D as Words>::build(h, x);
            let (a, b) = d.lo_hi();
            if a != d.lo() || b != d.hi() || <$h as HInt>::D::from_lo_hi(a, b) != d { (0u128, 0u128, 1u8) } else { (a.en(), b.en(), 0u8) }
        }));
        v.push(op2(&format!("fromlohi:{}:{}", $w, $s), l, |x: $h, y: $h| <$h as HInt>::D::from_lo_hi(x, y).words()));
    )* } }
    halves!(u8, 8, 0; u16, 16, 0; u32, 32, 0; u64, 64, 0; u128, 128, 0; i8, 8, 1; i16, 16, 1; i32, 32, 1; i64, 64, 1; i128, 128, 1);
    macro_rules! wmuls { ($($h:ty, $w:expr, $s:expr);*) => { $(
        v.push(op2(&format!("wmul:{}:{}", $w, $s), l, |x: $h, y: $h| HInt::widen_mul(x, y).words()));
    )* } }
    wmuls!(u8, 8, 0; u16, 16, 0; u32, 32, 0; u64, 64, 0; u128, 128, 0; i8, 8, 1; i16, 16, 1; i32, 32, 1; i64, 64, 1);

    macro_rules! ndivs { ($($h:ty, $w:expr);*) => { $(
        v.push(op3(&format!("ndiv:{}", $w), l, |h: $h, x: $h, n: $h| {
            match <$h as HInt>::D::from_lo_hi(x, h).checked_narrowing_div_rem(n) {
                None => (0u8, 0 as $h, 0 as $h),
                Some((q, r)) => (1u8, q, r),
            }
        }).gen_with(|r| {
            // from a quotient and a remainder, so that the division does not overflow
            let m = mask($w);
            let mut n = rval(r, K::U($w), None);
            if r.next() & 1 == 0 { n |= 1u128 << ($w - 1); }
            let n = n.max(1);
            let q = match r.below(4) { 0 => m, 1 => m - r.below(3) as u128, _ => rbits(r, $w) };
            let rem = match r.below(3) { 0 => 0, 1 => n - 1, _ => rbits(r, $w) % n };
            let (h, lo) = wide(q, n);
            let (lo, c) = lo.overflowing_add(rem);
            let h = h + c as u128;
            if $w == 128 { [h, lo, n, 0] } else { [(lo >> $w) & m, lo & m, n, 0] }
        }).gen_with(|r| {
            // high word equal or next to the divisor's: the estimated quotient is off
            let m = mask($w);
            let n = rbits(r, $w) | 1u128 << ($w - 1);
            let h = n.wrapping_sub(r.below(4) as u128) & m;
            [h, rbits(r, $w), n, 0]
        }).screen(|a, r| {
            if a[0] >= a[2] { return r.v[0] == 0; }
            let (h, lo) = wide(r.v[1], a[2]);
            let (lo, c) = lo.overflowing_add(r.v[2]);
            let h = h.wrapping_add(c as u128);
            let (eh, el) = if $w == 128 { (a[0], a[1]) } else { (0, a[0] << ($w % 128) | a[1]) };
            r.v[0] == 1 && r.v[2] < a[2] && (h, lo) == (eh, el)
        }));
    )* } }
    ndivs!(u8, 8; u16, 16; u32, 32; u64, 64; u128, 128);

    fn red<T: Val + Int + 'static>(w: u32, l: &str, f: fn(T, u32, T) -> T) -> Op {
        let top = mask(w) >> 2;
        op3(&format!("modred:{w}"), l, f).gen_with(move |r| {
            let k = 1 + r.below(w as u64 - 2) as u32;
            let y = match r.below(3) {
                0 => top - rbits(r, w.min(20) - 4),
                1 => rbits(r, w) & top,
                _ => rbits(r, w) & mask(k),
            };
            let y = y.clamp(1, top);
            let x = match r.below(4) {
                0 => 2 * y - 1 - (r.below(4) as u128).min(2 * y - 1),
                1 => rbits(r, w) % (2 * y),
                2 => y,
                _ => y - 1,
            };
            let w = w as u64;
            let e = match r.below(5) {
                0 => r.below(3 * w),
                1 => r.below(2100),
                2 => w - 1 + r.below(4),
                3 => (w - 1) * r.below(20) + r.below(3),
                _ => r.below(600),
            };
            [x, e as u128, y, 0]
        })
        .filter(move |a| a[2] >= 1 && a[2] <= top && a[0] < 2 * a[2] && a[1] < 40000)
        .no_lattice()
        .screen(|a, r| r.v[0] == slow_red(a[0], a[1] as u32, a[2]))
        .weight(0.05)
    }
    v.push(red::<u8>(8, l, linear_mul_reduction));
    v.push(red::<u16>(16, l, linear_mul_reduction));
    v.push(red::<u32>(32, l, linear_mul_reduction));
    v.push(red::<u64>(64, l, linear_mul_reduction));
    v.push(red::<u128>(128, l, linear_mul_reduction));

    macro_rules! ints { ($($t:ty, $w:expr, $s:expr);*) => { $(
        v.push(op3(&format!("cadd:{}:{}", $w, $s), l, |a: $t, b: $t, c: bool| Int::carrying_add(a, b, c)).filter(|a| a[2] < 2).weight(0.2));
        v.push(op3(&format!("bsub:{}:{}", $w, $s), l, |a: $t, b: $t, c: bool| Int::borrowing_sub(a, b, c)).filter(|a| a[2] < 2).weight(0.2));
        v.push(op2(&format!("absdiff:{}:{}", $w, $s), l, |a: $t, b: $t| Int::abs_diff(a, b)).weight(0.2));
        v.push(op2(&format!("lshr:{}:{}", $w, $s), l, |a: $t, b: u32| Int::logical_shr(a, b)).filter(|a| a[1] < $w)
            .gen_with(|r| [rbits(r, $w), r.below($w) as u128, 0, 0]).no_lattice().weight(0.2));
    )* } }
    ints!(u8, 8, 0; u16, 16, 0; u32, 32, 0; u64, 64, 0; u128, 128, 0; i8, 8, 1; i16, 16, 1; i32, 32, 1; i64, 64, 1; i128, 128, 1);
    macro_rules! sints { ($($t:ty, $w:expr);*) => { $(
        v.push(op1(&format!("uabs:{}", $w), l, |a: $t| Int::unsigned_abs(a)).weight(0.2));
    )* } }
    sints!(i8, 8; i16, 16; i32, 32; i64, 64; i128, 128);
    v
}

// ---------------------------------------------------------------- C26

pub fn c26() -> Vec<Op> {
    use libm::generic as g;
    let l = label("");
    let l = &l[..];
    let mut v: Vec<Op> = vec![];
    fn sb<F: Val>(r: FpResult<F>) -> (F, u32) {
        (r.val, status_bits(r.status))
    }
    macro_rules! unary { ($($t:ty, $w:expr);*) => { $(
        v.push(op1(&format!("ceil:{}", $w), l, |x: $t| sb(g::ceil_status(x))).gen_with(crate::ops_exact::roundgen($w)));
        v.push(op1(&format!("floor:{}", $w), l, |x: $t| sb(g::floor_status(x))).gen_with(crate::ops_exact::roundgen($w)));
        v.push(op1(&format!("trunc:{}", $w), l, |x: $t| sb(g::trunc_status(x))).gen_with(crate::ops_exact::roundgen($w)));
        v.push(op1(&format!("rint:{}", $w), l, |x: $t| sb(g::rint_status(x))).gen_with(crate::ops_exact::roundgen($w)));
        v.push(op1(&format!("sqrt:{}", $w), l, |x: $t| sb(g::sqrt_round(x, Round::Nearest))));
        v.push(op3(&format!("fma:{}", $w), l, |x: $t, y: $t, z: $t| sb(g::fma_round(x, y, z, Round::Nearest))).gen_with(crate::ops_exact::fmagen($w)).gen_with(tinyfma($w)).no_lattice().base(4000));
    )* } }
    unary!(f16, 16; f32, 32; f64, 64; f128, 128);
    v.push(op3("fmaw:32", l, |x: f32, y: f32, z: f32| sb(g::fma_wide_round(x, y, z, Round::Nearest))).gen_with(crate::ops_exact::fmagen(32)).gen_with(tinyfma(32)).no_lattice().base(4000));
    v
}
/// Products and sums around the bottom of the exponent range.
fn tinyfma(w: u32) -> impl Fn(&mut Rng) -> A {
    move |r| {
        let f = ff(w);
        let t = r.range(-(f.mw as i64) - 4, 6);
        let ex = r.range(0.max(t), f.emax() - 1);
        let ey = (t + f.bias() - ex).clamp(0, f.emax() - 1);
        let ez = if r.next() & 1 == 0 { r.range(0, 3) } else { r.range(0, f.mw as i64) };
        [f.make(r.next(), ex, rbits(r, f.mw)), f.make(r.next(), ey, rbits(r, f.mw)), f.make(r.next(), ez, rbits(r, f.mw)), 0]
    }
}
