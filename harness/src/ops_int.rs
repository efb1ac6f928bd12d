//! Integer intrinsics (C01, C02).
use crate::core::*;
pub use crate::gens::*;
use compiler_builtins::int::{addsub, bswap, leading_zeros, mul, sdiv, shift, trailing_zeros, udiv};

pub fn c01() -> Vec<Op> {
    let mut v = vec![];
    let cfg = crate::CFG;
    macro_rules! fam {
        ($u:ty, $i:ty, $w:expr, $udiv:ident, $umod:ident, $udm:ident, $sdiv:ident, $smod:ident, $sdm:ident) => {{
            let nz = |a: &A| a[1] & mask($w) != 0;
            let mut add = |o: Op| v.push(o.filter(nz).gen_with(divgen($w)));
            add(op2(stringify!($udiv), cfg, |a: $u, b: $u| udiv::$udiv(a, b)).ref2(|a: $u, b: $u| a / b));
            add(op2(stringify!($umod), cfg, |a: $u, b: $u| udiv::$umod(a, b)).ref2(|a: $u, b: $u| a % b));
            add(op2(stringify!($udm), cfg, |a: $u, b: $u| {
                let mut r: $u = !0;
                let q = udiv::$udm(a, b, Some(&mut r));
                (q, r)
            })
            .ref2(|a: $u, b: $u| (a / b, a % b)));
            add(op2(concat!(stringify!($udm), "_null"), cfg, |a: $u, b: $u| udiv::$udm(a, b, None)).ref2(|a: $u, b: $u| a / b));
            add(op2(stringify!($sdiv), cfg, |a: $i, b: $i| sdiv::$sdiv(a, b)).ref2(|a: $i, b: $i| a.wrapping_div(b)));
            add(op2(stringify!($smod), cfg, |a: $i, b: $i| sdiv::$smod(a, b)).ref2(|a: $i, b: $i| a.wrapping_rem(b)));
            add(op2(stringify!($sdm), cfg, |a: $i, b: $i| {
                let mut r: $i = 0x55;
                let q = sdiv::$sdm(a, b, &mut r);
                (q, r)
            })
            .ref2(|a: $i, b: $i| (a.wrapping_div(b), a.wrapping_rem(b))));
        }};
    }
    fam!(u32, i32, 32, __udivsi3, __umodsi3, __udivmodsi4, __divsi3, __modsi3, __divmodsi4);
    fam!(u64, i64, 64, __udivdi3, __umoddi3, __udivmoddi4, __divdi3, __moddi3, __divmoddi4);
    fam!(u128, i128, 128, __udivti3, __umodti3, __udivmodti4, __divti3, __modti3, __divmodti4);
    let nz = |a: &A| a[1] != 0;
    v.push(
        op2("u128_div_rem", "sparc", |a: u128, b: u128| {
            let mut r = 0;
            let q = udiv::u128_divide_sparc(a, b, &mut r);
            (q, r)
        })
        .ref2(|a: u128, b: u128| (a / b, a % b))
        .filter(nz)
        .gen_with(divgen(128))
        .weight(0.3),
    );
    #[cfg(feature = "algos")]
    v.extend(crate::algos::ops());
    v
}

pub fn c02() -> Vec<Op> {
    let mut v = vec![];
    let cfg = crate::CFG;
    macro_rules! bin {
        ($m:ident::$f:ident, $t:ty, $r:expr) => {
            v.push(op2(stringify!($f), cfg, |a: $t, b: $t| $m::$f(a, b)).ref2($r).gen_with(mulgen(<$t as Val>::K.bits())))
        };
    }
    macro_rules! bino {
        ($m:ident::$f:ident, $t:ty, $r:expr) => {
            v.push(
                op2(stringify!($f), cfg, |a: $t, b: $t| {
                    let mut o: i32 = 0x55;
                    let r = $m::$f(a, b, &mut o);
                    (r, o)
                })
                .ref2(|a: $t, b: $t| {
                    let f: fn($t, $t) -> ($t, bool) = $r;
                    let (x, o) = f(a, b);
                    (x, o as i32)
                })
                .gen_with(mulgen(<$t as Val>::K.bits())),
            )
        };
    }
    bin!(addsub::__rust_u128_add, u128, |a: u128, b: u128| a.wrapping_add(b));
    bin!(addsub::__rust_i128_add, i128, |a: i128, b: i128| a.wrapping_add(b));
    bin!(addsub::__rust_u128_sub, u128, |a: u128, b: u128| a.wrapping_sub(b));
    bin!(addsub::__rust_i128_sub, i128, |a: i128, b: i128| a.wrapping_sub(b));
    bino!(addsub::__rust_u128_addo, u128, |a, b| a.overflowing_add(b));
    bino!(addsub::__rust_i128_addo, i128, |a, b| a.overflowing_add(b));
    bino!(addsub::__rust_u128_subo, u128, |a, b| a.overflowing_sub(b));
    bino!(addsub::__rust_i128_subo, i128, |a, b| a.overflowing_sub(b));
    bin!(mul::__muldi3, u64, |a: u64, b: u64| a.wrapping_mul(b));
    bin!(mul::__multi3, i128, |a: i128, b: i128| a.wrapping_mul(b));
    bino!(mul::__mulosi4, i32, |a, b| a.overflowing_mul(b));
    bino!(mul::__mulodi4, i64, |a, b| a.overflowing_mul(b));
    bino!(mul::__muloti4, i128, |a, b| a.overflowing_mul(b));
    bino!(mul::__rust_i128_mulo, i128, |a, b| a.overflowing_mul(b));
    bino!(mul::__rust_u128_mulo, u128, |a, b| a.overflowing_mul(b));
    macro_rules! sh {
        ($f:ident, $t:ty, $r:expr) => {{
            let w = <$t as Val>::K.bits();
            v.push(
                op2(stringify!($f), cfg, |a: $t, b: u32| shift::$f(a, b))
                    .ref2($r)
                    .no_lattice()
                    .extra((0..w).flat_map(move |s| {
                        lattice(<$t as Val>::K).into_iter().map(move |x| [x, s as u128, 0, 0])
                    }))
                    .gen_with(move |r| [rbits(r, w), r.below(w as u64) as u128, 0, 0])
                    .filter(move |a| a[1] < w as u128),
            )
        }};
    }
    sh!(__ashlsi3, u32, |a: u32, b: u32| a << b);
    sh!(__ashldi3, u64, |a: u64, b: u32| a << b);
    sh!(__ashlti3, u128, |a: u128, b: u32| a << b);
    sh!(__ashrsi3, i32, |a: i32, b: u32| a >> b);
    sh!(__ashrdi3, i64, |a: i64, b: u32| a >> b);
    sh!(__ashrti3, i128, |a: i128, b: u32| a >> b);
    sh!(__lshrsi3, u32, |a: u32, b: u32| a >> b);
    sh!(__lshrdi3, u64, |a: u64, b: u32| a >> b);
    sh!(__lshrti3, u128, |a: u128, b: u32| a >> b);
    macro_rules! un {
        ($n:expr, $c:expr, $t:ty, $f:expr, $r:expr) => {
            v.push(op1($n, $c, $f).ref1($r))
        };
    }
    un!("__clzsi2", cfg, u32, |x: u32| leading_zeros::__clzsi2(x), |x: u32| x.leading_zeros() as usize);
    un!("__clzdi2", cfg, u64, |x: u64| leading_zeros::__clzdi2(x), |x: u64| x.leading_zeros() as usize);
    un!("__clzti2", cfg, u128, |x: u128| leading_zeros::__clzti2(x), |x: u128| x.leading_zeros() as usize);
    un!("clz16", "default", u16, |x: u16| leading_zeros::leading_zeros_default(x), |x: u16| x.leading_zeros() as usize);
    un!("clz32", "default", u32, |x: u32| leading_zeros::leading_zeros_default(x), |x: u32| x.leading_zeros() as usize);
    un!("clz64", "default", u64, |x: u64| leading_zeros::leading_zeros_default(x), |x: u64| x.leading_zeros() as usize);
    un!("clz16", "condset", u16, |x: u16| leading_zeros::leading_zeros_condset(x), |x: u16| x.leading_zeros() as usize);
    un!("clz32", "condset", u32, |x: u32| leading_zeros::leading_zeros_condset(x), |x: u32| x.leading_zeros() as usize);
    un!("clz64", "condset", u64, |x: u64| leading_zeros::leading_zeros_condset(x), |x: u64| x.leading_zeros() as usize);
    un!("__ctzsi2", cfg, u32, |x: u32| trailing_zeros::__ctzsi2(x), |x: u32| x.trailing_zeros() as usize);
    un!("__ctzdi2", cfg, u64, |x: u64| trailing_zeros::__ctzdi2(x), |x: u64| x.trailing_zeros() as usize);
    un!("__ctzti2", cfg, u128, |x: u128| trailing_zeros::__ctzti2(x), |x: u128| x.trailing_zeros() as usize);
    un!("ctz16", "default", u16, |x: u16| trailing_zeros::trailing_zeros(x), |x: u16| x.trailing_zeros() as usize);
    un!("ctz32", "default", u32, |x: u32| trailing_zeros::trailing_zeros(x), |x: u32| x.trailing_zeros() as usize);
    un!("ctz64", "default", u64, |x: u64| trailing_zeros::trailing_zeros(x), |x: u64| x.trailing_zeros() as usize);
    un!("__bswapsi2", cfg, u32, |x: u32| bswap::__bswapsi2(x), |x: u32| x.swap_bytes());
    un!("__bswapdi2", cfg, u64, |x: u64| bswap::__bswapdi2(x), |x: u64| x.swap_bytes());
    un!("__bswapti2", cfg, u128, |x: u128| bswap::__bswapti2(x), |x: u128| x.swap_bytes());
    v
}
