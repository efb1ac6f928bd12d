//! Every division algorithm of the library, instantiated here at several widths.  The crate itself
//! uses each of them on some target only; the sources are included, not copied.
#[path = "/repo/compiler-builtins/src/int/specialized_div_rem/norm_shift.rs"]
#[macro_use]
mod norm_shift;
#[path = "/repo/compiler-builtins/src/int/specialized_div_rem/binary_long.rs"]
#[macro_use]
mod binary_long;
#[path = "/repo/compiler-builtins/src/int/specialized_div_rem/delegate.rs"]
#[macro_use]
mod delegate;
#[path = "/repo/compiler-builtins/src/int/specialized_div_rem/trifecta.rs"]
#[macro_use]
mod trifecta;
#[path = "/repo/compiler-builtins/src/int/specialized_div_rem/asymmetric.rs"]
#[macro_use]
mod asymmetric;

use crate::core::*;

fn zero_div_fn() -> ! {
    panic!("division by zero")
}
const LZ: bool = true;
const NOLZ: bool = false;
macro_rules! half { ($($t:ident, $f:ident);*) => { $(
    fn $f(duo: $t, div: $t) -> ($t, $t) { (duo / div, duo % div) }
)* } }
half!(u16, u16_by_u16_div_rem; u32, u32_by_u32_div_rem; u64, u64_by_u64_div_rem);
macro_rules! asym { ($($d:ident, $x:ident, $f:ident);*) => { $(
    /// As the hardware does it: the quotient has to fit.
    unsafe fn $f(duo: $d, div: $x) -> ($x, $x) {
        let q = duo / div as $d;
        ($x::try_from(q).expect("quotient does not fit"), (duo % div as $d) as $x)
    }
)* } }
asym!(u32, u16, u32_by_u16_div_rem; u64, u32, u64_by_u32_div_rem; u128, u64, u128_by_u64_div_rem);

impl_normalization_shift!(u16_normalization_shift, LZ, 16, u16, i16, allow(dead_code));
impl_normalization_shift!(u32_normalization_shift, LZ, 32, u32, i32, allow(dead_code));
impl_normalization_shift!(u64_normalization_shift, LZ, 64, u64, i64, allow(dead_code));
mod lz {
    use super::{LZ, zero_div_fn};
    impl_normalization_shift!(s8, LZ, 8, u8, i8, allow(dead_code));
    impl_normalization_shift!(s16, LZ, 16, u16, i16, allow(dead_code));
    impl_normalization_shift!(s32, LZ, 32, u32, i32, allow(dead_code));
    impl_normalization_shift!(s64, LZ, 64, u64, i64, allow(dead_code));
    impl_normalization_shift!(s128, LZ, 128, u128, i128, allow(dead_code));
    impl_binary_long!(b8, zero_div_fn, s8, 8, u8, i8);
    impl_binary_long!(b16, zero_div_fn, s16, 16, u16, i16);
    impl_binary_long!(b32, zero_div_fn, s32, 32, u32, i32);
    impl_binary_long!(b64, zero_div_fn, s64, 64, u64, i64);
    impl_binary_long!(b128, zero_div_fn, s128, 128, u128, i128);
    impl_delegate!(d32, zero_div_fn, s16, u16_by_u16_div_rem, 8, u8, u16, u32, i32);
    impl_delegate!(d64, zero_div_fn, s32, u32_by_u32_div_rem, 16, u16, u32, u64, i64);
    impl_delegate!(d128, zero_div_fn, s64, u64_by_u64_div_rem, 32, u32, u64, u128, i128);
    use super::{u16_by_u16_div_rem, u32_by_u32_div_rem, u64_by_u64_div_rem};
}
mod bisect {
    use super::{NOLZ, zero_div_fn};
    impl_normalization_shift!(s8, NOLZ, 8, u8, i8, allow(dead_code));
    impl_normalization_shift!(s16, NOLZ, 16, u16, i16, allow(dead_code));
    impl_normalization_shift!(s32, NOLZ, 32, u32, i32, allow(dead_code));
    impl_normalization_shift!(s64, NOLZ, 64, u64, i64, allow(dead_code));
    impl_normalization_shift!(s128, NOLZ, 128, u128, i128, allow(dead_code));
    impl_binary_long!(b8, zero_div_fn, s8, 8, u8, i8);
    impl_binary_long!(b16, zero_div_fn, s16, 16, u16, i16);
    impl_binary_long!(b32, zero_div_fn, s32, 32, u32, i32);
    impl_binary_long!(b64, zero_div_fn, s64, 64, u64, i64);
    impl_binary_long!(b128, zero_div_fn, s128, 128, u128, i128);
    impl_delegate!(d32, zero_div_fn, s16, u16_by_u16_div_rem, 8, u8, u16, u32, i32);
    impl_delegate!(d64, zero_div_fn, s32, u32_by_u32_div_rem, 16, u16, u32, u64, i64);
    impl_delegate!(d128, zero_div_fn, s64, u64_by_u64_div_rem, 32, u32, u64, u128, i128);
    use super::{u16_by_u16_div_rem, u32_by_u32_div_rem, u64_by_u64_div_rem};
}
impl_trifecta!(t32, zero_div_fn, u16_by_u16_div_rem, 8, u8, u16, u32);
impl_trifecta!(t64, zero_div_fn, u32_by_u32_div_rem, 16, u16, u32, u64);
impl_trifecta!(t128, zero_div_fn, u64_by_u64_div_rem, 32, u32, u64, u128);
impl_asymmetric!(a32, zero_div_fn, u16_by_u16_div_rem, u32_by_u16_div_rem, 8, u8, u16, u32);
impl_asymmetric!(a64, zero_div_fn, u32_by_u32_div_rem, u64_by_u32_div_rem, 16, u16, u32, u64);
impl_asymmetric!(a128, zero_div_fn, u64_by_u64_div_rem, u128_by_u64_div_rem, 32, u32, u64, u128);

pub fn ops() -> Vec<Op> {
    let mut v = vec![];
    macro_rules! add { ($($t:ident, $w:expr, $cfg:expr, $f:expr);* $(;)?) => { $(
        v.push(op2(concat!(stringify!($t), "_div_rem"), $cfg, |a: $t, b: $t| $f(a, b))
            .ref2(|a: $t, b: $t| (a / b, a % b))
            .filter(|a: &A| a[1] & mask($w) != 0)
            .gen_with(crate::ops_int::divgen($w))
            .weight(0.4)
            .base(1000));
    )* } }
    add!(
        u8, 8, "long-lz", lz::b8; u16, 16, "long-lz", lz::b16; u32, 32, "long-lz", lz::b32; u64, 64, "long-lz", lz::b64; u128, 128, "long-lz", lz::b128;
        u8, 8, "long", bisect::b8; u16, 16, "long", bisect::b16; u32, 32, "long", bisect::b32; u64, 64, "long", bisect::b64; u128, 128, "long", bisect::b128;
        u32, 32, "delegate-lz", lz::d32; u64, 64, "delegate-lz", lz::d64; u128, 128, "delegate-lz", lz::d128;
        u32, 32, "delegate", bisect::d32; u64, 64, "delegate", bisect::d64; u128, 128, "delegate", bisect::d128;
        u32, 32, "trifecta", t32; u64, 64, "trifecta", t64; u128, 128, "trifecta", t128;
        u32, 32, "asymmetric", a32; u64, 64, "asymmetric", a64; u128, 128, "asymmetric", a128;
    );
    v
}
