//! Every way to reach each function, in the configuration this library was built in.
#![feature(f16, f128)]
#![allow(clippy::all, dead_code, unused)]

macro_rules! intrinsics {
    () => {};
    ($(#[$m:meta])* pub extern $abi:tt fn $name:ident($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)? { $($b:tt)* } $($rest:tt)*) => {
        pub fn $name($($a: $t),*) $(-> $r)? { $($b)* }
        intrinsics! { $($rest)* }
    };
}
#[cfg(feature = "aliases")]
pub mod math {
    include!(concat!(env!("OUT_DIR"), "/aliases.rs"));
}

pub trait Val: Copy {
    fn de(x: u128) -> Self;
    fn en(self) -> u128;
}
macro_rules! val { ($($t:ty, $u:ty);*) => { $(impl Val for $t {
    fn de(x: u128) -> Self { <$t>::from_bits(x as $u) }
    fn en(self) -> u128 { self.to_bits() as u128 }
})* } }
val!(f16, u16; f32, u32; f64, u64; f128, u128);
impl Val for i32 {
    fn de(x: u128) -> Self {
        x as i32
    }
    fn en(self) -> u128 {
        self as u32 as u128
    }
}
pub trait Out {
    fn out(self) -> [u128; 2];
}
impl<T: Val> Out for T {
    fn out(self) -> [u128; 2] {
        [self.en(), 0]
    }
}
impl<T: Val, U: Val> Out for (T, U) {
    fn out(self) -> [u128; 2] {
        [self.0.en(), self.1.en()]
    }
}

pub struct Route {
    name: &'static str,
    sig: &'static str,
    ty: &'static str,
    route: &'static str,
    run: fn(&[u128; 4]) -> [u128; 2],
}
include!(concat!(env!("OUT_DIR"), "/table.rs"));

static TABLE: std::sync::OnceLock<Vec<Route>> = std::sync::OnceLock::new();
fn routes() -> &'static [Route] {
    TABLE.get_or_init(|| {
        std::panic::set_hook(Box::new(|_| {}));
        let mut v = vec![];
        table(&mut v);
        v
    })
}

/// Writes "name sig type route\n" for every route; returns the length.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn routes_list(buf: *mut u8, len: usize) -> usize {
    let s: String = routes().iter().map(|r| format!("{} {} {} {}\n", r.name, r.sig, r.ty, r.route)).collect();
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len().min(len)) };
    s.len()
}

/// Calls route number i; 0 when it returned, 1 when it panicked.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn routes_call(i: usize, a: *const [u128; 4], r: *mut [u128; 2]) -> i32 {
    match std::panic::catch_unwind(|| (routes()[i].run)(unsafe { &*a })) {
        Ok(x) => {
            unsafe { *r = x };
            0
        }
        Err(_) => 1,
    }
}
