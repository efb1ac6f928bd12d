//! The C library's math functions, looked up at run time.  They are only used by screens.
use std::ffi::{CStr, CString, c_char, c_int, c_void};
use std::sync::OnceLock;

unsafe extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}
static LIB: OnceLock<usize> = OnceLock::new();
pub fn sym(name: &str) -> *mut c_void {
    let h = *LIB.get_or_init(|| unsafe { dlopen(c"libm.so.6".as_ptr(), 2) as usize });
    assert!(h != 0, "libm.so.6 not found");
    let c = CString::new(name).unwrap();
    let p = unsafe { dlsym(h as *mut c_void, c.as_ptr()) };
    assert!(!p.is_null(), "{name} not found");
    p
}
macro_rules! lookups { ($($f:ident: ($($t:ty),*) -> $r:ty;)*) => { $(
    pub fn $f(name: &str) -> extern "C" fn($($t),*) -> $r {
        unsafe { std::mem::transmute::<*mut c_void, extern "C" fn($($t),*) -> $r>(sym(name)) }
    }
)* } }
lookups! {
    f1: (f32) -> f32; f2: (f32, f32) -> f32; f3: (f32, f32, f32) -> f32;
    d1: (f64) -> f64; d2: (f64, f64) -> f64; d3: (f64, f64, f64) -> f64;
    q1: (f128) -> f128; q2: (f128, f128) -> f128; q3: (f128, f128, f128) -> f128;
    qi: (f128, i32) -> f128; di: (f64, i32) -> f64; fi: (f32, i32) -> f32;
    qn: (i32, f128) -> f128; dn: (i32, f64) -> f64; fnn: (i32, f32) -> f32;
    qp: (f128, &mut i32) -> f128; dp: (f64, &mut i32) -> f64; fp: (f32, &mut i32) -> f32;
    qqp: (f128, f128, &mut i32) -> f128; ddp: (f64, f64, &mut i32) -> f64; ffp: (f32, f32, &mut i32) -> f32;
}
