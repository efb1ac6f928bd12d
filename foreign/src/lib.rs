//! The library as configured on another target; its symbols are this shared object's symbols.
#![allow(static_mut_refs)]
extern crate compiler_builtins;

/// The assembly of function number i: lines of text, and `=name=path` for the symbols it mentions.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn foreign_text(i: usize, buf: *mut u8, len: usize) -> usize {
    #[allow(unused_mut)]
    let mut fns: Vec<(&str, unsafe fn())> = vec![];
    #[cfg(feature = "naked_arm")]
    {
        use compiler_builtins::arm;
        macro_rules! f { ($($n:ident)*) => { $(fns.push((stringify!($n), || unsafe { arm::$n::$n() }));)* } }
        f!(__aeabi_uidivmod __aeabi_uldivmod __aeabi_idivmod __aeabi_ldivmod);
    }
    #[cfg(feature = "naked_avr")]
    {
        use compiler_builtins::int::udiv;
        macro_rules! f { ($($n:ident)*) => { $(fns.push((stringify!($n), || unsafe { udiv::$n::$n() }));)* } }
        f!(__udivmodqi4 __udivmodhi4);
    }
    let Some((name, f)) = fns.get(i) else { return 0 };
    use compiler_builtins::foreign::{TEXT, USED};
    let s = unsafe {
        USED = 0;
        f();
        format!("{name}\n{}\n", TEXT[..USED].join("\n"))
    };
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len().min(len)) };
    s.len()
}
