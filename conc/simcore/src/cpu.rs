//! A scripted processor: what `cpuid` and `xgetbv` return.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, Default)]
pub struct Cpu {
    pub max_leaf: u32,
    pub vendor: [u8; 12],
    pub ecx1: u32,
    pub edx1: u32,
    pub ebx7: u32,
    pub edx7: u32,
    pub eax71: u32,
    pub max_ext: u32,
    pub ext_ecx: u32,
    pub xcr0: u64,
}
impl Cpu {
    pub const fn zero() -> Cpu {
        Cpu { max_leaf: 0, vendor: [0; 12], ecx1: 0, edx1: 0, ebx7: 0, edx7: 0, eax71: 0, max_ext: 0, ext_ecx: 0, xcr0: 0 }
    }
}

static CPU: std::sync::RwLock<Cpu> = std::sync::RwLock::new(Cpu::zero());
thread_local! { static MINE: RefCell<Option<Cpu>> = const { RefCell::new(None) }; }

/// For all threads.
pub fn set(c: Cpu) {
    *CPU.write().unwrap() = c;
}
/// For this thread only.
pub fn set_local(c: Option<Cpu>) {
    MINE.with(|m| *m.borrow_mut() = c);
}
fn cpu() -> Cpu {
    MINE.with(|m| *m.borrow()).unwrap_or_else(|| *CPU.read().unwrap())
}

#[derive(Clone, Copy, Debug)]
pub struct CpuidResult {
    pub eax: u32,
    pub ebx: u32,
    pub ecx: u32,
    pub edx: u32,
}
pub unsafe fn __cpuid(leaf: u32) -> CpuidResult {
    unsafe { __cpuid_count(leaf, 0) }
}
pub unsafe fn __cpuid_count(leaf: u32, sub: u32) -> CpuidResult {
    crate::sim::event(crate::sim::PROBE, leaf as u64);
    let c = cpu();
    let v = |i: usize| u32::from_ne_bytes(c.vendor[i..i + 4].try_into().unwrap());
    // a leaf that does not exist returns the data of some other one
    let junk = CpuidResult { eax: !0, ebx: !0, ecx: !0, edx: !0 };
    match (leaf, sub) {
        (0, _) => CpuidResult { eax: c.max_leaf, ebx: v(0), edx: v(4), ecx: v(8) },
        (1, _) if c.max_leaf >= 1 => CpuidResult { eax: 0x000a_0655, ebx: 0, ecx: c.ecx1, edx: c.edx1 },
        (7, 0) if c.max_leaf >= 7 => CpuidResult { eax: 1, ebx: c.ebx7, ecx: 0, edx: c.edx7 },
        (7, 1) if c.max_leaf >= 7 => CpuidResult { eax: c.eax71, ebx: 0, ecx: 0, edx: 0 },
        (0x8000_0000, _) => CpuidResult { eax: c.max_ext, ebx: 0, ecx: 0, edx: 0 },
        (0x8000_0001, _) if c.max_ext >= 0x8000_0001 => CpuidResult { eax: 0, ebx: 0, ecx: c.ext_ecx, edx: 0 },
        _ => junk,
    }
}
pub unsafe fn _xgetbv(n: u32) -> u64 {
    let c = cpu();
    if c.max_leaf < 1 || c.ecx1 >> 27 & 1 == 0 || n != 0 {
        panic!("invalid opcode: xgetbv");
    }
    c.xcr0
}
