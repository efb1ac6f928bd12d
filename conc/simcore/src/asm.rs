//! Interprets the inline assembly the library's ARM and x86 sources contain, on the simulated machine.
use crate::sim;
use std::cell::RefCell;

pub trait Bits: Copy {
    fn to_u64(self) -> u64;
    fn from_u64(x: u64) -> Self;
}
macro_rules! ints { ($($t:ty)*) => { $(impl Bits for $t {
    fn to_u64(self) -> u64 { self as u64 }
    fn from_u64(x: u64) -> Self { x as $t }
})* } }
ints!(u8 u16 u32 u64 usize);
// registers receive signed operands of the machine's width as they are
impl Bits for i8 {
    fn to_u64(self) -> u64 {
        self as u8 as u64
    }
    fn from_u64(x: u64) -> Self {
        x as i8
    }
}
impl Bits for i16 {
    fn to_u64(self) -> u64 {
        self as u16 as u64
    }
    fn from_u64(x: u64) -> Self {
        x as i16
    }
}
impl Bits for i32 {
    fn to_u64(self) -> u64 {
        self as u32 as u64
    }
    fn from_u64(x: u64) -> Self {
        x as i32
    }
}
impl Bits for f32 {
    fn to_u64(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_u64(x: u64) -> Self {
        f32::from_bits(x as u32)
    }
}
impl Bits for f64 {
    fn to_u64(self) -> u64 {
        self.to_bits()
    }
    fn from_u64(x: u64) -> Self {
        f64::from_bits(x)
    }
}
impl<T> Bits for *mut T {
    fn to_u64(self) -> u64 {
        self as usize as u64
    }
    fn from_u64(x: u64) -> Self {
        x as usize as *mut T
    }
}
impl<T> Bits for *const T {
    fn to_u64(self) -> u64 {
        self as usize as u64
    }
    fn from_u64(x: u64) -> Self {
        x as usize as *const T
    }
}

pub struct Regs(pub Vec<(&'static str, u64)>);
impl Regs {
    pub fn get(&self, n: &str) -> u64 {
        self.0.iter().find(|r| r.0 == n).unwrap_or_else(|| panic!("no operand {n}")).1
    }
    pub fn set(&mut self, n: &str, v: u64) {
        self.0.iter_mut().find(|r| r.0 == n).unwrap_or_else(|| panic!("no operand {n}")).1 = v;
    }
}

thread_local! { static CAPTURED: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn capture(t: &[&str]) {
    CAPTURED.with(|c| *c.borrow_mut() = t.join("\n"));
}
pub fn captured() -> String {
    CAPTURED.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// An operand: a register operand `{name}`, an address `[{name}]`, an immediate, a label.
fn name(s: &str) -> &str {
    s.trim().trim_start_matches('[').trim_end_matches(']').trim().trim_start_matches('{').trim_end_matches('}')
}
fn value(r: &Regs, s: &str) -> u64 {
    let s = s.trim();
    if let Some(i) = s.strip_prefix('#') { i.parse().expect("immediate") } else { r.get(name(s)) }
}

/// What the simulator cannot execute is an error of the harness, not of the code.
fn unknown(l: &str) -> ! {
    eprintln!("conc: instruction not modelled: {l}");
    std::process::exit(4)
}

pub fn exec(tpls: &[&str], regs: &mut Regs) {
    let text = tpls.join("\n");
    let prog: Vec<String> = text
        .split(['\n', ';'])
        .map(|l| l.split("//").next().unwrap().split('@').next().unwrap().trim().to_string())
        .filter(|l| !l.is_empty())
        .collect();
    let mut pc = 0;
    let mut z = false;
    let mut steps = 0;
    let label = |pc: usize, t: &str| -> usize {
        let t = t.trim();
        let (n, back) = t.split_at(t.len() - 1);
        let want = format!("{n}:");
        let at = match back {
            "f" => (pc..prog.len()).find(|i| prog[*i] == want),
            _ => (0..pc).rev().find(|i| prog[*i] == want),
        };
        at.unwrap_or_else(|| unknown(t))
    };
    while pc < prog.len() {
        steps += 1;
        if steps > 10_000 {
            panic!("assembly does not terminate");
        }
        let l = prog[pc].clone();
        pc += 1;
        if l.ends_with(':') || l.starts_with('.') {
            continue;
        }
        let (m, rest) = l.split_once(char::is_whitespace).unwrap_or((&l, ""));
        let o: Vec<&str> = rest.split(',').map(|x| x.trim()).collect();
        let size = |m: &str| if m.ends_with('b') { 1 } else if m.ends_with('h') { 2 } else { 4 };
        match m {
            "ldr" | "ldrb" | "ldrh" => {
                let v = sim::load(value(regs, o[1]), size(m));
                regs.set(name(o[0]), v as u64);
            }
            "str" | "strb" | "strh" => sim::store(value(regs, o[1]), size(m), value(regs, o[0]) as u32),
            "ldrex" | "ldrexb" | "ldrexh" => {
                let v = sim::load_ex(value(regs, o[1]), size(m));
                regs.set(name(o[0]), v as u64);
            }
            "strex" | "strexb" | "strexh" => {
                let f = sim::store_ex(value(regs, o[2]), size(m), value(regs, o[1]) as u32);
                regs.set(name(o[0]), f as u64);
            }
            "clrex" => sim::clear_ex(),
            "cmp" => z = value(regs, o[0]) as u32 == value(regs, o[1]) as u32,
            "teq" => z = value(regs, o[0]) as u32 == value(regs, o[1]) as u32,
            "mov" => {
                let v = value(regs, o[1]);
                regs.set(name(o[0]), v);
            }
            "b" => pc = label(pc, o[0]),
            "beq" => {
                if z {
                    pc = label(pc, o[0])
                }
            }
            "bne" => {
                if !z {
                    pc = label(pc, o[0])
                }
            }
            "mcr" => {
                let z = rest.replace(['#', ' '], "");
                if z.starts_with("p15,0,") && z.ends_with(",c7,c10,5") { sim::event(sim::BARRIER, 0) } else { unknown(&l) }
            }
            "dmb" => sim::event(sim::BARRIER, 0),
            _ if m.starts_with("vfmadd") => {
                let single = m.ends_with("ss");
                if !single && !m.ends_with("sd") {
                    unknown(&l)
                }
                let r: Vec<u64> = o.iter().map(|x| value(regs, x)).collect();
                let form = &m[6..m.len() - 2];
                sim::event(sim::INSTR, if form.is_empty() { 2 } else { 1 });
                let (a, b, c) = match (form, r.len()) {
                    ("", 4) => (r[1], r[2], r[3]),
                    ("132", 3) => (r[0], r[2], r[1]),
                    ("213", 3) => (r[1], r[0], r[2]),
                    ("231", 3) => (r[1], r[2], r[0]),
                    _ => unknown(&l),
                };
                let v = if single {
                    f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u64
                } else {
                    f64::from_bits(a).mul_add(f64::from_bits(b), f64::from_bits(c)).to_bits()
                };
                regs.set(name(o[0]), v);
            }
            _ => unknown(&l),
        }
    }
}

#[macro_export]
macro_rules! asm {
    ($($t:tt)*) => { $crate::__asm!(@m asm [] [] [] $($t)*) };
}
#[macro_export]
macro_rules! naked_asm {
    ($($t:tt)*) => { $crate::__asm!(@m naked [] [] [] $($t)*) };
}
/// The same in a function without result.
#[macro_export]
macro_rules! unit_asm {
    ($($t:tt)*) => {{ let () = $crate::__asm!(@m naked [] [] [] $($t)*); }};
}
#[macro_export]
macro_rules! global_asm {
    ($($t:tt)*) => {};
}
/// @m kind [templates] [register initialisers] [outputs] remaining tokens
#[macro_export]
macro_rules! __asm {
    (@m asm [$($t:expr),*] [$(($n:ident $i:expr))*] [$(($on:ident $o:expr))*]) => {{
        let mut regs = $crate::asm::Regs(vec![$((stringify!($n), $i)),*]);
        $crate::asm::exec(&[$($t),*], &mut regs);
        $($o = $crate::asm::Bits::from_u64(regs.get(stringify!($on)));)*
    }};
    (@m naked [$($t:expr),*] [$($i:tt)*] [$($o:tt)*]) => {{
        $crate::asm::capture(&[$($t),*]);
        #[allow(unused_unsafe)]
        unsafe { ::std::mem::zeroed() }
    }};
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] #[cfg($($c:tt)*)] $x:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t,)* {
            #[cfg($($c)*)]
            let t = $x;
            #[cfg(not($($c)*))]
            let t = "";
            t
        }] [$($i)*] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] options($($x:tt)*) $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)*] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] sym $p:path $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)*] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = sym $p:path $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)*] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = in($c:tt) $e:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n $crate::asm::Bits::to_u64($e))] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = out($c:tt) _ $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n 0xdead_beefu64)] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = lateout($c:tt) _ $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n 0xdead_beefu64)] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = out($c:tt) $e:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n 0xdead_beefu64)] [$($o)* ($n $e)] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = lateout($c:tt) $e:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n 0xdead_beefu64)] [$($o)* ($n $e)] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = inout($c:tt) $e:expr => _ $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n $crate::asm::Bits::to_u64($e))] [$($o)*] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = inout($c:tt) $e:expr => $f:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n $crate::asm::Bits::to_u64($e))] [$($o)* ($n $f)] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = inout($c:tt) $e:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n $crate::asm::Bits::to_u64($e))] [$($o)* ($n $e)] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $n:ident = inlateout($c:tt) $e:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t),*] [$($i)* ($n $crate::asm::Bits::to_u64($e))] [$($o)* ($n $e)] $($($r)*)?)
    };
    (@m $k:ident [$($t:expr),*] [$($i:tt)*] [$($o:tt)*] $x:expr $(, $($r:tt)*)?) => {
        $crate::__asm!(@m $k [$($t,)* $x] [$($i)*] [$($o)*] $($($r)*)?)
    };
}
