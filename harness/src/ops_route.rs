//! Route equivalence (C25): the same call through every way that leads to a function.  The ways come from
//! libraries built in the different configurations (crate `routes`), named in VERIF_ROUTES.
use crate::core::*;
use std::collections::BTreeMap;
use std::ffi::{CString, c_char, c_void};
use std::sync::Arc;

unsafe extern "C" {
    fn dlopen(p: *const c_char, flags: i32) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}
type List = unsafe extern "C" fn(*mut u8, usize) -> usize;
type Call = unsafe extern "C" fn(usize, *const [u128; 4], *mut [u128; 2]) -> i32;

struct Way {
    label: String,
    index: usize,
    call: Call,
}

fn kind(c: char, ty: &str) -> K {
    match (c, ty) {
        ('i', _) => K::S(32),
        (_, "f16") => K::F(16),
        (_, "f32") => K::F(32),
        (_, "f64") => K::F(64),
        _ => K::F(128),
    }
}

pub fn c25() -> Vec<Op> {
    let mut fns: BTreeMap<String, (String, String, Vec<Way>)> = BTreeMap::new();
    for lib in std::env::var("VERIF_ROUTES").unwrap_or_default().split(',').filter(|s| !s.is_empty()) {
        let (cfg, path) = lib.split_once('=').expect("configuration=path");
        let (list, call) = unsafe {
            let h = dlopen(CString::new(path).unwrap().as_ptr(), 2);
            assert!(!h.is_null(), "cannot load {path}");
            let list: List = std::mem::transmute(dlsym(h, c"routes_list".as_ptr()));
            let call: Call = std::mem::transmute(dlsym(h, c"routes_call".as_ptr()));
            (list, call)
        };
        let mut buf = vec![0u8; 1 << 20];
        let n = unsafe { list(buf.as_mut_ptr(), buf.len()) };
        for (index, l) in std::str::from_utf8(&buf[..n]).unwrap().lines().enumerate() {
            let [name, sig, ty, route] = l.split(' ').collect::<Vec<_>>()[..] else { panic!() };
            let e = fns.entry(name.into()).or_insert_with(|| (sig.into(), ty.into(), vec![]));
            e.2.push(Way { label: format!("{cfg}.{route}"), index, call });
        }
    }
    let mut v = vec![];
    for (name, (sig, ty, ways)) in fns {
        let (a, r) = sig.split_once('>').unwrap();
        let args: Vec<K> = a.chars().map(|c| kind(c, &ty)).collect();
        let outs: Vec<K> = r.chars().map(|c| kind(c, &ty)).collect();
        let n = outs.len();
        let ways = Arc::new(ways);
        let params: Vec<String> = r.chars().map(|c| if c == 'i' { "0".into() } else { kind('F', &ty).bits().to_string() }).collect();
        let labels: Vec<&str> = ways.iter().map(|w| w.label.as_str()).collect();
        let mut o = op1::<u8, u8>(&format!("route:{}", params.join(":")), &format!("{name}/{}", labels.join("+")), |x| x);
        o.args = args.clone();
        o.outs = outs.clone();
        let bessel = name.starts_with("jn") || name.starts_with("yn");
        if bessel {
            o.filter = Some(Box::new(|a| (a[0] as i32).unsigned_abs() < 300));
            o = o.gen_with(move |r| [r.range(-12, 40) as i32 as u32 as u128, rval(r, args[1], None), 0, 0]);
        } else if args.len() == 2 && args[1] == K::S(32) {
            o = o.gen_with(move |r| [rval(r, args[0], None), r.range(-33000, 33000) as i32 as u32 as u128, 0, 0]);
        } else if let K::F(w) = args[0] {
            // mostly values of moderate size, where the functions are neither 0 nor infinite
            let k = args.len();
            o = o.gen_with(move |r| {
                let f = ff(w);
                let mut a = [0; 4];
                for x in a.iter_mut().take(k) {
                    let e = f.bias() + r.range(-12, 9);
                    *x = f.make(r.next(), e, rbits(r, f.mw));
                }
                a
            });
        }
        o.weight = if bessel || name.contains("gamma") { 0.05 } else { 1.0 };
        o.sweep = args_is_f32(&o.args);
        let w2 = ways.clone();
        let every = move |a: &A| -> Vec<[u128; 2]> {
            w2.iter()
                .map(|w| {
                    let mut r = [0; 2];
                    if unsafe { (w.call)(w.index, a, &mut r) } != 0 {
                        panic!("{}", w.label);
                    }
                    r
                })
                .collect()
        };
        let e2 = every.clone();
        let ks = outs.clone();
        // first result, and how many ways agree with it
        o.run = Box::new(move |a: &A| {
            let rs = e2(a);
            let first = rs[0];
            let agree = rs.iter().filter(|r| (0..n).all(|j| same(ks[j], r[j], first[j]))).count();
            R { n: 3, v: [first[0], first[1], agree as u128] }
        });
        let total = ways.len() as u128;
        o.screen = Some(Box::new(move |_, r| r.v[2] == total));
        o.expand = Some(Box::new(move |a: &A| {
            let mut s = String::new();
            for r in every(a) {
                for x in &r[..n] {
                    s.push_str(&format!("{x:x} "));
                }
            }
            s.trim_end().into()
        }));
        v.push(o);
    }
    v
}
fn args_is_f32(a: &[K]) -> bool {
    a.len() == 1 && a[0] == K::F(32)
}
