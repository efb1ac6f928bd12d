//! Totality and purity (C18): every operation of the other properties, over all its arguments, called
//! again after another call, while other threads call the same function.
use crate::core::*;

fn all() -> Vec<Op> {
    use crate::*;
    let mut v = vec![];
    for o in [
        ops_int::c01(), ops_int::c02(), ops_float::c03(), ops_float::c04(), ops_float::c05(), ops_float::c06(), ops_exact::c08(), ops_exact::c09(),
        ops_exact::c10(), ops_exact::c11(), ops_exact::c12(), ops_exact::c13(), ops_elem::c14(), ops_elem::c15(), ops_elem::c16(), ops_support::c22(),
        ops_support::c24(), ops_support::c26(),
    ] {
        v.extend(o);
    }
    v
}

/// Arguments for which the recurrences over the order are short: otherwise a single call takes up to 2^31 steps.
fn quick_order(second: bool, w: u32, a: &A) -> bool {
    let x = if w == 32 { f32::from_bits(a[1] as u32) as f64 } else { f64::from_bits(a[1] as u64) };
    let n = (a[0] as i32).unsigned_abs();
    n < 3000 || !x.is_finite() || (w == 64 && x.abs() > 2f64.powi(303)) || if second { x < 3000.0 } else { x.abs() < 2f64.powi(-40) }
}

pub fn c18() -> Vec<Op> {
    let mut seen = std::collections::HashSet::new();
    let mut v = vec![];
    for o in all() {
        if o.text.is_some() || !seen.insert((o.name.clone(), o.cfg.clone())) {
            continue;
        }
        let bessel = ["jn:", "yn:"].iter().any(|p| o.name.starts_with(p));
        let w = match o.outs.first() {
            Some(K::F(w)) => *w,
            _ => 0,
        };
        let (run, outs, args, orig) = (o.run, o.outs.clone(), o.args.clone(), o.filter);
        let orig = std::sync::Arc::new(orig);
        let (f1, bess) = (orig.clone(), bessel);
        let second = o.name.starts_with("yn:");
        let ok = move |a: &A| if bess { quick_order(second, w, a) } else { f1.as_ref().as_ref().is_none_or(|f| f(a)) };
        let ok2 = ok.clone();
        let slow = bessel || o.name.starts_with("lgamma") || o.name.starts_with("tgamma");
        let mut n = op1::<u8, u8>(&format!("pure:{w}"), &format!("{}/{}", o.name.replace(':', "."), o.cfg), |x| x);
        n.args = o.args;
        n.outs = vec![K::U(128), K::U(128), K::U(8)];
        n.gens = o.gens;
        if bessel {
            // every order, also the ends of i32, where the loops end soon
            n.gens.push(Box::new(move |r: &mut Rng| {
                let k = match r.below(4) {
                    0 => i32::MIN.wrapping_add(r.below(5) as i32 - 2),
                    1 => (1i32 << r.below(31)).wrapping_mul(if r.next() & 1 == 0 { 1 } else { -1 }).wrapping_add(r.below(3) as i32 - 1),
                    _ => r.next() as i32,
                };
                let f = ff(w);
                let e = match r.below(4) {
                    0 => f.bias() + r.range(0, 12),
                    1 => r.range(0, f.bias() - 39),
                    2 => r.range(0, f.emax()),
                    _ => r.range(f.bias() - 60, f.bias() + 11),
                };
                [k as u32 as u128, f.make(if second { 0 } else { r.next() }, e, rbits(r, f.mw)), 0, 0]
            }));
        }
        n.weight = if slow { 0.02 } else { 0.2 };
        n.filter = Some(Box::new(ok));
        n.run = Box::new(move |a: &A| {
            let r1 = run(a);
            // something else in between: other arguments, derived from these
            let mut b = *a;
            for (x, k) in b.iter_mut().zip(&args) {
                *x = (*x ^ (*x >> 1).wrapping_mul(0x9e37_79b9_7f4a_7c15)) & mask(k.bits());
            }
            if !bessel && ok2(&b) {
                run(&b);
            }
            let r2 = run(a);
            let rest = (1..outs.len()).all(|j| same(outs[j], r1.v[j], r2.v[j]));
            R { n: 3, v: [r1.v[0], r2.v[0], rest as u128] }
        });
        let k = if w == 0 { K::U(128) } else { K::F(w) };
        n.screen = Some(Box::new(move |_, r| r.v[2] == 1 && same(k, r.v[0], r.v[1])));
        v.push(n);
    }
    v
}
