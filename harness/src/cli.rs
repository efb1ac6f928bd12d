//! The command line of the harness.
use crate::core::*;

fn opt(args: &[String], name: &str, dflt: &str) -> String {
    args.iter().position(|a| a == name).map(|i| args[i + 1].clone()).unwrap_or_else(|| dflt.into())
}

pub fn main(ops_for: impl Fn(&str) -> Vec<Op>) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let num = |n: &str, d: &str| opt(&args, n, d).parse::<f64>().unwrap();
    let out = opt(&args, "--out", "/dev/null");
    let ops = ops_for(&prop);
    if args.iter().any(|a| a == "--list") {
        for o in &ops {
            println!("{} {} {:?} -> {:?}", o.name, o.cfg, o.args, o.outs);
        }
        return;
    }
    if let Some(i) = args.iter().position(|a| a == "--call") {
        // vh PROP --call op cfg arg...   prints the record of that call
        install(ops.iter().map(|o| (format!("{} {}", o.name, o.cfg), o.args.len())).collect(), "/dev/stdout");
        let o = ops.iter().find(|o| o.name == args[i + 1] && o.cfg == args[i + 2]).expect("no such operation");
        let mut a: A = [0; 4];
        for j in 0..o.args.len() {
            a[j] = u128::from_str_radix(&args[i + 3 + j], 16).unwrap();
        }
        if let Some(f) = &o.text {
            // the argument of a history is its number; a recorded history starts with it too
            let (susp, rec) = f(a[0] as u64, true);
            let (x, y) = rec.unwrap();
            println!("{} {} {} > {}\nscreen: {}", o.name, o.cfg, x, y, !susp);
            return;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.run)(&a)));
        let (s, ok) = match r {
            Ok(r) => (results(o, &a, &r), o.screen.as_ref().map(|s| s(&a, &r))),
            Err(_) => ("!PANIC".into(), None),
        };
        println!("{}", fmt_rec(o, &a, &s));
        println!("screen: {ok:?}");
        return;
    }
    let plan = Plan {
        seed: num("--seed", "1") as u64,
        evals: num("--evals", "1000000") as u64,
        base: num("--base", "1000") as usize,
        lattice2: num("--lattice", "1000000") as u64,
        sweep: num("--sweep", "0") as u64,
        max_suspects: num("--suspects", "300") as usize,
        budget_s: num("--budget", "60"),
        threads: num("--threads", "8") as usize,
        together: args.iter().any(|a| a == "--together"),
        hints: Hints::load(&opt(&args, "--hints", "")),
    };
    install(ops.iter().map(|o| (format!("{} {}", o.name, o.cfg), o.args.len())).collect(), &opt(&args, "--crash", "/dev/stdout"));
    let st = drive(&ops, &plan, &out);
    write_stats(&opt(&args, "--stats", "/dev/null"), &prop, &ops, &st);
}
