use simcore::sim::{Choose, Event};
use std::fmt::Write;

#[derive(Clone)]
pub struct Opts {
    pub seed: u64,
    pub runs: u64,
    pub shard: u64,
    pub shards: u64,
    pub out: String,
    pub budget: f64,
    pub only: String,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { seed: 1, runs: 1000, shard: 0, shards: 1, out: "/dev/stdout".into(), budget: 600.0, only: String::new() }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// a value with interesting patterns often enough
    pub fn word(&mut self, bits: u32) -> u32 {
        let m = if bits == 32 { !0 } else { (1u32 << bits) - 1 };
        (match self.below(8) {
            0 => 0,
            1 => !0,
            2 => 1 << (bits - 1),
            3 => (1 << (bits - 1)) - 1,
            4 => 1,
            5 => 1 << self.below(bits as u64),
            _ => self.next() as u32,
        }) & m
    }
}

/// Random choices.
pub struct Rand(pub Rng);
impl Choose for Rand {
    fn choose(&mut self, n: usize) -> usize {
        self.0.below(n as u64) as usize
    }
}

/// All choices, one path after another.
#[derive(Default)]
pub struct Dfs {
    path: Vec<(usize, usize)>,
    at: usize,
}
impl Choose for Dfs {
    fn choose(&mut self, n: usize) -> usize {
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let (c, m) = self.path[self.at];
        assert!(m == n, "the run is not deterministic");
        self.at += 1;
        c
    }
}
impl Dfs {
    /// Moves to the next path; false when there is none.
    pub fn advance(&mut self) -> bool {
        self.path.truncate(self.at);
        self.at = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

/// A source of choices the driver keeps a handle on.
pub struct Shared(pub std::sync::Arc<std::sync::Mutex<Dfs>>);
impl Choose for Shared {
    fn choose(&mut self, n: usize) -> usize {
        self.0.lock().unwrap().choose(n)
    }
}

pub fn hexs(out: &mut String, xs: impl IntoIterator<Item = u64>) {
    for x in xs {
        write!(out, " {x:x}").unwrap();
    }
}
pub fn events(out: &mut String, log: &[Event]) {
    for e in log {
        write!(out, " {:x} {:x} {:x}", e.kind, e.tid, e.val).unwrap();
    }
}
