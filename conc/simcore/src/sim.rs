//! The scheduler and the simulated memory.
//!
//! Exactly one simulated thread runs at a time.  Before every shared access it gives up control, and
//! the scheduler (driven by a source of choices) decides who continues.  Plain memory accesses of the
//! ARM code are sequentially consistent; atomics keep the history of their values, and a relaxed load
//! may return any value not older than what its thread has already seen.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::AtomicUsize;
use std::sync::{Condvar, Mutex};

// kinds of events
pub const LOAD: u8 = 1; // ARM load: value
pub const WRITE: u8 = 2; // the word changed or was rewritten: new word
pub const BARRIER: u8 = 3;
pub const PROBE: u8 = 4; // cpuid executed
pub const INSTR: u8 = 5; // instruction class executed
pub const CALL: u8 = 6; // a call begins
pub const RET: u8 = 7; // a call returns: value
pub const INIT: u8 = 8; // an initialiser ran
pub const FAIL: u8 = 9; // a conditional store failed
pub const PANIC: u8 = 10;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Event {
    pub kind: u8,
    pub tid: u8,
    pub val: u64,
}

pub trait Choose: Send {
    /// a number below n
    fn choose(&mut self, n: usize) -> usize;
}

#[derive(Clone, Default)]
struct View(HashMap<usize, usize>);

struct State {
    waiting: Vec<bool>,
    done: Vec<bool>,
    turn: Option<usize>,
    live: usize,
    choose: Option<Box<dyn Choose>>,
    log: Vec<Event>,
    hist: HashMap<usize, Vec<(u64, View)>>,
    views: Vec<View>,
    /// exclusive monitors: address and size
    monitor: Vec<Option<(u64, u32)>>,
    /// how many spurious failures may still happen
    spurious: usize,
    stale: bool,
    word: u64,
    steps: usize,
}
static SIM: Mutex<Option<State>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
static EPOCH: AtomicUsize = AtomicUsize::new(0);
thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn tid() -> Option<usize> {
    let t = TID.with(|c| c.get());
    (t != usize::MAX).then_some(t)
}

fn pick(s: &mut State) {
    let ready: Vec<usize> = (0..s.waiting.len()).filter(|i| s.waiting[*i] && !s.done[*i]).collect();
    if ready.is_empty() {
        s.turn = None;
        return;
    }
    let k = if ready.len() == 1 { 0 } else { s.choose.as_mut().unwrap().choose(ready.len()) };
    s.turn = Some(ready[k]);
}

/// Gives up control; returns when it is this thread's turn, then runs `f` on the state.
fn step<R>(f: impl FnOnce(&mut State, usize) -> R) -> Option<R> {
    let me = tid()?;
    let mut g = SIM.lock().unwrap();
    {
        let s = g.as_mut().unwrap();
        s.waiting[me] = true;
        s.steps += 1;
        if s.steps > 2000 {
            // no progress: the thread stops here for good
            s.log.push(Event { kind: PANIC, tid: me as u8, val: 1 });
            finish(s, me);
            drop(g);
            loop {
                std::thread::park();
            }
        }
        if (0..s.waiting.len()).all(|i| s.waiting[i] || s.done[i]) {
            pick(s);
            CV.notify_all();
        }
    }
    while g.as_ref().unwrap().turn != Some(me) {
        g = CV.wait(g).unwrap();
    }
    let s = g.as_mut().unwrap();
    s.waiting[me] = false;
    s.turn = None;
    Some(f(s, me))
}

fn finish(s: &mut State, me: usize) {
    s.done[me] = true;
    s.live -= 1;
    if (0..s.waiting.len()).all(|i| s.waiting[i] || s.done[i]) {
        pick(s);
    }
    CV.notify_all();
}

/// Logs an event that is not a shared access.
pub fn event(kind: u8, val: u64) {
    if let Some(me) = tid() {
        SIM.lock().unwrap().as_mut().unwrap().log.push(Event { kind, tid: me as u8, val });
    }
}

pub struct Setup {
    pub choose: Box<dyn Choose>,
    pub spurious: usize,
    pub stale: bool,
    /// address of the aligned word the ARM code works on
    pub word: u64,
}

/// Runs the threads to completion under the given choices; returns the log and the choices' source.
pub fn run(setup: Setup, threads: Vec<Box<dyn FnOnce() + Send>>) -> (Vec<Event>, Box<dyn Choose>) {
    let n = threads.len();
    EPOCH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    *SIM.lock().unwrap() = Some(State {
        waiting: vec![false; n],
        done: vec![false; n],
        turn: None,
        live: n,
        choose: Some(setup.choose),
        log: vec![],
        hist: HashMap::new(),
        views: vec![View::default(); n],
        monitor: vec![None; n],
        spurious: setup.spurious,
        stale: setup.stale,
        word: setup.word,
        steps: 0,
    });
    for (i, f) in threads.into_iter().enumerate() {
        std::thread::spawn(move || {
            TID.with(|c| c.set(i));
            step(|_, _| ());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let mut g = SIM.lock().unwrap();
            let s = g.as_mut().unwrap();
            if r.is_err() {
                s.log.push(Event { kind: PANIC, tid: i as u8, val: 0 });
            }
            finish(s, i);
        });
    }
    let mut g = SIM.lock().unwrap();
    while g.as_ref().unwrap().live > 0 {
        g = CV.wait(g).unwrap();
    }
    let s = g.take().unwrap();
    (s.log, s.choose.unwrap())
}

// ---------------------------------------------------------------- ARM memory

fn word_of(s: &State) -> u64 {
    unsafe { *(s.word as *const u32) as u64 }
}
fn check(s: &State, a: u64, n: u32) -> bool {
    a >= s.word && a + n as u64 <= s.word + 4 && a % n as u64 == 0
}
unsafe fn get(a: u64, n: u32) -> u32 {
    unsafe {
        match n {
            1 => *(a as *const u8) as u32,
            2 => *(a as *const u16) as u32,
            _ => *(a as *const u32),
        }
    }
}
unsafe fn put(a: u64, n: u32, v: u32) {
    unsafe {
        match n {
            1 => *(a as *mut u8) = v as u8,
            2 => *(a as *mut u16) = v as u16,
            _ => *(a as *mut u32) = v,
        }
    }
}
fn bad(a: u64, n: u32) -> ! {
    panic!("access outside the operand's word: {a:x} size {n}")
}
fn wrote(s: &mut State, me: usize) {
    // a store by anyone clears the other threads' reservations of the word
    for (i, m) in s.monitor.iter_mut().enumerate() {
        if i != me {
            *m = None;
        }
    }
    let v = word_of(s);
    s.log.push(Event { kind: WRITE, tid: me as u8, val: v });
}

pub fn load(a: u64, n: u32) -> u32 {
    step(|s, me| {
        if !check(s, a, n) {
            return Err(());
        }
        let v = unsafe { get(a, n) };
        let w = word_of(s);
        s.log.push(Event { kind: LOAD, tid: me as u8, val: w });
        Ok(v)
    })
    .expect("outside a simulation")
    .unwrap_or_else(|_| bad(a, n))
}
pub fn store(a: u64, n: u32, v: u32) {
    step(|s, me| {
        if !check(s, a, n) {
            return Err(());
        }
        unsafe { put(a, n, v) };
        wrote(s, me);
        Ok(())
    })
    .expect("outside a simulation")
    .unwrap_or_else(|_| bad(a, n))
}
pub fn load_ex(a: u64, n: u32) -> u32 {
    let v = load(a, n);
    let me = tid().unwrap();
    SIM.lock().unwrap().as_mut().unwrap().monitor[me] = Some((a, n));
    v
}
/// Returns 0 when the store happened.
pub fn store_ex(a: u64, n: u32, v: u32) -> u32 {
    step(|s, me| {
        if !check(s, a, n) {
            return Err(());
        }
        let armed = s.monitor[me].take() == Some((a, n));
        if armed && s.spurious > 0 && s.choose.as_mut().unwrap().choose(2) == 1 {
            s.spurious -= 1;
            s.log.push(Event { kind: FAIL, tid: me as u8, val: 0 });
            return Ok(1);
        }
        if !armed {
            s.log.push(Event { kind: FAIL, tid: me as u8, val: 0 });
            return Ok(1);
        }
        unsafe { put(a, n, v) };
        wrote(s, me);
        Ok(0)
    })
    .expect("outside a simulation")
    .unwrap_or_else(|_| bad(a, n))
}
pub fn clear_ex() {
    if let Some(me) = tid() {
        SIM.lock().unwrap().as_mut().unwrap().monitor[me] = None;
    }
}
/// The kernel's compare-exchange helper: 0 when it stored; may fail for no reason.
pub extern "C" fn kuser_cmpxchg(old: u32, new: u32, ptr: *mut u32) -> u32 {
    let a = ptr as usize as u64;
    let r = step(|s, me| {
        if !check(s, a, 4) {
            s.log.push(Event { kind: PANIC, tid: me as u8, val: 2 });
            return 0;
        }
        if s.spurious > 0 && s.choose.as_mut().unwrap().choose(2) == 1 {
            s.spurious -= 1;
            s.log.push(Event { kind: FAIL, tid: me as u8, val: 0 });
            return 1;
        }
        if unsafe { get(a, 4) } != old {
            s.log.push(Event { kind: FAIL, tid: me as u8, val: 0 });
            return 1;
        }
        unsafe { put(a, 4, new) };
        wrote(s, me);
        0
    });
    r.expect("outside a simulation")
}
pub extern "C" fn kuser_barrier() {
    event(BARRIER, 0);
}

// ---------------------------------------------------------------- atomics with history

pub mod atomics {
    use super::*;
    pub use ::core::sync::atomic::Ordering;

    fn acq(o: Ordering) -> bool {
        matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
    }
    fn rel(o: Ordering) -> bool {
        matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
    }
    fn hist<'a>(s: &'a mut State, loc: usize, init: u64) -> &'a mut Vec<(u64, View)> {
        s.hist.entry(loc).or_insert_with(|| vec![(init, View::default())])
    }
    fn merge(a: &mut View, b: &View) {
        for (k, v) in &b.0 {
            let e = a.0.entry(*k).or_insert(0);
            *e = (*e).max(*v);
        }
    }
    pub(super) fn ld(loc: usize, init: u64, o: Ordering) -> Option<u64> {
        step(|s, me| {
            let seen = *s.views[me].0.get(&loc).unwrap_or(&0);
            let n = hist(s, loc, init).len();
            let i = if s.stale && o != Ordering::SeqCst && n - seen > 1 { n - 1 - s.choose.as_mut().unwrap().choose(n - seen) } else { n - 1 };
            let (v, w) = s.hist[&loc][i].clone();
            s.views[me].0.insert(loc, i);
            if acq(o) {
                merge(&mut s.views[me], &w);
            }
            v
        })
    }
    fn push(s: &mut State, me: usize, loc: usize, v: u64, o: Ordering) {
        let n = s.hist[&loc].len();
        s.views[me].0.insert(loc, n);
        let w = if rel(o) { s.views[me].clone() } else { View::default() };
        s.hist.get_mut(&loc).unwrap().push((v, w));
    }
    pub(super) fn st(loc: usize, init: u64, v: u64, o: Ordering) -> Option<()> {
        step(|s, me| {
            hist(s, loc, init);
            push(s, me, loc, v, o);
        })
    }
    pub(super) fn rmw(loc: usize, init: u64, o: Ordering, f: impl FnOnce(u64) -> Option<u64>) -> Option<(u64, bool)> {
        step(|s, me| {
            let (old, w) = hist(s, loc, init).last().unwrap().clone();
            let n = s.hist[&loc].len();
            s.views[me].0.insert(loc, n - 1);
            if acq(o) {
                merge(&mut s.views[me], &w);
            }
            match f(old) {
                Some(v) => {
                    push(s, me, loc, v, o);
                    (old, true)
                }
                None => (old, false),
            }
        })
    }

    macro_rules! atomic {
        ($name:ident, $t:ty, $real:ident) => {
            pub struct $name {
                init: $t,
                real: ::core::sync::atomic::$real,
            }
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self { init: v, real: ::core::sync::atomic::$real::new(v) }
                }
                fn loc(&self) -> usize {
                    self as *const Self as usize
                }
                pub fn load(&self, o: Ordering) -> $t {
                    match ld(self.loc(), self.init as u64, o) {
                        Some(v) => v as $t,
                        None => self.real.load(o),
                    }
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    if st(self.loc(), self.init as u64, v as u64, o).is_none() {
                        self.real.store(v, o)
                    }
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    match rmw(self.loc(), self.init as u64, o, |_| Some(v as u64)) {
                        Some(r) => r.0 as $t,
                        None => self.real.swap(v, o),
                    }
                }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                    match rmw(self.loc(), self.init as u64, o, |x| Some(x | v as u64)) {
                        Some(r) => r.0 as $t,
                        None => self.real.fetch_or(v, o),
                    }
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                    match rmw(self.loc(), self.init as u64, o, |x| Some(x & v as u64)) {
                        Some(r) => r.0 as $t,
                        None => self.real.fetch_and(v, o),
                    }
                }
                pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, f: Ordering) -> Result<$t, $t> {
                    match rmw(self.loc(), self.init as u64, o, |x| (x == a as u64).then_some(b as u64)) {
                        Some((v, true)) => Ok(v as $t),
                        Some((v, false)) => Err(v as $t),
                        None => self.real.compare_exchange(a, b, o, f),
                    }
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, o, f)
                }
                /// An atomic in memory the ARM code addresses.
                pub unsafe fn from_ptr(p: *mut $t) -> At<$t> {
                    At(p)
                }
            }
        };
    }
    atomic!(AtomicU8, u8, AtomicU8);
    atomic!(AtomicU16, u16, AtomicU16);
    atomic!(AtomicU32, u32, AtomicU32);
    atomic!(AtomicUsize, usize, AtomicUsize);

    pub struct At<T>(pub *mut T);
    macro_rules! at {
        ($t:ty, $n:expr) => {
            impl At<$t> {
                pub fn load(&self, _: Ordering) -> $t {
                    super::load(self.0 as usize as u64, $n) as $t
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    super::store(self.0 as usize as u64, $n, v as u32)
                }
            }
        };
    }
    at!(u8, 1);
    at!(u16, 2);
    at!(u32, 4);

    pub struct AtomicPtr<T> {
        init: *mut T,
        real: ::core::sync::atomic::AtomicPtr<T>,
    }
    unsafe impl<T> Sync for AtomicPtr<T> {}
    unsafe impl<T> Send for AtomicPtr<T> {}
    impl<T> AtomicPtr<T> {
        pub const fn new(p: *mut T) -> Self {
            Self { init: p, real: ::core::sync::atomic::AtomicPtr::new(p) }
        }
        fn loc(&self) -> usize {
            self as *const Self as usize
        }
        pub fn load(&self, o: Ordering) -> *mut T {
            match ld(self.loc(), self.init as usize as u64, o) {
                Some(v) => v as usize as *mut T,
                None => self.real.load(o),
            }
        }
        pub fn store(&self, p: *mut T, o: Ordering) {
            if st(self.loc(), self.init as usize as u64, p as usize as u64, o).is_none() {
                self.real.store(p, o)
            }
        }
        pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T {
            match rmw(self.loc(), self.init as usize as u64, o, |_| Some(p as usize as u64)) {
                Some(r) => r.0 as usize as *mut T,
                None => self.real.swap(p, o),
            }
        }
        pub fn compare_exchange(&self, a: *mut T, b: *mut T, o: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
            match rmw(self.loc(), self.init as usize as u64, o, |x| (x == a as usize as u64).then_some(b as usize as u64)) {
                Some((v, true)) => Ok(v as usize as *mut T),
                Some((v, false)) => Err(v as usize as *mut T),
                None => self.real.compare_exchange(a, b, o, f),
            }
        }
    }
}
