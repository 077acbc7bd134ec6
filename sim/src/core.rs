//! The simulator core: one seed (or one recorded tape) decides every choice of a run; the run records events, fault
//! counts and probes; a violation is a value returned by the scenario.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($class:expr, $($a:tt)*) => { return Err($crate::core::Viol { class: ($class).to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { $crate::viol!($class, $($a)*) } };
}
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::core::event(format!($($a)*)) };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

#[derive(Default)]
pub struct Sim {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub tape: Vec<u64>,
    pub events: Vec<String>,
    pub ehash: u64,
    pub nevents: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, f64>,
    pub ticks: u64,
    pub total_ticks: u64,
    pub tick_limit: u64,
    pub nontrivial: bool,
}

static SIM: Mutex<Option<Sim>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    crate::sched::quietly(|| {
        let mut g = match SIM.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(g.as_mut().expect("no simulation running"))
    })
}

pub fn begin(seed: u64, replay: Option<Vec<u64>>) {
    let s = Sim { rng: mix(seed), replay, tick_limit: 2_000_000, ehash: 0xcbf2_9ce4_8422_2325, ..Default::default() };
    *SIM.lock().unwrap_or_else(|p| p.into_inner()) = Some(s);
    set_hash_stream(0);
    crate::glue::reset_hooks();
    crate::io::reset();
}
pub fn finish() -> Sim {
    SIM.lock().unwrap_or_else(|p| p.into_inner()).take().expect("no simulation")
}

/// A choice in 0..n; 0 is the simplest.
pub fn draw(n: u64) -> u64 {
    with(|s| {
        let n = n.max(1);
        let v = match &s.replay {
            Some(t) => t.get(s.pos).copied().unwrap_or(0) % n,
            None => {
                s.rng = s.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
                mix(s.rng) % n
            }
        };
        s.pos += 1;
        s.tape.push(v);
        v
    })
}
pub fn below(n: usize) -> usize {
    draw(n as u64) as usize
}
/// true with probability num/den; false is the simple choice
pub fn chance(num: u64, den: u64) -> bool {
    let v = draw(den);
    v >= den - num
}
/// value in [-mag, mag]; small tape values are small numbers
pub fn sym(mag: f64) -> f64 {
    let k = draw(4001) as i64;
    let z = if k % 2 == 0 { k / 2 } else { -(k + 1) / 2 };
    mag * (z as f64) / 2000.0
}
/// value in [lo, hi]; lo is the simple choice
pub fn range(lo: f64, hi: f64) -> f64 {
    lo + (hi - lo) * (draw(2001) as f64) / 2000.0
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[below(xs.len())]
}
/// Random permutation of 0..n; the identity is simplest.
pub fn perm(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let j = i + below(n - i);
        v.swap(i, j);
    }
    v
}

pub fn event(s: String) {
    with(|sim| {
        for b in s.bytes() {
            sim.ehash = (sim.ehash ^ b as u64).wrapping_mul(0x0100_0000_01b3);
        }
        sim.ehash = (sim.ehash ^ 0x1f).wrapping_mul(0x0100_0000_01b3);
        sim.nevents += 1;
        if sim.events.len() < 3000 {
            sim.events.push(s);
        }
    })
}
pub fn fault(name: &'static str) {
    with(|s| {
        *s.faults.entry(name).or_insert(0) += 1;
        s.nontrivial = true;
    });
    event(format!("fault {name}"));
}
pub fn probe(name: &'static str) {
    with(|s| *s.probes.entry(name).or_insert(0) += 1)
}
pub fn nontrivial() {
    with(|s| s.nontrivial = true)
}
/// Records the largest ratio of a deviation to its tolerance.
pub fn margin(name: &'static str, v: f64) {
    with(|s| {
        let e = s.maxima.entry(name).or_insert(0.0);
        if v > *e || v.is_nan() {
            *e = v;
        }
    })
}
pub fn set_tick_limit(n: u64) {
    with(|s| {
        s.ticks = 0;
        s.tick_limit = n;
    })
}
/// Payload of the panic that ends a run which makes no progress within its step budget.
pub struct Budget;
/// Payload of an injected crash.
pub struct Crash;

pub fn tick() {
    let over = with(|s| {
        s.ticks += 1;
        s.total_ticks += 1;
        s.ticks > s.tick_limit
    });
    if over {
        std::panic::panic_any(Budget);
    }
}

// ------------------------------------------------------------------------------------------------ hash worlds
thread_local! {
    static HASH: Cell<u64> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// All containers created from now on by this thread take their hash seeds from this stream.
pub fn set_hash_stream(seed: u64) {
    HASH.with(|h| h.set(mix(seed ^ 0x5bd1_e995)));
}
pub fn hash_stream() -> u64 {
    HASH.with(|h| h.get())
}
pub fn restore_hash_stream(s: u64) {
    HASH.with(|h| h.set(s));
}
/// Start a new hash world (what a new process, or a new map in the same process, would meet).
pub fn new_hash_world() -> u64 {
    let s = draw(1 << 32);
    set_hash_stream(s);
    s
}
pub fn hash_seed_from(s: u64) {
    set_hash_stream(s);
}
struct Source;
impl ahash::random_state::RandomSource for Source {
    fn gen_hasher_seed(&self) -> usize {
        HASH.with(|h| {
            let s = mix(h.get());
            h.set(s);
            s as usize
        })
    }
}
pub fn install() {
    let _ = ahash::random_state::set_random_source(Source);
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.is::<Crash>() {
            "injected crash".into()
        } else if p.is::<Budget>() {
            "step budget exhausted".into()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|c| *c.borrow_mut() = format!("{m}{loc}"));
        if std::env::var_os("SIM_BT").is_some() {
            eprintln!("panic: {m}{loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|c| c.borrow().clone())
}

/// How a guarded call into the library ended.
#[derive(Debug)]
pub enum Ended<T> {
    Done(T),
    /// our own injected crash
    Crashed,
    /// the library (or a user callback on its behalf) panicked
    Panicked(String),
}
impl<T> Ended<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Ended::Done(_) => "done",
            Ended::Crashed => "crashed",
            Ended::Panicked(_) => "panicked",
        }
    }
    /// The value, or a violation: this call had no reason to fail.
    pub fn must(self, what: &str) -> R<T> {
        match self {
            Ended::Done(t) => Ok(t),
            Ended::Crashed => viol!("harness", "{what}: unexpected injected crash"),
            Ended::Panicked(m) => viol!("panic", "{what}: {m}"),
        }
    }
}
/// Calls into the library, catching panics. A step-budget panic is not caught here: it ends the run as a violation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Ended<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ended::Done(t),
        Err(p) => {
            if p.is::<Budget>() {
                std::panic::resume_unwind(p)
            } else if p.is::<Crash>() {
                Ended::Crashed
            } else {
                Ended::Panicked(last_panic())
            }
        }
    }
}
