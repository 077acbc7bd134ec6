//! Stand-in for rayon-core: the task scheduler of the multithreading feature under the simulator's control. Which half
//! of a join runs first, whether the other half is stolen by another thread, and how many workers there are is decided
//! by a seeded generator; one task runs at a time, so that one seed is one execution. In the instrumented build the two
//! halves of a join can also be interleaved: each on a thread of its own, one of which proceeds at a time, handing over
//! after a drawn number of basic blocks (`pair`).
mod pair;
use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

struct Pool {
    state: u64,
    threads: usize,
    /// out of 64 joins, how many run the second half first, and how many let another thread steal it
    reversed: u64,
    stolen: u64,
    /// and how many interleave their halves, switching every so many basic blocks on average (at most `budget` times)
    mixed: u64,
    scale: u64,
    budget: u64,
    stats: Stats,
}
/// What a schedule did: joins, joins run in reverse, halves run by another thread, joins with interleaved halves,
/// switches between those, hash of all decisions.
#[derive(Clone, Copy, Default)]
pub struct Stats {
    pub joins: u64,
    pub swaps: u64,
    pub steals: u64,
    pub pairs: u64,
    pub switches: u64,
    pub hash: u64,
}
const NONE: Stats = Stats { joins: 0, swaps: 0, steals: 0, pairs: 0, switches: 0, hash: 0 };
static POOL: Mutex<Pool> =
    Mutex::new(Pool { state: 1, threads: 4, reversed: 0, stolen: 0, mixed: 0, scale: 0, budget: 0, stats: NONE });
fn pool<T>(f: impl FnOnce(&mut Pool) -> T) -> T {
    f(&mut POOL.lock().unwrap_or_else(|p| p.into_inner()))
}
impl Pool {
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}
/// For the simulator: starts a schedule.
pub fn sim_start(seed: u64, threads: usize, reversed: u64, stolen: u64, mixed: u64, scale: u64) {
    preempt::ALIGN.store(mixed > 0, std::sync::atomic::Ordering::SeqCst);
    pool(|p| {
        *p = Pool { state: seed, threads: threads.max(1), reversed, stolen, mixed, scale, budget: 200, stats: NONE }
    })
}
/// For the simulator: what happened since.
pub fn sim_stats() -> Stats {
    pool(|p| p.stats)
}
struct Plan {
    swap: bool,
    steal: bool,
    mix: bool,
}
// not generic, so that it is compiled here, where nothing is instrumented
#[inline(never)]
fn plan() -> Plan {
    let busy = pair::active();
    pool(|p| {
        let swap = p.next() % 64 < p.reversed;
        let steal = p.next() % 64 < p.stolen && !busy;
        let mix = p.next() % 64 < p.mixed && !busy && p.budget > 0;
        let s = &mut p.stats;
        s.joins += 1;
        s.swaps += swap as u64;
        s.steals += (steal && !mix) as u64;
        s.pairs += mix as u64;
        s.hash = (s.hash ^ (mix as u64 * 4 + swap as u64 * 2 + steal as u64 + 1)).wrapping_mul(0x100_0000_01b3);
        Plan { swap, steal, mix }
    })
}

pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> FnContext {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}
fn other<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    })
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let Plan { swap, steal, mix } = plan();
    let a = move || catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
    let b = move || catch_unwind(AssertUnwindSafe(|| b(FnContext::new(steal || mix))));
    let (ra, rb) = if mix {
        pair::start(swap);
        std::thread::scope(|s| {
            let other = s.spawn(move || {
                pair::enter(1);
                let r = b();
                pair::leave(1);
                r
            });
            pair::enter(0);
            let ra = a();
            pair::leave(0);
            let rb = other.join().unwrap_or_else(Err);
            pair::end();
            (ra, rb)
        })
    } else {
        let b = move || if steal { other(b) } else { b() };
        if swap {
            let rb = b();
            (a(), rb)
        } else {
            let ra = a();
            (ra, b())
        }
    };
    match (ra, rb) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}
pub fn current_num_threads() -> usize {
    pool(|p| p.threads)
}
pub fn max_num_threads() -> usize {
    1 << 16
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}

// Scopes and spawned tasks: the library uses none; they run at once, on the spot.
pub struct Scope<'scope>(PhantomData<&'scope mut &'scope ()>);
pub struct ScopeFifo<'scope>(PhantomData<&'scope mut &'scope ()>);
impl<'scope> Scope<'scope> {
    pub fn spawn<B: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, body: B) {
        body(self)
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<B: FnOnce(&ScopeFifo<'scope>) + Send + 'scope>(&self, body: B) {
        body(self)
    }
}
pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(op: OP) -> R {
    op(&Scope(PhantomData))
}
pub fn scope_fifo<'scope, OP: FnOnce(&ScopeFifo<'scope>) -> R + Send, R: Send>(op: OP) -> R {
    op(&ScopeFifo(PhantomData))
}
pub fn in_place_scope<'scope, OP: FnOnce(&Scope<'scope>) -> R, R>(op: OP) -> R {
    op(&Scope(PhantomData))
}
pub fn in_place_scope_fifo<'scope, OP: FnOnce(&ScopeFifo<'scope>) -> R, R>(op: OP) -> R {
    op(&ScopeFifo(PhantomData))
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub struct BroadcastContext<'a>(PhantomData<&'a mut dyn Fn()>);
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        0
    }
    pub fn num_threads(&self) -> usize {
        1
    }
}
pub fn broadcast<OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send>(op: OP) -> Vec<R> {
    vec![op(BroadcastContext(PhantomData))]
}
pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP) {
    op(BroadcastContext(PhantomData))
}
pub struct ThreadBuilder(());
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("no thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder<S = ()>(PhantomData<S>);
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder(PhantomData)
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[allow(dead_code)]
type Payload = Box<dyn Any + Send>;
