//! Two halves of a join on two threads, of which one proceeds at a time.
use super::pool;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct State {
    current: usize,
    alive: [bool; 2],
    /// found asleep in a lock of the library while it was to run
    stuck: [bool; 2],
    tids: [i64; 2],
    switches: u64,
    /// switches still allowed in this pair, so that the schedule's budget is spread over several
    left: u64,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
/// Hand-overs forced by locks in this process; after a few, halves are no longer interleaved.
static FORCED: AtomicU64 = AtomicU64::new(0);
const FAR: u64 = 1 << 60;
thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|p| p.into_inner())
}
pub fn active() -> bool {
    FORCED.load(Ordering::SeqCst) > 6 || lock().is_some()
}
fn give(s: &mut State, to: usize) {
    s.current = to;
    s.switches += 1;
    preempt::OWNER.store(to, Ordering::SeqCst);
    CV.notify_all();
}
fn note(x: u64) {
    pool(|p| {
        p.stats.switches += 1;
        p.stats.hash = (p.stats.hash ^ x).wrapping_mul(0x100_0000_01b3);
    })
}
fn gap() -> u64 {
    pool(|p| {
        if p.scale == 0 || p.budget == 0 {
            return FAR;
        }
        match p.next() % (2 * p.scale + 1) {
            0 => FAR,
            n => n + 1,
        }
    })
}
#[inline(never)]
pub fn start(second: bool) {
    preempt::install(preempted);
    let first = second as usize;
    let left = pool(|p| [1, 3, 10, 40][p.next() as usize % 4]);
    *lock() = Some(State { current: first, alive: [true; 2], stuck: [false; 2], tids: [0; 2], switches: 0, left });
    preempt::OWNER.store(first, Ordering::SeqCst);
}
#[inline(never)]
pub fn end() {
    *lock() = None;
    preempt::OWNER.store(usize::MAX, Ordering::SeqCst);
    preempt::me(usize::MAX);
    ME.with(|m| m.set(usize::MAX));
}
#[inline(never)]
pub fn enter(i: usize) {
    ME.with(|m| m.set(i));
    preempt::me(i);
    // SAFETY: plain system call
    let tid = unsafe { gettid() } as i64;
    if let Some(s) = lock().as_mut() {
        s.tids[i] = tid;
    }
    wait(i);
    preempt::arm(gap());
}
#[inline(never)]
pub fn leave(i: usize) {
    preempt::arm(0);
    // a half that lost the baton in a lock waits for it before it ends
    wait(i);
    let mut g = lock();
    let s = g.as_mut().expect("pair");
    s.alive[i] = false;
    if s.alive[1 - i] {
        give(s, 1 - i);
    }
}
extern "C" {
    fn gettid() -> i32;
}
fn asleep(tid: i64) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    t.rsplit(") ").next().map(|r| r.starts_with('S')).unwrap_or(false)
}
fn wait(me: usize) {
    let mut g = lock();
    let (mut quiet, mut last) = (0, (usize::MAX, 0));
    loop {
        let Some(s) = g.as_mut() else { return };
        s.stuck[me] = false;
        if s.current == me {
            return;
        }
        let (h, t) = CV.wait_timeout(g, Duration::from_millis(25)).unwrap_or_else(|p| p.into_inner());
        g = h;
        let Some(s) = g.as_mut() else { return };
        let c = s.current;
        if !t.timed_out() || s.tids[c] == 0 || c == me {
            continue;
        }
        // a lock of the library may be held by the waiting half: then the running one sleeps, and the other must go on
        let now = (c, s.switches);
        quiet = if now == last && asleep(s.tids[c]) { quiet + 1 } else { 0 };
        last = now;
        if quiet >= 8 {
            quiet = 0;
            s.stuck[c] = true;
            FORCED.fetch_add(1, Ordering::SeqCst);
            if s.alive[1 - c] && !s.stuck[1 - c] {
                give(s, 1 - c);
            }
        }
    }
}
/// Called from a basic block whose thread has run out of its share (or woke up in a lock without the baton).
fn preempted() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let (mine, can) = match lock().as_ref() {
        Some(s) => (s.current == me, s.alive[1 - me] && !s.stuck[1 - me] && s.left > 0),
        None => return,
    };
    if !mine {
        wait(me);
        return;
    }
    if can {
        note(me as u64 * 2 + 16 + preempt::spent() % 4096 * 32);
        pool(|p| p.budget = p.budget.saturating_sub(1));
        if let Some(s) = lock().as_mut() {
            s.left -= 1;
            give(s, 1 - me);
        }
        wait(me);
    }
    preempt::arm(if can { gap() } else { FAR });
}
