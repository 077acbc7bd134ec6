//! Cooperative scheduling of real threads: exactly one runs at a time, and the tape decides who is next. Threads hand
//! over in callbacks and, in the instrumented build, after a drawn number of basic blocks of library code.
use crate::core::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct State {
    current: usize,
    alive: Vec<bool>,
    /// found asleep in a lock of the library while it was to run
    stuck: Vec<bool>,
    tids: Vec<i64>,
    switches: u64,
    preempted: u64,
    scale: u64,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
/// Hand-overs forced by locks in this process; after a few, threads are only switched in callbacks.
static FORCED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub const MAIN: usize = usize::MAX - 1;
const FAR: u64 = 1 << 60;

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|p| p.into_inner())
}
fn give(s: &mut State, to: usize) {
    s.current = to;
    preempt::OWNER.store(to, Ordering::SeqCst);
    CV.notify_all();
}
fn next(runnable: &[bool], me: Option<usize>) -> usize {
    let mut live: Vec<usize> = (0..runnable.len()).filter(|i| runnable[*i]).collect();
    if live.is_empty() {
        return MAIN;
    }
    // staying with the current thread is the simplest choice
    if let Some(m) = me {
        if let Some(p) = live.iter().position(|i| *i == m) {
            live.swap(0, p);
        }
    }
    live[below(live.len())]
}
fn runnable(s: &State) -> Vec<bool> {
    s.alive.iter().zip(&s.stuck).map(|(a, b)| *a && !*b).collect()
}
/// A lock of the library may be held by a waiting thread: then the running one sleeps, and another must go on.
fn asleep(tid: i64) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    t.rsplit(") ").next().map(|r| r.starts_with('S')).unwrap_or(false)
}
fn wait(me: usize) {
    let mut g = lock();
    let mut quiet = 0;
    let mut last = (usize::MAX, 0);
    loop {
        let Some(s) = g.as_mut() else { return };
        if s.current == me {
            s.stuck[me] = false;
            return;
        }
        s.stuck[me] = false;
        let (h, t) = CV.wait_timeout(g, Duration::from_millis(25)).unwrap_or_else(|p| p.into_inner());
        g = h;
        let Some(s) = g.as_mut() else { return };
        if !t.timed_out() || s.scale == 0 || s.current >= s.tids.len() || s.tids[s.current] == 0 {
            continue;
        }
        let now = (s.current, s.switches);
        quiet = if now == last && asleep(s.tids[s.current]) { quiet + 1 } else { 0 };
        last = now;
        if quiet >= 8 {
            quiet = 0;
            let c = s.current;
            s.stuck[c] = true;
            s.switches += 1;
            FORCED.fetch_add(1, Ordering::SeqCst);
            if let Some(to) = (0..s.alive.len()).map(|k| (c + 1 + k) % s.alive.len()).find(|i| s.alive[*i] && !s.stuck[*i]) {
                give(s, to);
            }
        }
    }
}
fn gap() -> u64 {
    let scale = lock().as_ref().map(|s| if s.preempted < 400 { s.scale } else { 0 }).unwrap_or(0);
    if scale == 0 || FORCED.load(Ordering::SeqCst) > 6 {
        return 0;
    }
    match draw(2 * scale + 1) {
        0 => FAR,
        n => n + 1,
    }
}
fn switch(site: &str) {
    let me = ME.with(|m| m.get());
    let can = lock().as_ref().map(|s| runnable(s));
    let Some(can) = can else { return };
    let to = next(&can, Some(me));
    if to == me || to == MAIN {
        return;
    }
    event(format!("switch t{me}->t{to} at {site} b{}", preempt::spent()));
    {
        let mut g = lock();
        let s = g.as_mut().expect("scheduler state");
        s.switches += 1;
        give(s, to);
    }
    wait(me);
}
/// Called from user callbacks running on a scheduled thread.
pub fn yield_point(site: &'static str) {
    if ME.with(|m| m.get()) == usize::MAX {
        return;
    }
    let left = preempt::arm(0);
    switch(site);
    preempt::arm(left);
}
/// Called from a basic block whose thread has run out of its share (or woke up in a lock without the baton).
fn preempted() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mine = {
        let mut g = lock();
        let Some(s) = g.as_mut() else { return };
        if s.current == me {
            s.preempted += 1;
        }
        s.current == me
    };
    if !mine {
        wait(me);
        return;
    }
    probe("preempted in library code");
    switch("basic block");
    let g = gap();
    preempt::arm(if g == 0 { FAR } else { g });
}
/// Keeps the scheduler out while the simulator works on shared state of its own.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    struct Back(u64);
    impl Drop for Back {
        fn drop(&mut self) {
            if self.0 != 0 {
                preempt::arm(self.0);
            }
        }
    }
    let _b = Back(preempt::arm(0));
    f()
}
/// Runs the bodies as interleaved threads; returns their results (a panic payload if one escaped), the number of
/// switches and of those in the middle of library code. `scale`: mean number of basic blocks between preemptions, 0 for
/// none.
pub fn run<T: Send + 'static>(
    bodies: Vec<Box<dyn FnOnce() -> T + Send>>,
    scale: u64,
) -> (Vec<std::thread::Result<T>>, u64, u64) {
    preempt::install(preempted);
    let n = bodies.len();
    let first = next(&vec![true; n], None);
    *lock() = Some(State {
        current: first,
        alive: vec![true; n],
        stuck: vec![false; n],
        tids: vec![0; n],
        switches: 0,
        preempted: 0,
        scale,
    });
    preempt::OWNER.store(first, Ordering::SeqCst);
    preempt::ALIGN.store(scale > 0, Ordering::SeqCst);
    let hs = hash_stream();
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    ME.with(|m| m.set(i));
                    preempt::me(i);
                    set_hash_stream(mix(hs ^ i as u64));
                    // SAFETY: plain system call
                    let tid = unsafe { libc::syscall(libc::SYS_gettid) };
                    if let Some(s) = lock().as_mut() {
                        s.tids[i] = tid;
                    }
                    wait(i);
                    let g = gap();
                    preempt::arm(g);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    preempt::arm(0);
                    // a thread that lost the baton in a lock waits for it before it ends
                    wait(i);
                    let can = {
                        let mut g = lock();
                        let s = g.as_mut().expect("scheduler state");
                        s.alive[i] = false;
                        let r = runnable(s);
                        if r.iter().any(|x| *x) {
                            r
                        } else {
                            s.alive.clone()
                        }
                    };
                    let to = next(&can, None);
                    event(format!("end t{i}"));
                    let mut g = lock();
                    let s = g.as_mut().expect("scheduler state");
                    s.switches += 1;
                    give(s, to);
                    r
                })
                .expect("spawn")
        })
        .collect();
    let out = handles.into_iter().map(|h| h.join().unwrap_or_else(Err)).collect();
    preempt::ALIGN.store(false, Ordering::SeqCst);
    let (sw, pre) = lock().take().map(|s| (s.switches, s.preempted)).unwrap_or((0, 0));
    (out, sw, pre)
}
