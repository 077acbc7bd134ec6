//! Basic-block callbacks. When the library and the simulator are compiled with the compiler's coverage instrumentation
//! (tools/rustc-blocks.sh), every basic block they execute calls `__sanitizer_cov_trace_pc`; a thread whose countdown
//! runs out enters the simulator's scheduler there. This crate itself is not instrumented.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static SPENT: Cell<u64> = const { Cell::new(0) };
}
/// The thread that may run.
pub static OWNER: AtomicUsize = AtomicUsize::new(usize::MAX);
static HOOK: OnceLock<fn()> = OnceLock::new();

pub fn install(f: fn()) {
    let _ = HOOK.set(f);
}
pub fn me(i: usize) {
    SPENT.with(|s| s.set(0));
    ME.with(|m| m.set(i));
}
/// Blocks until the next preemption; 0 switches it off. Returns the old value.
pub fn arm(n: u64) -> u64 {
    LEFT.with(|l| l.replace(n))
}
/// Blocks this thread has executed while armed.
pub fn spent() -> u64 {
    SPENT.with(|s| s.get())
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point()
}
// Stores are points of their own: a thread can be stopped between reading a shared value and writing it back.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_store1(_: *const u8) {
    point()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_store2(_: *const u8) {
    point()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_store4(_: *const u8) {
    point()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_store8(_: *const u8) {
    point()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_store16(_: *const u8) {
    point()
}
#[inline(always)]
fn point() {
    LEFT.with(|l| {
        let n = l.get();
        if n == 0 {
            return;
        }
        SPENT.with(|s| s.set(s.get() + 1));
        if n > 1 && OWNER.load(Ordering::Relaxed) == ME.with(|m| m.get()) {
            l.set(n - 1);
            return;
        }
        l.set(0);
        // not the owner: it slept in a lock while another thread took over; it must wait without a new choice
        if let Some(h) = HOOK.get() {
            h();
        }
        if l.get() == 0 {
            l.set(n.max(2) - 1);
        }
    })
}

/// While on, every allocation is aligned to a cache line: vectorised loops of the linear algebra then take the same path
/// wherever the allocator puts their data, so that block counts are repeatable.
pub static ALIGN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Alloc;
const LINE: usize = 64;
// SAFETY: forwards to the system allocator, which frees any block by its address alone on this platform.
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if ALIGN.load(Ordering::Relaxed) && l.align() < LINE {
            return std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(l.size(), LINE));
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if ALIGN.load(Ordering::Relaxed) && l.align() < LINE {
            return std::alloc::System.alloc_zeroed(std::alloc::Layout::from_size_align_unchecked(l.size(), LINE));
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if ALIGN.load(Ordering::Relaxed) && l.align() < LINE {
            return std::alloc::System.realloc(p, std::alloc::Layout::from_size_align_unchecked(l.size(), LINE), n);
        }
        std::alloc::System.realloc(p, l, n)
    }
}
