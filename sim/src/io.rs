//! The disk: the process's own `open64`, `read`, `pread64`, `readv` and `close` are interposed, so that reads of the
//! scratch file can be cut short, interrupted, failed or ended early under control of the tape. Other files pass
//! through.
use crate::core::*;
use libc::{c_char, c_int, c_void, size_t, ssize_t};
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// fail the open with this errno
    pub open_err: Option<i32>,
    /// largest number of bytes a read may return (0: unlimited); `jitter` makes it vary
    pub chunk: usize,
    pub jitter: bool,
    /// interrupt reads: one in this many calls returns EINTR
    pub eintr: u64,
    /// a read at or beyond this offset fails with this errno
    pub err_at: Option<(usize, i32)>,
    /// only the first failing read fails (a transient error)
    pub err_once: bool,
    /// the file appears to end here
    pub eof_at: Option<usize>,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub opens: u64,
    pub reads: u64,
    pub errors: u64,
    pub eintrs: u64,
    pub shorts: u64,
    pub delivered: usize,
    pub closed: u64,
}
struct Disk {
    plan: Plan,
    stats: Stats,
    offset: usize,
}
static FD: AtomicI32 = AtomicI32::new(-1);
static ARMED: AtomicUsize = AtomicUsize::new(0);
static DISK: Mutex<Option<Disk>> = Mutex::new(None);
static PATH: Mutex<Vec<u8>> = Mutex::new(Vec::new());

pub fn reset() {
    ARMED.store(0, SeqCst);
    FD.store(-1, SeqCst);
    *DISK.lock().unwrap_or_else(|p| p.into_inner()) = None;
}
/// Arms the interposer for the file at `path`.
pub fn arm(path: &str, plan: Plan) {
    *PATH.lock().unwrap() = path.as_bytes().to_vec();
    *DISK.lock().unwrap() = Some(Disk { plan, stats: Stats::default(), offset: 0 });
    FD.store(-1, SeqCst);
    ARMED.store(1, SeqCst);
}
/// Disarms; returns what happened and whether the file was left open.
pub fn disarm() -> (Stats, bool) {
    ARMED.store(0, SeqCst);
    let open = FD.swap(-1, SeqCst) >= 0;
    let d = DISK.lock().unwrap_or_else(|p| p.into_inner()).take();
    (d.map(|d| d.stats).unwrap_or_default(), open)
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
unsafe fn same_path(p: *const c_char) -> bool {
    let s = std::ffi::CStr::from_ptr(p).to_bytes();
    PATH.lock().map(|q| q.as_slice() == s).unwrap_or(false)
}
unsafe fn do_open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let ours = ARMED.load(SeqCst) == 1 && same_path(p);
    if ours {
        let e = {
            let mut g = DISK.lock().unwrap_or_else(|p| p.into_inner());
            let d = g.as_mut().expect("disk");
            d.stats.opens += 1;
            d.plan.open_err
        };
        if let Some(e) = e {
            set_errno(e);
            return -1;
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode as libc::c_uint) as c_int;
    if ours && fd >= 0 {
        FD.store(fd, SeqCst);
        if let Some(d) = DISK.lock().unwrap_or_else(|p| p.into_inner()).as_mut() {
            d.offset = 0;
        }
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ARMED.load(SeqCst) == 1 && FD.load(SeqCst) == fd && fd >= 0 {
        FD.store(-1, SeqCst);
        if let Some(d) = DISK.lock().unwrap_or_else(|p| p.into_inner()).as_mut() {
            d.stats.closed += 1;
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
enum Act {
    Fail(i32),
    Limit(usize),
}
fn decide(n: usize, at: Option<usize>) -> Act {
    let (plan, off) = {
        let mut g = DISK.lock().unwrap_or_else(|p| p.into_inner());
        let d = g.as_mut().expect("disk");
        d.stats.reads += 1;
        (d.plan.clone(), at.unwrap_or(d.offset))
    };
    let edit = |f: &dyn Fn(&mut Disk)| {
        if let Some(d) = DISK.lock().unwrap_or_else(|p| p.into_inner()).as_mut() {
            f(d)
        }
    };
    if plan.eintr > 0 && draw(plan.eintr) + 1 == plan.eintr {
        edit(&|d| d.stats.eintrs += 1);
        fault("read interrupted (EINTR)");
        return Act::Fail(libc::EINTR);
    }
    let mut lim = n;
    if let Some((at, e)) = plan.err_at {
        if off >= at {
            edit(&|d| {
                d.stats.errors += 1;
                if d.plan.err_once {
                    d.plan.err_at = None;
                }
            });
            fault("read error");
            return Act::Fail(e);
        }
        lim = lim.min(at - off);
    }
    if let Some(e) = plan.eof_at {
        lim = lim.min(e.saturating_sub(off));
    }
    if plan.chunk > 0 && lim > 0 {
        let c = if plan.jitter { 1 + below(plan.chunk) } else { plan.chunk };
        if c < lim {
            lim = c;
            edit(&|d| d.stats.shorts += 1);
        }
    }
    Act::Limit(lim)
}
fn deliver(n: ssize_t, seq: bool) {
    if n > 0 {
        if let Some(d) = DISK.lock().unwrap_or_else(|p| p.into_inner()).as_mut() {
            d.stats.delivered += n as usize;
            if seq {
                d.offset += n as usize;
            }
        }
    }
}
fn ours(fd: c_int) -> bool {
    ARMED.load(SeqCst) == 1 && fd >= 0 && FD.load(SeqCst) == fd
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if ours(fd) {
        match decide(n, None) {
            Act::Fail(e) => {
                set_errno(e);
                return -1;
            }
            Act::Limit(0) => return 0,
            Act::Limit(k) => {
                let r = libc::syscall(libc::SYS_read, fd, buf, k) as ssize_t;
                deliver(r, true);
                return r;
            }
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: libc::off64_t) -> ssize_t {
    if ours(fd) {
        match decide(n, Some(off as usize)) {
            Act::Fail(e) => {
                set_errno(e);
                return -1;
            }
            Act::Limit(0) => return 0,
            Act::Limit(k) => {
                let r = libc::syscall(libc::SYS_pread64, fd, buf, k, off) as ssize_t;
                deliver(r, false);
                return r;
            }
        }
    }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if ours(fd) {
        // deliver into the first non-empty buffer: a short vectored read
        for i in 0..cnt as isize {
            let v = &*iov.offset(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t
}
