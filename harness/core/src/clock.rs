//! Virtual clock: the executable's own `clock_gettime` takes precedence over
//! libc's, so `Instant::now`, `SystemTime::now` and `chrono::Utc::now` inside
//! the code under test read a clock the harness moves. Off by default (real
//! time) until `freeze` is called.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

static FROZEN: AtomicBool = AtomicBool::new(false);
static MONO_NS: AtomicI64 = AtomicI64::new(0);
static REAL_NS: AtomicI64 = AtomicI64::new(0);

unsafe fn sys(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// # Safety
/// Called by std through libc's ABI with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(
    clk: libc::clockid_t,
    ts: *mut libc::timespec,
) -> libc::c_int {
    if FROZEN.load(SeqCst) {
        let ns = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => REAL_NS.load(SeqCst),
            _ => MONO_NS.load(SeqCst),
        };
        (*ts).tv_sec = ns / 1_000_000_000;
        (*ts).tv_nsec = ns % 1_000_000_000;
        return 0;
    }
    sys(clk, ts)
}

/// Stops the clock at a fixed origin (monotonic 1 000 000 s, 2023-11-14 wall).
pub fn freeze() {
    MONO_NS.store(1_000_000 * 1_000_000_000, SeqCst);
    REAL_NS.store(1_700_000_000 * 1_000_000_000, SeqCst);
    FROZEN.store(true, SeqCst);
}

pub fn advance_ms(ms: i64) {
    MONO_NS.fetch_add(ms * 1_000_000, SeqCst);
    REAL_NS.fetch_add(ms * 1_000_000, SeqCst);
}

pub fn now_ms() -> i64 {
    MONO_NS.load(SeqCst) / 1_000_000
}
