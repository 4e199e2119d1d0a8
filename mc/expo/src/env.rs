//! Sources of nondeterminism, decided by the harness: the clock and hash seeds.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// Nanoseconds of the wall clock; every reading advances it.
pub static NOW: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(1);

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        let n = NOW.fetch_add(7, SeqCst);
        (*ts).tv_sec = (n / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (n % 1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    for i in 0..len {
        let x = SEED.fetch_add(1, SeqCst).wrapping_mul(0x9E3779B97F4A7C15);
        *(buf as *mut u8).add(i) = (x >> 33) as u8;
    }
    len as libc::ssize_t
}
