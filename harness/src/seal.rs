//! Seals the remaining doors to the outside: std's clock and the operating system's randomness.
//! Everything linked into this binary (std, tokio, ruq) resolves these symbols to the versions
//! here; inside a run they answer from simulated time and from a fixed stream.

use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static SIM_NS: AtomicU64 = AtomicU64::new(0);
static RAND: AtomicU64 = AtomicU64::new(0x5EED);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

const BASE_NS: u64 = 1_000_000_000_000;

pub fn set_sim_ms(ms: u64) {
    SIM_NS.store(BASE_NS + ms * 1_000_000, Relaxed);
}
pub fn reset_rand(seed: u64) {
    RAND.store(seed, Relaxed);
}

pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let ns = SIM_NS.load(Relaxed);
    if ns == 0 {
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    }
    CLOCK_READS.fetch_add(1, Relaxed);
    (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = (ns % 1_000_000_000) as _;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let p = buf as *mut u8;
    for i in 0..len {
        let x = RAND.fetch_add(0x9E3779B97F4A7C15, Relaxed);
        *p.add(i) = (crate::prng::mix(x) >> 24) as u8;
    }
    len as libc::ssize_t
}
