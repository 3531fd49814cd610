//! What a process can read from its machine besides its arguments: the clock and the
//! kernel's entropy. Both are interposed at the C library boundary, so that the standard
//! library and everything else in this process gets the simulated ones.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

/// Set in simulated processes only; the runner itself keeps real time.
static SIMULATED: AtomicBool = AtomicBool::new(false);
static OFFSET_NS: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
thread_local!(static ENTROPY: Cell<u64> = const { Cell::new(0x5EED) });

/// From now on this process sees simulated machine state.
pub fn enter(seed: u64) {
    SIMULATED.store(true, Relaxed);
    ENTROPY.with(|e| e.set(seed));
    OFFSET_NS.store(0, Relaxed);
}
/// The machine's clock jumps.
pub fn jump(ns: i64) {
    OFFSET_NS.fetch_add(ns, Relaxed);
}
/// How often the clock was read.
pub fn clock_reads() -> u64 {
    READS.load(Relaxed)
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    if r == 0 && SIMULATED.load(Relaxed) {
        READS.fetch_add(1, Relaxed);
        // Simulated clocks stand still unless they are told to move.
        let base = 1_700_000_000i64;
        let off = OFFSET_NS.load(Relaxed);
        (*ts).tv_sec = base + off.div_euclid(1_000_000_000);
        (*ts).tv_nsec = off.rem_euclid(1_000_000_000);
    }
    r
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in out.chunks_mut(8) {
        let v = ENTROPY
            .try_with(|e| {
                e.set(e.get().wrapping_add(0x9E3779B97F4A7C15));
                crate::ctx::mix(e.get())
            })
            .unwrap_or(0);
        c.copy_from_slice(&v.to_le_bytes()[..c.len()]);
    }
    len as libc::ssize_t
}
