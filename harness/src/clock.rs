//! What simulated tasks would otherwise ask of the operating system directly: the clock, and
//! waiting for a lock. While a simulation runs on a thread, `std::time::Instant::now()` there
//! reads simulated time, and a simulated task that has to wait for a `std::sync` lock lets the
//! other simulated tasks run; everything else sees the real system.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

/// How often a task waited for a lock in vain.
static EXPIRED: AtomicU32 = AtomicU32::new(0);

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

extern "C" {
    fn __errno_location() -> *mut i32;
    static __data_start: u8;
    static _end: u8;
}

unsafe fn raw(number: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") number => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn outcome(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// The C library's `syscall`, through which the standard library's locks reach the futex.
#[no_mangle]
pub unsafe extern "C" fn syscall(number: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const SYS_FUTEX: i64 = 202;
    const FUTEX_WAIT: i64 = 0;
    const FUTEX_WAIT_BITSET: i64 = 9;
    const PRIVATE: i64 = 128;
    const EAGAIN: i64 = 11;
    const ETIMEDOUT: i64 = 110;
    if number == SYS_FUTEX && matches!(b & 127, FUTEX_WAIT | FUTEX_WAIT_BITSET) && crate::kernel::in_task() {
        // A static lock is one that the simulations on all threads share.
        let shared = (std::ptr::addr_of!(__data_start) as i64..std::ptr::addr_of!(_end) as i64).contains(&a);
        if shared {
            return outcome(raw(number, a, b, c, d, e, f));
        }
        // Even so the holder may be another thread, and then has it for moments only, unless that
        // thread has to wait for a processor.
        let known = EXPIRED.load(Ordering::Relaxed) > 100;
        let patience = Timespec { sec: 0, nsec: if known { 40_000_000 } else { 400_000_000 } };
        let r = raw(SYS_FUTEX, a, FUTEX_WAIT | b & PRIVATE, c, &patience as *const _ as i64, 0, 0);
        if r == -ETIMEDOUT {
            EXPIRED.fetch_add(1, Ordering::Relaxed);
            crate::kernel::wait_for_lock();
            return outcome(-EAGAIN);
        }
        return outcome(r);
    }
    outcome(raw(number, a, b, c, d, e, f))
}

thread_local! {
    static VIRTUAL: Cell<Option<u64>> = const { Cell::new(None) };
}

/// Where the simulated monotonic clock starts.
const BASE: u64 = 1_000_000_000_000_000;

pub fn set(nanos: Option<u64>) {
    VIRTUAL.with(|v| v.set(nanos));
}

#[no_mangle]
pub extern "C" fn clock_gettime(clock: i32, out: *mut Timespec) -> i32 {
    const SYS_CLOCK_GETTIME: i64 = 228;
    if let Ok(Some(t)) = VIRTUAL.try_with(|v| v.get()) {
        let t = t + BASE;
        unsafe { *out = Timespec { sec: (t / 1_000_000_000) as i64, nsec: (t % 1_000_000_000) as i64 } };
        return 0;
    }
    unsafe { outcome(raw(SYS_CLOCK_GETTIME, clock as i64, out as i64, 0, 0, 0, 0)) as i32 }
}
