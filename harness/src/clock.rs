//! Virtual wall clock.
//!
//! The executable defines `clock_gettime`, `gettimeofday` and `time`, so that every read of the wall clock in the
//! process (Rust's `SystemTime::now`, and with it chrono's `Utc::now`) ends up here. A thread that set a virtual
//! time reads that one; everything else is passed on to the kernel.

use std::cell::Cell;

#[repr(C)]
pub struct Timespec {
    tv_sec: i64,
    tv_nsec: i64,
}

#[repr(C)]
pub struct Timeval {
    tv_sec: i64,
    tv_usec: i64,
}

extern "C" {
    fn syscall(number: i64, ...) -> i64;
}

#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: i64 = 113;

thread_local! {
    static NOW: Cell<Option<(i64, u32)>> = const { Cell::new(None) };
}

const CLOCK_REALTIME: i32 = 0;
const CLOCK_REALTIME_COARSE: i32 = 5;
const CLOCK_TAI: i32 = 11;

/// # Safety
/// Called by libc users with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    if clock == CLOCK_REALTIME || clock == CLOCK_REALTIME_COARSE || clock == CLOCK_TAI {
        if let Some((s, n)) = NOW.with(Cell::get) {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = i64::from(n);
            return 0;
        }
    }
    syscall(SYS_CLOCK_GETTIME, i64::from(clock), ts) as i32
}

/// # Safety
/// Called by libc users with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timeval, _tz: *mut u8) -> i32 {
    let mut ts = Timespec { tv_sec: 0, tv_nsec: 0 };
    let r = clock_gettime(CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    r
}

/// # Safety
/// Called by libc users with a valid or null pointer.
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = Timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

/// Run `f` at the virtual time `(seconds, nanoseconds)` since the epoch
pub fn at<T>(now: (i64, u32), f: impl FnOnce() -> T) -> T {
    struct Reset(Option<(i64, u32)>);
    impl Drop for Reset {
        fn drop(&mut self) {
            let old = self.0;
            NOW.with(|n| n.set(old));
        }
    }
    let _reset = Reset(NOW.with(Cell::get));
    NOW.with(|n| n.set(Some(now)));
    f()
}

/// Does the library's clock follow the virtual clock?
pub fn self_check() -> Result<(), String> {
    for probe in [(0i64, 0u32), (1_700_000_000, 123_456_789), (253_402_300_799, 999_999_999)] {
        let seen = at(probe, chrono::Utc::now);
        if (seen.timestamp(), seen.timestamp_subsec_nanos()) != probe {
            return Err(format!("virtual clock set to {probe:?}, but the time read is {seen}"));
        }
    }
    Ok(())
}
