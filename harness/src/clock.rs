//! The clock as this program sees it: it can be made to stand still for a thread, as a coarse clock does
//! between two ticks.
use std::cell::Cell;

thread_local!(static STILL: Cell<bool> = const { Cell::new(false) });

/// Takes the place of the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if STILL.with(|s| s.get()) && clock != libc::CLOCK_THREAD_CPUTIME_ID && clock != libc::CLOCK_PROCESS_CPUTIME_ID {
        (*t).tv_sec = 1_700_000_000;
        (*t).tv_nsec = 123_456_789;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clock, t) as libc::c_int
}

/// Runs `f` while the clock stands still for this thread.
pub fn still<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            STILL.with(|s| s.set(self.0));
        }
    }
    let _back = Back(STILL.with(|s| s.replace(true)));
    f()
}
