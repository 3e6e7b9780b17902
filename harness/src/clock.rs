//! A clock_gettime in front of libc's: a thread may set its own wall clock.
use std::cell::Cell;
thread_local! {
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        if let Ok(Some((s, n))) = NOW.try_with(|n| n.get()) {
            (*t).tv_sec = s;
            (*t).tv_nsec = n;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int
}
/// Runs `f` with the wall clock of this thread stopped at that time.
pub fn at<T>(s: i64, ns: i64, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            NOW.with(|n| n.set(None));
        }
    }
    let _r = Reset;
    NOW.with(|n| n.set(Some((s, ns))));
    f()
}
