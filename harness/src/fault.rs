//! send, recv, read and write in front of libc's: a thread may have its calls cut short or
//! interrupted, as the kernel may do at any time.
#![allow(dead_code)]
use serde::{Deserialize, Serialize};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Faults {
    pub seed: u64,
    /// most bytes a socket takes at once, 0: all
    pub send: u16,
    /// most bytes a socket gives at once, 0: all
    pub recv: u16,
    /// most bytes a file or device takes or gives at once, 0: all
    pub file: u16,
    /// about one call in that many is interrupted first, 0: none
    pub intr: u8,
}
/// Socket calls of a thread that fail.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Break {
    /// the n-th call fails, 0: none
    pub send: u32,
    pub recv: u32,
    /// so many in a row, 0: all from there on
    pub times: u32,
    /// index into ERRNO
    pub errno: u8,
}
pub const ERRNO: [i32; 7] = [libc::ECONNRESET, libc::EPIPE, libc::ETIMEDOUT, libc::EAGAIN, libc::ENOBUFS, libc::EIO, libc::ENETDOWN];
thread_local! {
    static BREAK: Cell<(Break, u32, u32, u64)> = const { Cell::new((Break { send: 0, recv: 0, times: 0, errno: 0 }, 0, 0, 0)) };
    static NEXT_BREAK: Cell<Break> = const { Cell::new(Break { send: 0, recv: 0, times: 0, errno: 0 }) };
    static PLAN: Cell<Faults> = const { Cell::new(Faults { seed: 0, send: 0, recv: 0, file: 0, intr: 0 }) };
    static NEXT: Cell<Faults> = const { Cell::new(Faults { seed: 0, send: 0, recv: 0, file: 0, intr: 0 }) };
    static FD: Cell<libc::c_int> = const { Cell::new(-1) };
    static HITS: Cell<u64> = const { Cell::new(0) };
}
/// From now on this thread's calls fail like that.
pub fn fail(b: Break) {
    BREAK.with(|x| x.set((b, 0, 0, 0)))
}
/// calls of this thread that failed since
pub fn failed() -> u64 {
    BREAK.with(|x| x.get().3)
}
pub fn next_break() -> Break {
    NEXT_BREAK.with(|p| p.get())
}
/// Runs `f`; the calls of the library's endpoints it starts fail, its own do not.
pub fn failing<T>(b: Break, f: impl FnOnce() -> T) -> T {
    struct Reset(Break);
    impl Drop for Reset {
        fn drop(&mut self) {
            NEXT_BREAK.with(|p| p.set(self.0));
        }
    }
    let _r = Reset(NEXT_BREAK.with(|x| x.replace(b)));
    f()
}
/// Takes what is left off the socket this thread used last, to its end, so that closing it resets
/// nothing.
pub fn drain() {
    let fd = FD.with(|f| f.get());
    let mut b = [0u8; 65536];
    while fd >= 0 {
        let n = unsafe { libc::syscall(libc::SYS_recvfrom, fd, b.as_mut_ptr(), b.len(), 0, 0usize, 0usize) };
        if n == 0 || n < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return;
        }
    }
}
fn broken(is_send: bool) -> Option<libc::ssize_t> {
    BREAK
        .try_with(|x| {
            let (b, mut s, mut r, n) = x.get();
            if b == Break::default() {
                return None;
            }
            let (k, at) = if is_send {
                s = s.saturating_add(1);
                (s, b.send)
            } else {
                r = r.saturating_add(1);
                (r, b.recv)
            };
            let hit = at > 0 && k >= at && (b.times == 0 || k < at.saturating_add(b.times));
            x.set((b, s, r, n + hit as u64));
            hit.then(|| unsafe {
                *libc::__errno_location() = ERRNO[b.errno as usize % ERRNO.len()];
                -1
            })
        })
        .unwrap_or(None)
}
/// for the library's threads that this one starts
pub fn next() -> Faults {
    NEXT.with(|p| p.get())
}
/// Runs `f`; the calls of the library's endpoints it starts are disturbed, its own are not.
pub fn library<T>(p: Faults, f: impl FnOnce() -> T) -> T {
    struct Reset(Faults);
    impl Drop for Reset {
        fn drop(&mut self) {
            NEXT.with(|p| p.set(self.0));
        }
    }
    let _r = Reset(NEXT.with(|x| x.replace(p)));
    f()
}
/// Runs `f` with the calls of this thread disturbed.
pub fn with<T>(p: Faults, f: impl FnOnce() -> T) -> T {
    struct Reset(Faults);
    impl Drop for Reset {
        fn drop(&mut self) {
            PLAN.with(|p| p.set(self.0));
        }
    }
    let _r = Reset(PLAN.with(|x| x.replace(p)));
    f()
}
/// disturbed calls of this thread so far
pub fn hits() -> u64 {
    HITS.with(|h| h.get())
}
/// how many bytes the call may move; None: it is interrupted
fn step(n: usize, max: impl Fn(&Faults) -> u16) -> Option<usize> {
    PLAN.try_with(|p| {
        let mut f = p.get();
        let max = max(&f) as usize;
        if max == 0 && f.intr == 0 {
            return Some(n);
        }
        let mut x = f.seed.wrapping_add(0x9e37_79b9_7f4a_7c15);
        f.seed = x;
        p.set(f);
        x = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x = (x ^ x >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        x ^= x >> 31;
        if f.intr > 0 && (x >> 32) % f.intr.max(2) as u64 == 0 {
            let _ = HITS.try_with(|h| h.set(h.get() + 1));
            return None;
        }
        if max == 0 || n < 2 {
            return Some(n);
        }
        let k = n.min(1 + x as u32 as usize % max);
        if k < n {
            let _ = HITS.try_with(|h| h.set(h.get() + 1));
        }
        Some(k)
    })
    .unwrap_or(Some(n))
}
unsafe fn interrupted() -> libc::ssize_t {
    *libc::__errno_location() = libc::EINTR;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: libc::c_int, b: *const libc::c_void, n: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    let _ = FD.try_with(|f| f.set(fd));
    if let Some(r) = broken(true) {
        return r;
    }
    match step(n, |f| f.send) {
        Some(n) => libc::syscall(libc::SYS_sendto, fd, b, n, flags, 0usize, 0usize) as libc::ssize_t,
        None => interrupted(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: libc::c_int, b: *mut libc::c_void, n: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    let _ = FD.try_with(|f| f.set(fd));
    if let Some(r) = broken(false) {
        return r;
    }
    match step(n, |f| f.recv) {
        Some(n) => libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, 0usize, 0usize) as libc::ssize_t,
        None => interrupted(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, b: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match step(n, |f| f.file) {
        Some(n) => libc::syscall(libc::SYS_read, fd, b, n) as libc::ssize_t,
        None => interrupted(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, b: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match step(n, |f| f.file) {
        Some(n) => libc::syscall(libc::SYS_write, fd, b, n) as libc::ssize_t,
        None => interrupted(),
    }
}
