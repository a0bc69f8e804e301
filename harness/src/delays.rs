//! Random delays in the calls by which SQLite locks and writes its files, to vary the schedule of
//! concurrent threads. They are off unless a check turns them on for one of its threads.

#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

use std::{
    cell::Cell,
    ffi::{c_int, c_long, c_void},
    time::Duration,
};

unsafe extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
}

const SYS_PWRITE64: c_long = 18;
const SYS_FCNTL: c_long = 72;

thread_local! {
    /// The state of the generator of delays of this thread, zero if there are none.
    static STATE: Cell<u64> = const { Cell::new(0) };
}

/// Turns on the delays in this thread.
pub fn enable(seed: u64) {
    STATE.with(|s| s.set(seed | 1));
}

pub fn disable() {
    STATE.with(|s| s.set(0));
}

/// Sometimes waits for a moment.
pub fn pause() {
    let Ok(n) = STATE.try_with(|s| {
        let mut n = s.get();
        if n != 0 {
            n ^= n << 13;
            n ^= n >> 7;
            n ^= n << 17;
            s.set(n);
        }
        n
    }) else {
        return;
    };
    if n != 0 && n.is_multiple_of(5) {
        std::thread::sleep(Duration::from_micros(n >> 8 & 0x7f));
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    pause();
    unsafe { syscall(SYS_FCNTL, c_long::from(fd), c_long::from(cmd), arg) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    unsafe { fcntl(fd, cmd, arg) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, at: i64) -> isize {
    pause();
    unsafe { syscall(SYS_PWRITE64, c_long::from(fd), buf, len, at) as isize }
}
