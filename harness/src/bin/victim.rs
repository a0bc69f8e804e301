//! A process that runs a script and dies, or has its writes fail, at a given point.
//!
//! The functions by which the process changes files are defined here, which puts them in front of
//! those of the C library for SQLite and the standard library alike.

#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

#[path = "../script.rs"]
mod script;

use script::{Op, Script, open_at};
use std::{
    ffi::{c_char, c_int, c_long, c_void},
    path::Path,
    sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering},
};
use trane::Trane;

unsafe extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_WRITE: c_long = 1;
const SYS_PWRITE64: c_long = 18;
const SYS_ACCESS: c_long = 21;
const SYS_GETPID: c_long = 39;
const SYS_KILL: c_long = 62;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83;
const SYS_UNLINK: c_long = 87;
const SYS_OPENAT: c_long = 257;
const AT_FDCWD: c_long = -100;
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;
const ENOSPC: c_int = 28;
const EIO: c_int = 5;

/// Whether the calls are counted at the moment.
static ACTIVE: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicI64 = AtomicI64::new(0);
/// What to do: 0 nothing, 1 die before the call, 2 die in the middle of a write, 3 fail for lack of
/// space, 4 fail with an I/O error.
static MODE: AtomicUsize = AtomicUsize::new(0);
static AT: AtomicI64 = AtomicI64::new(0);
static LENGTH: AtomicI64 = AtomicI64::new(1);

fn die() {
    unsafe {
        let pid = syscall(SYS_GETPID);
        syscall(SYS_KILL, pid, 9 as c_long);
    }
}

/// Counts a call that changes files. Returns whether the call is to fail. `torn` does a part of it.
fn event(torn: impl FnOnce()) -> bool {
    if !ACTIVE.load(Ordering::SeqCst) {
        return false;
    }
    let n = COUNT.fetch_add(1, Ordering::SeqCst);
    let (at, len) = (AT.load(Ordering::SeqCst), LENGTH.load(Ordering::SeqCst));
    let errno = match MODE.load(Ordering::SeqCst) {
        1 if n == at => {
            die();
            return true;
        }
        2 if n == at => {
            torn();
            die();
            return true;
        }
        3 if n >= at && n < at + len => ENOSPC,
        4 if n >= at && n < at + len => EIO,
        _ => return false,
    };
    unsafe { *__errno_location() = errno };
    true
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    unsafe {
        if fd > 2 && event(|| _ = syscall(SYS_WRITE, fd as c_long, buf, len / 2)) {
            return -1;
        }
        syscall(SYS_WRITE, fd as c_long, buf, len) as isize
    }
}

unsafe fn do_pwrite(fd: c_int, buf: *const c_void, len: usize, at: i64) -> isize {
    unsafe {
        if event(|| _ = syscall(SYS_PWRITE64, fd as c_long, buf, len / 2, at)) {
            return -1;
        }
        syscall(SYS_PWRITE64, fd as c_long, buf, len, at) as isize
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, len: usize, at: i64) -> isize {
    unsafe { do_pwrite(fd, buf, len, at) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, at: i64) -> isize {
    unsafe { do_pwrite(fd, buf, len, at) }
}

unsafe fn do_ftruncate(fd: c_int, len: i64) -> c_int {
    unsafe {
        if event(|| ()) {
            return -1;
        }
        syscall(SYS_FTRUNCATE, fd as c_long, len) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    unsafe { do_ftruncate(fd, len) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    unsafe { do_ftruncate(fd, len) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unsafe {
        if event(|| ()) {
            return -1;
        }
        syscall(SYS_UNLINK, path) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    unsafe {
        if event(|| ()) {
            return -1;
        }
        syscall(SYS_RENAME, from, to) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
    unsafe {
        if event(|| ()) {
            return -1;
        }
        syscall(SYS_MKDIR, path, mode as c_long) as c_int
    }
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    unsafe {
        // Opening a file that exists changes nothing unless it is truncated.
        let changes = flags & O_TRUNC != 0
            || flags & O_CREAT != 0 && syscall(SYS_ACCESS, path, 0 as c_long) != 0;
        if changes && event(|| ()) {
            return -1;
        }
        syscall(SYS_OPENAT, AT_FDCWD, path, flags as c_long, mode as c_long) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    unsafe { do_open(path, flags, mode) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    unsafe { do_open(path, flags, mode) }
}

/// Tells the check what happened, past the counting.
fn say(c: u8) {
    unsafe { syscall(SYS_WRITE, 1 as c_long, std::ptr::from_ref(&c), 1usize) };
}

fn fail(msg: &str) -> ! {
    ACTIVE.store(false, Ordering::SeqCst);
    eprintln!("{msg}");
    say(b'X');
    std::process::exit(3)
}

/// Checks that the instance agrees with one that reads everything from the files.
fn compare(t: &Trane, s: &Script, root: &Path, when: &str) {
    ACTIVE.store(false, Ordering::SeqCst);
    let live = match s.view(t) {
        Ok(v) => v,
        Err(e) => fail(&format!("after {when}, the instance is of no use: {e:?}")),
    };
    let fresh = match open_at(root, s.now).and_then(|t| s.view(&t)) {
        Ok(v) => v,
        Err(e) => fail(&format!("after {when}, opening the library fails: {e:?}")),
    };
    for (key, want) in &fresh {
        if !script::same(&live[key], want) {
            fail(&format!(
                "after {when}, {key} is {:?} in the running instance and {want:?} in the files",
                live[key]
            ));
        }
    }
    ACTIVE.store(true, Ordering::SeqCst);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = Path::new(&args[2]).to_path_buf();
    let text = std::fs::read_to_string(&args[1]).expect("cannot read the script");
    let s: Script = serde_json::from_str(&text).expect("cannot parse the script");
    MODE.store(args[3].parse().unwrap(), Ordering::SeqCst);
    AT.store(args[4].parse().unwrap(), Ordering::SeqCst);
    LENGTH.store(args[5].parse().unwrap(), Ordering::SeqCst);
    let failing = MODE.load(Ordering::SeqCst) >= 3;

    let open = || -> Trane {
        for _ in 0..60 {
            match open_at(&root, s.now) {
                Ok(t) => return t,
                Err(e) => {
                    if !failing {
                        fail(&format!("opening failed: {e:?}"));
                    }
                    say(b'f');
                }
            }
        }
        fail("opening keeps failing")
    };
    ACTIVE.store(true, Ordering::SeqCst);
    let mut t = open();
    let opening = COUNT.load(Ordering::SeqCst);
    say(b'o');
    for (k, op) in s.ops.iter().enumerate() {
        if *op == Op::Reopen {
            drop(t);
            t = open();
        } else {
            let mut tries = 0;
            while let Err(e) = s.run(&mut t, k) {
                if !failing {
                    fail(&format!("{op:?} failed: {e:?}"));
                }
                tries += 1;
                if tries == 60 {
                    fail(&format!("{op:?} keeps failing: {e:?}"));
                }
                say(b'f');
                compare(&t, &s, &root, &format!("the failure of {op:?} ({e})"));
            }
            if tries > 0 {
                compare(&t, &s, &root, &format!("{op:?}, which had failed before,"));
            }
        }
        say(b'o');
    }
    drop(t);
    ACTIVE.store(false, Ordering::SeqCst);
    say(b'd');
    println!("{} {opening}", COUNT.load(Ordering::SeqCst));
}
