//! The system's side of the library: clock, randomness, environment, files and outputs.
//!
//! dash7 uses none of it. So that it cannot start to unnoticed, the entry points of the C library that lead there are
//! defined here. They do what they always do, except in calls of the library in a run: there the clock, the randomness
//! and the environment are simulated, and, if the run asks for it, everything that reaches files, outputs or the
//! network is recorded and refused.

// the standard library declares `open` with variable arguments, which cannot be defined in Rust
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

static ACTIVE: AtomicBool = AtomicBool::new(false);
static WATCHED: AtomicBool = AtomicBool::new(false);
static STATE: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static ASKED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static SIDE: Cell<Option<&'static str>> = const { Cell::new(None) };
}

/// Ends when it is dropped
pub struct Simulated;

/// From here on, whatever the library does on the side is refused
pub fn watch() {
    WATCHED.store(true, Relaxed);
}

/// From here on, the system is simulated for the library
pub fn simulate(seed: u64) -> Simulated {
    WATCHED.store(false, Relaxed);
    STATE.store(seed, Relaxed);
    CLOCK.store(seed % 4_000_000_000, Relaxed);
    ASKED.store(0, Relaxed);
    ACTIVE.store(true, Relaxed);
    Simulated
}

impl Drop for Simulated {
    fn drop(&mut self) {
        ACTIVE.store(false, Relaxed);
    }
}

/// How often the library asked for the time, the environment or random numbers
pub fn asked() -> u64 {
    ASKED.load(Relaxed)
}

/// What the library did on the side since this was last asked
pub fn side() -> Option<&'static str> {
    SIDE.with(|s| s.take())
}

pub fn enter() {
    DEPTH.with(|d| d.set(d.get() + 1));
}

pub fn leave() {
    DEPTH.with(|d| d.set(d.get() - 1));
}

fn inside() -> bool {
    ACTIVE.load(Relaxed) && DEPTH.try_with(|d| d.get() > 0).unwrap_or(false)
}

fn refuse(what: &'static str) -> bool {
    let inside = inside() && WATCHED.load(Relaxed);
    if inside {
        let _ = SIDE.try_with(|s| s.set(Some(what)));
        unsafe { *__errno_location() = 1 };
    }
    inside
}

fn random() -> u64 {
    ASKED.fetch_add(1, Relaxed);
    crate::src::mix(STATE.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed))
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    static environ: *const *const c_char;
}

#[repr(C)]
pub struct TimeSpec {
    sec: i64,
    nsec: i64,
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: c_int, at: *mut TimeSpec) -> c_int {
    if !inside() {
        return syscall(228, clock as c_long, at) as c_int;
    }
    let r = random();
    // mostly a little later, sometimes much
    let step = if r % 4 == 0 { r >> 40 } else { r >> 63 };
    let now = CLOCK.fetch_add(step, Relaxed).wrapping_add(step) % 8_000_000_000;
    *at = TimeSpec { sec: now as i64, nsec: ((r >> 8) % 1_000_000_000) as i64 };
    0
}

#[no_mangle]
unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    if inside() {
        return if random() % 2 == 0 { std::ptr::null() } else { c"1".as_ptr() };
    }
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let entry = std::ffi::CStr::from_ptr(*e).to_bytes();
        if entry.len() > name.len() && entry.starts_with(name) && entry[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
unsafe extern "C" fn getrandom(to: *mut c_void, len: usize, flags: u32) -> isize {
    if !inside() {
        return syscall(318, to, len, flags as c_long) as isize;
    }
    for i in 0..len {
        *(to as *mut u8).add(i) = random() as u8;
    }
    len as isize
}

macro_rules! side {
    ($($name:ident = $n:literal ($($arg:ident: $t:ty),*) -> $ret:ty;)*) => {
        $(#[no_mangle]
        unsafe extern "C" fn $name($($arg: $t),*) -> $ret {
            if refuse(stringify!($name)) {
                return -1;
            }
            syscall($n $(, $arg)*) as $ret
        })*
    };
}

side! {
    write = 1 (fd: c_int, buf: *const c_void, len: usize) -> isize;
    writev = 20 (fd: c_int, iov: *const c_void, n: c_int) -> isize;
    pwrite64 = 18 (fd: c_int, buf: *const c_void, len: usize, at: i64) -> isize;
    open = 2 (path: *const c_char, flags: c_int, mode: c_int) -> c_int;
    open64 = 2 (path: *const c_char, flags: c_int, mode: c_int) -> c_int;
    unlink = 87 (path: *const c_char) -> c_int;
    rename = 82 (from: *const c_char, to: *const c_char) -> c_int;
    mkdir = 83 (path: *const c_char, mode: c_int) -> c_int;
    socket = 41 (domain: c_int, kind: c_int, protocol: c_int) -> c_int;
    execve = 59 (path: *const c_char, argv: *const c_void, env: *const c_void) -> c_int;
}
