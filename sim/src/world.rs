//! What a decode could ask the operating system besides its reader: the clocks,
//! a pause, environment variables and random bytes.  wsim defines these libc
//! symbols itself.  Outside of a decode they do what libc does; inside, the
//! answers are simulated and depend on the delivery's seed alone.  Time passes
//! with every read (microseconds to minutes), stands still, or jumps; variables
//! are set or not; a pause costs nothing but simulated time.
use crate::rng::{hash2, mix};
use crate::sched;
use std::cell::Cell;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy)]
struct World {
    seed: u64,
    /// monotonic clock, and wall clock, in nanoseconds
    mono: u64,
    wall: i64,
    n: u64,
}

thread_local! {
    static NOW: Cell<Option<World>> = const { Cell::new(None) };
}
static ASKED: AtomicU64 = AtomicU64::new(0);
/// How often decodes asked (the tree this was written against never does).
pub fn asked() -> u64 {
    ASKED.load(Ordering::Relaxed)
}

pub fn add(n: u64) {
    ASKED.fetch_add(n, Ordering::Relaxed);
}

const YEAR: i64 = 31_557_600_000_000_000;

fn mode(seed: u64) -> u64 {
    if seed == 0 { 0 } else { mix(seed ^ 0xC10C) % 8 }
}

struct Restore(Option<World>);
impl Drop for Restore {
    fn drop(&mut self) {
        NOW.set(self.0);
    }
}

pub fn within<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    let _back = Restore(NOW.get());
    NOW.set(Some(World {
        seed,
        mono: 1_000_000_000_000 + if seed == 0 { 0 } else { mix(seed) >> 20 },
        wall: match mode(seed) {
            7 => -5 * YEAR,
            6 => 68 * YEAR,
            _ => 56 * YEAR,
        },
        n: 0,
    }));
    f()
}

/// The harness' own business inside of a decode.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let _back = Restore(NOW.get());
    NOW.set(None);
    f()
}

impl World {
    fn pass(&mut self, ns: u64) {
        self.mono = self.mono.saturating_add(ns).min(1 << 62);
        self.wall = self.wall.saturating_add(ns.min(1 << 61) as i64).clamp(-200 * YEAR, 200 * YEAR);
    }
}

/// A read took this many ticks.
#[inline]
pub fn tick(ticks: u64) {
    let Some(mut w) = NOW.get() else { return };
    let unit = match mode(w.seed) {
        0..=3 => 1_000,
        4 => 10_000_000,
        5 => 60_000_000_000,
        6 => 1_000_000,
        _ => 0,
    };
    w.pass(ticks.saturating_mul(unit));
    w.n += 1;
    if mode(w.seed) == 6 {
        let h = hash2(w.seed, w.n);
        if h % 16 == 0 {
            w.wall = (w.wall + ((h >> 8) % 21) as i64 * YEAR - 10 * YEAR).clamp(-100 * YEAR, 150 * YEAR);
        }
    }
    NOW.set(Some(w));
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: c_long,
}

unsafe extern "C" {
    static environ: *const *const c_char;
    fn __errno_location() -> *mut c_int;
}

fn fail(errno: c_int) -> c_long {
    unsafe { *__errno_location() = errno };
    -1
}
unsafe fn kernel(n: c_long, a: [usize; 6]) -> c_long {
    let r: c_long;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    }
    if (-4095..0).contains(&r) { fail(-r as c_int) } else { r }
}

/// What std calls for futexes, among other things: a task that would wait for a
/// lock lets the others run and tries again.
#[unsafe(no_mangle)]
unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == 202 && matches!(b & 0x7F, 0 | 9) {
        let word = unsafe { &*(a as *const std::sync::atomic::AtomicU32) };
        if word.load(Ordering::SeqCst) == c as u32 {
            match sched::wait() {
                Some(true) => return 0,
                Some(false) if d != 0 => return fail(110),
                Some(false) => {
                    // somebody may release it who is not a task: one real second
                    let t = Timespec { s: 1, ns: 0 };
                    if unsafe { kernel(n, [a, b & !0x7F, c, &raw const t as usize, 0, 0]) } < 0
                        && std::io::Error::last_os_error().raw_os_error() == Some(110)
                    {
                        sched::stuck();
                    }
                    return 0;
                }
                None => {}
            }
        }
    }
    unsafe { kernel(n, [a, b, c, d, e, f]) }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn sched_yield() -> c_int {
    thread_local!(static IN_VAIN: Cell<u32> = const { Cell::new(0) });
    let gone = match sched::wait() {
        Some(true) => 0,
        Some(false) => IN_VAIN.get() + 1,
        None => return unsafe { kernel(24, [0; 6]) as c_int },
    };
    IN_VAIN.set(gone);
    if gone > 100_000 {
        sched::stuck();
    }
    0
}

#[unsafe(no_mangle)]
unsafe extern "C" fn clock_gettime(id: c_int, t: *mut Timespec) -> c_int {
    let Some(mut w) = NOW.get() else { return unsafe { kernel(228, [id as usize, t as usize, 0, 0, 0, 0]) as c_int } };
    ASKED.fetch_add(1, Ordering::Relaxed);
    let ns = if matches!(id, 0 | 5 | 11) { w.wall } else { w.mono as i64 };
    unsafe {
        (*t).s = ns.div_euclid(1_000_000_000);
        (*t).ns = ns.rem_euclid(1_000_000_000);
    }
    if mode(w.seed) != 7 {
        w.pass(50);
    }
    NOW.set(Some(w));
    0
}

unsafe fn pause(t: *const Timespec, from: u64) -> bool {
    let Some(mut w) = NOW.get() else { return false };
    ASKED.fetch_add(1, Ordering::Relaxed);
    let ns = unsafe { ((*t).s as u64).saturating_mul(1_000_000_000).saturating_add((*t).ns as u64) };
    w.pass(ns.saturating_sub(from));
    NOW.set(Some(w));
    true
}
#[unsafe(no_mangle)]
unsafe extern "C" fn nanosleep(t: *const Timespec, rem: *mut Timespec) -> c_int {
    if unsafe { pause(t, 0) } { 0 } else { unsafe { kernel(35, [t as usize, rem as usize, 0, 0, 0, 0]) as c_int } }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, t: *const Timespec, rem: *mut Timespec) -> c_int {
    let from = if flags & 1 == 1 { NOW.get().map_or(0, |w| w.mono) } else { 0 };
    if unsafe { pause(t, from) } {
        return 0;
    }
    // (the number itself is the result, not errno)
    match unsafe { kernel(230, [id as usize, flags as usize, t as usize, rem as usize, 0, 0]) } {
        0 => 0,
        _ => std::io::Error::last_os_error().raw_os_error().unwrap_or(22),
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let n = unsafe { CStr::from_ptr(name) }.to_bytes();
    if let Some(w) = NOW.get().filter(|_| !n.starts_with(b"RUST_")) {
        ASKED.fetch_add(1, Ordering::Relaxed);
        let h = n.iter().fold(mix(w.seed), |h, b| hash2(h, *b as u64));
        let v: &CStr = match if w.seed == 0 { 0 } else { h % 8 } {
            1 => c"1",
            2 => c"0",
            3 => c"true",
            4 => c"",
            _ => return std::ptr::null_mut(),
        };
        return v.as_ptr() as *mut c_char;
    }
    unsafe {
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = CStr::from_ptr(*p).to_bytes();
            if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
                return (*p).add(n.len() + 1) as *mut c_char;
            }
            p = p.add(1);
        }
    }
    std::ptr::null_mut()
}

/// The same keys for every hash map of every run.
#[unsafe(no_mangle)]
unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        unsafe { *(buf as *mut u8).add(i) = (mix(i as u64 ^ 0x5EED) >> 11) as u8 };
    }
    n as isize
}
