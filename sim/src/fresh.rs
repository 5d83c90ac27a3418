//! Decodes in a fresh process: a server forked before anything was decoded
//! forks a child for every request.
use crate::case::*;
use crate::reader::{self, Res};
use crate::rng::hash2;
use std::ffi::c_int;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

unsafe extern "C" {
    fn fork() -> c_int;
    fn socketpair(domain: c_int, kind: c_int, proto: c_int, fds: *mut c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn alarm(s: u32) -> u32;
    fn _exit(code: c_int) -> !;
}

static ANSWERS: AtomicU64 = AtomicU64::new(0);
pub fn answers() -> u64 {
    ANSWERS.load(Ordering::Relaxed)
}

static SERVER: Mutex<Option<File>> = Mutex::new(None);

/// To be called while the process has one thread and has decoded nothing.
pub fn start() {
    let mut fds = [0; 2];
    unsafe {
        // AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC
        if socketpair(1, 1 | 0o2000000, 0, fds.as_mut_ptr()) != 0 {
            return;
        }
        match fork() {
            0 => {
                close(fds[0]);
                std::panic::set_hook(Box::new(|_| {}));
                serve(File::from_raw_fd(fds[1]));
                _exit(0);
            }
            n => {
                close(fds[1]);
                let f = File::from_raw_fd(fds[0]);
                if n > 0 {
                    *SERVER.lock().unwrap() = Some(f);
                }
            }
        }
    }
}

fn get(f: &mut File) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    f.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b).ok()?;
    Some(b)
}
fn put(f: &mut File, b: &[u8]) -> Option<()> {
    f.write_all(&(b.len() as u32).to_le_bytes()).ok()?;
    f.write_all(b).ok()
}

fn serve(mut f: File) {
    while let Some(q) = get(&mut f) {
        unsafe {
            match fork() {
                0 => {
                    // (nothing waits for it for ever)
                    alarm(30);
                    let text = std::thread::Builder::new().stack_size(8 << 20).spawn(move || answer(&q)).ok().and_then(|t| t.join().ok());
                    put(&mut f, text.unwrap_or_default().as_bytes());
                    _exit(0);
                }
                n if n > 0 => {
                    let mut st = 0;
                    if waitpid(n, &mut st, 0) != n || st != 0 {
                        put(&mut f, b"");
                    }
                }
                _ => {
                    put(&mut f, b"");
                }
            }
        }
    }
}

pub fn text(r: &Res) -> String {
    match r {
        Res::Ok(c) => {
            let h = c.c.iter().flatten().fold(1, |h, t| hash2(h, *t));
            format!("Ok({h:016x})")
        }
        r => r.brief(),
    }
}

fn answer(q: &[u8]) -> String {
    let Some(case) = std::str::from_utf8(q).ok().and_then(Case::parse) else { return String::new() };
    let mut last = String::new();
    for p in &case.tasks {
        let o = reader::run(&case.images[p.img], p, None, 0, None, false);
        last = text(&o.res);
    }
    last
}

/// What the last of these decodes gives when a process does them all, in this
/// order, and nothing before.  None: no answer.
pub fn last(case: &Case, tasks: Vec<Plan>) -> Option<String> {
    let mut g = SERVER.lock().unwrap_or_else(|e| e.into_inner());
    let f = g.as_mut()?;
    let c = Case { images: case.images.clone(), tasks, prop: case.prop.clone(), ..Case::default() };
    let r = put(f, c.text().as_bytes()).and_then(|_| get(f));
    if r.is_none() {
        *g = None;
    }
    let r = r.and_then(|b| String::from_utf8(b).ok()).filter(|s| !s.is_empty());
    ANSWERS.fetch_add(r.is_some() as u64, Ordering::Relaxed);
    r
}
