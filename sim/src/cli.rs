//! The command line tool under simulated system calls: the real binary, its
//! open/read/write calls answered by shim/shim.c according to a plan.
use crate::case::*;
use crate::rng::hash2;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Path,
    Dash,
    NoArg,
    /// the path /dev/stdin
    Dev,
}

/// Shapes of the path given on the command line.
pub const NAMES: u8 = 12;
fn name(i: u8) -> Vec<u8> {
    match i {
        1 => b"m.wasm".to_vec(),
        2 => b"./-".to_vec(),
        3 => b"a b  c.wasm".to_vec(),
        4 => "m\u{f6}d\u{fc}l-\u{4e2d}\u{1f600}.wasm".into(),
        5 => b"m\xff\xfe\xe9.wasm".to_vec(),
        6 => [b"n".repeat(240), b".wasm".to_vec()].concat(),
        7 => b"-x.wasm".to_vec(),
        8 => b"d1/../d1/./d 2/m".to_vec(),
        9 => b"line\nfeed\t'\"$HOME*?%s.wasm".to_vec(),
        10 => b"link".to_vec(),
        11 => b"d1/d 2//--verbose".to_vec(),
        _ => vec![],
    }
}
/// Names that say something else about the contents.
pub const LABELS: &[&str] = &[
    "m", "m.wat", "m.wast", "m.WASM", "m.Wasm", "m.txt", "m.gz", "m.wasm.gz", "m.wasm.br", "m.wasm.zst", "m.zip", "m.cwasm", "m.wit", "m.o", "m.so", "m.a",
    "m.rs", "m.c", "m.js", "m.json", "m.md", "m.bc", "m.wasm~", "m.wasm.bak", ".wasm", ".m", "m.", "m.wasm.", "m.component.wasm", "m.debug.wasm", "wasm", "wat",
    "stdin", "null", "help", "version", "verbose", "V", "0", "1", "@m", "+m", "~", "~m", "%", "#m", "$m", "m;m", "m&m", "m|m", "m=m", "m,m", "m:m", "http:m", "*", "?", "[m]",
    "{m}", "(m)", "<m>", "!", " ", "  m ", "\\", "\t", "\n", "\u{feff}m.wasm", "\u{202e}m", "\u{85}",
];
/// A file name made of a text of the dictionary; none where that could be an
/// option, a path out of the scratch directory, or one of the harness's files.
pub fn label(text: &str, form: u64) -> Option<&'static str> {
    let t: String = text.chars().filter(|c| !matches!(c, '/' | '\0')).collect();
    let t = t.trim_start_matches('-');
    if t.is_empty() || t.len() > 60 {
        return None;
    }
    let s = match form % 5 {
        0 => t.to_string(),
        1 => format!("m.{}", t.trim_start_matches('.')),
        2 => format!("m{t}"),
        3 => format!("{t}.wasm"),
        _ => format!("{t}m"),
    };
    if ["out", "err", "log", "d1", "link", ".", ".."].contains(&s.as_str()) {
        return None;
    }
    Some(s.leak())
}
const VARS: [&[(&str, &str)]; 8] = [
    &[],
    &[("RUST_BACKTRACE", "1")],
    &[("RUST_BACKTRACE", "full"), ("RUST_LOG", "trace")],
    &[("NO_COLOR", "1"), ("TERM", "dumb")],
    &[("CLICOLOR_FORCE", "1"), ("FORCE_COLOR", "1"), ("TERM", "xterm-256color")],
    &[("LANG", "de_DE.ISO-8859-1"), ("LC_ALL", "C")],
    &[("COLUMNS", "20"), ("LINES", "2")],
    &[("HOME", "/nonexistent"), ("PATH", ""), ("TMPDIR", "/nonexistent")],
];

/// What happens to writes on one output stream.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct WPlan {
    pub seed: u64,
    /// largest write accepted at once; 0: whatever is asked
    pub max: u32,
    /// every Nth call is interrupted; 0: none
    pub eintr: u32,
    /// from this byte on writes fail with errno (0: write returns 0)
    pub fail: Option<(u64, u16)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CliPlan {
    pub mode: Mode,
    pub verbose: bool,
    /// shape of the path; 0: an absolute one
    pub name: u8,
    /// the file's name, instead
    pub file: Option<&'static str>,
    /// environment variables: one of VARS, and one more
    pub vars: u8,
    pub var: Option<&'static str>,
    /// standard input is a pipe
    pub pipe: bool,
    /// the option comes before the input
    pub first: bool,
    /// the first n opens fail with errno
    pub open: Option<(u16, u32)>,
    pub w: [WPlan; 2],
}

impl CliPlan {
    pub fn plain() -> CliPlan {
        CliPlan { mode: Mode::Path, verbose: false, name: 0, file: None, vars: 0, var: None, pipe: false, first: false, open: None, w: [WPlan::default(); 2] }
    }
    pub fn text(&self) -> String {
        let mode = match self.mode {
            Mode::Path => "path",
            Mode::Dash => "dash",
            Mode::NoArg => "noarg",
            Mode::Dev => "dev",
        };
        let mut s = format!("mode={mode} verbose={}", self.verbose as u8);
        for (k, v) in [("name", self.name), ("vars", self.vars), ("pipe", self.pipe as u8), ("first", self.first as u8)] {
            if v != 0 {
                s += &format!(" {k}={v}");
            }
        }
        for (k, v) in [("file", self.file), ("var", self.var)] {
            if let Some(v) = v {
                s += &format!(" {k}={}", v.bytes().map(|b| format!("{b:02x}")).collect::<String>());
            }
        }
        if let Some((e, n)) = self.open {
            s += &format!(" open={e}x{n}");
        }
        for (i, w) in self.w.iter().enumerate() {
            if *w != WPlan::default() {
                s += &format!(" w{}={}:{}:{}", i + 1, w.seed, w.max, w.eintr);
                if let Some((o, e)) = w.fail {
                    s += &format!(":{o}:{e}");
                }
            }
        }
        s
    }
    pub fn parse(s: &str) -> Option<CliPlan> {
        let mut c = CliPlan::plain();
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=')?;
            match k {
                "mode" => {
                    c.mode = match v {
                        "path" => Mode::Path,
                        "dash" => Mode::Dash,
                        "noarg" => Mode::NoArg,
                        "dev" => Mode::Dev,
                        _ => return None,
                    }
                }
                "verbose" => c.verbose = v == "1",
                "name" => c.name = v.parse().ok()?,
                "vars" => c.vars = v.parse().ok()?,
                "file" | "var" => {
                    let b: Vec<u8> = (0..v.len() / 2).map(|i| u8::from_str_radix(v.get(2 * i..2 * i + 2)?, 16).ok()).collect::<Option<_>>()?;
                    let s = &*String::from_utf8(b).ok()?.leak();
                    *(if k == "file" { &mut c.file } else { &mut c.var }) = Some(s);
                }
                "pipe" => c.pipe = v == "1",
                "first" => c.first = v == "1",
                "open" => {
                    let (a, b) = v.split_once('x')?;
                    c.open = Some((a.parse().ok()?, b.parse().ok()?));
                }
                "w1" | "w2" => {
                    let p: Vec<u64> = v.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
                    c.w[(k == "w2") as usize] = WPlan {
                        seed: *p.first()?,
                        max: *p.get(1)? as u32,
                        eintr: *p.get(2)? as u32,
                        fail: p.get(3).map(|o| (*o, p.get(4).copied().unwrap_or(5) as u16)),
                    };
                }
                _ => return None,
            }
        }
        Some(c)
    }
    /// The open failure that is not retried, if any.
    pub fn open_fails(&self) -> Option<u16> {
        match self.open {
            Some((e, n)) if matches!(self.mode, Mode::Path | Mode::Dev) && n > 0 && e != 4 => Some(e),
            _ => None,
        }
    }
}

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub count: [u64; 16],
}
pub const READS: usize = 0;
pub const SHORT: usize = 1;
pub const EINTR: usize = 2;
pub const RFAIL: usize = 3;
pub const EOFS: usize = 4;
pub const OPENFAIL: usize = 5;
pub const WSHORT: usize = 7;
pub const WEINTR: usize = 8;
pub const WFAIL: usize = 9;
pub const TRACE: usize = 10;
pub const BYTES: usize = 12;
pub const CLOCK: usize = 13;

fn dir() -> PathBuf {
    std::env::temp_dir().join(format!("wsim-cli-{}", std::process::id()))
}
pub fn cleanup() {
    let d = dir();
    if d.exists() {
        let _ = fs::remove_dir_all(d);
    }
}

fn shim_plan(p: &Plan, c: &CliPlan, len: usize) -> String {
    let mut s = String::new();
    match p.chunk {
        Chunk::All => {}
        Chunk::Fixed(n) if n <= 1 => s += " rc=0:1",
        Chunk::Fixed(n) => s += &format!(" rc=1:{n}"),
        Chunk::Rand(x, m) => s += &format!(" rc={x}:{m}"),
    }
    if p.lat != 0 {
        s += &format!(" ck={}", p.lat);
    }
    let e: Vec<String> = p.eintr.iter().take(400).map(|(o, n)| format!("{o}:{n}")).collect();
    if !e.is_empty() {
        s += &format!(" ri={}", e.join(","));
    }
    match p.term {
        Term::Eof if p.end < len => s += &format!(" re={}:0:1", p.end),
        Term::EofResume => s += &format!(" re={}:0:0", p.end),
        Term::Fail(f) => s += &format!(" re={}:{}:{}", p.end, f.code, f.sticky as u8),
        _ => {}
    }
    if let Some((e, n)) = c.open {
        s += &format!(" op={e}:{n}");
    }
    for (i, w) in c.w.iter().enumerate() {
        let i = i + 1;
        if w.max > 0 {
            s += &format!(" wc{i}={}:{}", w.seed, w.max);
        }
        if w.eintr > 1 {
            s += &format!(" wi{i}={}", w.eintr);
        }
        if let Some((o, e)) = w.fail {
            s += &format!(" wf{i}={o}:{e}");
        }
    }
    s
}

pub fn run(img: &[u8], p: &Plan, c: &CliPlan) -> std::io::Result<Ran> {
    let d = dir();
    if !d.exists() {
        fs::create_dir_all(&d)?;
    }
    let mut m = d.join("m.wasm");
    let mut arg = m.clone().into_os_string();
    if c.mode == Mode::Path {
        if let Some(f) = c.file {
            arg = f.into();
        } else if c.name != 0 {
            arg = OsString::from_vec(name(c.name));
        }
        m = d.join(&arg);
    }
    let (o, e, l) = (d.join("out"), d.join("err"), d.join("log"));
    fs::create_dir_all(d.join("d1/d 2"))?;
    if c.name == 10 && c.file.is_none() && c.mode == Mode::Path {
        let _ = fs::remove_file(&m);
        fs::write(d.join("d1/t"), img)?;
        std::os::unix::fs::symlink("d1/t", &m)?;
    } else {
        fs::write(&m, img)?;
    }
    let _ = fs::remove_file(&l);
    let root = crate::driver::root();
    let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| root.join("target"));
    let mut cmd = Command::new(target.join("release/wadec"));
    cmd.env_clear()
        .env("LD_PRELOAD", target.join("shim/shim.so"))
        .env("WSIM_LOG", &l)
        .envs(VARS[c.vars as usize % VARS.len()].iter().copied())
        .current_dir(&d)
        .stdout(fs::File::create(&o)?)
        .stderr(fs::File::create(&e)?);
    if let Some((k, v)) = c.var.and_then(|v| v.split_once('=')) {
        cmd.env(k, v);
    }
    if c.verbose && c.first {
        cmd.arg("--verbose");
    }
    let dashed = c.mode == Mode::Path && c.name == 7 && c.file.is_none();
    let late = c.verbose && !c.first && !dashed;
    if late && c.name == 3 {
        cmd.arg("--verbose");
    }
    match c.mode {
        Mode::Path if dashed => {
            if c.verbose && !c.first {
                cmd.arg("--verbose");
            }
            cmd.arg("--").arg(&arg);
        }
        Mode::Path => {
            cmd.arg(&arg);
        }
        Mode::Dash => {
            cmd.arg("-");
        }
        Mode::Dev => {
            cmd.arg("/dev/stdin");
        }
        Mode::NoArg => {}
    }
    if late && c.name != 3 {
        cmd.arg("--verbose");
    }
    match c.mode {
        Mode::Path => {
            cmd.stdin(Stdio::null()).env("WSIM_IN", &m);
        }
        // a pipe that holds all of it, so that nothing depends on timing
        _ if c.pipe && img.len() <= 60_000 => {
            let (r, mut w) = std::io::pipe()?;
            std::io::Write::write_all(&mut w, img)?;
            cmd.stdin(r).env("WSIM_IN", "-");
        }
        _ => {
            cmd.stdin(fs::File::open(&m)?).env("WSIM_IN", "-");
        }
    }
    cmd.env("WSIM_PLAN", shim_plan(p, c, img.len()));
    let st = cmd.status()?;
    drop(cmd);
    if m != d.join("m.wasm") {
        let _ = fs::remove_file(&m);
    }
    let mut count = [0; 16];
    let log = fs::read(&l).unwrap_or_default();
    for (a, b) in count.iter_mut().zip(log.chunks_exact(8)) {
        *a = u64::from_le_bytes(b.try_into().unwrap());
    }
    if log.is_empty() {
        return Err(std::io::Error::other("the system-call shim was not loaded"));
    }
    Ok(Ran { code: st.code(), signal: st.signal(), stdout: fs::read(&o)?, stderr: fs::read(&e)?, count })
}

/// Identity of an execution, for coverage accounting.
pub fn trace_of(r: &Ran) -> u64 {
    hash2(r.count[TRACE], hash2(r.code.unwrap_or(-1) as u64, r.stdout.len() as u64))
}

/// Are the texts in `want` all in `text`, in this order?
pub fn in_order(text: &str, want: &[String]) -> Result<(), usize> {
    let mut at = 0;
    for (i, w) in want.iter().enumerate() {
        match text[at..].find(w.as_str()) {
            Some(k) => at += k + w.len(),
            None => return Err(i),
        }
    }
    Ok(())
}
