//! A simulated case: images, one reader plan per decode task, the schedule,
//! and the trace of storage faults that produced the images.  Everything that
//! determines the execution is in here; it is also the replay file.
use crate::faults::{hex, unhex};
use std::io::{Error, ErrorKind};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Chunk {
    All,
    Fixed(u32),
    /// sizes 1..=max, a function of (seed, offset)
    Rand(u64, u32),
}

/// How a reader failure is built; the decoder must not care.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    /// `io::Error::new(kind, SimFault)`
    Custom,
    /// `kind.into()`
    Simple,
    /// `from_raw_os_error`
    Os,
    /// `io::Error::new(kind, io::Error::other(SimFault))`
    Nested,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fail {
    pub form: Form,
    /// index into KINDS, or the errno
    pub code: u16,
    /// keeps failing, or fails once and then goes on delivering
    pub sticky: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Term {
    Eof,
    /// end of input once, then more bytes (a file still being written)
    EofResume,
    Fail(Fail),
    Panic,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wrap {
    Direct,
    Buf(u32),
    Boxed,
    /// first part from a plain slice, the rest from the simulated reader
    Chain(u32),
    Take,
    /// a byte slice: no simulated reader at all
    Slice,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Plan {
    pub img: usize,
    pub end: usize,
    pub chunk: Chunk,
    /// (offset, how many interruptions in a row)
    pub eintr: Vec<(usize, u32)>,
    pub term: Term,
    pub wrap: Wrap,
    /// runs inside a read call of another task, at that offset
    pub inside: Option<(usize, usize)>,
    /// latency seed (virtual time only)
    pub lat: u64,
}

impl Plan {
    pub fn plain(img: usize, end: usize) -> Plan {
        Plan {
            img,
            end,
            chunk: Chunk::All,
            eintr: vec![],
            term: Term::Eof,
            wrap: Wrap::Direct,
            inside: None,
            lat: 0,
        }
    }
    pub fn hard(&self) -> bool {
        matches!(self.term, Term::Fail(_) | Term::Panic)
    }
}

/// Which fault hit which part of the image (for coverage accounting).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tag {
    pub fk: u8,
    pub role: u8,
    pub sec: u8,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub images: Vec<Vec<u8>>,
    pub tasks: Vec<Plan>,
    /// explicit schedule: (task, steps); empty = run tasks one after another
    pub sched: Vec<(u16, u32)>,
    /// seeded schedule, used when `sched` is empty and this is set
    pub sched_seed: Option<u64>,
    pub notes: Vec<String>,
    pub tags: Vec<Tag>,
    /// V_* flags
    pub variant: u32,
    /// run the command line tool on tasks[0] instead of the library
    pub cli: Option<crate::cli::CliPlan>,
}

/// Neither the depth and locals guards nor the memory bound's allowance for
/// expanded locals: used by the replays of known findings.
pub const V_UNGUARDED: u32 = 2;
/// compare with fresh processes as well
pub const V_FRESH: u32 = 4;

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::OutOfMemory,
    ErrorKind::NotConnected,
    ErrorKind::Unsupported,
    ErrorKind::WriteZero,
    ErrorKind::ConnectionRefused,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
    // last: what a minimised failure becomes
    ErrorKind::Other,
];
/// EIO, EAGAIN, ENOMEM, EISDIR, ETIMEDOUT, ECONNRESET, ESTALE, EACCES: what
/// reads really meet; any other errno comes with lower odds
pub const ERRNOS: &[u16] = &[5, 11, 12, 21, 110, 104, 116, 13];

/// Any errno a read can be answered with, interruption excepted; for the
/// command line tool also without EBADF, which the standard library turns into
/// end of input on a standard stream.
pub fn any_errno(x: u64, cli: bool) -> u16 {
    match 1 + (x % 134) as u16 {
        4 => 5,
        9 if cli => 5,
        134 => 4095,
        n => n,
    }
}

#[derive(Debug)]
pub struct SimFault(pub usize);
impl std::fmt::Display for SimFault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simfault-{}-tluafmis", self.0)
    }
}
impl std::error::Error for SimFault {}

impl Fail {
    pub fn make(&self, at: usize) -> Error {
        match self.form {
            Form::Custom => Error::new(KINDS[self.code as usize], SimFault(at)),
            Form::Simple => KINDS[self.code as usize].into(),
            Form::Os => Error::from_raw_os_error(self.code as i32),
            Form::Nested => Error::new(KINDS[self.code as usize], Error::other(SimFault(at))),
        }
    }
}

fn chunk_s(c: Chunk) -> String {
    match c {
        Chunk::All => "all".into(),
        Chunk::Fixed(n) => format!("fixed:{n}"),
        Chunk::Rand(s, m) => format!("rand:{s}:{m}"),
    }
}
fn term_s(t: Term) -> String {
    match t {
        Term::Eof => "eof".into(),
        Term::EofResume => "eof-then-more".into(),
        Term::Panic => "panic".into(),
        Term::Fail(f) => format!(
            "fail:{}:{}:{}",
            match f.form {
                Form::Custom => "custom",
                Form::Simple => "simple",
                Form::Os => "os",
                Form::Nested => "nested",
            },
            f.code,
            if f.sticky { "sticky" } else { "once" }
        ),
    }
}
fn wrap_s(w: Wrap) -> String {
    match w {
        Wrap::Direct => "direct".into(),
        Wrap::Buf(n) => format!("buf:{n}"),
        Wrap::Boxed => "boxed".into(),
        Wrap::Chain(n) => format!("chain:{n}"),
        Wrap::Take => "take".into(),
        Wrap::Slice => "slice".into(),
    }
}
impl Plan {
    pub fn text(&self) -> String {
        let e: Vec<String> = self.eintr.iter().map(|(o, n)| format!("{o}x{n}")).collect();
        let mut s = format!(
            "img={} end={} chunk={} eintr={} term={} wrap={} lat={}",
            self.img,
            self.end,
            chunk_s(self.chunk),
            if e.is_empty() { "-".into() } else { e.join(",") },
            term_s(self.term),
            wrap_s(self.wrap),
            self.lat
        );
        if let Some((t, o)) = self.inside {
            s += &format!(" inside={t}@{o}");
        }
        s
    }
    fn parse(s: &str) -> Option<Plan> {
        let mut p = Plan::plain(0, 0);
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=')?;
            let mut parts = v.split(':');
            let head = parts.next()?;
            let mut num = || parts.next().and_then(|x| x.parse::<u64>().ok());
            match k {
                "img" => p.img = v.parse().ok()?,
                "end" => p.end = v.parse().ok()?,
                "lat" => p.lat = v.parse().ok()?,
                "chunk" => {
                    p.chunk = match head {
                        "all" => Chunk::All,
                        "fixed" => Chunk::Fixed(num()? as u32),
                        "rand" => Chunk::Rand(num()?, num()? as u32),
                        _ => return None,
                    }
                }
                "eintr" if v != "-" => {
                    for x in v.split(',') {
                        let (a, b) = x.split_once('x')?;
                        p.eintr.push((a.parse().ok()?, b.parse().ok()?));
                    }
                }
                "eintr" => {}
                "term" => {
                    p.term = match head {
                        "eof" => Term::Eof,
                        "eof-then-more" => Term::EofResume,
                        "panic" => Term::Panic,
                        "fail" => {
                            let f: Vec<&str> = v.split(':').collect();
                            Term::Fail(Fail {
                                form: match *f.get(1)? {
                                    "custom" => Form::Custom,
                                    "simple" => Form::Simple,
                                    "os" => Form::Os,
                                    "nested" => Form::Nested,
                                    _ => return None,
                                },
                                code: f.get(2)?.parse().ok()?,
                                sticky: *f.get(3)? == "sticky",
                            })
                        }
                        _ => return None,
                    }
                }
                "wrap" => {
                    p.wrap = match head {
                        "direct" => Wrap::Direct,
                        "buf" => Wrap::Buf(num()? as u32),
                        "boxed" => Wrap::Boxed,
                        "chain" => Wrap::Chain(num()? as u32),
                        "take" => Wrap::Take,
                        "slice" => Wrap::Slice,
                        _ => return None,
                    }
                }
                "inside" => {
                    let (a, b) = v.split_once('@')?;
                    p.inside = Some((a.parse().ok()?, b.parse().ok()?));
                }
                _ => return None,
            }
        }
        Some(p)
    }
}

impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("wsim-replay 1\nprop {}\nvariant {}\n", self.prop, self.variant);
        for i in &self.images {
            s += &format!("image {}\n", hex(i));
        }
        for t in &self.tasks {
            s += &format!("task {}\n", t.text());
        }
        if let Some(c) = &self.cli {
            s += &format!("cli {}\n", c.text());
        }
        if let Some(x) = self.sched_seed {
            s += &format!("schedule-seed {x}\n");
        }
        if !self.sched.is_empty() {
            let e: Vec<String> = self.sched.iter().map(|(t, n)| format!("{t}x{n}")).collect();
            s += &format!("schedule {}\n", e.join(","));
        }
        for n in &self.notes {
            s += &format!("fault {}\n", n.replace('\n', " "));
        }
        s
    }
    pub fn parse(s: &str) -> Option<Case> {
        let mut lines = s.lines();
        if lines.next()? != "wsim-replay 1" {
            return None;
        }
        let mut c = Case::default();
        for l in lines {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "prop" => c.prop = v.into(),
                "variant" => c.variant = v.parse().ok()?,
                "image" => c.images.push(unhex(v)?),
                "image-gen" => c.images.push(crate::image::special(v)?),
                "cli" => c.cli = Some(crate::cli::CliPlan::parse(v)?),
                "task" => c.tasks.push(Plan::parse(v)?),
                "schedule-seed" => c.sched_seed = Some(v.parse().ok()?),
                "schedule" => {
                    for x in v.split(',') {
                        let (a, b) = x.split_once('x')?;
                        c.sched.push((a.parse().ok()?, b.parse().ok()?));
                    }
                }
                "fault" => c.notes.push(v.into()),
                _ => {}
            }
        }
        Some(c)
    }
}
