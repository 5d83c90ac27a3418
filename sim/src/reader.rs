//! The simulated I/O: a reader that delivers an image according to a plan, and
//! the execution of one decode (the real code) over it.
use crate::alloc;
use crate::canon;
use crate::case::*;
use crate::model::Comps;
use crate::rng::{hash2, mix};
use crate::sched::{self, Gate};
use crate::world;
use std::any::Any;
use std::io::{self, ErrorKind, Read};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};

pub struct BudgetExceeded;
pub struct InjectedPanic;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Stats {
    /// reads that asked for at least one byte, interruptions excluded
    pub calls: u64,
    pub empty: u64,
    pub eintr: u64,
    pub short: u64,
    pub delivered: u64,
    /// reads answered with end of input
    pub eofs: u64,
    /// reads answered with the planned failure
    pub fails: u64,
    pub ticks: u64,
    pub trace: u64,
}

pub struct SimReader<'a> {
    img: &'a [u8],
    plan: &'a Plan,
    pos: usize,
    next_eintr: usize,
    eintr_left: u32,
    resumed: bool,
    budget: u64,
    pub st: Stats,
    gate: Option<(&'a Gate, usize)>,
    inner: Option<(usize, Box<dyn FnMut() + 'a>)>,
}

impl<'a> SimReader<'a> {
    fn new(img: &'a [u8], plan: &'a Plan, gate: Option<(&'a Gate, usize)>) -> Self {
        SimReader {
            img,
            plan,
            pos: 0,
            next_eintr: 0,
            eintr_left: plan.eintr.first().map_or(0, |e| e.1),
            resumed: false,
            budget: 64 * img.len() as u64 + 4096,
            st: Stats::default(),
            gate,
            inner: None,
        }
    }
    #[inline]
    fn note(&mut self, what: u64) {
        self.st.trace = mix(self.st.trace ^ what);
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _ours = sched::harness();
        if buf.is_empty() {
            self.st.empty += 1;
            return Ok(0);
        }
        if let Some((g, id)) = self.gate {
            g.step(id);
        }
        if self.inner.as_ref().is_some_and(|i| self.pos >= i.0) {
            let (_, mut f) = self.inner.take().unwrap();
            f();
        }
        let h = hash2(self.plan.lat, self.pos as u64 + self.st.eintr);
        let took = 1 + (h & 15) + if h >> 56 == 0 { 5000 } else { 0 };
        self.st.ticks += took;
        world::tick(took);
        if self.next_eintr < self.plan.eintr.len() && self.plan.eintr[self.next_eintr].0 <= self.pos {
            if self.eintr_left > 0 {
                self.eintr_left -= 1;
                self.st.eintr += 1;
                self.note(1 + 4 * self.pos as u64);
                return Err(if self.st.eintr % 2 == 0 {
                    io::Error::new(ErrorKind::Interrupted, "simulated signal")
                } else {
                    ErrorKind::Interrupted.into()
                });
            }
            self.next_eintr += 1;
            self.eintr_left = self.plan.eintr.get(self.next_eintr).map_or(0, |e| e.1);
        }
        self.st.calls += 1;
        if self.st.calls > self.budget {
            panic_any(BudgetExceeded);
        }
        let mut end = self.plan.end.min(self.img.len());
        if self.pos >= end {
            let t = self.plan.term;
            if !self.resumed {
                match t {
                    Term::Eof => {
                        self.st.eofs += 1;
                        self.note(2 + 4 * self.pos as u64);
                        return Ok(0);
                    }
                    Term::EofResume => {
                        self.st.eofs += 1;
                        self.resumed = true;
                        return Ok(0);
                    }
                    Term::Fail(f) => {
                        self.st.fails += 1;
                        self.resumed = !f.sticky;
                        self.note(3 + 4 * self.pos as u64);
                        return Err(f.make(end));
                    }
                    Term::Panic => {
                        self.st.fails += 1;
                        panic_any(InjectedPanic);
                    }
                }
            }
            end = self.img.len();
            if self.pos >= end {
                self.st.eofs += 1;
                return Ok(0);
            }
        }
        let want = match self.plan.chunk {
            Chunk::All => usize::MAX,
            Chunk::Fixed(n) => n.max(1) as usize,
            Chunk::Rand(s, m) => 1 + (hash2(s, self.pos as u64) % m.max(1) as u64) as usize,
        };
        let n = want.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.img[self.pos..self.pos + n]);
        // a reader may use the rest of the buffer as scratch space
        let rest = &mut buf[n..];
        let k = rest.len();
        rest[..k.min(64)].fill(0xA5);
        rest[k - k.min(8)..].fill(0xA5);
        if n < buf.len() {
            self.st.short += 1;
        }
        self.note(4 * (self.pos as u64) ^ ((n as u64) << 40));
        self.pos += n;
        self.st.delivered += n as u64;
        Ok(n)
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    Ok(Box<Comps>),
    Err { chain: Vec<String>, eof: bool, endless: bool, debug: String, ios: Vec<(ErrorKind, Option<i32>)> },
    /// the reader's own panic came through
    Injected,
    Panic(String),
    /// reads went on without bound
    Budget,
}
impl Res {
    pub fn brief(&self) -> String {
        match self {
            Res::Ok(_) => "Ok(module)".into(),
            Res::Err { chain, .. } => format!("Err({})", chain.join(" <- ")),
            Res::Injected => "the reader's panic".into(),
            Res::Panic(m) => format!("PANIC: {m}"),
            Res::Budget => "unbounded reading".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub res: Res,
    pub st: Stats,
    /// bytes allocated at the worst moment of the decode
    pub peak: i64,
    /// bytes allocated in total during the decode
    pub traffic: u64,
    /// bytes still allocated after everything returned was dropped
    pub leak: i64,
}

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown payload".into()
    }
}

pub fn is_eof_text(s: &str) -> bool {
    s.contains("failed to fill whole buffer") || s.contains("unexpected end of file")
}

pub fn describe(e: &(dyn std::error::Error + 'static)) -> Res {
    let mut chain = vec![e.to_string()];
    let mut s = e;
    let mut endless = false;
    let mut ios = vec![];
    while let Some(n) = s.source() {
        chain.push(n.to_string());
        if let Some(e) = n.downcast_ref::<io::Error>() {
            ios.push((e.kind(), e.raw_os_error()));
        }
        s = n;
        if chain.len() > 200 {
            endless = true;
            break;
        }
    }
    let debug = format!("{e:?}");
    let eof = chain.iter().any(|c| is_eof_text(c)) || debug.contains("UnexpectedEof");
    Res::Err { chain, eof, endless, debug, ios }
}

type At<'a> = Option<(&'a Gate, usize)>;

fn decode(r: impl Read, seed: u64, render: bool, gate: At, stride: u32) -> (Res, i64, u64, i64) {
    let t0 = alloc::traffic();
    let base = alloc::reset();
    let d = alloc::confined(|| {
        world::within(seed, || {
            let _in = sched::decoder(gate, stride);
            wadec::decode_module(r)
        })
    });
    if let Some((g, id)) = gate {
        g.step(id);
    }
    let peak = alloc::peak() - base;
    let traffic = alloc::traffic() - t0;
    let mid = alloc::live();
    let res = match &d {
        Ok(m) => {
            if render {
                let mut n = Sink(0);
                let _ = std::fmt::write(&mut n, format_args!("{m:?}"));
                let _ = std::fmt::write(&mut n, format_args!("{m:#?}"));
            }
            Res::Ok(Box::new(canon::module(m)))
        }
        Err(e) => {
            if render {
                let mut n = Sink(0);
                let _ = std::fmt::write(&mut n, format_args!("{e:#?}"));
                let _ = std::fmt::write(&mut n, format_args!("{e}"));
            }
            let _in = sched::decoder(gate, stride);
            describe(e)
        }
    };
    let ours = alloc::live() - mid;
    drop(d);
    (res, peak, traffic, alloc::live() - ours - base)
}
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Decode `img` as `plan` says.  `inner` runs once inside a read call.
pub fn run<'a>(
    img: &'a [u8],
    plan: &'a Plan,
    gate: Option<(&'a Gate, usize)>,
    stride: u32,
    inner: Option<(usize, Box<dyn FnMut() + 'a>)>,
    render: bool,
) -> Outcome {
    let mut rd = SimReader::new(img, plan, gate);
    rd.inner = inner;
    let end = plan.end.min(img.len());
    let r = catch_unwind(AssertUnwindSafe(|| match plan.wrap {
        Wrap::Direct => decode(&mut rd, plan.lat, render, gate, stride),
        Wrap::Slice => decode(&mut &img[..end], plan.lat, render, gate, stride),
        Wrap::Buf(n) => {
            let mut b = io::BufReader::with_capacity(n.max(1) as usize, &mut rd);
            decode(&mut b, plan.lat, render, gate, stride)
        }
        Wrap::Boxed => {
            let mut b: Box<dyn Read + '_> = Box::new(&mut rd);
            decode(&mut b, plan.lat, render, gate, stride)
        }
        Wrap::Chain(at) => {
            let at = (at as usize).min(end);
            rd.pos = at;
            let mut c = (&img[..at]).chain(&mut rd);
            decode(&mut c, plan.lat, render, gate, stride)
        }
        Wrap::Take => {
            let mut t = (&mut rd).take(u64::MAX);
            decode(&mut t, plan.lat, render, gate, stride)
        }
    }));
    let st = rd.st;
    drop(rd);
    match r {
        Ok((res, peak, traffic, leak)) => Outcome { res, st, peak, traffic, leak },
        Err(p) => {
            let res = if p.is::<InjectedPanic>() {
                Res::Injected
            } else if p.is::<BudgetExceeded>() {
                Res::Budget
            } else {
                Res::Panic(payload_text(&*p))
            };
            Outcome { res, st, peak: 0, traffic: 0, leak: 0 }
        }
    }
}

/// Decode all, one after the other, and look at the results only then.
pub fn kept(all: &[(&[u8], &Plan)]) -> Vec<Option<Res>> {
    let results: Vec<_> = all
        .iter()
        .map(|(img, plan)| {
            let mut rd = SimReader::new(img, plan, None);
            catch_unwind(AssertUnwindSafe(|| world::within(plan.lat, || wadec::decode_module(&mut rd)))).ok()
        })
        .collect();
    let look = |r: &Result<wadec::Module, _>| match r {
        Ok(m) => Res::Ok(Box::new(canon::module(m))),
        Err(e) => describe(e),
    };
    results.iter().map(|r| r.as_ref().and_then(|r| catch_unwind(AssertUnwindSafe(|| look(r))).ok())).collect()
}

/// What the library itself says about this delivery.
#[derive(Default)]
pub struct Texts {
    pub ok: bool,
    /// `{:#?}` of the module or of the error
    pub pretty: String,
    pub chain: Vec<String>,
}

/// None: it panicked.
pub fn texts(img: &[u8], plan: &Plan) -> Option<Texts> {
    catch_unwind(AssertUnwindSafe(|| texts_raw(img, plan))).ok()
}
fn texts_raw(img: &[u8], plan: &Plan) -> Texts {
    let mut rd = SimReader::new(img, plan, None);
    match world::within(plan.lat, || wadec::decode_module(&mut rd)) {
        Ok(m) => Texts { ok: true, pretty: format!("{m:#?}"), chain: vec![] },
        Err(e) => {
            let chain = match describe(&e) {
                Res::Err { chain, .. } => chain,
                _ => vec![],
            };
            Texts { ok: false, pretty: format!("{e:#?}"), chain }
        }
    }
}

/// What the library says about two results: `==` both ways, and whether their
/// compact and pretty texts are the same.
pub struct Compared {
    pub eq: [bool; 2],
    pub texts: Vec<bool>,
    pub parts: Vec<Part>,
    /// a component whose clone is not the same
    pub miscopied: Option<&'static str>,
    pub st: [Stats; 2],
}

/// One public component of two modules, compared by itself: a difference that
/// shows in the section sizes too must not hide behind them.
pub struct Part {
    /// the components of the model it corresponds to
    pub mask: u32,
    pub eq: [bool; 2],
    pub texts: Vec<bool>,
}
fn same_texts<T: std::fmt::Debug>(x: &T, y: &T, n: usize) -> Vec<bool> {
    (0..n).map(|k| if k == 0 { format!("{x:?}") == format!("{y:?}") } else { format!("{x:#?}") == format!("{y:#?}") }).collect()
}

/// Whether a clone reads as the original does.
fn copies<T: std::fmt::Debug + Clone>(x: &T) -> bool {
    format!("{x:?}") == format!("{:?}", x.clone())
}
fn miscopied(x: &wadec::Module) -> Option<&'static str> {
    use wadec::core::{DataMode, ElemMode};
    let offsets = |e: &ElemMode| match e {
        ElemMode::Active { offset, .. } => copies(offset),
        _ => true,
    };
    let all = [
        ("types", x.types.iter().all(copies)),
        ("section kinds", copies(&x.parsed_section_kinds)),
        ("function types", x.funcs.iter().all(|f| copies(&f.r#type))),
        ("locals", x.funcs.iter().all(|f| f.locals.len() > 10_000 || copies(&f.locals))),
        ("function bodies", x.funcs.iter().all(|f| copies(&f.body))),
        ("tables", x.tables.iter().all(|t| copies(&t.0.reftype) && copies(&t.1))),
        ("globals", x.globals.iter().all(|g| copies(&g.init))),
        ("tags", x.tags.iter().all(copies)),
        ("element segments", x.elems.iter().all(|e| copies(&e.r#type) && copies(&e.init) && offsets(&e.mode))),
        ("data segments", x.datas.iter().all(|d| !matches!(&d.mode, DataMode::Active { offset, .. } if !copies(offset)))),
    ];
    all.iter().find(|a| !a.1).map(|a| a.0)
}

/// Ok(None): one of the two was not accepted.
pub fn compare(a: &[u8], p: &Plan, b: &[u8], q: &Plan, texts: usize) -> Result<Option<Compared>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let (mut r, mut s) = (SimReader::new(a, p, None), SimReader::new(b, q, None));
        let (Ok(x), Ok(y)) = (world::within(p.lat, || wadec::decode_module(&mut r)), world::within(q.lat, || wadec::decode_module(&mut s))) else { return None };
        Some(Compared {
            eq: [x == y, y == x],
            texts: same_texts(&x, &y, texts),
            parts: {
                let mut v = vec![];
                macro_rules! part {
                    ($mask:expr, $f:ident) => {
                        v.push(Part { mask: $mask, eq: [x.$f == y.$f, y.$f == x.$f], texts: same_texts(&x.$f, &y.$f, texts) })
                    };
                }
                part!(1, version);
                part!(1 << 1, parsed_section_kinds);
                part!(1 << 2, section_headers);
                part!(1 << 3, custom_sections);
                part!(1 << 4, types);
                part!(1 << 5, imports);
                part!(3 << 6, funcs);
                part!(1 << 8, tables);
                part!(1 << 9, mems);
                part!(1 << 10, tags);
                part!(1 << 11, globals);
                part!(1 << 12, exports);
                part!(1 << 13, start);
                part!(1 << 14, elems);
                part!(1 << 15, data_count);
                part!(1 << 16, datas);
                v
            },
            miscopied: if a.len() % 4 == 0 { miscopied(&x) } else { None },
            st: [r.st, s.st],
        })
    }))
    .map_err(|e| payload_text(&*e))
}
