//! Executing a case and judging it: invariants over each simulated decode and
//! comparison with the reference model, per property.
use crate::case::*;
use crate::cli;
use crate::fresh;
use crate::model::{self, At, EK, MOut};
use crate::reader::{self, Outcome, Res};
use crate::rng::{fnv, hash2};
use crate::sched::{Gate, Policy};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Eval {
    pub viol: Option<Viol>,
    pub skipped: bool,
    pub execs: u64,
    pub ticks: u64,
    pub reads: u64,
    pub bytes: u64,
    pub fired: [u64; NRF],
    pub states: Vec<u64>,
    pub traces: Vec<u64>,
    pub sched: Vec<(u16, u32)>,
    pub oks: u64,
    pub errs: u64,
}

/// Reader / scheduler faults (storage faults are counted by kind at generation).
pub const NRF: usize = 16;
pub const RF_NAMES: [&str; NRF] = [
    "short-read", "interrupted-call", "early-end-of-input", "end-of-input-then-more", "reader-error-sticky",
    "reader-error-once", "reader-error-unexpected-eof-kind", "reader-panic", "task-switch", "nested-decode",
    "byte-at-a-time-delivery", "open-failure", "interrupted-open", "short-write", "interrupted-write", "write-failure",
];

pub const MAX_DEPTH: usize = 2000;
pub const MAX_LOCALS: u64 = 1 << 22;
/// C05: constant and factor of the memory bound.
pub const MEM_BASE: i64 = 2 << 20;
pub const MEM_FACTOR: i64 = 512;

/// C05: what a thread's first decode may leave behind (one-time initialisation).
pub const KEEP: i64 = 32 << 10;

const ALL: u32 = u32::MAX;

fn sec_word(at: At) -> &'static [&'static str] {
    match at {
        At::Preamble => &["preamble"],
        At::Header => &["section"],
        At::Section(id) => match id {
            0 => &["custom"],
            1 => &["type"],
            2 => &["import"],
            3 => &["function"],
            4 => &["table"],
            5 => &["memory", "mems"],
            6 => &["global"],
            7 => &["export"],
            8 => &["start"],
            9 => &["element"],
            10 => &["code"],
            11 => &["data"],
            12 => &["data count", "data segment count", "datacount"],
            _ => &["tag"],
        },
        At::End => &[""],
    }
}

pub fn positions(chain: &[String]) -> Vec<u32> {
    chain
        .iter()
        .filter_map(|c| c.split("at position ").nth(1))
        .filter_map(|t| t.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok())
        .collect()
}

fn v(class: &str, detail: String) -> Option<Viol> {
    Some(Viol { class: class.into(), detail })
}

/// Never acceptable, whatever the property: the decoder itself panicked, or
/// read without bound.
fn sane(o: &Outcome, plan: &Plan) -> Option<Viol> {
    match &o.res {
        Res::Panic(m) => v("panic", format!("decode panicked: {m} [{}]", plan.text())),
        Res::Budget => v("runaway", format!("decode never stops reading [{}]", plan.text())),
        _ => None,
    }
}

fn mdesc(m: &MOut) -> String {
    match &m.res {
        Ok(_) => "a complete, well-formed module".into(),
        Err(e) => format!(
            "{} at byte {} in {:?}, list positions {:?}{}",
            match e.kind {
                EK::Eof => "end of input",
                EK::Hard => "the reader's failure",
                EK::Bad => "malformed content",
                EK::SectionSize => "section size mismatch",
                EK::EntrySize => "code entry size mismatch",
                EK::Order => "section out of order",
                EK::Duplicate => "duplicate section",
                EK::CodeCount => "function/code count mismatch",
                EK::DataCount => "data count mismatch",
                EK::DataIndex => "data index without data count",
            },
            e.off,
            e.at,
            e.path,
            e.says.as_deref().map(|s| format!(", \"{s}\"")).unwrap_or_default()
        ),
    }
}

/// Level 1: accepted exactly when the model accepts, with the same content in
/// the components of `mask`.
fn agree(m: &MOut, o: &Outcome, mask: u32) -> Option<Viol> {
    match (&m.res, &o.res) {
        (Ok(c), Res::Ok(d)) => {
            let i = c.first_diff(d, mask)?;
            v("content", format!("decoded {} differ from what was delivered", model::COMP_NAMES[i]))
        }
        (Err(_), Res::Err { .. }) => None,
        (Err(e), Res::Injected) if e.kind == EK::Hard => None,
        (Ok(_), r) => v("rejected", format!("delivered {}, got {}", mdesc(m), r.brief())),
        (Err(_), r) => v("accepted", format!("delivered {}, got {}", mdesc(m), r.brief())),
    }
}

pub fn token(plan: &Plan) -> String {
    match plan.term {
        Term::Fail(f) => f.make(plan.end).to_string(),
        _ => String::new(),
    }
}

fn low(s: &str) -> String {
    s.to_lowercase()
}

/// Level 2: the error is of the class the model names.
fn class(m: &MOut, o: &Outcome, plan: &Plan) -> Option<Viol> {
    let (e, chain, eof) = match (&m.res, &o.res) {
        (Err(e), Res::Err { chain, eof, .. }) => (e, chain, *eof),
        _ => return None,
    };
    let all = chain.join(" <- ");
    let la = low(&all);
    let ok = match e.kind {
        EK::Eof => eof,
        EK::Hard => all.contains(&token(plan)),
        EK::Bad => !eof && !la.contains("mismatch") && !la.contains("does not match"),
        EK::SectionSize => la.contains("section size mismatch"),
        EK::EntrySize => la.contains("size mismatch") && !la.contains("section size mismatch"),
        EK::Order => la.contains("order"),
        EK::Duplicate => la.contains("duplicate"),
        EK::CodeCount => la.contains("does not match") && la.contains("function"),
        EK::DataCount => la.contains("does not match") && la.contains("data"),
        EK::DataIndex => la.contains("data index") && la.contains("missing"),
    };
    if ok { None } else { v("error-class", format!("delivered {}, got {}", mdesc(m), o.res.brief())) }
}

/// Level 3: the error points at the fault.
fn points(m: &MOut, o: &Outcome) -> Option<Viol> {
    let (e, chain) = match (&m.res, &o.res) {
        (Err(e), Res::Err { chain, .. }) => (e, chain),
        _ => return None,
    };
    let what = || format!("delivered {}, got {}", mdesc(m), o.res.brief());
    if let Some(s) = &e.says {
        if !chain.iter().any(|c| s.split('|').any(|s| c.contains(s))) {
            return v("missing-value", what());
        }
        // what went wrong is the root cause, behind all of the context
        if !chain.last().is_some_and(|c| s.split('|').any(|s| c.contains(s))) {
            return v("not-root-cause", what());
        }
    }
    if let Some(b) = e.shown {
        let t = chain.last().unwrap();
        let number = |x: &str| {
            let n = x.bytes().take_while(|c| c.is_ascii_hexdigit()).count();
            u8::from_str_radix(&x[..n], 16).ok()
        };
        let nums: Option<Vec<u8>> = t.split("0x").skip(1).map(number).collect();
        if !nums.is_some_and(|n| n.ends_with(&b)) {
            return v("missing-value", format!("{}; the bytes were {b:X?}", what()));
        }
    }
    if e.kind == EK::Eof && !chain.last().is_some_and(|c| reader::is_eof_text(c)) {
        return v("not-root-cause", what());
    }
    let structural = matches!(e.kind, EK::Order | EK::Duplicate | EK::CodeCount | EK::DataCount | EK::DataIndex);
    if !structural {
        let first = low(&chain[0]);
        if !sec_word(e.at).iter().any(|w| first.contains(w)) {
            return v("wrong-section", what());
        }
    }
    if positions(chain) != e.path {
        return v("wrong-position", what());
    }
    None
}

/// The counts that disagree are those of the delivered bytes.
fn counts(m: &MOut, o: &Outcome) -> Option<Viol> {
    let (missing, c, debug, chain) = match (&m.res, &o.res) {
        (Err(e), Res::Err { debug, chain, .. }) => (e.kind == EK::DataCount && e.at == At::End, e.counts?, debug, chain),
        _ => return None,
    };
    let after = |t: &str| -> Option<u64> {
        let t = debug.split(&format!("{t}: ")).nth(1)?;
        t[..t.bytes().take_while(|b| b.is_ascii_digit()).count()].parse().ok()
    };
    // with no data section at all, the message itself shows both
    let shown = |n: u64| {
        chain.iter().any(|l| l.split(|c: char| !c.is_ascii_digit()).any(|w| w.parse() == Ok(n)))
    };
    if c.iter().all(|(name, n)| after(name).is_none_or(|x| x == *n) && (!missing || shown(*n))) {
        return None;
    }
    v("wrong-count", format!("delivered {} with {c:?}, got {debug}", mdesc(m)))
}

/// The part of a production a link of the chain is about, if it is one of
/// those the model tells apart.
fn part(link: &str) -> Option<String> {
    let l = low(link);
    let l = l.strip_prefix("failed ")?;
    let l = ["decoding ", "reading ", "parsing "].iter().find_map(|p| l.strip_prefix(p))?;
    Some(
        match l {
            "table.init expressions" => "initialiser expressions",
            "init" => "initialiser",
            "recursive subtype" => "composite type",
            "heap type marker byte" | "heap type for cast operation" => "heap type",
            "exportdesc index" => "export descriptor index",
            "nullability for cast operation" => "nullability",
            "section id byte" => "section id",
            "instruction opcode" | "sub-opcode" | "vector opcode" | "0xfc-prefixed numeric opcode" => "opcode",
            "block type marker byte" | "block type value type" | "block type index" => "block type",
            _ => {
                if let Some(space) = l.strip_suffix("idx index") {
                    let full = match space {
                        "func" => "function",
                        "mem" => "memory",
                        "elem" => "element",
                        s => s,
                    };
                    return Some(format!("{full} index"));
                }
                // not a part the model knows by this name
                PARTS.iter().find(|p| **p == l)?
            }
        }
        .to_string(),
    )
}
const PARTS: &[&str] = &[
    "vector length", "vector elements", "heap type", "type index", "mutability", "field type list",
    "function type parameters", "function type results", "supertypes", "subtypes list", "subtype", "flag byte",
    "minimum limit", "maximum limit", "value type", "block type", "alignment", "memory index", "offset",
    "immediate bytes", "module name", "item name", "memory type", "tag type", "export descriptor marker byte", "bitfield",
    "offset expression", "element expression", "element kind", "init byte vector", "size of function code", "locals vector",
    "count of function locals", "local value type", "function body expression", "section size", "custom section name",
    "custom section contents", "lane index", "catch list", "catch block marker byte", "label index", "table index",
    "function index", "tag index", "data index", "element index", "local index", "global index", "field index",
    "array fixed length", "value type vector", "control instruction", "reference instruction", "aggregate instruction",
    "parametric instruction", "variable instruction", "table instruction", "memory instruction", "numeric instruction",
    "vector instruction",
];

/// C21: the chain names the parts on the way to the fault, in order.
fn names_parts(m: &MOut, o: &Outcome) -> Option<Viol> {
    let (e, chain) = match (&m.res, &o.res) {
        (Err(e), Res::Err { chain, .. }) => (e, chain),
        _ => return None,
    };
    if !matches!(e.kind, EK::Bad | EK::Eof | EK::Hard) {
        return None;
    }
    let group = |p: &str| p.ends_with(" instruction");
    // which group an opcode that is unknown or incomplete belongs to is anyone's guess
    let clean = |mut v: Vec<String>| {
        v.retain(|p| p != "tag type");
        v.dedup();
        let opcode = v.last().is_some_and(|p| p == "opcode");
        if opcode {
            v.pop();
        }
        if v.last().is_some_and(|p| group(p)) && (opcode || e.no_group) {
            v.pop();
        }
        if opcode {
            v.push("opcode".into());
        }
        v
    };
    let got = clean(chain.iter().filter_map(|c| part(c)).collect());
    let want = clean(e.parts.iter().map(|p| p.to_string()).collect());
    // (the offset of a segment of kind 2 goes by either name)
    let like = |g: &String, w: &String| g == w || (w == "expression of kind 2" && matches!(g.as_str(), "offset expression" | "element expression"));
    if got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| like(g, w)) {
        return None;
    }
    v("wrong-part", format!("delivered {} in {want:?}, got {}, which says {got:?}", mdesc(m), o.res.brief()))
}

/// Every `0x..` number of a text.
fn hex_numbers(t: &str) -> Vec<u64> {
    let mut v: Vec<u64> = t
        .split("0x")
        .skip(1)
        .filter_map(|x| {
            let n = x.bytes().take_while(|b| b.is_ascii_hexdigit()).count();
            u64::from_str_radix(&x[..n], 16).ok()
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

/// C20: some link of the chain shows the illegal byte and exactly the legal ones.
fn lists_legal(m: &MOut, o: &Outcome) -> Option<Viol> {
    let (e, chain) = match (&m.res, &o.res) {
        (Err(e), Res::Err { chain, .. }) => (e, chain),
        _ => return None,
    };
    let (b, legal) = e.marker?;
    let mut want: Vec<u64> = legal.iter().map(|x| *x as u64).chain([b as u64]).collect();
    want.sort();
    if chain.iter().any(|c| hex_numbers(c) == want) {
        return None;
    }
    v("legal-bytes", format!("delivered {} where {legal:#04X?} are legal, got {}", mdesc(m), o.res.brief()))
}

struct Ctx<'a> {
    case: &'a Case,
    ev: Eval,
}

impl<'a> Ctx<'a> {
    fn count(&mut self, plan: &Plan, o: &Outcome) {
        let e = &mut self.ev;
        e.execs += 1;
        e.ticks += o.st.ticks;
        e.reads += o.st.calls + o.st.eintr;
        e.bytes += o.st.delivered;
        e.fired[0] += o.st.short;
        e.fired[1] += o.st.eintr;
        let len = self.case.images[plan.img].len();
        if plan.end < len && o.st.eofs > 0 && plan.term == Term::Eof {
            e.fired[2] += 1;
        }
        if plan.term == Term::EofResume && o.st.eofs > 0 {
            e.fired[3] += 1;
        }
        if o.st.fails > 0 {
            match plan.term {
                Term::Fail(f) => {
                    e.fired[if f.sticky { 4 } else { 5 }] += 1;
                    if f.form != Form::Os && f.code == 0 {
                        e.fired[6] += 1;
                    }
                }
                _ => e.fired[7] += 1,
            }
        }
        if plan.inside.is_some() {
            e.fired[9] += 1;
        }
        if plan.chunk == Chunk::Fixed(1) {
            e.fired[10] += 1;
        }
        match o.res {
            Res::Ok(_) => e.oks += 1,
            _ => e.errs += 1,
        }
        if e.traces.len() < 64 {
            e.traces.push(hash2(o.st.trace, hash2(plan.img as u64, plan.end as u64)));
        }
    }
    fn run(&mut self, plan: &Plan) -> Outcome {
        self.run_r(plan, false)
    }
    fn run_r(&mut self, plan: &Plan, render: bool) -> Outcome {
        let o = reader::run(&self.case.images[plan.img], plan, None, 0, None, render);
        self.count(plan, &o);
        o
    }
    fn model(&mut self, plan: &Plan, trace: bool) -> MOut {
        let img = &self.case.images[plan.img];
        let m = model::run(img, plan.end, plan.hard(), trace);
        if (m.max_depth > MAX_DEPTH || m.locals > MAX_LOCALS) && self.case.variant & V_UNGUARDED == 0 {
            self.ev.skipped = true;
        }
        // abstract state: where and how the delivery ended, what came of it
        let term = match plan.term {
            Term::Eof => 0,
            Term::EofResume => 1,
            Term::Fail(f) => 2 + f.sticky as u64,
            Term::Panic => 4,
        };
        let (k, at) = match &m.res {
            Ok(_) => (99, 99),
            Err(e) => (
                e.kind as u64,
                match e.at {
                    At::Preamble => 50,
                    At::Header => 51,
                    At::End => 52,
                    At::Section(i) => i as u64,
                },
            ),
        };
        if self.case.prop == "C19" {
            for f in &m.fields {
                let b = match f.role {
                    model::Role::Opcode | model::Role::SubOp | model::Role::Marker | model::Role::ValType => img[f.off],
                    _ => 0,
                };
                let len = f.len.min(12) as u64;
                self.ev.states.push(hash2((f.sec as u64) << 16 | (f.role as u64) << 8 | b as u64, len));
            }
        }
        let role = m.fields.last().map_or(77, |f| f.role as u64 * 16 + f.sec as u64);
        let mut h = hash2(term * 1000 + k, at * 100_000 + role);
        for t in &self.case.tags {
            self.ev.states.push(hash2(h, (t.fk as u64) << 16 | (t.role as u64) << 8 | t.sec as u64));
        }
        h = hash2(h, 5);
        self.ev.states.push(h);
        m
    }
}

pub fn eval(case: &Case) -> Eval {
    // outside the decodes (which are caught one by one), what can panic is the
    // library's comparison, formatting or dropping of what it returned
    std::panic::catch_unwind(|| eval_case(case)).unwrap_or_else(|p| Eval {
        viol: v("panic", format!("panicked while using a result: {}", reader::payload_text(&*p))),
        execs: 1,
        ..Eval::default()
    })
}

fn eval_case(case: &Case) -> Eval {
    let mut cx = Ctx { case, ev: Eval::default() };
    let viol = match case.prop.as_str() {
        "C01" => c01(&mut cx),
        "C02" => c02(&mut cx),
        "C03" => c03(&mut cx),
        "C04" => c04(&mut cx),
        "C05" => c05(&mut cx),
        "C06" => c06(&mut cx),
        "C07" => c07(&mut cx),
        "C18" => c18(&mut cx),
        "C15" => c15(&mut cx),
        "C22" => c22(&mut cx),
        "C23" => c23(&mut cx),
        "C16" | "C17" => cli_check(&mut cx),
        _ => modelled(&mut cx),
    };
    if !cx.ev.skipped {
        cx.ev.viol = viol;
    }
    cx.ev
}

fn same(a: &Outcome, b: &Outcome) -> Option<String> {
    same_res(&a.res, &b.res)
}
fn same_res(a: &Res, b: &Res) -> Option<String> {
    match (a, b) {
        (Res::Ok(x), Res::Ok(y)) => {
            x.first_diff(y, ALL).map(|i| format!("decoded {} differ", model::COMP_NAMES[i]))
        }
        (Res::Err { chain: x, .. }, Res::Err { chain: y, .. }) if x == y => None,
        (x, y) if x == y => None,
        (x, y) => Some(format!("{} versus {}", x.brief(), y.brief())),
    }
}

/// How the bytes arrive does not matter.
fn c01(cx: &mut Ctx) -> Option<Viol> {
    let first = cx.case.tasks.first()?.clone();
    let reference = Plan { wrap: Wrap::Slice, term: Term::Eof, ..Plan::plain(first.img, first.end) };
    cx.model(&reference, true);
    if cx.ev.skipped {
        return None;
    }
    let a = cx.run(&reference);
    for p in cx.case.tasks.clone() {
        let o = cx.run(&p);
        if let Some(d) = same(&a, &o) {
            return v("differs", format!("whole image in one slice {d} when delivered as [{}]", p.text()));
        }
    }
    let b = cx.run(&reference);
    same(&a, &b).and_then(|d| v("not-repeatable", format!("decoding the same slice again: {d}")))
}

fn planned(p: &Plan) -> String {
    match p.term {
        Term::Fail(f) => format!("{:?}", f.make(p.end)),
        _ => String::new(),
    }
}

/// The reader's error came through with its kind and number: it is a link of
/// the chain, or (behind transparent wrappers) part of the debug form.
fn kept(p: &Plan, debug: &str, ios: &[(std::io::ErrorKind, Option<i32>)]) -> bool {
    let Term::Fail(f) = p.term else { return true };
    let e = f.make(p.end);
    let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect::<String>();
    ios.contains(&(e.kind(), e.raw_os_error())) || squeeze(debug).contains(&squeeze(&format!("{e:?}")))
}

/// The reader's failure is what the caller gets.
fn c02(cx: &mut Ctx) -> Option<Viol> {
    for p in cx.case.tasks.clone().into_iter().filter(|p| p.hard()) {
        let m = cx.model(&p, true);
        if cx.ev.skipped {
            return None;
        }
        let o = cx.run(&p);
        if let Some(x) = sane(&o, &p) {
            return Some(x);
        }
        let hard = matches!(&m.res, Err(e) if e.kind == EK::Hard);
        match (&o.res, p.term) {
            (Res::Ok(_), _) => {
                return v(
                    "swallowed",
                    format!("the reader failed at byte {} and decode returned Ok [{}]", p.end, p.text()),
                );
            }
            (Res::Injected, Term::Panic) if hard => {}
            (r, Term::Panic) if hard => {
                return v("swallowed", format!("the reader panicked at byte {}, got {}", p.end, r.brief()));
            }
            (Res::Err { chain, debug, ios, .. }, _) if hard => {
                let t = token(&p);
                if !kept(&p, debug, ios) {
                    return v(
                        "altered",
                        format!("the reader failed at byte {} with {}, got {debug} [{}]", p.end, planned(&p), p.text()),
                    );
                }
                if !chain.iter().any(|c| c.contains(&t)) {
                    return v(
                        "replaced",
                        format!(
                            "the reader failed at byte {} with \"{t}\", got {} [{}]",
                            p.end,
                            o.res.brief(),
                            p.text()
                        ),
                    );
                }
            }
            (r, _) if !hard => {
                // malformed before the failure: same diagnosis as without it
                let full = Plan { wrap: Wrap::Slice, ..Plan::plain(p.img, cx.case.images[p.img].len()) };
                let f = cx.run(&full);
                if let Some(d) = same(&f, &o) {
                    return v("diagnosis", format!("reader failure after the malformed bytes: {d} ({})", r.brief()));
                }
            }
            (r, _) => return v("replaced", format!("reader failed at {}, got {}", p.end, r.brief())),
        }
    }
    None
}

fn c03(cx: &mut Ctx) -> Option<Viol> {
    for p in cx.case.tasks.clone() {
        let m = cx.model(&p, true);
        if cx.ev.skipped {
            return None;
        }
        let o = cx.run(&p);
        let x = sane(&o, &p).or_else(|| agree(&m, &o, ALL)).or_else(|| {
            // the delivered prefix of a well-formed image contains nothing malformed
            match (&m.res, &o.res) {
                (Err(e), Res::Err { chain, eof, .. }) if e.kind != EK::Bad => {
                    let la = low(&chain.join(" <- "));
                    let size = la.contains("size mismatch");
                    let count = la.contains("does not match") || (la.contains("data count") && la.contains("missing"));
                    let ok = match e.kind {
                        EK::Eof => *eof,
                        EK::SectionSize | EK::EntrySize => size || *eof,
                        _ => count,
                    };
                    if ok { None } else { v("error-class", format!("delivered {}, got {}", mdesc(&m), o.res.brief())) }
                }
                _ => None,
            }
        });
        if let Some(mut x) = x {
            x.detail += &format!(" (cut at byte {} of {}) [{}]", p.end, cx.case.images[p.img].len(), p.text());
            return Some(x);
        }
    }
    None
}

fn c04(cx: &mut Ctx) -> Option<Viol> {
    for p in cx.case.tasks.clone() {
        let m = cx.model(&p, true);
        if cx.ev.skipped {
            return None;
        }
        let img = &cx.case.images[p.img];
        let render = img.len() < 3000 && m.max_depth < 40 && m.locals < 1 << 16;
        let o = cx.run_r(&p, render);
        if let Some(x) = sane(&o, &p) {
            return Some(x);
        }
        if let Res::Err { chain, endless, debug, .. } = &o.res {
            if *endless {
                return v("endless-chain", "the error's source chain does not end".into());
            }
            if chain.iter().any(|c| c.is_empty()) || debug.is_empty() {
                return v("unrenderable", format!("an error renders as nothing: {chain:?}"));
            }
        }
        if matches!(o.res, Res::Injected) && !p.hard() {
            return v("panic", "unexpected panic".into());
        }
    }
    None
}

fn c05(cx: &mut Ctx) -> Option<Viol> {
    for p in cx.case.tasks.clone() {
        let m = cx.model(&p, true);
        if cx.ev.skipped {
            return None;
        }
        // a thread of its own: what it keeps for later shows as memory not released
        let case = cx.case;
        let o = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || reader::run(&case.images[p.img], &p, None, 0, None, false))
                .expect("spawn")
                .join()
                .expect("join")
        });
        cx.count(&p, &o);
        if let Some(x) = sane(&o, &p) {
            return Some(x);
        }
        let n = p.end.min(cx.case.images[p.img].len()) as i64;
        // known finding: declared locals are expanded (see known_findings.txt)
        let carve = if cx.case.variant & V_UNGUARDED == 0 { 64 * m.locals as i64 } else { 0 };
        let bound = MEM_BASE + MEM_FACTOR * n + carve;
        if o.peak > bound {
            return v("memory", format!("{} bytes allocated at once for {n} delivered bytes [{}]", o.peak, p.text()));
        }
        let tb = 4 * bound as u64 + 2048 * n as u64;
        if o.traffic > tb {
            return v("churn", format!("{} bytes allocated in total for {n} delivered bytes [{}]", o.traffic, p.text()));
        }
        if o.leak > KEEP {
            return v("kept", format!("{} bytes stay allocated after decode and drop [{}]", o.leak, p.text()));
        }
        if o.leak > 0 {
            // a one-time initialisation is not a leak: does it grow?
            if (0..40).all(|_| cx.run(&p).leak > 0) {
                return v("leak", format!("bytes stay allocated after every decode and drop [{}]", p.text()));
            }
        }
    }
    None
}

fn c06(cx: &mut Ctx) -> Option<Viol> {
    let case = cx.case;
    let n = case.tasks.len();
    let mut solo = vec![];
    for p in &case.tasks {
        let m = cx.model(p, true);
        if cx.ev.skipped {
            return None;
        }
        let o = cx.run(p);
        solo.push((m, o));
    }
    let roots: Vec<usize> = (0..n).filter(|i| case.tasks[*i].inside.is_none()).collect();
    let policy = match case.sched_seed {
        Some(s) if case.sched.is_empty() => Policy::seeded(s, roots.len()),
        _ => Policy::script(case.sched.clone()),
    };
    let gate = Gate::new(policy, roots.len());
    let out: Vec<std::sync::Mutex<Option<Outcome>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for (slot, &t) in roots.iter().enumerate() {
            let (gate, out, solo) = (&gate, &out, &solo);
            let _ = solo;
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    gate.enter(slot);
                    let o = nest(case, t, Some((gate, slot)), out);
                    *out[t].lock().unwrap() = Some(o);
                    gate.done(slot);
                })
                .expect("spawn");
        }
    });
    let (trace, switches, _) = gate.report();
    cx.ev.fired[8] += switches;
    cx.ev.traces.push(fnv(format!("{trace:?}").as_bytes()));
    cx.ev.sched = trace;
    if gate.was_stuck() {
        return v("interference", "a decode waits for one that waits for its own reader".into());
    }
    for (i, (m, a)) in solo.iter().enumerate() {
        let got = out[i].lock().unwrap().take();
        // a nested task whose host ended before reaching its offset never ran
        let Some(b) = got else { continue };
        cx.count(&case.tasks[i], &b);
        if let Some(d) = same(a, &b) {
            return v("interference", format!("task {i} alone versus among the others: {d}"));
        }
        if let Some(x) = agree(m, &b, ALL) {
            return v("interference", format!("task {i}: {}", x.detail));
        }
    }
    // all results at hand before the first is looked at
    let keep: Vec<usize> = (0..n).filter(|i| case.tasks[*i].wrap == Wrap::Direct && !matches!(solo[*i].1.res, Res::Injected)).collect();
    if keep.len() > 1 {
        let all: Vec<_> = keep.iter().map(|i| (&case.images[case.tasks[*i].img][..], &case.tasks[*i])).collect();
        for (i, r) in keep.iter().zip(reader::kept(&all)) {
            let a = &solo[*i].1.res;
            let d = match &r {
                Some(r) => same_res(a, r),
                None => Some("a panic".into()),
            };
            if let Some(d) = d {
                return v("interference", format!("task {i} alone versus looked at after the other decodes: {d}"));
            }
        }
    }
    None
}

fn nest<'a>(
    case: &'a Case,
    t: usize,
    gate: Option<(&'a Gate, usize)>,
    out: &'a [std::sync::Mutex<Option<Outcome>>],
) -> Outcome {
    let p = &case.tasks[t];
    let child = (0..case.tasks.len()).find(|i| case.tasks[*i].inside.is_some_and(|(h, _)| h == t && *i > t));
    let inner: Option<(usize, Box<dyn FnMut() + 'a>)> = child.map(|c| {
        let at = case.tasks[c].inside.unwrap().1;
        let f: Box<dyn FnMut() + 'a> = Box::new(move || {
            let o = nest(case, c, gate, out);
            *out[c].lock().unwrap() = Some(o);
        });
        (at, f)
    });
    reader::run(&case.images[p.img], p, gate, case.variant >> 8, inner, false)
}

fn c07(cx: &mut Ctx) -> Option<Viol> {
    for p in cx.case.tasks.clone() {
        cx.model(&p, true);
        if cx.ev.skipped {
            return None;
        }
        let o = cx.run(&p);
        if let Some(x) = sane(&o, &p) {
            return Some(x);
        }
        let n = o.st.delivered;
        let ends = o.st.eofs + o.st.fails;
        if o.st.calls > 4 * n + 256 {
            return v("reads", format!("{} read calls for {n} delivered bytes [{}]", o.st.calls, p.text()));
        }
        if o.st.empty > 4 * n + 256 {
            return v("reads", format!("{} empty read calls for {n} delivered bytes", o.st.empty));
        }
        if ends > 8 {
            return v("reads", format!("polled {ends} times after the input ended or failed [{}]", p.text()));
        }
        if let Res::Ok(_) = o.res {
            let all = p.end.min(cx.case.images[p.img].len()) as u64;
            if (n != all && p.wrap == Wrap::Direct && p.term != Term::EofResume) || o.st.eofs == 0 {
                return v("undrained", format!("Ok after {n} of {all} bytes, end of input seen: {}", o.st.eofs > 0));
            }
        }
    }
    None
}

/// A failed decode changes nothing for the next one.
fn c18(cx: &mut Ctx) -> Option<Viol> {
    let (b, rest) = cx.case.tasks.split_first()?;
    let (b, rest) = (b.clone(), rest.to_vec());
    let m = cx.model(&b, true);
    if cx.ev.skipped {
        return None;
    }
    let before = cx.run(&b);
    if let Some(x) = agree(&m, &before, ALL).or_else(|| class(&m, &before, &b)) {
        return v("first", format!("decode [{}]: {}", b.text(), x.detail));
    }
    let mut n = 0;
    for p in &rest {
        cx.model(p, false);
        if cx.ev.skipped {
            return None;
        }
        cx.run(p);
        n += 1;
        let after = cx.run(&b);
        if let Some(d) = same(&before, &after) {
            return v("residue", format!("the same decode before and after {n} failed decode(s), last [{}]: {d}", p.text()));
        }
        if let Some(x) = agree(&m, &after, ALL) {
            return v("residue", format!("after {n} failed decode(s): {}", x.detail));
        }
        if after.leak > 0 && before.leak <= 0 {
            // what is kept once, or in turns, is not lost
            if (0..40).all(|_| cx.run(&b).leak > 0) {
                return v("residue", "memory leaks after a failed decode".into());
            }
        }
    }
    if cx.case.variant & V_FRESH != 0 {
        let (here, case) = (fresh::text(&before.res), cx.case);
        let alone = fresh::last(case, vec![b.clone()]);
        let after = fresh::last(case, rest.into_iter().chain([b]).collect());
        cx.ev.execs += 1 + case.tasks.len() as u64;
        if let (Some(x), Some(y)) = (&alone, &after)
            && x != y
        {
            return v("residue", format!("in a fresh process: {x}, in a fresh process after {n} failed decode(s): {y}"));
        }
        if let Some(x) = &alone
            && *x != here
        {
            return v("residue", format!("in a fresh process: {x}, in one that has decoded before: {here}"));
        }
    }
    None
}

const CONTENT_MASK: u32 = ALL & !(1 << model::C_HEADERS | 1 << model::C_CUSTOM);

fn c15(cx: &mut Ctx) -> Option<Viol> {
    let p = cx.case.tasks.first()?.clone();
    let m = cx.model(&p, true);
    if cx.ev.skipped {
        return None;
    }
    let o = cx.run(&p);
    if let Some(x) = sane(&o, &p) {
        return Some(x);
    }
    let custom = 1 << model::C_CUSTOM | 1 << model::C_HEADERS | 1 << model::C_KINDS;
    // faults of other sections are other properties' business
    let mine = match &m.res {
        Ok(_) => true,
        Err(e) => e.at == At::Section(0),
    };
    if mine {
        if let Some(x) = agree(&m, &o, custom).or_else(|| class(&m, &o, &p)) {
            return Some(x);
        }
    }
    let img = &cx.case.images[p.img];
    if m.res.is_ok() && p.end >= img.len() && m.customs > 0 {
        // the same image without its custom sections
        let mut bare = img.clone();
        for f in m.frames.iter().rev().filter(|f| f.level == 0 && f.id == 0) {
            bare.drain(f.head..f.end);
        }
        let q = Plan::plain(p.img, bare.len());
        let w = reader::run(&bare, &q, None, 0, None, false);
        cx.count(&q, &w);
        match (&o.res, &w.res) {
            (Res::Ok(a), Res::Ok(b)) => {
                if let Some(i) = a.first_diff(b, CONTENT_MASK) {
                    return v("not-opaque", format!("custom sections change the decoded {}", model::COMP_NAMES[i]));
                }
            }
            (Res::Ok(_), r) => return v("not-opaque", format!("without custom sections: {}", r.brief())),
            _ => {}
        }
    }
    None
}

/// The sender stalls right after the bytes that show the fault: it is reported
/// all the same, and nothing behind it was touched.
fn c23(cx: &mut Ctx) -> Option<Viol> {
    for p in cx.case.tasks.clone() {
        let m = cx.model(&p, true);
        if cx.ev.skipped {
            return None;
        }
        let o = cx.run(&p);
        if let Some(x) = sane(&o, &p) {
            return Some(x);
        }
        let Err(e) = &m.res else { continue };
        if e.kind == EK::Hard || matches!(o.res, Res::Ok(_)) {
            continue;
        }
        let what = || format!("delivered {}, got {} [{}]", mdesc(&m), o.res.brief(), p.text());
        if o.st.fails > 0 || matches!(o.res, Res::Injected) {
            return v("waits", format!("reads on after the bytes that decide: {}", what()));
        }
        if p.wrap == Wrap::Direct && o.st.delivered > m.pos as u64 {
            return v("reads-ahead", format!("{} bytes consumed: {}", o.st.delivered, what()));
        }
    }
    None
}

/// `img` with every NaN the same and every zero positive; whether there was a NaN.
fn plain_floats(img: &[u8], m: &MOut) -> (Vec<u8>, bool) {
    let mut b = img.to_vec();
    let mut nan = false;
    for f in &m.fields {
        let s = &mut b[f.off..f.off + f.len];
        let (is_nan, is_zero) = match f.role {
            model::Role::F32 => {
                let x = f32::from_le_bytes((&*s).try_into().unwrap());
                (x.is_nan(), x == 0.0)
            }
            model::Role::F64 => {
                let x = f64::from_le_bytes((&*s).try_into().unwrap());
                (x.is_nan(), x == 0.0)
            }
            _ => continue,
        };
        if is_nan {
            s.fill(0xFF);
            nan = true;
        }
        if is_zero {
            s.fill(0);
        }
    }
    (b, nan)
}

/// Comparing two decoded copies, or their texts, shows every difference and no other.
fn c22(cx: &mut Ctx) -> Option<Viol> {
    let [p, q] = cx.case.tasks.clone().try_into().ok()?;
    let (m, n) = (cx.model(&p, true), cx.model(&q, true));
    let (Ok(c), Ok(d)) = (&m.res, &n.res) else { return None };
    if cx.ev.skipped || m.max_depth.max(n.max_depth) > 60 {
        return None;
    }
    let (a, b) = (&cx.case.images[p.img], &cx.case.images[q.img]);
    // (how much text there is, not how many bytes)
    let size = a.len() as u64 + 4 * m.locals.max(n.locals);
    let texts = match size {
        0..2000 => 2,
        2000..20_000 => 1 + (q.lat % 16 == 0) as usize,
        2_000_000.. => 0,
        _ => (q.lat % 32 == 0) as usize * (1 + (size < 200_000) as usize),
    };
    let r = match reader::compare(a, &p, b, &q, texts) {
        Ok(Some(r)) => r,
        // refused: another property's business
        Ok(None) => return None,
        Err(t) => return v("panic", format!("panicked comparing or rendering results: {t}")),
    };
    for (plan, st) in [(&p, r.st[0]), (&q, r.st[1])] {
        cx.count(plan, &Outcome { res: Res::Injected, st, peak: 0, traffic: 0, leak: 0 });
    }
    let ctx = |t: &str| format!("{t} [{}] [{}]", p.text(), q.text());
    if r.eq[0] != r.eq[1] {
        return v("asymmetric", ctx(&format!("a == b is {}, b == a is {}", r.eq[0], r.eq[1])));
    }
    if let Some(t) = r.miscopied {
        return v("miscopied", ctx(&format!("a clone of the {t} is not what it was taken of")));
    }
    let (x, nan) = plain_floats(a, &m);
    if c.first_diff(d, ALL).is_some() {
        let (y, nan2) = plain_floats(b, &n);
        let (m, n) = (model::run(&x, p.end, false, false), model::run(&y, q.end, false, false));
        let (Ok(plain_c), Ok(plain_d)) = (&m.res, &n.res) else { return None };
        for r in &r.parts {
            let names: Vec<_> = (0..model::NCOMP).filter(|i| r.mask >> i & 1 == 1).map(|i| model::COMP_NAMES[i]).collect();
            let names = names.join(", ");
            if r.eq[0] != r.eq[1] {
                return v("asymmetric", ctx(&format!("comparing {names} gives {} and {}", r.eq[0], r.eq[1])));
            }
            let text = |same: bool| r.texts.iter().position(|t| *t == same).map(|t| ["debug", "pretty"][t]);
            if c.first_diff(d, r.mask).is_none() {
                if !r.eq[0] && !nan && !nan2 {
                    return v("unequal", ctx(&format!("two modules with the same {names} differ in them")));
                }
                if let Some(t) = text(false) {
                    return v("different-text", ctx(&format!("two modules with the same {names} differ in their {t} text")));
                }
            } else if plain_c.first_diff(plain_d, r.mask).is_some() {
                if r.eq[0] {
                    return v("equal", ctx(&format!("{names} differ but compare equal")));
                }
                if let Some(t) = text(true) {
                    return v("same-text", ctx(&format!("{names} differ but have the same {t} text")));
                }
            }
        }
    }
    if let Some(k) = c.first_diff(d, ALL) {
        let (y, _) = plain_floats(b, &n);
        let (m, n) = (model::run(&x, p.end, false, false), model::run(&y, q.end, false, false));
        let (Ok(c), Ok(d)) = (&m.res, &n.res) else { return None };
        if c.first_diff(d, ALL).is_none() {
            return None;
        }
        let k = model::COMP_NAMES[k];
        if r.eq[0] {
            return v("equal", ctx(&format!("two modules whose {k} differ compare equal")));
        }
        if let Some(t) = r.texts.iter().position(|t| *t) {
            return v("same-text", ctx(&format!("two modules whose {k} differ have the same {} text", ["debug", "pretty"][t])));
        }
        return None;
    }
    if !r.eq[0] && !nan {
        return v("unequal", ctx("two modules with the same contents do not compare equal"));
    }
    if let Some(t) = r.texts.iter().position(|t| !*t) {
        return v("different-text", ctx(&format!("two modules with the same contents differ in {} text", ["debug", "pretty"][t])));
    }
    None
}

fn modelled(cx: &mut Ctx) -> Option<Viol> {
    use model::*;
    let prop = cx.case.prop.clone();
    for p in cx.case.tasks.clone() {
        let m = cx.model(&p, true);
        if cx.ev.skipped {
            return None;
        }
        let o = cx.run(&p);
        let kind = m.res.as_ref().err().map(|e| e.kind);
        let x = sane(&o, &p).or_else(|| match prop.as_str() {
            "C08" => agree(&m, &o, ALL).or_else(|| match kind {
                Some(EK::SectionSize | EK::EntrySize) => class(&m, &o, &p).or_else(|| points(&m, &o)),
                Some(EK::Eof) => class(&m, &o, &p),
                _ => None,
            }),
            "C09" => {
                let mask = 1 << C_KINDS | 1 << C_HEADERS;
                agree(&m, &o, mask).or_else(|| match (kind, m.res.as_ref().err().map(|e| e.at)) {
                    (Some(EK::Order | EK::Duplicate), _) => class(&m, &o, &p).or_else(|| points(&m, &o)),
                    (Some(EK::Bad), Some(At::Header)) => points(&m, &o),
                    _ => None,
                })
            }
            "C10" => {
                let mask = 1 << C_FUNCS | 1 << C_BODIES | 1 << C_DCOUNT | 1 << C_DATAS;
                agree(&m, &o, mask).or_else(|| match kind {
                    Some(EK::CodeCount | EK::DataCount | EK::DataIndex) => {
                        class(&m, &o, &p).or_else(|| counts(&m, &o))
                    }
                    _ => None,
                })
            }
            "C19" => match kind {
                None => agree(&m, &o, ALL),
                Some(_) => None,
            },
            "C21" => names_parts(&m, &o),
            "C20" => agree(&m, &o, 0).filter(|_| m.marker()).or_else(|| lists_legal(&m, &o)),
            "C11" => agree(&m, &o, ALL),
            "C12" | "C13" => agree(&m, &o, ALL).or_else(|| class(&m, &o, &p)),
            "C14" => class(&m, &o, &p).or_else(|| points(&m, &o)).or_else(|| counts(&m, &o)).or_else(|| match &o.res {
                Res::Err { endless, chain, debug, .. }
                    if *endless || debug.is_empty() || chain.iter().any(|c| c.trim().is_empty()) =>
                {
                    v("unrenderable", format!("chain {chain:?}"))
                }
                _ => None,
            }),
            _ => agree(&m, &o, ALL),
        });
        if let Some(mut x) = x {
            x.detail += &format!(" [{}]", p.text());
            return Some(x);
        }
    }
    None
}

/// The command line tool: exit status (C16) and what it reports (C17).
fn cli_check(cx: &mut Ctx) -> Option<Viol> {
    let p = cx.case.tasks.first()?.clone();
    let c = cx.case.cli?;
    let m = cx.model(&p, true);
    // (hundreds of megabytes of text say no more than one)
    if cx.ev.skipped || m.max_depth > 200 || m.locals > 20_000 {
        return None;
    }
    let img = &cx.case.images[p.img];
    let lib = match reader::texts(img, &p) {
        None if cx.case.prop == "C17" => return v("panic", format!("the library panicked [{}]", p.text())),
        t => t.unwrap_or_default(),
    };
    let r = match cli::run(img, &p, &c) {
        Ok(r) => r,
        Err(e) => return v("harness", format!("cannot run the tool: {e}")),
    };
    let e = &mut cx.ev;
    e.execs += 1;
    let k = |i: usize| r.count[i];
    e.ticks += (k(cli::READS) + k(6)) * 10;
    e.reads += k(cli::READS);
    e.bytes += k(cli::BYTES);
    crate::world::add(k(cli::CLOCK));
    for (slot, n) in [
        (0, k(cli::SHORT)),
        (1, k(cli::EINTR)),
        (2, (p.term == Term::Eof) as u64 * k(cli::EOFS)),
        (3, (p.term == Term::EofResume) as u64 * k(cli::EOFS)),
        (13, k(cli::WSHORT)),
        (14, k(cli::WEINTR)),
        (15, k(cli::WFAIL)),
    ] {
        e.fired[slot] += n;
    }
    if let Term::Fail(f) = p.term {
        e.fired[if f.sticky { 4 } else { 5 }] += k(cli::RFAIL);
    }
    if let Some((n, _)) = c.open {
        e.fired[if n == 4 { 12 } else { 11 }] += k(cli::OPENFAIL);
    }
    e.traces.push(cli::trace_of(&r));
    let shape = hash2(c.mode as u64 * 4 + c.verbose as u64 * 2 + c.pipe as u64 + c.name as u64 * 64 + c.vars as u64 * 1024 + c.file.map_or(0, |f| f.len() as u64) * 8192, hash2(k(cli::WFAIL).min(1), k(cli::OPENFAIL).min(1)));
    for s in e.states.iter_mut() {
        *s = hash2(*s, shape);
    }

    let complete = m.res.is_ok() && c.open_fails().is_none();
    let out = String::from_utf8_lossy(&r.stdout).into_owned();
    let err = String::from_utf8_lossy(&r.stderr).into_owned();
    let code = match (r.code, r.signal) {
        (Some(c), _) => c,
        (None, s) => return v("killed", format!("the tool was killed by signal {s:?} [{}] [{}]", p.text(), c.text())),
    };
    let ctx = || {
        format!(
            "exit {code}, stdout {} bytes, stderr {:?}; input: {}{} [{}] [{}]",
            r.stdout.len(),
            err.chars().take(400).collect::<String>(),
            mdesc(&m),
            if c.open_fails().is_some() { ", cannot be opened" } else { "" },
            p.text(),
            c.text()
        )
    };
    if complete {
        cx.ev.oks += 1;
    } else {
        cx.ev.errs += 1;
    }
    let lost = c.w[0].fail.is_some_and(|(at, _)| complete && c.verbose && at < lib.pretty.len() as u64);
    if cx.case.prop == "C16" {
        let want = complete && !lost;
        return if (code == 0) == want {
            None
        } else if code == 0 {
            v("false-success", ctx())
        } else {
            v("false-failure", ctx())
        };
    }
    if complete {
        if !c.verbose && !(out.is_empty() && err.is_empty()) {
            return v("noise", ctx());
        }
        if c.verbose && c.w[0].fail.is_none() {
            if !lib.ok || out.trim() != lib.pretty.trim() {
                return v("output", format!("stdout is not exactly the decoded module; {}", ctx()));
            }
            if !err.is_empty() {
                return v("noise", ctx());
            }
        }
        return None;
    }
    if !out.is_empty() {
        return v("noise", format!("stdout not empty after a failure; {}", ctx()));
    }
    if c.w[1].fail.is_some() {
        return None;
    }
    let os = |n: u16| std::io::Error::from_raw_os_error(n as i32).to_string();
    if let Some(n) = c.open_fails() {
        return if err.contains(&os(n)) { None } else { v("unreported", format!("{:?} missing; {}", os(n), ctx())) };
    }
    if let (Term::Fail(f), Err(e)) = (p.term, &m.res) {
        // read ahead of the malformed part: either report is right
        if e.kind != EK::Hard && err.contains(&os(f.code)) {
            return None;
        }
    }
    if lib.ok {
        return v("output", format!("the library accepts this input; {}", ctx()));
    }
    if let Err(i) = cli::in_order(&err, &lib.chain) {
        return v("unreported", format!("cause {i} {:?} missing or out of order; {}", lib.chain[i], ctx()));
    }
    if c.verbose && !err.contains(&lib.pretty) {
        return v("unreported", format!("the verbose report lacks the error's debug form; {}", ctx()));
    }
    // each cause once
    let (text, all) = (if c.verbose { err.replacen(&lib.pretty, "", 1) } else { err.clone() }, lib.chain.join("\n"));
    for t in lib.chain.iter().filter(|t| t.len() >= 8) {
        if text.matches(t.as_str()).count() > all.matches(t.as_str()).count() {
            return v("noise", format!("cause {t:?} is reported more than once; {}", ctx()));
        }
    }
    None
}
