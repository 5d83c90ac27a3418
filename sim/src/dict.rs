//! A dictionary for the workload generator: literals and names that the code
//! under test contains more often (or less often) than the tree this harness was
//! written against.  A threshold, a magic length or a special-cased name that a
//! change introduces is thus likely to be hit by the images, histories and
//! schedules the simulator draws, however far from round numbers it is.
//!
//! The dictionary only shifts what is drawn.  What a run must do is decided by
//! the model alone, so any change of the text can at worst waste runs.  On an
//! unchanged tree the dictionary is empty.
use crate::case::KINDS;
use crate::model::KIND_NAMES;
use crate::ops;
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    /// I/O error kinds, as indexes into KINDS
    pub kinds: Vec<u16>,
    pub ops: Vec<u32>,
    /// section ids
    pub secs: Vec<u8>,
}

impl Dict {
    pub fn is_empty(&self) -> bool {
        self.ints.is_empty() && self.strs.is_empty() && self.kinds.is_empty() && self.ops.is_empty() && self.secs.is_empty()
    }
    /// A number of the dictionary, or one next to it, not above `max`.
    pub fn near(&self, r: &mut Rng, max: u64) -> Option<u64> {
        let fits = |&&v: &&u64| v <= max;
        let n = self.ints.iter().filter(fits).count();
        if n == 0 {
            return None;
        }
        let v = *self.ints.iter().filter(fits).nth(r.us(n)).unwrap();
        Some(match r.below(6) {
            0 => v.saturating_sub(1),
            1 | 2 => v.saturating_add(1).min(max),
            3 => v.saturating_add(r.below(9)).min(max),
            _ => v,
        })
    }
}

pub fn get() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| make(include_str!("../baseline_words.txt"), &scan()))
}

/// (Numbers also count as bytes, names as names of kinds, opcodes, sections.)
fn make(base: &str, now: &BTreeMap<String, i64>) -> Dict {
    let mut diff = now.clone();
    for l in base.lines() {
        if let Some((n, w)) = l.split_once(' ') {
            *diff.entry(w.to_string()).or_default() -= n.parse::<i64>().unwrap_or(0);
        }
    }
    let mut d = Dict::default();
    for (w, n) in diff {
        if n == 0 {
            continue;
        }
        if let Some(v) = w.strip_prefix("i:").and_then(|v| v.parse().ok()) {
            d.ints.push(v);
        } else if let Some(s) = w.strip_prefix("s:") {
            if n > 0 && (1..=48).contains(&s.len()) && !s.contains('{') {
                d.strs.push(unescape(s));
            }
        } else if let Some(w) = w.strip_prefix("w:") {
            if let Some(k) = KINDS.iter().position(|k| format!("{k:?}") == w) {
                d.kinds.push(k as u16);
            }
            if let Some(k) = KIND_NAMES.iter().position(|k| *k == w) {
                d.secs.push(k as u8);
            }
            d.ops.extend(ops::NAMES.iter().filter(|x| x.0 == w).map(|x| x.1));
        }
    }
    // a new file full of literals: the rarest kind of hint is still a hint
    d.ints.truncate(200);
    d.strs.truncate(100);
    d
}

/// Every word of the sources and how often it occurs.
pub fn scan() -> BTreeMap<String, i64> {
    let mut words = BTreeMap::new();
    for dir in ["/repo/src", "/repo/wadec-cli/src"] {
        walk(Path::new(dir), &mut words);
    }
    words
}

fn walk(p: &Path, words: &mut BTreeMap<String, i64>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut all: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    all.sort();
    for p in all {
        if p.is_dir() {
            walk(&p, words);
        } else if p.extension().is_some_and(|e| e == "rs")
            && let Ok(t) = std::fs::read_to_string(&p)
        {
            let t = t.split("#[cfg(test)]").next().unwrap_or_default();
            for w in tokens(t) {
                *words.entry(w).or_default() += 1;
            }
        }
    }
}

enum Tok {
    Int(u64),
    Word(String),
    Str(String),
    Op(char),
}

fn tokens(t: &str) -> Vec<String> {
    let mut out = vec![];
    let toks = lex(t);
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            Tok::Str(s) => out.push(format!("s:{}", escape(s))),
            Tok::Word(w) => {
                if w.starts_with(|c: char| c.is_ascii_uppercase()) {
                    out.push(format!("w:{w}"));
                }
                // u16::MAX, i32::MIN
                if let (Some(Tok::Op(':')), Some(Tok::Op(':')), Some(Tok::Word(m))) =
                    (toks.get(i + 1), toks.get(i + 2), toks.get(i + 3))
                {
                    let bits = w.get(1..).and_then(|b| if b == "size" { Some(64) } else { b.parse::<u32>().ok() });
                    if let (Some(b @ 8..=64), true) = (bits, w.starts_with(['u', 'i'])) {
                        let v = match (w.as_bytes()[0], m.as_str()) {
                            (b'u', "MAX") => Some(u64::MAX >> (64 - b)),
                            (b'i', "MAX") => Some(u64::MAX >> (65 - b)),
                            (b'i', "MIN") => Some(1 << (b - 1)),
                            (_, "BITS") => Some(b as u64),
                            _ => None,
                        };
                        out.extend(v.map(|v| format!("i:{v}")));
                    }
                }
            }
            Tok::Int(v) => {
                out.push(format!("i:{v}"));
                // simple products and powers: 4 << 20, 16 * 1024 * 1024, 2u32.pow(6)
                let mut acc = *v;
                let mut j = i + 1;
                loop {
                    let r = match (toks.get(j), toks.get(j + 1), toks.get(j + 2), toks.get(j + 3)) {
                        (Some(Tok::Op('*')), Some(Tok::Int(b)), ..) => (acc.checked_mul(*b), 2),
                        (Some(Tok::Op('<')), Some(Tok::Op('<')), Some(Tok::Int(b)), _) => (
                            u32::try_from(*b).ok().filter(|b| *b < 64).map(|b| acc << b),
                            3,
                        ),
                        (Some(Tok::Op('.')), Some(Tok::Word(p)), Some(Tok::Op('(')), Some(Tok::Int(b))) if p == "pow" => {
                            (u32::try_from(*b).ok().and_then(|b| acc.checked_pow(b)), 5)
                        }
                        _ => (None, 0),
                    };
                    let (Some(v), n) = r else { break };
                    out.push(format!("i:{v}"));
                    acc = v;
                    j += n;
                }
            }
            Tok::Op(_) => {}
        }
        i += 1;
    }
    out
}

fn lex(t: &str) -> Vec<Tok> {
    let c: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if ch == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && matches!(at(i + 2), '"' | '#'))) {
            let mut n = 0;
            i += 1;
            while at(i) == '#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let from = i;
            while i < c.len() && !(c[i] == '"' && (0..n).all(|k| at(i + 1 + k) == '#')) {
                i += 1;
            }
            out.push(Tok::Str(c[from.min(c.len())..i.min(c.len())].iter().collect()));
            i += 1 + n;
        } else if ch.is_ascii_alphabetic() || ch == '_' {
            // (the prefix of b"..." and b'.' is a word of its own)
            let from = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            out.push(Tok::Word(c[from..i].iter().collect()));
        } else if ch.is_ascii_digit() {
            let from = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let s: String = c[from..i].iter().filter(|x| **x != '_').collect();
            out.extend(number(&s).map(Tok::Int));
        } else if ch == '"' {
            i += 1;
            let from = i;
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            let s: String = c[from.min(c.len())..i.min(c.len())].iter().collect();
            out.push(Tok::Str(unescape(&s)));
            i += 1;
        } else if ch == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            i += 1;
            let from = i;
            i += if c.get(i) == Some(&'\\') { 2 } else { 1 };
            while i < c.len() && c[i] != '\'' {
                i += 1;
            }
            let s = unescape(&c[from.min(c.len())..i.min(c.len())].iter().collect::<String>());
            if let Some(x) = s.chars().next() {
                out.push(Tok::Int(x as u64));
            }
            out.push(Tok::Str(s));
            i += 1;
        } else {
            if !ch.is_whitespace() {
                out.push(Tok::Op(ch));
            }
            i += 1;
        }
    }
    out
}

fn number(s: &str) -> Option<u64> {
    let (radix, rest) = match s.get(..2) {
        Some("0x") => (16, &s[2..]),
        Some("0b") => (2, &s[2..]),
        Some("0o") => (8, &s[2..]),
        _ => (10, s),
    };
    // without the suffix that names a type
    let end = if radix == 16 {
        ["usize", "isize", "u128", "u16", "u32", "u64", "i16", "i32", "i64", "u8", "i8"]
            .iter()
            .find(|x| rest.ends_with(**x))
            .map_or(rest.len(), |x| rest.len() - x.len())
    } else {
        rest.find(|x: char| !x.is_digit(radix)).unwrap_or(rest.len())
    };
    u64::from_str_radix(&rest[..end], radix).ok()
}

fn escape(s: &str) -> String {
    s.escape_default().to_string()
}
/// What Rust's usual escapes stand for.
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('0') => o.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip_while(|c| *c == '{').take_while(|c| *c != '}').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => {
                while it.peek().is_some_and(|c| c.is_whitespace()) {
                    it.next();
                }
            }
            Some(x) => o.push(x),
            None => {}
        }
    }
    o
}
