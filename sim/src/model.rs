//! The executable reference model: an independent decoder for the WebAssembly
//! 3.0 binary format over "the bytes that were delivered, then a terminal
//! event".  It yields the canonical token streams of the module or the first
//! error, with where it happened.  It is deliberately plain: one cursor, one
//! effective frame end, no readers.
use crate::ops::{self, OP_ELSE, OP_END, Sh, tok_abs, tok_ref};

pub const NCOMP: usize = 17;
pub const C_VERSION: usize = 0;
pub const C_KINDS: usize = 1;
pub const C_HEADERS: usize = 2;
pub const C_CUSTOM: usize = 3;
pub const C_TYPES: usize = 4;
pub const C_IMPORTS: usize = 5;
pub const C_FUNCS: usize = 6;
pub const C_BODIES: usize = 7;
pub const C_TABLES: usize = 8;
pub const C_MEMS: usize = 9;
pub const C_TAGS: usize = 10;
pub const C_GLOBALS: usize = 11;
pub const C_EXPORTS: usize = 12;
pub const C_START: usize = 13;
pub const C_ELEMS: usize = 14;
pub const C_DCOUNT: usize = 15;
pub const C_DATAS: usize = 16;
pub const COMP_NAMES: [&str; NCOMP] = [
    "version", "section kinds", "section headers", "custom sections", "types", "imports", "funcs (types, locals)",
    "function bodies", "tables", "memories", "tags", "globals", "exports", "start", "elements", "data count", "datas",
];

/// Canonical content of a module, one token stream per component.
#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Comps {
    pub c: [Vec<u64>; NCOMP],
}
impl Comps {
    pub fn first_diff(&self, o: &Comps, mask: u32) -> Option<usize> {
        (0..NCOMP).find(|i| mask >> i & 1 == 1 && self.c[*i] != o.c[*i])
    }
}

/// Section ids in the order the format prescribes (rank), by id.
pub const KIND_NAMES: [&str; 14] = [
    "Custom", "Type", "Import", "Function", "Table", "Memory", "Global", "Export", "Start", "Element", "Code", "Data",
    "DataCount", "Tag",
];
/// rank of section id in the prescribed order (custom = 0)
pub const RANK: [u8; 14] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 11, 6];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Role {
    Preamble,
    SecId,
    SecSize,
    ListLen,
    Index,
    NameLen,
    NameBytes,
    Marker,
    Opcode,
    SubOp,
    LebI32,
    LebI64,
    S33,
    F32,
    F64,
    Bytes16,
    Lane,
    LimFlag,
    LimVal,
    EntrySize,
    LocalCount,
    ValType,
    HeapType,
    BlobLen,
    Blob,
    Flags,
    Count,
    MemAlign,
    MemOff,
    Contents,
}
pub const ROLE_NAMES: [&str; 30] = [
    "preamble", "section-id", "section-size", "list-length", "index", "name-length", "name-bytes", "marker", "opcode",
    "sub-opcode", "i32-leb", "i64-leb", "s33-leb", "f32", "f64", "16-bytes", "lane", "limits-flag", "limits-value",
    "entry-size", "local-count", "value-type", "heap-type", "blob-length", "blob", "segment-flags", "data-count",
    "memarg-align", "memarg-offset", "custom-contents",
];

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub role: Role,
    pub sec: u8,
}

#[derive(Clone, Copy, Debug)]
pub struct Frame {
    /// 0 = section, 1 = code entry
    pub level: u8,
    /// offset of the section id byte (sections) or of the size field (entries)
    pub head: usize,
    pub size_off: usize,
    pub size_len: usize,
    pub start: usize,
    pub end: usize,
    pub id: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At {
    Preamble,
    Header,
    Section(u8),
    End,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK {
    /// the frame or the stream ended
    Eof,
    /// the reader reported its failure
    Hard,
    /// malformed bytes
    Bad,
    /// section content shorter than declared
    SectionSize,
    /// code entry content shorter than declared
    EntrySize,
    Order,
    Duplicate,
    CodeCount,
    DataCount,
    DataIndex,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MErr {
    pub kind: EK,
    pub off: usize,
    pub at: At,
    pub path: Vec<u32>,
    /// text that the rendered cause chain must contain
    pub says: Option<String>,
    /// an illegal discriminating byte, and the bytes its production knows
    pub marker: Option<(u8, &'static [u8])>,
    /// the parts of nested productions the stream broke in, outermost first
    pub parts: Vec<&'static str>,
    /// the fault is an opcode: no group of instructions to name
    pub no_group: bool,
    /// the eight bytes that are no preamble
    pub shown: Option<[u8; 8]>,
    /// the two counts that differ, by the names the error gives them
    pub counts: Option<[(&'static str, u64); 2]>,
}

pub struct MOut {
    pub res: Result<Comps, MErr>,
    /// bytes the model consumed
    pub pos: usize,
    pub fields: Vec<Field>,
    pub frames: Vec<Frame>,
    pub max_depth: usize,
    /// locals materialised by run-length expansion
    pub locals: u64,
    pub customs: usize,
    pub sections: usize,
    pub data_idx_uses: usize,
}

impl MOut {
    pub fn marker(&self) -> bool {
        matches!(&self.res, Err(e) if e.marker.is_some())
    }
}

struct Stop(EK, Option<String>);
type R<T> = Result<T, Stop>;

pub struct M<'a> {
    img: &'a [u8],
    end: usize,
    hard: bool,
    pos: usize,
    lim: usize,
    trace: bool,
    fields: Vec<Field>,
    frames: Vec<Frame>,
    sec: u8,
    path: Vec<u32>,
    at: At,
    c: Comps,
    max_depth: usize,
    data_idx: bool,
    data_idx_uses: usize,
    locals: u64,
    tab: &'static ops::Table,
    marker: Option<(u8, &'static [u8])>,
    parts: Vec<&'static str>,
    shown: Option<[u8; 8]>,
    counts: Option<[(&'static str, u64); 2]>,
    no_group: bool,
}

fn bad<T>(says: impl Says) -> R<T> {
    Err(Stop(EK::Bad, says.says()))
}
trait Says {
    fn says(self) -> Option<String>;
}
impl Says for Option<String> {
    fn says(self) -> Option<String> {
        self
    }
}
impl Says for String {
    fn says(self) -> Option<String> {
        Some(self)
    }
}
impl Says for &str {
    fn says(self) -> Option<String> {
        Some(self.into())
    }
}
/// Why an integer is refused (`|` separates wordings).
const OUT_OF_RANGE: &str = "too large|sign extension";
const OVERLONG: &str = "too long";
fn got(b: u64) -> Option<String> {
    Some(format!("{b:#04X}"))
}

/// Decode `img[..end]` followed by end-of-input (`hard == false`) or a reader
/// failure (`hard == true`).
pub fn run(img: &[u8], end: usize, hard: bool, trace: bool) -> MOut {
    let mut m = M {
        img,
        end: end.min(img.len()),
        hard,
        pos: 0,
        lim: usize::MAX,
        trace,
        fields: vec![],
        frames: vec![],
        sec: 255,
        path: vec![],
        at: At::Preamble,
        c: Comps::default(),
        max_depth: 0,
        data_idx: false,
        data_idx_uses: 0,
        locals: 0,
        tab: ops::table(),
        marker: None,
        parts: vec![],
        shown: None,
        counts: None,
        no_group: false,
    };
    let mut counters = (0, 0);
    let r = m.module(&mut counters);
    let res = match r {
        Ok(()) => Ok(std::mem::take(&mut m.c)),
        Err(Stop(kind, says)) => Err(MErr { kind, off: m.pos, at: m.at, path: m.path.clone(), says, marker: m.marker, parts: m.parts.clone(), shown: m.shown, counts: m.counts, no_group: m.no_group }),
    };
    MOut {
        res,
        pos: m.pos,
        fields: m.fields,
        frames: m.frames,
        max_depth: m.max_depth,
        locals: m.locals,
        customs: counters.0,
        sections: counters.1,
        data_idx_uses: m.data_idx_uses,
    }
}

const ABS: &[u8] = &[0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0x71, 0x72, 0x73, 0x74];
const SEC_IDS: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];

impl<'a> M<'a> {
    fn illegal<T>(&mut self, b: u8, legal: &'static [u8]) -> R<T> {
        self.marker = Some((b, legal));
        bad(got(b as u64))
    }
    /// `f` decodes the part of the production called `part`.
    #[inline]
    fn p<T>(&mut self, part: &'static str, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.parts.push(part);
        let x = f(self)?;
        self.parts.pop();
        Ok(x)
    }
    #[inline]
    fn byte(&mut self) -> R<u8> {
        if self.pos >= self.lim {
            return Err(Stop(EK::Eof, None));
        }
        if self.pos >= self.end {
            return Err(Stop(if self.hard { EK::Hard } else { EK::Eof }, None));
        }
        let b = self.img[self.pos];
        self.pos += 1;
        Ok(b)
    }
    fn field(&mut self, from: usize, role: Role) {
        if self.trace {
            self.fields.push(Field { off: from, len: self.pos - from, role, sec: self.sec });
        }
    }
    fn byte_r(&mut self, role: Role) -> R<u8> {
        let p = self.pos;
        let b = self.byte()?;
        self.field(p, role);
        Ok(b)
    }
    /// `n` raw bytes; on failure the position is where the stream broke.
    fn raw(&mut self, n: u64, role: Role) -> R<&'a [u8]> {
        let p = self.pos;
        let stop = (self.lim.min(self.end)) as u64;
        if n > 0 && p as u64 + n > stop.max(p as u64) {
            self.pos = (stop as usize).max(p);
            // reproduce which of the two ends was hit
            self.byte()?;
            unreachable!();
        }
        self.pos = p + n as usize;
        self.field(p, role);
        Ok(&self.img[p..self.pos])
    }
    /// Unsigned LEB128 of at most `bits` bits.
    fn uleb(&mut self, bits: u32, role: Role) -> R<u64> {
        let p = self.pos;
        let max = bits.div_ceil(7);
        let mut v: u128 = 0;
        for i in 0..max {
            let b = self.byte()?;
            v |= ((b & 0x7F) as u128) << (7 * i);
            if b & 0x80 == 0 {
                if v >> bits != 0 {
                    return bad(OUT_OF_RANGE);
                }
                self.field(p, role);
                return Ok(v as u64);
            }
        }
        bad(OVERLONG)
    }
    /// Signed LEB128 of at most `bits` bits.
    fn sleb(&mut self, bits: u32, role: Role) -> R<i64> {
        let p = self.pos;
        self.sleb_from(p, None, bits, role)
    }
    fn sleb_from(&mut self, p: usize, first: Option<u8>, bits: u32, role: Role) -> R<i64> {
        let max = bits.div_ceil(7);
        let mut v: i128 = 0;
        for i in 0..max {
            let b = match (i, first) {
                (0, Some(b)) => b,
                _ => self.byte()?,
            };
            v |= ((b & 0x7F) as i128) << (7 * i);
            if b & 0x80 == 0 {
                let width = 7 * (i + 1);
                if b & 0x40 != 0 {
                    v -= 1i128 << width;
                }
                let half = 1i128 << (bits - 1);
                if v < -half || v >= half {
                    return bad(OUT_OF_RANGE);
                }
                self.field(p, role);
                return Ok(v as i64);
            }
        }
        bad(OVERLONG)
    }
    fn u32(&mut self, role: Role) -> R<u32> {
        Ok(self.uleb(32, role)? as u32)
    }
    fn idx(&mut self, space: &'static str) -> R<u64> {
        self.p(space, |m| m.uleb(32, Role::Index))
    }

    fn list(&mut self, mut f: impl FnMut(&mut Self) -> R<()>) -> R<u32> {
        let n = self.p("vector length", |m| m.u32(Role::ListLen))?;
        for i in 0..n {
            self.path.push(i);
            f(self)?;
            self.path.pop();
        }
        Ok(n)
    }
    /// A list whose elements append to component `comp` behind their count.
    fn list_to(&mut self, comp: usize, f: impl FnMut(&mut Self) -> R<()>) -> R<u32> {
        let at = self.c.c[comp].len();
        self.c.c[comp].push(0);
        let n = self.list(f)?;
        self.c.c[comp][at] = n as u64;
        Ok(n)
    }
    fn put(&mut self, comp: usize, t: u64) {
        self.c.c[comp].push(t);
    }
    fn put_bytes(&mut self, comp: usize, b: &[u8]) {
        pack(&mut self.c.c[comp], b);
    }

    fn name(&mut self, comp: usize) -> R<()> {
        let n = self.p("vector length", |m| m.uleb(32, Role::NameLen))?;
        let b = self.p("vector elements", |m| m.raw(n, Role::NameBytes))?;
        if let Err(e) = std::str::from_utf8(b) {
            return bad(e.to_string());
        }
        self.put_bytes(comp, b);
        Ok(())
    }
    fn blob(&mut self, comp: usize) -> R<()> {
        let n = self.p("vector length", |m| m.uleb(32, Role::BlobLen))?;
        let b = self.p("vector elements", |m| m.raw(n, Role::Blob))?;
        self.put_bytes(comp, b);
        Ok(())
    }

    // --- types ---
    fn is_abs(b: u8) -> bool {
        (0x69..=0x74).contains(&b)
    }
    fn heaptype(&mut self) -> R<u64> {
        let p = self.pos;
        let b = self.p("heap type", |m| m.byte())?;
        if Self::is_abs(b) {
            self.field(p, Role::HeapType);
            return Ok(tok_abs(b));
        }
        self.s33_index(p, b, "type index")
    }
    fn s33_index(&mut self, p: usize, b: u8, part: &'static str) -> R<u64> {
        let x = self.p(part, |m| m.sleb_from(p, Some(b), 33, Role::S33))?;
        if x < 0 {
            return bad(Some(format!("negative: {x}")));
        }
        Ok(x as u64)
    }
    fn reftype(&mut self) -> R<u64> {
        let b = self.byte_r(Role::ValType)?;
        self.reftype_from(b)
    }
    fn reftype_from(&mut self, b: u8) -> R<u64> {
        match b {
            0x63 => Ok(tok_ref(true, self.heaptype()?)),
            0x64 => Ok(tok_ref(false, self.heaptype()?)),
            b if Self::is_abs(b) => Ok(tok_ref(true, tok_abs(b))),
            b => self.illegal(b, ABS),
        }
    }
    fn valtype(&mut self) -> R<u64> {
        let b = self.byte_r(Role::ValType)?;
        match b {
            0x7B..=0x7F => Ok(b as u64),
            b => self.reftype_from(b),
        }
    }
    fn mutability(&mut self, comp: usize, part: bool) -> R<()> {
        let b = if part { self.p("mutability", |m| m.byte_r(Role::Marker)) } else { self.byte_r(Role::Marker) };
        match b? {
            b @ 0..=1 => {
                self.put(comp, b as u64);
                Ok(())
            }
            b => self.illegal(b, &[0, 1]),
        }
    }
    fn fieldtype(&mut self) -> R<()> {
        let b = self.byte_r(Role::ValType)?;
        let t = match b {
            0x77 | 0x78 | 0x7B..=0x7F => b as u64,
            b => self.reftype_from(b)?,
        };
        self.put(C_TYPES, t);
        self.mutability(C_TYPES, false)
    }
    fn comptype(&mut self, marker: u8) -> R<()> {
        self.put(C_TYPES, marker as u64);
        match marker {
            0x5E => self.fieldtype(),
            0x5F => self.p("field type list", |m| m.list_to(C_TYPES, |m| m.fieldtype()).map(drop)),
            0x60 => {
                for part in ["function type parameters", "function type results"] {
                    self.p(part, |m| {
                        m.list_to(C_TYPES, |m| {
                            let t = m.valtype()?;
                            m.put(C_TYPES, t);
                            Ok(())
                        })
                    })?;
                }
                Ok(())
            }
            b => self.illegal(b, &[0x5E, 0x5F, 0x60]),
        }
    }
    fn subtype(&mut self, marker: u8) -> R<()> {
        match marker {
            0x4F | 0x50 => {
                self.put(C_TYPES, (marker == 0x4F) as u64);
                self.p("supertypes", |m| {
                    m.list_to(C_TYPES, |m| {
                        let x = m.idx("type index")?;
                        m.put(C_TYPES, x);
                        Ok(())
                    })
                })?;
                self.p("composite type", |m| {
                    let b = m.byte_r(Role::Marker)?;
                    m.comptype(b)
                })
            }
            b => {
                self.put(C_TYPES, 1);
                self.put(C_TYPES, 0);
                self.p("composite type", |m| m.comptype(b))
            }
        }
    }
    fn rectype(&mut self) -> R<()> {
        let b = self.byte_r(Role::Marker)?;
        if b == 0x4E {
            self.p("subtypes list", |m| {
                m.list_to(C_TYPES, |m| {
                    let b = m.byte_r(Role::Marker)?;
                    m.subtype(b)
                })
            })?;
        } else {
            self.put(C_TYPES, 1);
            self.p("subtype", |m| m.subtype(b))?;
        }
        Ok(())
    }
    fn limits(&mut self, comp: usize) -> R<()> {
        let f = self.p("flag byte", |m| m.byte_r(Role::LimFlag))?;
        if !matches!(f, 0 | 1 | 4 | 5) {
            return self.illegal(f, &[0, 1, 4, 5]);
        }
        self.put(comp, f as u64);
        let min = self.p("minimum limit", |m| m.uleb(64, Role::LimVal))?;
        self.put(comp, min);
        if f & 1 == 1 {
            let max = self.p("maximum limit", |m| m.uleb(64, Role::LimVal))?;
            self.put(comp, max);
        }
        Ok(())
    }
    fn globaltype(&mut self, comp: usize) -> R<()> {
        let t = self.p("value type", |m| m.valtype())?;
        self.put(comp, t);
        self.mutability(comp, true)
    }
    fn tagtype(&mut self, comp: usize) -> R<()> {
        let b = self.byte_r(Role::Marker)?;
        if b != 0 {
            return self.illegal(b, &[0]);
        }
        let x = self.idx("type index")?;
        self.put(comp, x);
        Ok(())
    }

    // --- instructions ---
    fn blocktype(&mut self, comp: usize) -> R<()> {
        self.p("block type", |m| m.blocktype_in(comp))
    }
    fn blocktype_in(&mut self, comp: usize) -> R<()> {
        let p = self.pos;
        let b = self.byte_r(Role::ValType)?;
        match b {
            0x40 => self.put(comp, 0x40),
            0x7B..=0x7F | 0x63 | 0x64 | 0x69..=0x74 => {
                let t = if b >= 0x7B { b as u64 } else { self.reftype_from(b)? };
                self.put(comp, 0x41);
                self.put(comp, t);
            }
            b => {
                if self.trace {
                    self.fields.pop();
                }
                let x = self.s33_index(p, b, "block type")?;
                self.put(comp, 0x42);
                self.put(comp, x);
            }
        }
        Ok(())
    }
    fn memarg(&mut self, comp: usize) -> R<()> {
        let n = self.p("alignment", |m| m.uleb(32, Role::MemAlign))?;
        if n >= 128 {
            return bad(Some(format!("flag {n}")));
        }
        let mem = if n >= 64 { self.idx("memory index")? } else { 0 };
        let off = self.p("offset", |m| m.uleb(64, Role::MemOff))?;
        self.put(comp, n & 63);
        self.put(comp, mem);
        self.put(comp, off);
        Ok(())
    }
    fn bytes16(&mut self, comp: usize) -> R<()> {
        let b = self.p("immediate bytes", |m| m.raw(16, Role::Bytes16))?;
        self.put(comp, u64::from_le_bytes(b[..8].try_into().unwrap()));
        self.put(comp, u64::from_le_bytes(b[8..].try_into().unwrap()));
        Ok(())
    }

    fn expr(&mut self, comp: usize) -> R<()> {
        // open structured instructions: the opcode, and whether `else` was seen
        let mut open: Vec<(u8, bool)> = vec![];
        loop {
            let b = self.p("opcode", |m| m.byte_r(Role::Opcode))?;
            match b {
                0x0B => {
                    self.put(comp, OP_END);
                    if open.pop().is_none() {
                        return Ok(());
                    }
                    continue;
                }
                0x05 => match open.last_mut() {
                    Some((0x04, seen)) if !*seen => {
                        *seen = true;
                        self.put(comp, OP_ELSE);
                        continue;
                    }
                    _ => {
                        self.no_group = true;
                        return bad("Else");
                    }
                },
                _ => {}
            }
            self.no_group = true;
            let (op, sh) = match b {
                0xFB..=0xFD => {
                    let sub = self.p("opcode", |m| m.u32(Role::SubOp))?;
                    match self.tab.prefixed(b, sub) {
                        Some(sh) => ((b as u32) << 16 | sub, sh),
                        None => return bad(got(sub as u64)),
                    }
                }
                _ => match self.tab.plain(b) {
                    Some(sh) => (b as u32, sh),
                    None => return bad(got(b as u64)),
                },
            };
            self.no_group = false;
            self.put(comp, op as u64);
            if ops::DATA_INDEX_OPS.contains(&op) && comp == C_BODIES {
                self.data_idx = true;
                self.data_idx_uses += 1;
            }
            let spaces = ops::spaces(op);
            self.parts.push(ops::family(op));
            match sh {
                Sh::None => {}
                Sh::U32 => {
                    let x = self.idx(spaces[0])?;
                    self.put(comp, x);
                }
                Sh::U32x2 => {
                    for space in spaces {
                        let x = self.idx(space)?;
                        self.put(comp, x);
                    }
                }
                Sh::Memarg => self.memarg(comp)?,
                Sh::MemLane => {
                    self.memarg(comp)?;
                    let l = self.p("lane index", |m| m.byte_r(Role::Lane))?;
                    self.put(comp, l as u64);
                }
                Sh::Lane => {
                    let l = self.p("lane index", |m| m.byte_r(Role::Lane))?;
                    self.put(comp, l as u64);
                }
                Sh::I32 => {
                    let x = self.sleb(32, Role::LebI32)?;
                    self.put(comp, x as u64);
                }
                Sh::I64 => {
                    let x = self.sleb(64, Role::LebI64)?;
                    self.put(comp, x as u64);
                }
                Sh::F32 => {
                    let b = self.raw(4, Role::F32)?;
                    self.put(comp, u32::from_le_bytes(b.try_into().unwrap()) as u64);
                }
                Sh::F64 => {
                    let b = self.raw(8, Role::F64)?;
                    self.put(comp, u64::from_le_bytes(b.try_into().unwrap()));
                }
                Sh::Bytes16 => self.bytes16(comp)?,
                Sh::Block => {
                    self.blocktype(comp)?;
                    open.push((b, false));
                    self.max_depth = self.max_depth.max(open.len());
                }
                Sh::TryTable => {
                    self.blocktype(comp)?;
                    self.p("catch list", |m| {
                        m.list_to(comp, |m| {
                            let k = m.p("catch block marker byte", |m| m.byte_r(Role::Marker))?;
                            if k > 3 {
                                return m.illegal(k, &[0, 1, 2, 3]);
                            }
                            m.put(comp, k as u64);
                            if k < 2 {
                                let x = m.idx("tag index")?;
                                m.put(comp, x);
                            }
                            let x = m.idx("label index")?;
                            m.put(comp, x);
                            Ok(())
                        })
                    })?;
                    open.push((b, false));
                    self.max_depth = self.max_depth.max(open.len());
                }
                Sh::BrTable => {
                    self.p("label index", |m| {
                        m.list_to(comp, |m| {
                            let x = m.idx("label index")?;
                            m.put(comp, x);
                            Ok(())
                        })
                    })?;
                    let x = self.idx("label index")?;
                    self.put(comp, x);
                }
                Sh::SelectT => {
                    self.p("value type vector", |m| {
                        m.list_to(comp, |m| {
                            let t = m.valtype()?;
                            m.put(comp, t);
                            Ok(())
                        })
                    })?;
                }
                Sh::Heap => {
                    let h = self.p("heap type", |m| m.heaptype())?;
                    self.put(comp, h);
                }
                Sh::Cast => {
                    let k = self.p("nullability", |m| m.byte_r(Role::Marker))?;
                    if k > 3 {
                        return self.illegal(k, &[0, 1, 2, 3]);
                    }
                    self.put(comp, k as u64);
                    let l = self.idx("label index")?;
                    self.put(comp, l);
                    for _ in 0..2 {
                        let h = self.p("heap type", |m| m.heaptype())?;
                        self.put(comp, h);
                    }
                }
            }
            self.parts.pop();
        }
    }

    // --- sections ---
    fn import(&mut self) -> R<()> {
        let c = C_IMPORTS;
        self.p("module name", |m| m.name(c))?;
        self.p("item name", |m| m.name(c))?;
        let k = self.byte_r(Role::Marker)?;
        self.put(c, k as u64);
        match k {
            0 => {
                let x = self.idx("type index")?;
                self.put(c, x);
                Ok(())
            }
            1 => {
                let t = self.reftype()?;
                self.put(c, t);
                self.limits(c)
            }
            2 => self.p("memory type", |m| m.limits(c)),
            3 => self.globaltype(c),
            4 => self.p("tag type", |m| m.tagtype(c)),
            k => self.illegal(k, &[0, 1, 2, 3, 4]),
        }
    }
    fn table(&mut self) -> R<()> {
        let c = C_TABLES;
        let b = self.byte_r(Role::ValType)?;
        if b == 0x40 {
            let z = self.byte_r(Role::Marker)?;
            if z != 0 {
                return self.illegal(z, &[0]);
            }
            let t = self.reftype()?;
            self.put(c, t);
            self.limits(c)?;
            self.expr(c)
        } else {
            let t = self.reftype_from(b)?;
            self.put(c, t);
            self.limits(c)?;
            // no initialiser: ref.null of the table's heap type
            self.put(c, 0xD0);
            self.put(c, t & !(0x6_0000_0000_0000));
            self.put(c, OP_END);
            Ok(())
        }
    }
    fn export(&mut self) -> R<()> {
        self.name(C_EXPORTS)?;
        let k = self.p("export descriptor marker byte", |m| m.byte_r(Role::Marker))?;
        let x = self.p("export descriptor index", |m| m.uleb(32, Role::Index))?;
        if k > 4 {
            return self.illegal(k, &[0, 1, 2, 3, 4]);
        }
        self.put(C_EXPORTS, k as u64);
        self.put(C_EXPORTS, x);
        Ok(())
    }
    fn elem(&mut self) -> R<()> {
        let c = C_ELEMS;
        let flags = self.p("bitfield", |m| m.u32(Role::Flags))?;
        if flags > 7 {
            return bad(Some(format!("got {flags}")));
        }
        let exprs = flags & 4 != 0;
        let explicit = flags & 2 != 0;
        let active = flags & 1 == 0;
        self.put(c, if active { 1 } else if explicit { 2 } else { 0 });
        if active {
            let t = if explicit { self.idx("table index")? } else { 0 };
            self.put(c, t);
            let what = if flags == 2 { "expression of kind 2" } else { "offset expression" };
            self.p(what, |m| m.expr(c))?;
        }
        let ty = if flags & 3 == 0 {
            // legacy short forms: (ref func) for indices, funcref for expressions
            tok_ref(exprs, tok_abs(0x70))
        } else if exprs {
            self.reftype()?
        } else {
            self.p("element kind", |m| {
                let k = m.byte_r(Role::Marker)?;
                if k == 0 { Ok(()) } else { m.illegal(k, &[0]) }
            })?;
            tok_ref(true, tok_abs(0x70))
        };
        self.put(c, ty);
        if exprs {
            self.p("initialiser expressions", |m| m.list_to(c, |m| m.expr(c)))?;
        } else {
            self.list_to(c, |m| {
                let x = m.idx("function index")?;
                m.c.c[c].extend([0xD2, x, OP_END]);
                Ok(())
            })?;
        }
        Ok(())
    }
    fn data(&mut self) -> R<()> {
        let c = C_DATAS;
        let flags = self.p("bitfield", |m| m.u32(Role::Flags))?;
        if flags > 2 {
            return bad(Some(format!("got {flags}")));
        }
        self.put(c, (flags != 1) as u64);
        if flags != 1 {
            let mem = if flags == 2 { self.idx("memory index")? } else { 0 };
            self.put(c, mem);
            self.p("offset expression", |m| m.expr(c))?;
        }
        self.p("init byte vector", |m| m.blob(c))
    }
    fn code(&mut self, locals: &mut Vec<Vec<(u64, u64)>>) -> R<()> {
        let head = self.pos;
        let size = self.p("size of function code", |m| m.u32(Role::EntrySize))?;
        let start = self.pos;
        let end = start + size as usize;
        if self.trace {
            self.frames.push(Frame {
                level: 1,
                head,
                size_off: head,
                size_len: start - head,
                start,
                end,
                id: self.sec,
            });
        }
        let outer = self.lim;
        self.lim = outer.min(end);
        let mut total = 0u64;
        let mut runs: Vec<(u64, u64)> = vec![];
        self.p("locals vector", |m| {
            m.list(|m| {
                let n = m.p("count of function locals", |m| m.u32(Role::LocalCount))? as u64;
                total += n;
                if total > u32::MAX as u64 {
                    return bad(Some(format!("got {total}")));
                }
                let t = m.p("local value type", |m| m.valtype())?;
                if n > 0 {
                    match runs.last_mut() {
                        Some(l) if l.1 == t => l.0 += n,
                        _ => runs.push((n, t)),
                    }
                }
                Ok(())
            })
        })?;
        locals.push(runs);
        self.p("function body expression", |m| m.expr(C_BODIES))?;
        if self.pos != end {
            let used = self.pos - start;
            return Err(Stop(
                EK::EntrySize,
                Some(format!("declared {size} bytes; consumed {used} (leftover: {})", size as usize - used)),
            ));
        }
        self.lim = outer;
        Ok(())
    }

    fn module(&mut self, counters: &mut (usize, usize)) -> R<()> {
        let magic = self.raw(8, Role::Preamble)?;
        if magic != b"\0asm\x01\0\0\0" {
            // shown byte by byte
            self.shown = Some(magic.try_into().unwrap());
            return bad(None);
        }
        self.c.c[C_VERSION].push(1);
        let mut prev: Option<u8> = None;
        let mut func_types: Vec<u64> = vec![];
        let mut func_locals: Vec<Vec<(u64, u64)>> = vec![];
        let mut bodies = 0usize;
        let mut saw_code = false;
        let mut ndatas = 0u32;
        let mut dcount: Option<u32> = None;
        loop {
            self.at = At::Header;
            self.sec = 255;
            self.lim = usize::MAX;
            let head = self.pos;
            if self.pos >= self.end && !self.hard {
                break;
            }
            let id = self.p("section id", |m| m.byte_r(Role::SecId))?;
            if id > 13 {
                return self.illegal(id, SEC_IDS);
            }
            let size_off = self.pos;
            let size = self.p("section size", |m| m.u32(Role::SecSize))?;
            let start = self.pos;
            let end = start + size as usize;
            if self.trace {
                self.frames.push(Frame { level: 0, head, size_off, size_len: start - size_off, start, end, id });
            }
            if let (Some(p), true) = (prev, id != 0) {
                let (cn, pn) = (KIND_NAMES[id as usize], KIND_NAMES[p as usize]);
                if RANK[id as usize] < RANK[p as usize] {
                    return Err(Stop(EK::Order, Some(format!("{cn} cannot appear after {pn}"))));
                }
                if id == p {
                    return Err(Stop(EK::Duplicate, Some(format!("duplicate section: {cn}"))));
                }
            }
            self.at = At::Section(id);
            self.sec = id;
            self.lim = end;
            match id {
                0 => {
                    self.p("custom section name", |m| m.name(C_CUSTOM))?;
                    let p = self.pos;
                    let stop = end.min(self.end);
                    if stop < end && self.hard {
                        self.parts.push("custom section contents");
                        self.pos = stop;
                        return Err(Stop(EK::Hard, None));
                    }
                    self.pos = stop.max(p);
                    let img: &'a [u8] = self.img;
                    self.put_bytes(C_CUSTOM, &img[p..self.pos]);
                    self.field(p, Role::Contents);
                    counters.0 += 1;
                }
                1 => drop(self.list_to(C_TYPES, |m| m.rectype())?),
                2 => drop(self.list_to(C_IMPORTS, |m| m.import())?),
                3 => drop(self.list(|m| {
                    let x = m.idx("type index")?;
                    func_types.push(x);
                    Ok(())
                })?),
                4 => drop(self.list_to(C_TABLES, |m| m.table())?),
                5 => drop(self.list_to(C_MEMS, |m| m.p("memory type", |m| m.limits(C_MEMS)))?),
                6 => drop(self.list_to(C_GLOBALS, |m| {
                    m.globaltype(C_GLOBALS)?;
                    m.p("initialiser", |m| m.expr(C_GLOBALS))
                })?),
                7 => drop(self.list_to(C_EXPORTS, |m| m.export())?),
                8 => {
                    let x = self.idx("function index")?;
                    self.put(C_START, x);
                }
                9 => drop(self.list_to(C_ELEMS, |m| m.elem())?),
                10 => {
                    saw_code = true;
                    let n = self.list(|m| {
                        let lim = m.lim;
                        m.code(&mut func_locals)?;
                        m.lim = lim;
                        Ok(())
                    })?;
                    if n as usize != func_types.len() {
                        self.counts = Some([("codes_len", n as u64), ("funcs_len", func_types.len() as u64)]);
                        return Err(Stop(EK::CodeCount, Some("does not match number of Function".into())));
                    }
                    bodies = n as usize;
                    self.locals = func_locals.iter().flatten().map(|r| r.0).sum();
                }
                11 => {
                    ndatas = self.list_to(C_DATAS, |m| m.data())?;
                    if let Some(d) = dcount.filter(|d| *d != ndatas) {
                        self.counts = Some([("datas_len", ndatas as u64), ("data_count", d as u64)]);
                        return Err(Stop(EK::DataCount, None));
                    }
                }
                12 => {
                    let n = self.u32(Role::Count)?;
                    dcount = Some(n);
                    self.put(C_DCOUNT, n as u64);
                }
                13 => drop(self.list_to(C_TAGS, |m| m.p("tag type", |m| m.tagtype(C_TAGS)))?),
                _ => unreachable!(),
            }
            if self.pos != end {
                let used = self.pos - start;
                return Err(Stop(
                    EK::SectionSize,
                    Some(format!(
                        "{} section size mismatch: declared {size} bytes; got {used}",
                        KIND_NAMES[id as usize]
                    )),
                ));
            }
            counters.1 += 1;
            self.c.c[C_HEADERS].push((id as u64) << 32 | size as u64);
            if id != 0 {
                prev = Some(id);
                self.c.c[C_KINDS].push(id as u64);
            }
        }
        self.at = At::End;
        if !func_types.is_empty() && !saw_code {
            self.counts = Some([("codes_len", 0), ("funcs_len", func_types.len() as u64)]);
            return Err(Stop(EK::CodeCount, Some("does not match number of Function".into())));
        }
        if let Some(d) = dcount.filter(|d| *d != ndatas) {
            self.counts = Some([("datas_len", ndatas as u64), ("data_count", d as u64)]);
            return Err(Stop(EK::DataCount, None));
        }
        if self.data_idx && dcount.is_none() {
            return Err(Stop(EK::DataIndex, None));
        }
        let _ = bodies;
        for (i, t) in func_types.iter().enumerate() {
            self.c.c[C_FUNCS].push(*t);
            let runs = func_locals.get(i).cloned().unwrap_or_default();
            self.c.c[C_FUNCS].push(runs.len() as u64);
            for (n, t) in runs {
                self.c.c[C_FUNCS].push(n);
                self.c.c[C_FUNCS].push(t);
            }
        }
        // components that were never encoded are empty lists
        for comp in [C_TYPES, C_IMPORTS, C_TABLES, C_MEMS, C_GLOBALS, C_EXPORTS, C_ELEMS, C_DATAS, C_TAGS] {
            if self.c.c[comp].is_empty() {
                self.c.c[comp].push(0);
            }
        }
        Ok(())
    }
}

/// Length-prefixed byte string as tokens.
pub fn pack(o: &mut Vec<u64>, b: &[u8]) {
    o.push(b.len() as u64);
    for ch in b.chunks(8) {
        let mut w = [0; 8];
        w[..ch.len()].copy_from_slice(ch);
        o.push(u64::from_le_bytes(w));
    }
}
