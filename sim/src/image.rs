//! Workload generator: well-formed module images, swarm-configured per case.
use crate::dict;
use crate::ops::{self, Sh};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DataIdx {
    /// no data-index instruction in function bodies
    Never,
    /// exactly one, at a random nesting position of a random function
    One,
    /// anywhere, any number
    Free,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// probability (of 16) that each non-custom section is present, by id
    pub secs: [u8; 14],
    pub max_list: usize,
    pub ninstr: usize,
    pub depth: usize,
    /// restrict instructions to this family (0 = all, else prefix byte, 1 = one-byte ops)
    pub family: u8,
    /// probability (of 16) of padding a LEB
    pub pad: u8,
    /// probability (of 16) of an extreme integer
    pub extreme: u8,
    /// probability (of 16) of a custom section at each gap
    pub custom: u8,
    /// probability (of 64) of a large payload / list
    pub large: u8,
    pub data_idx: DataIdx,
    /// data-index instructions may appear in constant expressions
    pub const_data_idx: bool,
    /// nest one function this deep
    pub deep: usize,
    pub max_funcs: usize,
    /// probability (of 64) of a long list, for any list
    pub long: u8,
    /// draw on the dictionary
    pub dict: bool,
}

impl Cfg {
    /// A different mix for every case.
    pub fn swarm(r: &mut Rng) -> Cfg {
        let base = *r.pick(&[4u8, 8, 12, 16]);
        let mut secs = [base; 14];
        for s in secs.iter_mut() {
            if r.chance(1, 3) {
                *s = *r.pick(&[0u8, 2, 16]);
            }
        }
        Cfg {
            secs,
            max_list: *r.pick(&[1usize, 2, 3, 3, 5, 8]),
            ninstr: *r.pick(&[1usize, 3, 6, 12, 25]),
            depth: *r.pick(&[0usize, 1, 2, 4, 6]),
            family: *r.pick(&[0u8, 0, 0, 0, 1, 0xFB, 0xFC, 0xFD]),
            pad: *r.pick(&[0u8, 0, 1, 4, 12]),
            extreme: *r.pick(&[0u8, 1, 4, 10]),
            custom: *r.pick(&[0u8, 1, 2, 6]),
            large: if r.chance(1, 12) { 3 } else { 0 },
            data_idx: *r.pick(&[DataIdx::Never, DataIdx::Free, DataIdx::One]),
            const_data_idx: r.chance(1, 3),
            deep: if r.chance(1, 100) { *r.pick(&[8usize, 17, 33, 65, 129, 260, 520, 1030]) } else { 0 },
            max_funcs: if r.chance(1, 24) { *r.pick(&[9usize, 17, 40, 130, 300]) } else { 4 },
            long: if r.chance(1, 16) { *r.pick(&[2u8, 6, 16]) } else { 0 },
            dict: false,
        }
    }
    /// Small images, for scenarios with many reads or tasks per case.
    pub fn small(r: &mut Rng) -> Cfg {
        let mut c = Cfg::swarm(r);
        c.max_list = c.max_list.min(2);
        c.ninstr = c.ninstr.min(4);
        c.depth = c.depth.min(2);
        c.large = 0;
        c.deep = 0;
        c.max_funcs = 4;
        c.long = 0;
        c.custom = c.custom.min(2);
        for s in c.secs.iter_mut() {
            *s = (*s).min(8);
        }
        c
    }
}

pub const ULEB_EXTREMES: &[u64] = &[
    0, 1, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 65535, 65536, 2097151, 2097152, 268435455, 268435456,
    0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF,
];
/// Byte order mark, replacement character, NUL, white space, line breaks, zero
/// width and combining characters, case pairs, non-characters.
pub const SPECIAL_CHARS: &[u32] = &[
    0xFEFF, 0xFFFD, 0, 0x20, 0x09, 0x0A, 0x0D, 0x1B, 0x7F, 0x85, 0xA0, 0xAD, 0x200B, 0x200D, 0x2028, 0x2029, 0x202E,
    0x3000, 0x0301, 0xE9, 0xC9, 0x131, 0x130, 0xDF, 0x1E9E, 0x212B, 0xC5, 0xFB01, 0xFFFE, 0xFFFF, 0x1FFFE, 0x1F980,
    0x22, 0x27, 0x5C, 0x2F, 0x2E, 0x25, 0x7B, 0x7D, 0x24, 0x41, 0x61,
];
pub const CUSTOM_NAMES: &[&str] = &[
    "linking", "dylink", "dylink.0", "sourceMappingURL", "external_debug_info", "metadata.code.branch_hint", "reloc.CODE",
    "reloc.DATA", "build_id", ".debug_line", ".debug_str", "core", "component-type", "NAME", "Name", "names", "name\0",
    "branchHints", "instance", "stub", "wasi_snapshot_preview1", "\0asm", "type", "code",
];
const U64_EXTREMES: &[u64] = &[
    0, 1, 127, 128, 0xFFFF_FFFF, 0x1_0000_0000, 0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000, u64::MAX, u64::MAX - 1,
    1 << 56, (1 << 56) - 1, 1 << 63, (1 << 63) - 1, 1 << 49, (1 << 42) - 1,
];

pub fn uleb_min(mut v: u64, o: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
/// Unsigned LEB padded with `pad` redundant bytes (capped at the width's maximum).
pub fn uleb_pad(v: u64, bits: u32, pad: usize, o: &mut Vec<u8>) {
    let at = o.len();
    uleb_min(v, o);
    let max = bits.div_ceil(7) as usize;
    let have = o.len() - at;
    let add = pad.min(max - have);
    if add > 0 {
        *o.last_mut().unwrap() |= 0x80;
        for _ in 1..add {
            o.push(0x80);
        }
        o.push(0x00);
    }
}
pub fn sleb_pad(v: i64, bits: u32, pad: usize, o: &mut Vec<u8>) {
    let at = o.len();
    let mut x = v;
    loop {
        let b = (x & 0x7F) as u8;
        x >>= 7;
        let done = (x == 0 && b & 0x40 == 0) || (x == -1 && b & 0x40 != 0);
        if done {
            o.push(b);
            break;
        }
        o.push(b | 0x80);
    }
    let max = bits.div_ceil(7) as usize;
    let have = o.len() - at;
    let add = pad.min(max.saturating_sub(have));
    if add > 0 {
        *o.last_mut().unwrap() |= 0x80;
        let (mid, last) = if v < 0 { (0xFF, 0x7F) } else { (0x80, 0x00) };
        for _ in 1..add {
            o.push(mid);
        }
        o.push(last);
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub cfg: Cfg,
    ops: Vec<(u32, Sh)>,
    const_ops: Vec<(u32, Sh)>,
    /// long lists still allowed in this image
    long_left: usize,
    /// names used so far, for repetitions
    names: Vec<String>,
}

pub struct Sections(pub Vec<(u8, Vec<u8>)>);

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, cfg: Cfg) -> Self {
        let fam = cfg.family;
        let keep = |op: u32| match fam {
            0 => true,
            1 => op < 0x100,
            p => (op >> 16) as u8 == p || matches!(op, 0x02..=0x04 | 0x1F),
        };
        let all: Vec<_> = ops::table().all.iter().copied().filter(|o| keep(o.0)).collect();
        let free = |ok: bool, v: &Vec<(u32, Sh)>| -> Vec<(u32, Sh)> {
            v.iter().copied().filter(|o| ok || !ops::DATA_INDEX_OPS.contains(&o.0)).collect()
        };
        let mut body = free(cfg.data_idx == DataIdx::Free, &all);
        if cfg.dict {
            // instructions the dictionary names: as frequent as all others together
            let named: Vec<_> = body.iter().copied().filter(|o| dict::get().ops.contains(&o.0)).collect();
            if !named.is_empty() {
                for k in 0..body.len() {
                    body.push(named[k % named.len()]);
                }
            }
        }
        let cons = free(cfg.const_data_idx, &all);
        Gen { r, ops: body, const_ops: cons, cfg, long_left: 3, names: vec![] }
    }
    fn pad(&mut self) -> usize {
        if self.cfg.pad > 0 && self.r.chance(self.cfg.pad as u64, 16) { 1 + self.r.us(9) } else { 0 }
    }
    fn extreme(&mut self) -> bool {
        self.cfg.extreme > 0 && self.r.chance(self.cfg.extreme as u64, 16)
    }
    fn u32(&mut self, v: u64, o: &mut Vec<u8>) {
        let p = self.pad();
        uleb_pad(v, 32, p, o);
    }
    /// A number of the dictionary, now and then.
    fn word(&mut self, max: u64) -> Option<u64> {
        if self.cfg.dict && self.r.chance(1, 4) { dict::get().near(self.r, max) } else { None }
    }
    fn any_u32(&mut self, o: &mut Vec<u8>) {
        let v = if let Some(v) = self.word(u32::MAX as u64) {
            v
        } else if self.extreme() {
            if self.r.chance(1, 3) { (self.r.u64() & 0xFFFF_FFFF) >> self.r.below(32) } else { *self.r.pick(ULEB_EXTREMES) }
        } else {
            self.r.below(6)
        };
        self.u32(v, o);
    }
    fn any_u64(&mut self, o: &mut Vec<u8>) {
        let v = if let Some(v) = self.word(u64::MAX) {
            v
        } else if self.extreme() {
            if self.r.chance(1, 3) { self.r.u64() >> self.r.below(64) } else { *self.r.pick(U64_EXTREMES) }
        } else {
            self.r.below(300)
        };
        let p = self.pad();
        uleb_pad(v, 64, p, o);
    }
    fn any_signed(&mut self, bits: u32, o: &mut Vec<u8>) {
        let lo = -(1i128 << (bits - 1));
        let hi = (1i128 << (bits - 1)) - 1;
        let v = if let Some(v) = self.word(u64::MAX) {
            if self.r.chance(1, 3) { -(v as i128) } else { v as i128 }
        } else if self.extreme() {
            let k = self.r.below(bits as u64) as u32;
            let base = 1i128 << k;
            match self.r.below(8) {
                0 => lo,
                1 => hi,
                2 => -base,
                3 => base - 1,
                4 => -base - 1,
                5 => base,
                _ => (self.r.u64() as i64 as i128) >> self.r.below(64),
            }
        } else {
            self.r.range(0, 200) as i128 - 100
        };
        let v = v.clamp(lo, hi) as i64;
        let p = self.pad();
        sleb_pad(v, bits, p, o);
    }
    fn count(&mut self, o: &mut Vec<u8>) -> usize {
        let n = self.length();
        self.u32(n as u64, o);
        n
    }
    /// `n` elements of a list; some repeat an earlier one byte for byte (the
    /// previous one more often than not), as nothing that tells elements apart
    /// by their contents may merge or drop one.
    fn items(&mut self, n: usize, o: &mut Vec<u8>, mut f: impl FnMut(&mut Self, &mut Vec<u8>)) {
        let mut spans: Vec<(usize, usize)> = vec![];
        for i in 0..n {
            let at = o.len();
            if i > 0 && self.r.chance(1, 10) {
                let (a, b) = if self.r.chance(1, 2) { spans[i - 1] } else { *self.r.pick(&spans) };
                if b - a < 4000 {
                    o.extend_from_within(a..b);
                    spans.push((at, o.len()));
                    continue;
                }
            }
            f(self, o);
            spans.push((at, o.len()));
        }
    }
    fn length(&mut self) -> usize {
        if self.cfg.long > 0 && self.long_left > 0 && self.r.chance(self.cfg.long as u64, 64) {
            self.long_left -= 1;
            if self.cfg.dict
                && let Some(n) = dict::get().near(self.r, 1500)
            {
                return n as usize;
            }
            match self.r.below(3) {
                0 => 9 + self.r.us(32),
                1 => 60 + self.r.us(140),
                _ => *self.r.pick(&[16usize, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
            }
        } else {
            self.r.us(self.cfg.max_list + 1)
        }
    }
    /// A list length; occasionally crosses LEB widths and growth thresholds.
    fn count_cheap(&mut self, o: &mut Vec<u8>) -> usize {
        let n = if self.cfg.large > 0 && self.r.chance(self.cfg.large as u64, 64) {
            *self.r.pick(&[127usize, 128, 130, 255, 256, 257, 1023, 1024, 1025, 2049, 4097, 16383, 16384, 16500])
        } else {
            self.length()
        };
        self.u32(n as u64, o);
        n
    }
    fn blob_len(&mut self) -> usize {
        if self.cfg.dict && self.r.chance(1, 6) {
            let max = if self.r.chance(1, 40) { 300_000 } else { 3000 };
            if let Some(n) = dict::get().near(self.r, max) {
                return n as usize;
            }
        }
        if self.cfg.large > 0 && self.r.chance(4 * self.cfg.large as u64, 64) {
            *self.r.pick(&[
                127usize, 128, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 70000,
                131073, 200_000,
            ])
        } else {
            match self.r.below(4) {
                0 => 0,
                1 => self.r.us(4),
                2 => self.r.us(20),
                _ => 20 + self.r.us(40),
            }
        }
    }
    fn blob(&mut self, o: &mut Vec<u8>) {
        let n = self.blob_len();
        self.u32(n as u64, o);
        let b = self.bytes(n);
        o.extend(b);
    }
    /// Any bytes; sometimes with words of the dictionary in front or inside.
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut b = self.r.bytes(n);
        if self.cfg.dict && self.r.chance(1, 3) {
            let w: Vec<u8> = match (self.r.below(2), dict::get().strs.len()) {
                (0, 1..) => self.r.pick(&dict::get().strs).clone().into_bytes(),
                _ => match dict::get().near(self.r, u64::MAX) {
                    Some(v) => {
                        let k = *self.r.pick(&[1usize, 2, 4, 8]);
                        v.to_le_bytes()[..k].to_vec()
                    }
                    None => return b,
                },
            };
            let at = if self.r.chance(1, 2) { 0 } else { self.r.us(n + 1) };
            for (x, y) in b.iter_mut().skip(at).zip(w) {
                *x = y;
            }
        }
        b
    }
    fn name(&mut self, o: &mut Vec<u8>) {
        let s = self.name_text();
        self.u32(s.len() as u64, o);
        o.extend(s.as_bytes());
    }
    fn name_text(&mut self) -> String {
        if !self.names.is_empty() && self.r.chance(1, 8) {
            let s = self.r.pick(&self.names).clone();
            return s;
        }
        let mut s = String::new();
        let n = match self.r.below(4) {
            0 => 0,
            1 => 1,
            2 => self.r.us(6),
            _ => {
                if self.cfg.large > 0 && self.r.chance(self.cfg.large as u64, 64) {
                    *self.r.pick(&[127usize, 128, 1024, 1025, 3000, 5000])
                } else {
                    self.r.us(14)
                }
            }
        };
        let plain = self.r.chance(1, 3);
        for _ in 0..n {
            let c = match if plain { 7 } else { self.r.below(8) } {
                0 => self.r.range(0x80, 0x7FF) as u32,
                1 => self.r.range(0x800, 0xD7FF) as u32,
                2 => self.r.range(0x1_0000, 0x10_FFFF) as u32,
                3 => *self.r.pick(&[0u32, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xE000, 0xD7FF]),
                4 => *self.r.pick(SPECIAL_CHARS),
                _ => self.r.range(0x20, 0x7E) as u32,
            };
            s.push(char::from_u32(c).unwrap_or('?'));
        }
        // what a "helpful" decoder might strip, fold or cut at
        if self.r.chance(1, 6) {
            let c = char::from_u32(*self.r.pick(SPECIAL_CHARS)).unwrap();
            match self.r.below(3) {
                0 => s.insert(0, c),
                1 => s.push(c),
                _ => {
                    s.insert(0, c);
                    s.push(c);
                }
            }
        }
        if self.r.chance(1, 24) {
            let w = *self.r.pick(&["name", "producers", "$", "__indirect_function_table", "memory", "_start", "env", "Name", "linking"]);
            let w = if self.r.chance(1, 3) { *self.r.pick(CUSTOM_NAMES) } else { w };
            s = w.to_string();
        }
        if self.cfg.dict && self.r.chance(1, 3) {
            let d = dict::get();
            if !d.strs.is_empty() && self.r.chance(2, 3) {
                let w = self.r.pick(&d.strs).clone();
                match self.r.below(4) {
                    0 => s.insert_str(0, &w),
                    1 => s.push_str(&w),
                    _ => s = w,
                }
            }
            // a length, in bytes
            if self.r.chance(1, 2)
                && let Some(n) = d.near(self.r, 3000)
            {
                let n = n as usize;
                while s.len() > n {
                    s.pop();
                }
                while s.len() < n {
                    s.push('k');
                }
            }
            if self.r.chance(1, 4)
                && let Some(c) = d.near(self.r, 0x10_FFFF).and_then(|v| char::from_u32(v as u32))
            {
                if self.r.chance(1, 2) { s.insert(0, c) } else { s.push(c) }
            }
        }
        if self.names.len() < 4 {
            self.names.push(s.clone());
        }
        s
    }

    fn heap(&mut self, o: &mut Vec<u8>) {
        if self.r.chance(2, 3) {
            o.push(self.r.range(0x69, 0x74) as u8);
        } else {
            self.s33(o);
        }
    }
    fn s33(&mut self, o: &mut Vec<u8>) {
        let v = if let Some(v) = self.word(u32::MAX as u64) {
            v
        } else if self.extreme() {
            *self.r.pick(ULEB_EXTREMES)
        } else {
            self.r.below(6)
        };
        let p = self.pad();
        sleb_pad(v as i64, 33, p, o);
    }
    fn reftype(&mut self, o: &mut Vec<u8>) {
        match self.r.below(3) {
            0 => o.push(self.r.range(0x69, 0x74) as u8),
            k => {
                o.push(if k == 1 { 0x63 } else { 0x64 });
                self.heap(o);
            }
        }
    }
    fn valtype(&mut self, o: &mut Vec<u8>) {
        if self.r.chance(1, 2) { o.push(self.r.range(0x7B, 0x7F) as u8) } else { self.reftype(o) }
    }
    fn fieldtype(&mut self, o: &mut Vec<u8>) {
        if self.r.chance(1, 3) {
            o.push(*self.r.pick(&[0x77, 0x78]));
        } else {
            self.valtype(o);
        }
        o.push(self.r.below(2) as u8);
    }
    fn comptype(&mut self, o: &mut Vec<u8>) {
        match self.r.below(4) {
            0 => {
                o.push(0x5E);
                self.fieldtype(o);
            }
            1 => {
                o.push(0x5F);
                let n = self.count(o);
                self.items(n, o, |g, o| g.fieldtype(o));
            }
            _ => {
                o.push(0x60);
                for _ in 0..2 {
                    let n = self.count(o);
                    self.items(n, o, |g, o| g.valtype(o));
                }
            }
        }
    }
    fn subtype(&mut self, o: &mut Vec<u8>) {
        if self.r.chance(1, 2) {
            o.push(*self.r.pick(&[0x4F, 0x50]));
            let n = self.count_cheap(o);
            self.items(n, o, |g, o| g.any_u32(o));
        }
        self.comptype(o);
    }
    fn rectype(&mut self, o: &mut Vec<u8>) {
        if self.r.chance(1, 3) {
            o.push(0x4E);
            let n = self.count(o);
            self.items(n, o, |g, o| g.subtype(o));
        } else {
            self.subtype(o);
        }
    }
    fn limits(&mut self, o: &mut Vec<u8>) {
        let f = *self.r.pick(&[0u8, 1, 4, 5]);
        o.push(f);
        self.any_u64(o);
        if f & 1 == 1 {
            self.any_u64(o);
        }
    }
    fn globaltype(&mut self, o: &mut Vec<u8>) {
        self.valtype(o);
        o.push(self.r.below(2) as u8);
    }
    fn blocktype(&mut self, o: &mut Vec<u8>) {
        match self.r.below(4) {
            0 | 1 => o.push(0x40),
            2 => self.valtype(o),
            _ => self.s33(o),
        }
    }
    fn opcode(&mut self, op: u32, o: &mut Vec<u8>) {
        if op < 0x100 {
            o.push(op as u8);
        } else {
            o.push((op >> 16) as u8);
            self.u32((op & 0xFFFF) as u64, o);
        }
    }
    fn memarg(&mut self, o: &mut Vec<u8>) {
        let multi = self.r.chance(1, 3);
        let align = if let Some(v) = self.word(63) {
            v
        } else if self.extreme() {
            self.r.below(64)
        } else {
            self.r.below(5)
        };
        self.u32(align + if multi { 64 } else { 0 }, o);
        if multi {
            self.any_u32(o);
        }
        self.any_u64(o);
    }

    /// One instruction (with its nested bodies), drawing on `budget`.
    fn instr(&mut self, cons: bool, depth: usize, budget: &mut usize, o: &mut Vec<u8>) {
        *budget = budget.saturating_sub(1);
        let list = if cons { &self.const_ops } else { &self.ops };
        let (mut op, mut sh) = *self.r.pick(list);
        // structured instructions are a handful of opcodes: boost them
        if depth > 0 && self.r.chance(1, 6) {
            op = *self.r.pick(&[0x02, 0x03, 0x04, 0x1F]);
            sh = if op == 0x1F { Sh::TryTable } else { Sh::Block };
        }
        if depth == 0 && matches!(sh, Sh::Block | Sh::TryTable) {
            (op, sh) = (0x01, Sh::None);
        }
        self.opcode(op, o);
        match sh {
            Sh::None => {}
            Sh::U32 => self.any_u32(o),
            Sh::U32x2 => {
                self.any_u32(o);
                self.any_u32(o);
            }
            Sh::Memarg => self.memarg(o),
            Sh::MemLane => {
                self.memarg(o);
                self.lane(o);
            }
            Sh::Lane => self.lane(o),
            Sh::I32 => self.any_signed(32, o),
            Sh::I64 => self.any_signed(64, o),
            Sh::F32 => self.float(4, o),
            Sh::F64 => self.float(8, o),
            Sh::Bytes16 => match self.r.below(12) {
                0 => o.extend([0; 16]),
                1 => o.extend([0xFF; 16]),
                2 => o.extend(0..16),
                3 => {
                    let b = self.r.byte();
                    o.extend([b; 16]);
                }
                _ => {
                    let b = self.bytes(16);
                    o.extend(b);
                }
            },
            Sh::Block => {
                self.blocktype(o);
                self.body(cons, depth - 1, budget, o);
                if op == 0x04 && self.r.chance(1, 2) {
                    o.push(0x05);
                    self.body(cons, depth - 1, budget, o);
                }
                o.push(0x0B);
            }
            Sh::TryTable => {
                self.try_head(o);
                self.body(cons, depth - 1, budget, o);
                o.push(0x0B);
            }
            Sh::BrTable => {
                let n = self.count_cheap(o);
                self.items(n, o, |g, o| g.any_u32(o));
                self.any_u32(o);
            }
            Sh::SelectT => {
                let n = self.count(o);
                self.items(n, o, |g, o| g.valtype(o));
            }
            Sh::Heap => self.heap(o),
            Sh::Cast => {
                o.push(self.r.below(4) as u8);
                self.any_u32(o);
                self.heap(o);
                self.heap(o);
            }
        }
    }
    fn lane(&mut self, o: &mut Vec<u8>) {
        let b = match self.word(255) {
            Some(v) => v as u8,
            None => self.r.byte(),
        };
        o.push(b);
    }
    fn float(&mut self, n: usize, o: &mut Vec<u8>) {
        if let Some(v) = self.word(if n == 4 { u32::MAX as u64 } else { u64::MAX }) {
            let v = match (self.r.below(2), n) {
                (0, _) => v,
                (_, 4) => (v as f32).to_bits() as u64,
                _ => (v as f64).to_bits(),
            };
            o.extend(&v.to_le_bytes()[..n]);
            return;
        }
        let f64s = [0u64, 1, 1 << 63, f64::NAN.to_bits(), 0x7FF0_0000_0000_0001, 0xFFF8_0000_0000_0000, u64::MAX];
        let f32s = [0u32, 1, 1 << 31, f32::NAN.to_bits(), 0x7F80_0001, 0xFFC0_0000, u32::MAX];
        if self.extreme() {
            match n {
                4 => o.extend(self.r.pick(&f32s).to_le_bytes()),
                _ => o.extend(self.r.pick(&f64s).to_le_bytes()),
            }
        } else {
            let b = self.r.bytes(n);
            o.extend(b);
        }
    }
    fn try_head(&mut self, o: &mut Vec<u8>) {
        self.blocktype(o);
        let n = self.count(o);
        self.items(n, o, |g, o| {
            let k = g.r.below(4) as u8;
            o.push(k);
            for _ in 0..if k < 2 { 2 } else { 1 } {
                g.any_u32(o);
            }
        });
    }
    fn body(&mut self, cons: bool, depth: usize, budget: &mut usize, o: &mut Vec<u8>) {
        let n = self.r.us((*budget).min(self.cfg.ninstr) + 1);
        self.items(n, o, |g, o| g.instr(cons, depth, budget, o));
    }
    /// Constant expression position (the decoder accepts any instructions).
    fn expr(&mut self, o: &mut Vec<u8>) {
        let mut budget = 3;
        match self.r.below(4) {
            0 => {}
            _ => self.body(true, 1.min(self.cfg.depth), &mut budget, o),
        }
        o.push(0x0B);
    }

    /// A body holding exactly one data-index instruction, `nest` levels deep.
    fn planted(&mut self, nest: usize, o: &mut Vec<u8>) {
        let mut budget = if nest > 10 && self.r.chance(7, 8) { 0 } else { 4 };
        self.body(false, 1, &mut budget, o);
        if nest == 0 {
            let op = *self.r.pick(&ops::DATA_INDEX_OPS);
            self.opcode(op, o);
            self.any_u32(o);
            if op != 0xFC0009 {
                self.any_u32(o);
            }
        } else {
            match self.r.below(5) {
                0 | 1 => {
                    o.push(0x02 + self.r.below(2) as u8);
                    self.blocktype(o);
                    self.planted(nest - 1, o);
                }
                2 => {
                    o.push(0x04);
                    self.blocktype(o);
                    self.planted(nest - 1, o);
                    if self.r.chance(1, 2) {
                        o.push(0x05);
                        self.body(false, 1, &mut budget, o);
                    }
                }
                3 => {
                    o.push(0x04);
                    self.blocktype(o);
                    self.body(false, 1, &mut budget, o);
                    o.push(0x05);
                    self.planted(nest - 1, o);
                }
                _ => {
                    o.push(0x1F);
                    self.try_head(o);
                    self.planted(nest - 1, o);
                }
            }
            o.push(0x0B);
        }
        self.body(false, 1, &mut budget, o);
    }

    fn func_body(&mut self, plant: bool, deep: usize, o: &mut Vec<u8>) {
        let mut e = vec![];
        let n = self.count(&mut e);
        self.items(n, &mut e, |g, e| {
            let cap = if g.cfg.dict && g.r.chance(1, 30) { 100_000 } else { 3000 };
            let n = if let Some(v) = g.word(cap) {
                v
                *g.r.pick(&[0u64, 1, 127, 128, 255, 256, 300, 1000, 5000])
            } else {
                g.r.below(4)
            };
            g.u32(n, e);
            g.valtype(e);
        });
        if deep > 0 {
            for _ in 0..deep {
                match self.r.below(8) {
                    0 => e.extend([0x03, 0x40]),
                    1 => e.extend([0x04, 0x40]),
                    2 => e.extend([0x04, 0x40, 0x05]),
                    3 => e.extend([0x1F, 0x40, 0x00]),
                    _ => e.extend([0x02, 0x40]),
                }
            }
            let mut budget = if self.r.chance(1, 2) { 4 } else { 0 };
            e.push(0x01);
            self.body(false, 1, &mut budget, &mut e);
            e.extend(std::iter::repeat_n(0x0B, deep));
        }
        if plant {
            let nest = match self.r.below(200) {
                0 => self.r.us(300),
                1..=20 => self.r.us(40),
                _ => self.r.us(5),
            };
            let nest = self.word(300).map_or(nest, |n| n as usize);
            self.planted(nest, &mut e);
        } else {
            let mut budget = if self.cfg.max_funcs > 16 { self.cfg.ninstr.min(3) } else { self.cfg.ninstr * 2 };
            self.body(false, self.cfg.depth, &mut budget, &mut e);
        }
        e.push(0x0B);
        self.u32(e.len() as u64, o);
        o.extend(e);
    }

    pub fn custom_payload(&mut self) -> Vec<u8> {
        let mut p = vec![];
        self.name(&mut p);
        let n = self.blob_len();
        let b = self.bytes(n);
        p.extend(b);
        p
    }

    pub fn sections(&mut self) -> Sections {
        let mut out = vec![];
        let mut nfuncs = 0;
        let on = |g: &mut Self, id: usize| g.r.chance(g.cfg.secs[id] as u64, 16);
        let want_data = on(self, 11);
        let ndatas = if want_data { self.r.us(self.cfg.max_list + 1) } else { 0 };
        let use_code = on(self, 3) || on(self, 10);
        if use_code {
            nfuncs = self.r.us(self.cfg.max_funcs + 1);
            if self.cfg.data_idx == DataIdx::One || self.cfg.deep > 0 {
                nfuncs = nfuncs.max(1);
            }
        }
        // bodies first: whether a data count is required depends on them
        let mut code = vec![];
        self.u32(nfuncs as u64, &mut code);
        let plant_at = if self.cfg.data_idx == DataIdx::One && nfuncs > 0 { self.r.us(nfuncs) } else { usize::MAX };
        let deep_at = if self.cfg.deep > 0 && nfuncs > 0 { self.r.us(nfuncs) } else { usize::MAX };
        let mut last = 0..0;
        for i in 0..nfuncs {
            let deep = if i == deep_at { self.cfg.deep } else { 0 };
            let at = code.len();
            if i > 0 && i != plant_at && i - 1 != plant_at && deep == 0 && last.len() < 400 && self.r.chance(1, 12) {
                code.extend_from_within(last);
            } else {
                self.func_body(i == plant_at, deep, &mut code);
            }
            last = at..code.len();
        }
        let need_count = nfuncs > 0 && self.cfg.data_idx != DataIdx::Never;
        for id in [1u8, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11] {
            self.maybe_custom(&mut out);
            let mut p = vec![];
            match id {
                3 => {
                    if nfuncs == 0 && !(use_code && self.r.chance(1, 2)) {
                        continue;
                    }
                    self.u32(nfuncs as u64, &mut p);
                    self.items(nfuncs, &mut p, |g, p| g.any_u32(p));
                }
                10 => {
                    if nfuncs == 0 && !(use_code && self.r.chance(1, 2)) {
                        continue;
                    }
                    p = std::mem::take(&mut code);
                }
                12 => {
                    if !need_count && !on(self, 12) {
                        continue;
                    }
                    if !want_data && ndatas > 0 {
                        continue;
                    }
                    self.u32(ndatas as u64, &mut p);
                }
                11 => {
                    if !want_data {
                        continue;
                    }
                    self.u32(ndatas as u64, &mut p);
                    self.items(ndatas, &mut p, |g, p| {
                        let k = g.r.below(3);
                        g.u32(k, p);
                        if k == 2 {
                            g.any_u32(p);
                        }
                        if k != 1 {
                            g.expr(p);
                        }
                        g.blob(p);
                    });
                }
                id => {
                    if !on(self, id as usize) {
                        continue;
                    }
                    self.plain_section(id, &mut p);
                }
            }
            out.push((id, p));
        }
        self.maybe_custom(&mut out);
        Sections(out)
    }
    fn maybe_custom(&mut self, out: &mut Vec<(u8, Vec<u8>)>) {
        while self.cfg.custom > 0 && self.r.chance(self.cfg.custom as u64, 16) {
            let p = match out.last() {
                Some((0, p)) if self.r.chance(1, 8) => p.clone(),
                _ => self.custom_payload(),
            };
            out.push((0, p));
        }
    }
    fn plain_section(&mut self, id: u8, p: &mut Vec<u8>) {
        match id {
            8 => return self.any_u32(p),
            13 | 6 | 1 | 2 | 4 | 5 | 7 | 9 => {}
            _ => unreachable!(),
        }
        let n = if matches!(id, 5 | 13) { self.count_cheap(p) } else { self.count(p) };
        self.items(n, p, |g, p| {
            match id {
                1 => g.rectype(p),
                2 => {
                    g.name(p);
                    g.name(p);
                    let k = g.r.below(5) as u8;
                    p.push(k);
                    match k {
                        0 => g.any_u32(p),
                        1 => {
                            g.reftype(p);
                            g.limits(p);
                        }
                        2 => g.limits(p),
                        3 => g.globaltype(p),
                        _ => {
                            p.push(0);
                            g.any_u32(p);
                        }
                    }
                }
                4 => {
                    let init = g.r.chance(1, 2);
                    if init {
                        p.extend([0x40, 0x00]);
                    }
                    g.reftype(p);
                    g.limits(p);
                    if init {
                        g.expr(p);
                    }
                }
                5 => g.limits(p),
                13 => {
                    p.push(0);
                    g.any_u32(p);
                }
                6 => {
                    g.globaltype(p);
                    g.expr(p);
                }
                7 => {
                    g.name(p);
                    p.push(g.r.below(5) as u8);
                    g.any_u32(p);
                }
                9 => {
                    let k = g.r.below(8);
                    g.u32(k, p);
                    if k & 1 == 0 {
                        if k & 2 != 0 {
                            g.any_u32(p);
                        }
                        g.expr(p);
                    }
                    if k & 3 != 0 {
                        if k & 4 != 0 { g.reftype(p) } else { p.push(0) }
                    }
                    let n = if k & 4 == 0 { g.count_cheap(p) } else { g.count(p) };
                    for _ in 0..n {
                        if k & 4 != 0 { g.expr(p) } else { g.any_u32(p) }
                    }
                }
                _ => unreachable!(),
            }
        });
    }
    pub fn image(&mut self) -> Vec<u8> {
        let s = self.sections();
        self.assemble(&s)
    }
    pub fn assemble(&mut self, s: &Sections) -> Vec<u8> {
        let mut o = b"\0asm\x01\0\0\0".to_vec();
        for (id, p) in &s.0 {
            o.push(*id);
            self.u32(p.len() as u64, &mut o);
            o.extend(p);
        }
        o
    }
}

/// Images too large to spell out in a replay file: `deep:N` (N nested blocks),
/// `locals:N` (one run-length entry declaring N locals).
pub fn special(spec: &str) -> Option<Vec<u8>> {
    let (k, n) = spec.split_once(':')?;
    let n: u64 = n.parse().ok()?;
    let mut body = vec![];
    match k {
        "deep" => {
            body.push(0);
            for _ in 0..n {
                body.extend([0x02, 0x40]);
            }
            body.extend(std::iter::repeat_n(0x0B, n as usize));
            body.push(0x0B);
        }
        "locals" => {
            body.push(1);
            uleb_min(n, &mut body);
            body.extend([0x7F, 0x0B]);
        }
        _ => return None,
    }
    let mut code = vec![1];
    uleb_min(body.len() as u64, &mut code);
    code.extend(body);
    let mut o = b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0\x03\x02\x01\0".to_vec();
    o.push(10);
    uleb_min(code.len() as u64, &mut o);
    o.extend(code);
    Some(o)
}

/// What a list of the huge images repeats: (section, kind of list, the bytes of
/// one element, another element).  The kinds say what surrounds the list.
const HUGE: &[(u8, Wide, &[u8], &[u8])] = &[
    (1, Wide::Section, &[0x60, 0, 0], &[0x60, 1, 0x7E, 0]),
    (1, Wide::Section, &[0x4E, 0], &[0x4E, 1, 0x5F, 0]),
    (1, Wide::Section, &[0x5E, 0x78, 1], &[0x5E, 0x77, 0]),
    (2, Wide::Section, &[0, 0, 0, 1], &[1, b'm', 0, 0, 2]),
    (2, Wide::Section, &[1, b'a', 0, 3, 0x7F, 0], &[0, 1, b'b', 2, 0, 9]),
    (3, Wide::Funcs, &[2, 0, 0x0B], &[4, 0, 0x41, 5, 0x0B]),
    (4, Wide::Section, &[0x70, 0, 0], &[0x6F, 1, 1, 2]),
    (5, Wide::Section, &[0, 1], &[5, 2, 3]),
    (6, Wide::Section, &[0x7F, 0, 0x0B], &[0x7C, 1, 0x01, 0x0B]),
    (7, Wide::Section, &[0, 0, 1], &[2, b'o', b'k', 3, 7]),
    (9, Wide::Section, &[1, 0, 0], &[3, 0, 1, 6]),
    (9, Wide::Section, &[5, 0x70, 0], &[0, 0x41, 1, 0x0B, 1, 8]),
    (11, Wide::Section, &[1, 0], &[1, 2, 7, 8]),
    (11, Wide::Section, &[0, 0x0B, 1, 7], &[2, 1, 0x41, 4, 0x0B, 0]),
    (13, Wide::Section, &[0, 1], &[0, 2]),
    (1, Wide::In(&[1, 0x5F], &[]), &[0x7F, 1], &[0x78, 0]),
    (1, Wide::In(&[1, 0x60], &[0]), &[0x7E], &[0x64, 0x6E]),
    (1, Wide::In(&[1, 0x60, 0], &[]), &[0x7D], &[0x63, 5]),
    (1, Wide::In(&[1, 0x4E], &[]), &[0x60, 0, 0], &[0x50, 1, 4, 0x5E, 0x7B, 0]),
    (1, Wide::In(&[1, 0x50], &[0x60, 0, 0]), &[3], &[0x83, 1]),
    (9, Wide::In(&[1, 1, 0], &[]), &[9], &[0x89, 0x80, 0]),
    (9, Wide::In(&[1, 0, 0x0B], &[]), &[9], &[10]),
    (9, Wide::In(&[1, 5, 0x70], &[]), &[0xD2, 1, 0x0B], &[0xD0, 0x71, 0x0B]),
    (11, Wide::In(&[1, 1], &[]), &[0x5A], &[0x00]),
    (7, Wide::In(&[1], &[0, 0]), b"x", "\u{20AC}".as_bytes()),
    (2, Wide::In(&[1], &[0, 0, 0]), b"y", "\u{E9}".as_bytes()),
    (2, Wide::In(&[1, 0], &[0, 0]), b"z", "\u{1F980}".as_bytes()),
    (6, Wide::Run(&[1, 0x7F, 0], &[0x0B]), &[0x6A], &[0x41, 1]),
    (10, Wide::Body(&[0], &[0x0B]), &[0x01], &[0x0C, 0]),
    (10, Wide::Body(&[0], &[0x0B]), &[0x02, 0x40, 0x0B], &[0x03, 0x7F, 0x01, 0x0B]),
    (10, Wide::Body(&[0, 0x04, 0x40], &[0x05, 0x0B, 0x0B]), &[0x41, 3], &[0x1A]),
    (10, Wide::Body(&[0, 0x04, 0x40, 0x05], &[0x0B, 0x0B]), &[0x1A], &[0x1B]),
    (10, Wide::BodyList(&[0, 0x0E], &[2, 0x0B]), &[1], &[7]),
    (10, Wide::BodyList(&[0, 0x0E], &[2, 0x0B]), &[0x81, 0x80, 0x80, 0x80, 0], &[0x82, 0x80, 0x80, 0x80, 1]),
    (10, Wide::BodyList(&[0, 0x1C], &[0x0B]), &[0x7F], &[0x6E]),
    (10, Wide::BodyList(&[0, 0x1F, 0x40], &[0x0B, 0x0B]), &[2, 1], &[0, 3, 4]),
    (10, Wide::BodyList(&[], &[0x0B]), &[1, 0x7F], &[2, 0x7E]),
    (10, Wide::BodyList(&[], &[0x0B]), &[0, 0x70], &[3, 0x64, 0]),
    (0, Wide::Custom, &[0xC3], &[0x3C]),
    (0, Wide::Custom, &[0x00], &[0x0A]),
    (0, Wide::Customs, &[0, 3, 1, b'q', 9], &[0, 2, 1, b'r']),
];
#[derive(Clone, Copy)]
enum Wide {
    /// the section's own list
    Section,
    /// a list inside the section, between these bytes
    In(&'static [u8], &'static [u8]),
    /// no list: the elements follow each other between these bytes
    Run(&'static [u8], &'static [u8]),
    /// function bodies
    Funcs,
    /// straight inside the only function body, or a list in there
    Body(&'static [u8], &'static [u8]),
    BodyList(&'static [u8], &'static [u8]),
    /// the contents of one custom section, or very many custom sections
    Custom,
    Customs,
}
const WIDTHS: &[usize] = &[65_534, 65_535, 65_536, 65_537, 70_000, 100_001];
const MEGA: &[usize] = &[131_073, 262_144, 1_000_001, 1_048_576, 1_048_577, 1_600_000, 2_000_000];
/// bytes of the longest lists: those of one-byte instructions take 80 times as
/// much memory when decoded
const BUDGET: usize = 8_100_000;

/// A small module, but for one list of 65535 or more elements (or megabytes of
/// contents): whatever counts in 16 bits, or stops at a round limit, shows.
/// `nth` walks through all kinds of lists and all lengths.
pub fn huge(r: &mut Rng, mega: bool, nth: Option<u64>) -> Vec<u8> {
    if nth.is_none() && r.chance(1, 8) {
        return aligned(r);
    }
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    let (id, wide, item, other) = *match nth {
        Some(n) => &HUGE[n as usize % HUGE.len()],
        None => r.pick(HUGE),
    };
    let mut n = *r.pick(WIDTHS);
    // lengths of the dictionary come first
    let words: Vec<usize> = dict::get().ints.iter().filter(|v| (300..=2 * BUDGET as u64).contains(*v)).map(|v| *v as usize).collect();
    let turns = nth.map_or(0, |n| n as usize / HUGE.len());
    let word = if words.is_empty() || (nth.is_none() && r.chance(1, 2)) {
        None
    } else if nth.is_none() {
        Some(*r.pick(&words))
    } else {
        words.get(turns / 2).copied()
    };
    let nth = nth.map(|n| n.saturating_sub((2 * words.len() * HUGE.len()) as u64));
    let round = nth.map(|n| n as usize / HUGE.len() % (WIDTHS.len() + MEGA.len()));
    match round {
        // the longest first
        Some(k) if k < MEGA.len() => n = MEGA[MEGA.len() - 1 - k],
        Some(k) => n = WIDTHS[k - MEGA.len()],
        None if mega && item.len() == 1 && r.chance(1, 6) => n = *r.pick(MEGA),
        None => {}
    }
    if let Some(w) = word {
        // as many elements, or about as many bytes
        n = match r.below(3) {
            0 | 1 => w + r.us(3),
            _ => (w + r.us(40)) / item.len() + 1,
        };
        n = n.saturating_sub(r.us(2));
    }
    n = n.clamp(4, BUDGET / item.len());
    // elements unlike the others: the last one, and a few
    let pos: Vec<usize> = (0..4).map(|k| if k == 0 && r.chance(3, 4) { n - 1 } else { r.us(n) }).collect();
    let mut items = vec![];
    let mut len = n;
    let bytes_count = matches!(item, [b'x'] | [b'y'] | [b'z']);
    for k in 0..n {
        if pos.contains(&k) {
            items.extend(other);
            if bytes_count {
                // (a name counts bytes)
                len += other.len() - 1;
            }
        } else {
            items.extend(item);
        }
    }
    let mut list = vec![];
    uleb_min(len as u64, &mut list);
    let at = list.len();
    list.extend(&items);
    let n_funcs = n;
    let mut p = vec![];
    let funcs = |o: &mut Vec<u8>, n: usize| {
        let mut f = vec![];
        uleb_min(n as u64, &mut f);
        f.resize(f.len() + n, 1);
        o.push(3);
        uleb_min(f.len() as u64, o);
        o.extend(f);
    };
    let entry = |p: &mut Vec<u8>, a: &[u8], list: &[u8], z: &[u8]| {
        p.push(1);
        uleb_min((a.len() + list.len() + z.len()) as u64, p);
        p.extend(a);
        p.extend(list);
        p.extend(z);
    };
    if r.chance(1, 2) && id > 1 {
        o.extend([1, 4, 1, 0x60, 0, 0]);
    }
    let mut id = id;
    match wide {
        Wide::Section => p = list,
        Wide::In(a, z) => {
            p.extend(a);
            p.extend(list);
            p.extend(z);
        }
        Wide::Run(a, z) => {
            p.extend(a);
            p.extend(&list[at..]);
            p.extend(z);
        }
        Wide::Funcs => {
            funcs(&mut o, n_funcs);
            id = 10;
            p = list;
        }
        Wide::Body(a, z) => {
            funcs(&mut o, 1);
            entry(&mut p, a, &list[at..], z);
        }
        Wide::BodyList(a, z) => {
            funcs(&mut o, 1);
            entry(&mut p, a, &list, z);
        }
        Wide::Custom => {
            p.extend([2, b'h', b'u']);
            p.extend(&list[at..]);
        }
        Wide::Customs => {
            o.extend(&list[at..]);
            p.extend([1, b'e', 0xEE]);
        }
    }
    o.push(id);
    uleb_min(p.len() as u64, &mut o);
    o.extend(p);
    if r.chance(1, 2) {
        o.extend([0, 4, 1, b't', 1, 2]);
    }
    o
}

/// A custom section that makes a section boundary fall on (or right next to) a
/// power of two of the input, and something behind it.
pub fn aligned(r: &mut Rng) -> Vec<u8> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    if r.chance(1, 2) {
        o.extend([1, 4, 1, 0x60, 0, 0]);
    }
    let at = 1usize << *r.pick(&[12usize, 13, 14, 15, 16, 16, 17, 18, 19, 20, 20, 21, 22, 22, 23]);
    let at = match dict::get().near(r, 1 << 24) {
        Some(v) if v > 40 && r.chance(1, 2) => v as usize,
        _ => at,
    };
    let at = at + *r.pick(&[0usize, 0, 0, 0, 1]) - *r.pick(&[0usize, 0, 0, 0, 1]);
    // id, five bytes of size, name
    let start = o.len() + 6;
    let n = at - start;
    o.push(0);
    uleb_pad(n as u64, 32, 5, &mut o);
    o.extend([1, b'p']);
    o.resize(at, 0x2A);
    match r.below(5) {
        0 => {}
        1 => o.extend(b"garbage"),
        2 => o.extend([7, 1, 0]),
        3 => o.extend([5, 3, 1, 0, 1, 0, 4, 1, b't', 1, 2]),
        // a section that is missing its end
        _ => o.extend([5, 3, 1, 0]),
    }
    o
}
