//! Storage faults: what a disk, a network file system or a broken producer does
//! to a module image before (or while) it is read.
use crate::dict;
use crate::image::{ULEB_EXTREMES, sleb_pad, uleb_min, uleb_pad};
use crate::model::{self, Field, Frame, Role};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum FK {
    BitFlip,
    SetByte,
    ZeroBlock,
    StaleBlock,
    LostTail,
    GarbageTail,
    DupBlock,
    LostBlock,
    SwapBlocks,
    FieldRewrite,
    FieldResealed,
    SizeSkew,
    EntrySkew,
    SecLost,
    SecDup,
    SecMoved,
    SecAlien,
    CustomInserted,
    LenInflated,
}
pub const NFK: usize = 19;
pub const FK_NAMES: [&str; NFK] = [
    "bit-flip", "byte-overwrite", "zeroed-block", "stale-block", "lost-tail", "garbage-tail", "duplicated-block",
    "lost-block", "swapped-blocks", "field-rewrite", "field-rewrite-resealed", "section-size-skew",
    "entry-size-skew", "section-lost", "section-duplicated", "section-moved", "alien-section", "custom-inserted",
    "length-inflated",
];
pub const ALL_FK: [FK; NFK] = [
    FK::BitFlip, FK::SetByte, FK::ZeroBlock, FK::StaleBlock, FK::LostTail, FK::GarbageTail, FK::DupBlock,
    FK::LostBlock, FK::SwapBlocks, FK::FieldRewrite, FK::FieldResealed, FK::SizeSkew, FK::EntrySkew, FK::SecLost,
    FK::SecDup, FK::SecMoved, FK::SecAlien, FK::CustomInserted, FK::LenInflated,
];

pub struct Hit {
    pub kind: FK,
    pub role: Option<Role>,
    pub sec: u8,
    pub text: String,
}

fn role_at(fields: &[Field], off: usize) -> (Option<Role>, u8) {
    match fields.iter().find(|f| off >= f.off && off < f.off + f.len) {
        Some(f) => (Some(f.role), f.sec),
        None => (None, 255),
    }
}

/// Replace `img[off..off+len]` by `new`, fixing up the sizes of the enclosing
/// frames so that the edit is not visible at the framing level.
pub fn splice_resealed(img: &mut Vec<u8>, frames: &[Frame], off: usize, len: usize, new: &[u8]) {
    let mut delta = new.len() as i64 - len as i64;
    img.splice(off..off + len, new.iter().copied());
    let mut enc: Vec<&Frame> = frames.iter().filter(|f| off >= f.start && off + len <= f.end).collect();
    enc.sort_by_key(|f| std::cmp::Reverse(f.level));
    for f in enc {
        let size = (f.end as i64 - f.start as i64 + delta).max(0) as u64;
        let mut s = vec![];
        uleb_min(size, &mut s);
        if s.len() <= f.size_len {
            s.clear();
            let mut min = vec![];
            uleb_min(size, &mut min);
            uleb_pad(size, 32, f.size_len - min.len(), &mut s);
        }
        delta += s.len() as i64 - f.size_len as i64;
        img.splice(f.size_off..f.size_off + f.size_len, s);
    }
}

fn leb_value(b: &[u8]) -> u64 {
    b.iter().enumerate().fold(0u128, |v, (i, x)| v | ((x & 0x7F) as u128) << (7 * i).min(120)) as u64
}

/// A number of the dictionary, in the encoding of the field.
fn from_dict(r: &mut Rng, role: Role, o: &mut Vec<u8>) -> bool {
    let max = match role {
        Role::LocalCount if !r.chance(1, 20) => 20_000,
        Role::SecSize | Role::ListLen | Role::Index | Role::NameLen | Role::EntrySize | Role::LocalCount | Role::BlobLen
        | Role::Flags | Role::Count | Role::MemAlign | Role::SubOp => u32::MAX as u64,
        Role::LimVal | Role::MemOff | Role::LebI32 | Role::LebI64 | Role::S33 => u64::MAX,
        Role::SecId | Role::ValType | Role::HeapType | Role::Marker | Role::LimFlag | Role::Opcode | Role::Lane => 255,
        _ => return false,
    };
    let Some(v) = dict::get().near(r, max) else { return false };
    let pad = if r.chance(1, 4) { r.us(10) } else { 0 };
    match role {
        Role::LebI32 => sleb_pad(v as i32 as i64, 32, pad, o),
        Role::LebI64 => sleb_pad(v as i64, 64, pad, o),
        Role::S33 => sleb_pad((v & 0x1_FFFF_FFFF) as i64, 33, pad, o),
        Role::LimVal | Role::MemOff => uleb_pad(v, 64, pad, o),
        _ if max == 255 => o.push(v as u8),
        _ => uleb_pad(v, 32, pad, o),
    }
    true
}

/// A plausible wrong content for a field.
pub fn mutate(r: &mut Rng, role: Role, old: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if !dict::get().is_empty() && r.chance(1, 6) && from_dict(r, role, &mut o) {
        return o;
    }
    match role {
        Role::SecSize | Role::ListLen | Role::Index | Role::NameLen | Role::EntrySize | Role::LocalCount
        | Role::BlobLen | Role::Flags | Role::Count | Role::MemAlign | Role::SubOp | Role::LimVal | Role::MemOff => {
            let bits = if matches!(role, Role::LimVal | Role::MemOff) { 64 } else { 32 };
            let max = if bits == 64 { 10 } else { 5 };
            let v = leb_value(old);
            match r.below(10) {
                0 => uleb_min(v.wrapping_add(1), &mut o),
                1 => uleb_min(v.wrapping_sub(1) & 0xFFFF_FFFF, &mut o),
                2 | 3 => uleb_min(*r.pick(ULEB_EXTREMES), &mut o),
                4 => uleb_pad(v, bits, 1 + r.us(9), &mut o),
                5 => {
                    // overlong: one byte too many
                    o = (0..max).map(|_| 0x80 | r.byte()).collect();
                    o.push(r.byte() & 0x7F);
                }
                6 => {
                    // full width, last byte arbitrary: unused bits set or not
                    o = (0..max - 1).map(|_| 0x80 | r.byte()).collect();
                    o.push(if r.chance(1, 2) { r.byte() } else { 1 << r.below(8) });
                }
                7 => {
                    // full width zero payload with one stray bit in the last byte
                    o = vec![0x80; max - 1];
                    o.push(1 << r.below(8));
                }
                8 => uleb_min(r.below(if role == Role::SubOp { 300 } else { 140 }), &mut o),
                _ => {
                    o = old.to_vec();
                    let k = r.us(o.len());
                    o[k] ^= 1 << r.below(8);
                }
            }
        }
        Role::LebI32 | Role::LebI64 | Role::S33 => {
            let bits = match role {
                Role::LebI32 => 32,
                Role::LebI64 => 64,
                _ => 33,
            };
            let max = (bits as usize).div_ceil(7);
            if let [b @ ..0x80] = old
                && r.chance(1, 12)
            {
                o.extend([b | 0x80, *r.pick(&[0, 0x7F])]);
                return o;
            }
            match r.below(6) {
                0 => {
                    o = (0..max).map(|_| 0x80 | r.byte()).collect();
                    o.push(r.byte() & 0x7F);
                }
                1 | 2 => {
                    o = (0..max - 1).map(|_| 0x80 | r.byte()).collect();
                    o.push(r.byte() & 0x7F);
                }
                3 => {
                    let fill = *r.pick(&[0x80u8, 0xFF]);
                    o = vec![fill; max - 1];
                    o.push(*r.pick(&[0u8, 0x7F, 0x40, 0x3F, 1, 2, 4, 7, 8, 0xF, 0x10, 0x70, 0x78, 0x7E, 0x60, 0x68, 0x50]));
                }
                4 => {
                    let k = 1i64 << r.below(bits.min(63) as u64);
                    sleb_pad(*r.pick(&[k, -k, k - 1, -k - 1]), 64, r.us(4), &mut o);
                }
                _ => {
                    o = old.to_vec();
                    let k = r.us(o.len());
                    o[k] ^= 1 << r.below(8);
                }
            }
        }
        Role::NameBytes => {
            o = old.to_vec();
            const BAD: &[&[u8]] = &[
                &[0x80], &[0xBF], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xC2], &[0xE0, 0x80, 0x80], &[0xE0, 0x9F, 0xBF],
                &[0xE2, 0x82], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xF0, 0x80, 0x80, 0x80],
                &[0xF0, 0x8F, 0xBF, 0xBF], &[0xF4, 0x90, 0x80, 0x80], &[0xF5, 0x80, 0x80, 0x80], &[0xFE], &[0xFF],
                &[0xF0, 0x9F, 0x98], &[0xC3, 0x28], &[0xEF, 0xBF, 0xBE], &[0xF4, 0x8F, 0xBF, 0xBF], &[0xC2, 0x80],
                &[0xED, 0x9F, 0xBF], &[0xEE, 0x80, 0x80], &[0],
            ];
            let ins = *r.pick(BAD);
            let at = r.us(o.len() + 1);
            let over = if r.chance(1, 2) { ins.len().min(o.len() - at) } else { 0 };
            o.splice(at..at + over, ins.iter().copied());
        }
        Role::SecId => o.push(if r.chance(1, 2) { r.below(16) as u8 } else { r.byte() }),
        Role::ValType | Role::HeapType | Role::Marker | Role::LimFlag | Role::Opcode | Role::Lane => {
            let b = old.first().copied().unwrap_or(0);
            if b < 0x80 && old.len() == 1 && r.chance(1, 12) {
                // the same number, or one like it, in more bytes
                let fill = *r.pick(&[0x80u8, 0xFF]);
                o.push(b | 0x80);
                o.extend(std::iter::repeat_n(fill, if r.chance(1, 2) { 0 } else { r.us(9) }));
                o.push(fill & 0x7F);
                return o;
            }
            o.push(match r.below(5) {
                0 => b.wrapping_add(1),
                1 => b.wrapping_sub(1),
                2 => b ^ (1 << r.below(8)),
                3 => *r.pick(&[
                    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x0B, 0x40, 0x41, 0x4D, 0x4E, 0x4F, 0x50, 0x5D,
                    0x5E, 0x5F, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x68, 0x69, 0x6A, 0x70, 0x74, 0x75, 0x76, 0x77,
                    0x78, 0x79, 0x7A, 0x7B, 0x7C, 0x7F, 0x80, 0xC0, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF,
                ]),
                _ => r.byte(),
            });
            o.extend(old.iter().skip(1));
        }
        _ => {
            o = old.to_vec();
            if o.is_empty() {
                o.push(r.byte());
            } else {
                let k = r.us(o.len());
                o[k] = if r.chance(1, 2) { r.byte() } else { o[k] ^ 1 << r.below(8) };
            }
        }
    }
    o
}

/// One representative per key, in order of first appearance.
fn distinct<'a>(pool: &[&'a Field], key: impl Fn(&Field) -> u8) -> Vec<&'a Field> {
    let mut seen = [false; 256];
    let mut v = vec![];
    for f in pool {
        if !std::mem::replace(&mut seen[key(f) as usize], true) {
            v.push(*f);
        }
    }
    v
}

/// Apply one fault of kind `kind` to `img`, biased to fields with a role in
/// `roles` when given.  `None` when the image offers no place for it.
pub fn strike(r: &mut Rng, img: &mut Vec<u8>, kind: FK, roles: Option<&[Role]>) -> Option<Hit> {
    let m = model::run(img, img.len(), false, true);
    let (fields, frames) = (&m.fields, &m.frames);
    let secs: Vec<Frame> =
        frames.iter().copied().filter(|f| f.level == 0 && f.end <= img.len()).collect();
    let n = img.len();
    let target = |r: &mut Rng| -> Option<Field> {
        let pool: Vec<&Field> = match roles {
            Some(rs) => fields.iter().filter(|f| f.len > 0 && rs.contains(&f.role)).collect(),
            None => fields.iter().filter(|f| f.len > 0 && f.role != Role::Preamble).collect(),
        };
        if pool.is_empty() {
            return None;
        }
        if r.chance(1, 2) {
            // rare fields matter as much as frequent ones: section, role, then the field
            let f = **r.pick(&distinct(&pool, |f| f.sec));
            let pool: Vec<&Field> = pool.into_iter().filter(|g| g.sec == f.sec).collect();
            let f = **r.pick(&distinct(&pool, |f| f.role as u8));
            let pool: Vec<&Field> = pool.into_iter().filter(|g| g.role == f.role).collect();
            // late occurrences sit behind everything that came before
            return Some(if r.chance(1, 4) { **pool.last().unwrap() } else { **r.pick(&pool) });
        }
        Some(**r.pick(&pool))
    };
    let spot = |r: &mut Rng| -> Option<usize> {
        if n == 0 {
            return None;
        }
        if r.chance(3, 4) {
            if let Some(f) = target(r) {
                return Some(f.off + r.us(f.len));
            }
        }
        Some(r.us(n))
    };
    let mut text;
    let at;
    let mut role = None;
    let mut sec = 255;
    match kind {
        FK::BitFlip => {
            at = spot(r)?;
            let bit = r.below(8);
            text = format!("bit {bit} of byte {at} flipped");
            img[at] ^= 1 << bit;
        }
        FK::SetByte => {
            at = spot(r)?;
            let b = r.byte();
            text = format!("byte {at} overwritten with {b:#04x}");
            img[at] = b;
        }
        FK::ZeroBlock => {
            at = spot(r)?;
            let l = (1 + { let k = if r.chance(1, 4) { 64 } else { 6 }; r.us(k) }).min(n - at);
            text = format!("bytes {at}..{} zeroed", at + l);
            img[at..at + l].fill(0);
        }
        FK::StaleBlock => {
            at = spot(r)?;
            let l = (1 + r.us(12)).min(n - at);
            let src = r.us(n - l + 1);
            text = format!("bytes {at}..{} replaced by stale copy of {src}..{}", at + l, src + l);
            let b = img[src..src + l].to_vec();
            img[at..at + l].copy_from_slice(&b);
        }
        FK::LostTail => {
            at = spot(r)?;
            text = format!("image cut at byte {at}");
            img.truncate(at);
        }
        FK::GarbageTail => {
            let l = 1 + r.us(12);
            let b = match r.below(4) {
                0 => vec![0; l],
                1 => vec![0xFF; l],
                2 => vec![0, 0],
                _ => r.bytes(l),
            };
            at = n;
            text = format!("{} bytes appended", b.len());
            img.extend(b);
        }
        FK::DupBlock => {
            at = spot(r)?;
            let l = (1 + r.us(16)).min(n - at);
            text = format!("bytes {at}..{} written twice", at + l);
            let b = img[at..at + l].to_vec();
            img.splice(at + l..at + l, b);
        }
        FK::LostBlock => {
            at = spot(r)?;
            let l = (1 + { let k = if r.chance(1, 4) { 32 } else { 4 }; r.us(k) }).min(n - at);
            text = format!("bytes {at}..{} lost", at + l);
            img.drain(at..at + l);
        }
        FK::SwapBlocks => {
            at = spot(r)?;
            let l = 1 + r.us(6);
            if at + 2 * l > n {
                return None;
            }
            text = format!("bytes {at}..{} and {}..{} swapped", at + l, at + l, at + 2 * l);
            img[at..at + 2 * l].rotate_left(l);
        }
        FK::FieldRewrite | FK::FieldResealed => {
            let f = target(r)?;
            let new = mutate(r, f.role, &img[f.off..f.off + f.len]);
            at = f.off;
            text = format!(
                "{} at {}..{} rewritten to {}{}",
                model::ROLE_NAMES[f.role as usize],
                f.off,
                f.off + f.len,
                hex(&new[..new.len().min(24)]),
                if kind == FK::FieldResealed { ", sizes resealed" } else { "" }
            );
            if kind == FK::FieldResealed {
                splice_resealed(img, frames, f.off, f.len, &new);
            } else {
                img.splice(f.off..f.off + f.len, new);
            }
        }
        FK::SizeSkew | FK::EntrySkew => {
            let lvl = (kind == FK::EntrySkew) as u8;
            let pool: Vec<&Frame> = frames.iter().filter(|f| f.level == lvl).collect();
            if pool.is_empty() {
                return None;
            }
            let f = **r.pick(&pool);
            let size = (f.end - f.start) as u64;
            let new = match r.below(8) {
                0 => size + 1,
                1 => size.saturating_sub(1),
                2 => size + 1 + r.below(12),
                3 => r.below(size + 1),
                4 => 0,
                5 => (n - f.start) as u64,
                6 => *r.pick(ULEB_EXTREMES),
                _ => size + *r.pick(&[127u64, 128, 4096, 1 << 20, 1 << 28]),
            } & 0xFFFF_FFFF;
            let mut s = vec![];
            uleb_min(new, &mut s);
            if s.len() <= f.size_len && r.chance(3, 4) {
                let pad = f.size_len - s.len();
                s.clear();
                uleb_pad(new, 32, pad, &mut s);
            }
            at = f.size_off;
            text = format!("declared size at {at} changed from {size} to {new}");
            if lvl == 1 && r.chance(1, 2) {
                splice_resealed(img, frames, f.size_off, f.size_len, &s);
            } else {
                img.splice(f.size_off..f.size_off + f.size_len, s);
            }
        }
        FK::SecLost => {
            if secs.is_empty() {
                return None;
            }
            let s = *r.pick(&secs);
            at = s.head;
            text = format!("{} section at {at} lost", model::KIND_NAMES[s.id as usize]);
            img.drain(s.head..s.end);
        }
        FK::SecDup => {
            if secs.is_empty() {
                return None;
            }
            let s = *r.pick(&secs);
            let to = if r.chance(1, 2) { s.end } else { r.pick(&secs).end };
            at = to;
            text = format!("{} section written again at {to}", model::KIND_NAMES[s.id as usize]);
            let b = img[s.head..s.end].to_vec();
            img.splice(to..to, b);
        }
        FK::SecMoved => {
            if secs.len() < 2 {
                return None;
            }
            let i = r.us(secs.len());
            let s = secs[i];
            let b: Vec<u8> = img.drain(s.head..s.end).collect();
            // a section boundary of the remaining image
            let mut ends = vec![8];
            for (j, t) in secs.iter().enumerate() {
                if j != i {
                    ends.push(if t.head > s.head { t.end - b.len() } else { t.end });
                }
            }
            at = if r.chance(1, 3) { *ends.last().unwrap() } else { *r.pick(&ends) };
            text = format!("{} section moved from {} to {at}", model::KIND_NAMES[s.id as usize], s.head);
            img.splice(at..at, b);
        }
        FK::SecAlien => {
            let mut ends: Vec<usize> = secs.iter().map(|s| s.end).collect();
            if n >= 8 {
                ends.push(8);
            }
            if ends.is_empty() {
                return None;
            }
            at = *r.pick(&ends);
            let id = if r.chance(1, 2) { r.below(16) as u8 } else { r.byte() };
            let body: &[u8] = *r.pick(&[&[][..], &[0], &[0, 0], &[1], &[1, 0]]);
            let mut b = vec![id, body.len() as u8];
            b.extend(body);
            text = format!("section id {id} with {} bytes inserted at {at}", body.len());
            img.splice(at..at, b);
        }
        FK::CustomInserted => {
            let mut ends: Vec<usize> = secs.iter().map(|s| s.end).collect();
            if n >= 8 {
                ends.push(8);
            }
            if ends.is_empty() {
                return None;
            }
            at = *r.pick(&ends);
            let nl = r.us(5);
            let mut p = vec![nl as u8];
            p.extend((0..nl).map(|_| r.range(0x20, 0x7E) as u8));
            let l = r.us(40);
            let body = r.bytes(l);
            p.extend(body);
            let mut b = vec![0];
            uleb_min(p.len() as u64, &mut b);
            b.extend(p);
            text = format!("custom section of {} bytes inserted at {at}", b.len());
            img.splice(at..at, b);
        }
        FK::LenInflated => {
            let pool: Vec<&Field> = fields
                .iter()
                .filter(|f| {
                    matches!(
                        f.role,
                        Role::ListLen | Role::NameLen | Role::BlobLen | Role::SecSize | Role::EntrySize | Role::Count
                    )
                })
                .collect();
            if pool.is_empty() {
                return None;
            }
            let f = if r.chance(1, 2) {
                let f = **r.pick(&distinct(&pool, |f| f.sec));
                let pool: Vec<&Field> = pool.into_iter().filter(|g| g.sec == f.sec).collect();
                **r.pick(&distinct(&pool, |f| f.role as u8))
            } else {
                **r.pick(&pool)
            };
            let v = match r.below(6) {
                0 => u32::MAX as u64,
                1 => 1 << 31,
                2 => (1 << 31) - 1,
                3 => 1 << r.range(10, 31),
                4 => r.range(1 << 16, 1 << 26),
                _ => leb_value(&img[f.off..f.off + f.len]) + r.range(1, 5000),
            };
            let mut s = vec![];
            uleb_min(v.min(u32::MAX as u64), &mut s);
            at = f.off;
            text = format!("{} at {at} inflated to {v}", model::ROLE_NAMES[f.role as usize]);
            if r.chance(1, 2) && f.role != Role::SecSize {
                splice_resealed(img, frames, f.off, f.len, &s);
            } else {
                img.splice(f.off..f.off + f.len, s);
            }
        }
    }
    if role.is_none() {
        (role, sec) = role_at(fields, at);
    }
    text.insert_str(0, &format!("{}: ", FK_NAMES[kind as usize]));
    Some(Hit { kind, role, sec, text })
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.trim();
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
