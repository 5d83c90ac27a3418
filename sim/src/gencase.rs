//! Case generation: (property, seed, index) -> Case, nothing else.
use crate::case::*;
use crate::cli::{CliPlan, Mode, WPlan};
use crate::dict::{self, Dict};
use crate::faults::{self, ALL_FK, FK};
use crate::image::{self, Cfg, DataIdx, Gen, Sections, uleb_min};
use crate::model::{self, MOut, Role};
use crate::rng::{Rng, fnv, hash2};

pub struct Made {
    pub case: Case,
    /// storage faults applied, by kind
    pub struck: [u64; faults::NFK],
}

pub fn make(prop: &str, seed: u64, i: u64) -> Made {
    let mut r = Rng::new(hash2(hash2(seed, fnv(prop.as_bytes())), i));
    let hint = !dict::get().is_empty() && r.chance(1, 3);
    let mut g = G { r: &mut r, hint, shallow: matches!(prop, "C06" | "C16" | "C17" | "C22"), mega: !matches!(prop, "C16" | "C17" | "C22"), struck: [0; faults::NFK], notes: vec![], tags: vec![] };
    let mut case = match prop {
        "C01" => g.c01(),
        "C02" => g.c02(),
        "C03" => g.c03(),
        "C04" => g.c04(),
        "C05" => g.c05(),
        "C06" => g.c06(),
        "C07" => g.c07(),
        "C08" => g.c08(),
        "C09" => g.c09(),
        "C10" => g.c10(),
        "C12" => g.c12(),
        "C13" => g.c13(),
        "C14" => g.c14(),
        "C15" => g.c15(),
        "C16" | "C17" => g.cli(),
        "C18" => g.c18(),
        "C19" => g.c19(i),
        "C20" => g.c20(),
        "C21" => g.c21(),
        "C22" => g.c22(),
        "C23" => g.c23(),
        _ => g.c11(),
    };
    let h = hash2(hash2(seed, 0x1A7), i);
    for (k, t) in case.tasks.iter_mut().enumerate().filter(|(k, t)| t.lat == 0 && (h >> (k % 64)) & 3 != 0) {
        t.lat = hash2(h, k as u64) >> 32;
    }
    case.prop = prop.into();
    case.notes = g.notes;
    case.tags = g.tags;
    Made { case, struck: g.struck }
}

struct G<'a> {
    r: &'a mut Rng,
    /// let the dictionary shape this case
    hint: bool,
    /// megabytes in one list are affordable (not when their debug form is made)
    mega: bool,
    /// hundreds of nested blocks are not
    shallow: bool,
    struck: [u64; faults::NFK],
    notes: Vec<String>,
    tags: Vec<Tag>,
}

const INT_ROLES: &[Role] = &[
    Role::Index, Role::ListLen, Role::LebI32, Role::LebI64, Role::S33, Role::LimVal, Role::MemOff, Role::MemAlign,
    Role::Count, Role::NameLen, Role::BlobLen, Role::LocalCount, Role::SecSize, Role::EntrySize, Role::SubOp,
    Role::Flags, Role::F32, Role::F64, Role::NameBytes, Role::Bytes16, Role::Blob,
];
const INSTR_ROLES: &[Role] = &[
    Role::Opcode, Role::SubOp, Role::ValType, Role::HeapType, Role::S33, Role::Marker, Role::Lane, Role::MemAlign,
    Role::MemOff, Role::LebI32, Role::LebI64, Role::F32, Role::F64, Role::Bytes16, Role::Index, Role::ListLen,
];

/// One image in so many has a list too long for 16 bits, or megabytes of data.
const HUGE_ODDS: u64 = 3000;

impl G<'_> {
    fn dict(&self) -> Option<&'static Dict> {
        self.hint.then(dict::get)
    }
    /// A number of the dictionary, in one of `den` cases it shapes.
    fn word(&mut self, den: u64, max: u64) -> Option<u64> {
        let d = self.dict()?;
        if self.r.chance(1, den) { d.near(self.r, max) } else { None }
    }
    fn gen_image(&mut self, mut cfg: Cfg) -> Vec<u8> {
        if let Some(d) = self.dict() {
            cfg.dict = true;
            for s in &d.secs {
                if let Some(s) = cfg.secs.get_mut(*s as usize) {
                    *s = if self.r.chance(3, 4) { 16 } else { *s };
                }
            }
            if d.secs.contains(&0) {
                cfg.custom = cfg.custom.max(6);
            }
            if cfg.deep == 0
                && !self.shallow
                && let Some(n) = self.word(16, 1500)
            {
                cfg.deep = n as usize;
                cfg.secs[3] = 16;
                cfg.secs[10] = 16;
            }
            if self.mega && self.r.chance(1, HUGE_ODDS) {
                return image::huge(self.r, true, None);
            }
        }
        if self.r.chance(1, HUGE_ODDS) {
            let mega = self.mega;
            return image::huge(self.r, mega, None);
        }
        Gen::new(self.r, cfg).image()
    }
    fn swarm(&mut self) -> Vec<u8> {
        let cfg = Cfg::swarm(self.r);
        self.gen_image(cfg)
    }
    fn small(&mut self) -> Vec<u8> {
        let cfg = Cfg::small(self.r);
        self.gen_image(cfg)
    }
    fn strike(&mut self, img: &mut Vec<u8>, kinds: &[FK], roles: Option<&[Role]>) {
        let k = *self.r.pick(kinds);
        if let Some(h) = faults::strike(self.r, img, k, roles) {
            self.struck[h.kind as usize] += 1;
            self.notes.push(h.text);
            self.tags.push(Tag { fk: h.kind as u8, role: h.role.map_or(255, |r| r as u8), sec: h.sec });
        }
    }
    fn trace(&self, img: &[u8]) -> MOut {
        model::run(img, img.len(), false, true)
    }
    /// A place where a fault is interesting: inside or around a random field,
    /// at a frame boundary, or anywhere.
    fn place(&mut self, m: &MOut, len: usize) -> usize {
        match self.r.below(10) {
            0..=4 if !m.fields.is_empty() => {
                let f = *self.r.pick(&m.fields);
                f.off + self.r.us(f.len + 1)
            }
            5..=7 if !m.frames.is_empty() => {
                let f = *self.r.pick(&m.frames);
                *self.r.pick(&[f.head, f.size_off, f.start, f.end, f.end.saturating_sub(1), f.start + 1])
            }
            8 => *self.r.pick(&[0, 1, 4, 7, 8, 9, len.saturating_sub(1), len]),
            _ => self.r.us(len + 1),
        }
        .min(len)
    }
    fn fail(&mut self) -> Fail {
        let form = *self.r.pick(&[Form::Custom, Form::Custom, Form::Custom, Form::Nested, Form::Simple, Form::Os]);
        let code = match form {
            Form::Os => self.errno(false),
            _ => {
                if let Some(d) = self.dict()
                    && !d.kinds.is_empty()
                    && self.r.chance(1, 2)
                {
                    *self.r.pick(&d.kinds)
                } else if self.r.chance(1, 4) {
                    0
                } else {
                    self.r.us(KINDS.len()) as u16
                }
            }
        };
        Fail { form, code, sticky: self.r.chance(1, 2) }
    }
    fn errno(&mut self, cli: bool) -> u16 {
        if let Some(e) = self.word(4, 133)
            && e > 0
        {
            return any_errno(e - 1, cli);
        }
        if let Some(d) = self.dict()
            && !d.kinds.is_empty()
            && self.r.chance(1, 2)
        {
            let kind = KINDS[*self.r.pick(&d.kinds) as usize];
            let like = |e: &u16| std::io::Error::from_raw_os_error(*e as i32).kind() == kind;
            let all: Vec<u16> = (0..134).map(|x| any_errno(x, cli)).filter(like).collect();
            if !all.is_empty() {
                return *self.r.pick(&all);
            }
        }
        if self.r.chance(1, 2) { *self.r.pick(ERRNOS) } else { any_errno(self.r.u64(), cli) }
    }
    fn chunk(&mut self) -> Chunk {
        if let Some(n) = self.word(6, 1 << 20)
            && n > 0
        {
            return Chunk::Fixed(n as u32);
        }
        match self.r.below(6) {
            0 => Chunk::All,
            1 => Chunk::Fixed(1),
            2 => Chunk::Fixed(*self.r.pick(&[2u32, 3, 4, 5, 7, 8, 13, 15, 16, 17, 64, 1024])),
            _ => {
                let s = self.r.u64() >> 16;
                Chunk::Rand(s, *self.r.pick(&[2u32, 3, 5, 9, 17, 40, 300]))
            }
        }
    }
    fn eintr(&mut self, m: &MOut, len: usize) -> Vec<(usize, u32)> {
        let mut v = vec![];
        match self.r.below(5) {
            0 | 1 => return v,
            2 if len < 200 || (len < 4000 && self.r.chance(1, 8)) => {
                // a signal storm: before every byte
                for o in 0..=len {
                    v.push((o, 1 + (self.r.below(8) == 0) as u32));
                }
            }
            _ => {
                for _ in 0..1 + self.r.us(8) {
                    let o = self.place(m, len);
                    let run = if let Some(n) = self.word(8, 300) {
                        (n as u32).max(1)
                    } else if let Some(n) = self.word(2000, 100_000) {
                        (n as u32).max(1)
                    } else if self.r.chance(1, 2000) {
                        *self.r.pick(&[1000u32, 1024, 1025, 4097, 10_001, 70_000])
                    } else if self.r.chance(1, 24) {
                        *self.r.pick(&[5u32, 8, 9, 16, 17, 33, 64, 65, 100, 129, 300])
                    } else {
                        1 + self.r.below(3) as u32
                    };
                    v.push((o, run));
                }
                v.sort();
                v.dedup_by_key(|e| e.0);
            }
        }
        v
    }
    fn wrap(&mut self, end: usize) -> Wrap {
        match self.r.below(8) {
            0 => Wrap::Buf(*self.r.pick(&[1u32, 2, 3, 7, 16, 64, 512, 8192])),
            1 => Wrap::Boxed,
            2 => Wrap::Chain(self.r.us(end + 1) as u32),
            3 => Wrap::Take,
            _ => Wrap::Direct,
        }
    }
    /// Delivery noise that must never change the outcome.
    fn noise(&mut self, p: &mut Plan, m: &MOut) {
        p.chunk = self.chunk();
        p.eintr = self.eintr(m, p.end);
        p.wrap = self.wrap(p.end);
        p.lat = self.r.u64() >> 32;
    }
    fn mild(&mut self, img: &[u8]) -> Plan {
        let mut p = Plan::plain(0, img.len());
        if self.r.chance(1, 3) {
            p.chunk = self.chunk();
        }
        p.lat = self.r.u64() >> 32;
        p
    }
    fn one(img: Vec<u8>, p: Plan) -> Case {
        Case { images: vec![img], tasks: vec![p], ..Case::default() }
    }
    fn maybe_damage(&mut self, img: &mut Vec<u8>, num: u64, den: u64) {
        while self.r.chance(num, den) {
            self.strike(img, &ALL_FK, None);
            if self.notes.len() > 3 {
                break;
            }
        }
    }

    fn c01(&mut self) -> Case {
        let mut img = self.swarm();
        self.maybe_damage(&mut img, 1, 4);
        let m = self.trace(&img);
        let mut end = img.len();
        if self.r.chance(1, 4) {
            end = self.place(&m, img.len());
        }
        let mut tasks = vec![];
        for k in 0..3 + self.r.us(3) {
            let mut p = Plan::plain(0, end);
            self.noise(&mut p, &m);
            if k == 0 {
                p.chunk = Chunk::Fixed(1);
                p.wrap = Wrap::Direct;
            }
            if k == 1 && self.r.chance(1, 3) {
                p.term = Term::EofResume;
                p.wrap = Wrap::Direct;
            }
            tasks.push(p);
        }
        Case { images: vec![img], tasks, ..Case::default() }
    }

    fn c02(&mut self) -> Case {
        let mut img = if self.r.chance(1, 3) { self.small() } else { self.swarm() };
        self.maybe_damage(&mut img, 1, 8);
        let m = self.trace(&img);
        let mut tasks = vec![];
        // sweep every offset of small images now and then
        let sweep = img.len() <= 120 && self.r.chance(1, 4);
        let ends: Vec<usize> = if sweep {
            (0..=img.len()).collect()
        } else {
            (0..4 + self.r.us(6)).map(|_| self.place(&m, img.len())).collect()
        };
        let f0 = self.fail();
        for end in ends {
            let mut p = Plan::plain(0, end);
            self.noise(&mut p, &m);
            p.term = if sweep {
                Term::Fail(f0)
            } else if self.r.chance(1, 16) {
                Term::Panic
            } else {
                Term::Fail(self.fail())
            };
            tasks.push(p);
        }
        Case { images: vec![img], tasks, ..Case::default() }
    }

    fn c03(&mut self) -> Case {
        let sweep = self.r.chance(1, 5);
        let img = if sweep { self.small() } else { self.swarm() };
        let m = self.trace(&img);
        let ends: Vec<usize> = if sweep && img.len() <= 300 {
            (0..=img.len()).collect()
        } else {
            (0..4 + self.r.us(8)).map(|_| self.place(&m, img.len())).collect()
        };
        let sweep = ends.len() > 20;
        let mut tasks = vec![];
        for end in ends {
            let mut p = Plan::plain(0, end);
            if !sweep || self.r.chance(1, 8) {
                self.noise(&mut p, &m);
            }
            if self.r.chance(1, 4) {
                p.term = Term::EofResume;
                p.wrap = Wrap::Direct;
            }
            tasks.push(p);
        }
        Case { images: vec![img], tasks, ..Case::default() }
    }

    fn any_end(&mut self, p: &mut Plan, m: &MOut, len: usize) {
        match self.r.below(6) {
            0 => {
                p.end = self.place(m, len);
            }
            1 => {
                p.end = self.place(m, len);
                p.term = Term::EofResume;
            }
            2 => {
                p.end = self.place(m, len);
                p.term = Term::Fail(self.fail());
            }
            _ => {}
        }
    }

    fn c04(&mut self) -> Case {
        let mut img = match self.r.below(20) {
            0 => {
                let n = self.r.us(200);
                let mut b = self.r.bytes(n);
                if self.r.chance(3, 4) {
                    let mut x = b"\0asm\x01\0\0\0".to_vec();
                    x.extend(b);
                    b = x;
                }
                b
            }
            1 => {
                // one section of plausible garbage
                let n = self.r.us(60);
                let mut x = b"\0asm\x01\0\0\0".to_vec();
                x.push(self.r.below(14) as u8);
                x.push(n as u8);
                for _ in 0..n {
                    let b = match self.r.below(3) {
                        0 => self.r.below(4) as u8,
                        1 => *self.r.pick(&[0x7Fu8, 0x60, 0x0B, 0x41, 0x63, 0x64, 0x70, 0xFC, 0xFD, 0xFB, 0x80, 0xFF]),
                        _ => self.r.byte(),
                    };
                    x.push(b);
                }
                x
            }
            2 => {
                let mut cfg = Cfg::small(self.r);
                cfg.deep = *self.r.pick(&[10usize, 100, 500, 1000, 1500]);
                cfg.secs[10] = 16;
                self.gen_image(cfg)
            }
            _ => self.swarm(),
        };
        let n = self.r.us(4);
        for _ in 0..n {
            self.strike(&mut img, &ALL_FK, None);
        }
        let m = self.trace(&img);
        let mut p = Plan::plain(0, img.len());
        self.noise(&mut p, &m);
        self.any_end(&mut p, &m, img.len());
        Self::one(img, p)
    }

    fn c05(&mut self) -> Case {
        let img = match self.r.below(8) {
            0 => {
                // bulk: many small things in one list
                let n = *self.r.pick(&[2000usize, 20_000, 60_000]);
                let mut p = vec![];
                let k = self.r.below(17);
                if k >= 11 {
                    // one list (or body) deep inside a section
                    let mut body: Vec<u8> = vec![];
                    let id = match k {
                        11 => {
                            // br_table
                            body.extend([0, 0x0E]);
                            uleb_min(n as u64, &mut body);
                            body.extend(std::iter::repeat_n(0, n));
                            body.extend([0, 0x0B]);
                            10
                        }
                        12 => {
                            // typed select
                            body.extend([0, 0x1C]);
                            uleb_min(n as u64, &mut body);
                            body.extend(std::iter::repeat_n(0x7F, n));
                            body.push(0x0B);
                            10
                        }
                        13 => {
                            // straight-line code
                            body.push(0);
                            body.extend(std::iter::repeat_n(*self.r.pick(&[0x01u8, 0x1A, 0x6A]), n));
                            body.push(0x0B);
                            10
                        }
                        14 => {
                            // catch clauses
                            body.extend([0, 0x1F, 0x40]);
                            uleb_min(n as u64, &mut body);
                            body.extend([2u8, 0].repeat(n));
                            body.extend([0x0B, 0x0B]);
                            10
                        }
                        15 => {
                            body.push(0x5F);
                            uleb_min(n as u64, &mut body);
                            body.extend([0x7Fu8, 0].repeat(n));
                            1
                        }
                        _ => {
                            body.push(0x60);
                            uleb_min(n as u64, &mut body);
                            body.extend(std::iter::repeat_n(0x7F, n));
                            body.push(0);
                            1
                        }
                    };
                    p.push(1);
                    let mut o = b"\0asm\x01\0\0\0".to_vec();
                    if id == 10 {
                        o.extend([1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0]);
                        uleb_min(body.len() as u64, &mut p);
                    }
                    p.extend(body);
                    o.push(id);
                    uleb_min(p.len() as u64, &mut o);
                    o.extend(p);
                    return self.c05_end(o);
                }
                uleb_min(n as u64, &mut p);
                let (id, item): (u8, &[u8]) = match k {
                    0 => (5, &[0, 1]),
                    1 => (1, &[0x60, 0, 0]),
                    2 => (3, &[0]),
                    3 => (7, &[0, 0, 0]),
                    4 => (6, &[0x7F, 0, 0x41, 0, 0x0B]),
                    5 => (2, &[0, 0, 0, 0]),
                    6 => (4, &[0x70, 0, 0]),
                    7 => (13, &[0, 0]),
                    8 => (11, &[1, 0]),
                    9 => (1, &[0x4E, 0]),
                    _ => (9, &[1, 0, 0]),
                };
                for _ in 0..n {
                    p.extend(item);
                }
                let mut o = b"\0asm\x01\0\0\0".to_vec();
                o.push(id);
                uleb_min(p.len() as u64, &mut o);
                o.extend(p);
                o
            }
            1 => {
                let mut cfg = Cfg::swarm(self.r);
                cfg.large = 12;
                self.gen_image(cfg)
            }
            _ => self.swarm(),
        };
        self.c05_end(img)
    }
    fn c05_end(&mut self, mut img: Vec<u8>) -> Case {
        let kinds: &[FK] = &[FK::LenInflated, FK::LenInflated, FK::LenInflated, FK::FieldResealed, FK::BitFlip, FK::SizeSkew];
        for _ in 0..self.r.us(4) {
            self.strike(&mut img, kinds, None);
        }
        let m = self.trace(&img);
        let mut p = Plan::plain(0, img.len());
        p.chunk = self.chunk();
        p.lat = self.r.u64() >> 32;
        self.any_end(&mut p, &m, img.len());
        Self::one(img, p)
    }

    fn c06(&mut self) -> Case {
        let crowd = self.r.chance(1, 150);
        // each decode inside a read call of the one before
        let tower = self.r.chance(1, 60);
        let n = if let Some(n) = self.word(40, 33) {
            (n as usize).max(2)
        } else if crowd {
            *self.r.pick(&[12usize, 16, 17, 24, 33])
        } else if tower {
            *self.r.pick(&[4usize, 6, 9, 17, 33])
        } else if self.r.chance(1, 8) {
            5 + self.r.us(4)
        } else {
            2 + self.r.us(3)
        };
        // now and then every task is deep inside nested blocks at the same time
        let deep = if n < 10 && !tower && self.r.chance(1, 40) { *self.r.pick(&[20usize, 60, 130, 300, 520]) } else { 0 };
        let mut images = vec![];
        for _ in 0..1 + self.r.us(if deep > 0 { 1 } else { n.min(4) }) {
            let mut img = if deep > 0 {
                let mut cfg = Cfg::small(self.r);
                cfg.deep = deep;
                cfg.secs[3] = 16;
                cfg.secs[10] = 16;
                self.gen_image(cfg)
            } else if self.r.chance(1, 6) {
                self.swarm()
            } else {
                self.small()
            };
            self.maybe_damage(&mut img, 1, 6);
            // one read call, one scheduling decision: keep it affordable
            img.truncate(if n > 9 { 150 } else { 3000 });
            images.push(img);
        }
        let mut tasks = vec![];
        for t in 0..n {
            let k = self.r.us(images.len());
            let m = self.trace(&images[k]);
            let len = images[k].len();
            let mut p = Plan::plain(k, len);
            self.noise(&mut p, &m);
            if self.r.chance(1, 3) {
                self.any_end(&mut p, &m, len);
                if self.r.chance(1, 6) {
                    p.term = Term::Panic;
                }
            }
            if matches!(p.wrap, Wrap::Chain(_)) {
                p.wrap = Wrap::Direct;
            }
            if t > 0 && (tower || self.r.chance(1, 4)) {
                let host = if tower { t - 1 } else { self.r.us(t) };
                // one guest per host
                if !tasks.iter().any(|q: &Plan| q.inside.is_some_and(|i| i.0 == host)) {
                    let hl = images[tasks[host].img].len();
                    p.inside = Some((host, self.r.us(hl + 1)));
                }
            }
            tasks.push(p);
        }
        // allocations as scheduling points
        let stride = if self.r.chance(1, 2) { *self.r.pick(&[1u32, 1, 2, 5, 20]) } else { 0 };
        // edges of the control flow as well
        let gap = if self.r.chance(1, 3) { *self.r.pick(&[10u32, 40, 40, 200, 1000]) } else { 0 };
        Case { images, tasks, sched_seed: Some(self.r.u64() >> 8), variant: gap << 16 | stride << 8, ..Case::default() }
    }

    fn c07(&mut self) -> Case {
        let mut img = if self.r.chance(1, 30) {
            let mut cfg = Cfg::swarm(self.r);
            cfg.large = 12;
            self.gen_image(cfg)
        } else {
            self.swarm()
        };
        self.maybe_damage(&mut img, 2, 5);
        let m = self.trace(&img);
        let mut tasks = vec![];
        for _ in 0..3 {
            let mut p = Plan::plain(0, img.len());
            p.chunk = self.chunk();
            p.eintr = self.eintr(&m, img.len());
            p.lat = self.r.u64() >> 32;
            self.any_end(&mut p, &m, img.len());
            tasks.push(p);
        }
        Case { images: vec![img], tasks, ..Case::default() }
    }

    fn c08(&mut self) -> Case {
        let mut img = self.swarm();
        let kinds: &[FK] = &[
            FK::SizeSkew, FK::SizeSkew, FK::EntrySkew, FK::EntrySkew, FK::FieldRewrite, FK::LostBlock, FK::DupBlock,
            FK::GarbageTail, FK::SecLost, FK::LenInflated, FK::CustomInserted, FK::FieldResealed,
        ];
        let roles: &[Role] = &[Role::ListLen, Role::EntrySize, Role::SecSize, Role::BlobLen, Role::NameLen, Role::Count, Role::LocalCount];
        if self.r.chance(1, 12) {
            self.surplus(&mut img);
        } else if !self.r.chance(1, 10) {
            self.strike(&mut img, kinds, Some(roles));
            if self.r.chance(1, 5) {
                self.strike(&mut img, kinds, Some(roles));
            }
        }
        let p = self.mild(&img);
        Self::one(img, p)
    }
    /// A block repeated or inserted at the end of a section or code entry, and
    /// every size around it made to match.
    fn surplus(&mut self, img: &mut Vec<u8>) {
        let m = self.trace(img);
        let mut pool: Vec<_> = m.frames.iter().filter(|f| f.end <= img.len() && f.id != 0).copied().collect();
        if self.r.chance(1, 2) && pool.iter().any(|f| f.level > 0) {
            pool.retain(|f| f.level > 0);
        }
        if pool.is_empty() {
            return;
        }
        let f = *self.r.pick(&pool);
        let n = if let Some(n) = self.word(2, 200_000) {
            n as usize
        } else if self.r.chance(1, 40) {
            *self.r.pick(&[65_535usize, 65_536, 65_537, 131_072, 196_608])
        } else {
            *self.r.pick(&[1usize, 2, 64, 127, 128, 129, 255, 256, 257, 512, 1024, 4096, 16384])
        };
        let block: Vec<u8> = match self.r.below(5) {
            0 => vec![0; n],
            1 => vec![0x0B; n],
            // an empty function body, an empty custom section, over and over
            2 => [2u8, 0, 0x0B].iter().copied().cycle().take(n).collect(),
            3 => [0u8, 1, 0].iter().copied().cycle().take(n).collect(),
            _ => self.r.bytes(n),
        };
        let frames: Vec<_> = m.frames.iter().filter(|g| g.level <= f.level).copied().collect();
        faults::splice_resealed(img, &frames, f.end, 0, &block);
        self.struck[FK::DupBlock as usize] += 1;
        self.notes.push(format!("block-duplicated: {n} bytes at the end of the frame at {}, sizes adjusted", f.head));
        self.tags.push(Tag { fk: FK::DupBlock as u8, role: Role::Blob as u8, sec: f.id });
    }

    fn c09(&mut self) -> Case {
        let mut cfg = Cfg::swarm(self.r);
        cfg.max_list = cfg.max_list.min(2);
        cfg.ninstr = cfg.ninstr.min(3);
        cfg.large = 0;
        if self.r.chance(1, 2) {
            cfg.secs = [12; 14];
        }
        let mut img = self.gen_image(cfg);
        let kinds: &[FK] = &[
            FK::SecDup, FK::SecDup, FK::SecMoved, FK::SecMoved, FK::SecMoved, FK::SecAlien, FK::SecAlien, FK::SecLost,
            FK::CustomInserted, FK::FieldRewrite,
        ];
        for _ in 0..self.r.us(4) {
            self.strike(&mut img, kinds, Some(&[Role::SecId]));
        }
        let p = self.mild(&img);
        Self::one(img, p)
    }

    fn c10(&mut self) -> Case {
        let mut cfg = Cfg::swarm(self.r);
        for id in [3, 10, 11, 12] {
            cfg.secs[id] = *self.r.pick(&[0u8, 8, 16, 16]);
        }
        for id in [1, 2, 4, 5, 6, 7, 8, 9, 13] {
            cfg.secs[id] = cfg.secs[id].min(3);
        }
        cfg.large = if self.r.chance(1, 20) { 3 } else { 0 };
        cfg.max_funcs = *self.r.pick(&[0usize, 1, 2, 4, 9]);
        cfg.data_idx = *self.r.pick(&[DataIdx::Never, DataIdx::One, DataIdx::One, DataIdx::Free]);
        let mut img = self.gen_image(cfg);
        let mut m = self.trace(&img);
        for _ in 0..self.r.us(3) {
            // lose, empty or renumber one of the four sections that must agree
            let pool: Vec<_> = m
                .frames
                .iter()
                .filter(|f| f.level == 0 && matches!(f.id, 3 | 10 | 11 | 12) && f.end <= img.len())
                .copied()
                .collect();
            if pool.is_empty() {
                break;
            }
            let f = *self.r.pick(&pool);
            let name = model::KIND_NAMES[f.id as usize];
            let fk = match self.r.below(4) {
                0 | 1 => {
                    img.drain(f.head..f.end);
                    self.notes.push(format!("section-lost: {name} section at {}", f.head));
                    FK::SecLost
                }
                2 => {
                    let b = vec![f.id, 1, 0];
                    img.splice(f.head..f.end, b);
                    self.notes.push(format!("field-rewrite-resealed: {name} section at {} emptied", f.head));
                    FK::FieldResealed
                }
                _ => {
                    let roles: &[Role] = &[Role::ListLen, Role::Count];
                    let kinds: &[FK] = &[FK::FieldResealed, FK::BitFlip, FK::DupBlock];
                    self.strike(&mut img, kinds, Some(roles));
                    m = self.trace(&img);
                    continue;
                }
            };
            self.struck[fk as usize] += 1;
            self.tags.push(Tag { fk: fk as u8, role: 255, sec: f.id });
            m = self.trace(&img);
        }
        let p = self.mild(&img);
        Self::one(img, p)
    }

    fn c11(&mut self) -> Case {
        let mut img = self.swarm();
        let plain = self.r.chance(1, 6);
        if plain || self.r.chance(1, 6) {
            self.reshaped(&mut img, false);
        }
        for _ in 0..if plain { 0 } else { 1 + self.r.us(3) } {
            self.strike(&mut img, &ALL_FK, None);
        }
        let p = self.mild(&img);
        Self::one(img, p)
    }

    /// Intact images; the only faults are those delivery must hide.
    fn c19(&mut self, i: u64) -> Case {
        // every kind of long list, at every size, in turn
        const EVERY: u64 = 6007;
        if i % EVERY == 7 {
            let img = image::huge(self.r, true, Some(i / EVERY));
            let m = self.trace(&img);
            let mut p = Plan::plain(0, img.len());
            self.noise(&mut p, &m);
            return Self::one(img, p);
        }
        let mut cfg = Cfg::swarm(self.r);
        if self.r.chance(1, 3) {
            cfg.secs = [12; 14];
        }
        if self.r.chance(1, 8) {
            cfg.secs[3] = 16;
            cfg.secs[10] = 16;
            cfg.ninstr = 60;
        }
        if self.r.chance(1, 50) {
            cfg.large = 12;
        }
        let mut img = self.gen_image(cfg);
        while self.r.chance(1, 4) {
            self.reshaped(&mut img, true);
        }
        let m = self.trace(&img);
        let mut p = Plan::plain(0, img.len());
        self.noise(&mut p, &m);
        Self::one(img, p)
    }

    fn c20(&mut self) -> Case {
        let mut img = self.swarm();
        let kinds: &[FK] = &[FK::FieldRewrite, FK::FieldResealed, FK::BitFlip, FK::SetByte, FK::SecAlien, FK::ZeroBlock];
        let roles: &[Role] = &[Role::Marker, Role::ValType, Role::HeapType, Role::LimFlag, Role::SecId];
        self.strike(&mut img, kinds, Some(roles));
        if self.r.chance(1, 6) {
            self.strike(&mut img, &ALL_FK, None);
        }
        let p = self.mild(&img);
        Self::one(img, p)
    }

    fn c12(&mut self) -> Case {
        let mut cfg = Cfg::swarm(self.r);
        cfg.extreme = *self.r.pick(&[1u8, 6, 12]);
        if self.r.chance(1, 2) {
            // numeric-heavy images: constants, memory arguments, limits, names
            cfg.family = *self.r.pick(&[1u8, 0xFD, 0]);
            cfg.ninstr = 20;
        }
        let mut img = self.gen_image(cfg);
        let kinds: &[FK] =
            &[FK::FieldResealed, FK::FieldResealed, FK::FieldResealed, FK::FieldRewrite, FK::BitFlip, FK::SetByte];
        let m = self.trace(&img);
        // balance the roles: small rare fields matter as much as frequent ones
        let mut present: Vec<Role> = INT_ROLES.iter().copied().filter(|x| m.fields.iter().any(|f| f.role == *x)).collect();
        if present.is_empty() {
            present = INT_ROLES.to_vec();
        }
        for _ in 0..self.r.us(3) {
            let role = [*self.r.pick(&present)];
            self.strike(&mut img, kinds, Some(&role));
        }
        let p = self.mild(&img);
        Self::one(img, p)
    }

    fn c13(&mut self) -> Case {
        let mut cfg = Cfg::swarm(self.r);
        for id in [1, 2, 4, 5, 7, 8, 13] {
            cfg.secs[id] = cfg.secs[id].min(2);
        }
        cfg.secs[10] = 16;
        cfg.secs[3] = 16;
        cfg.ninstr = *self.r.pick(&[3usize, 10, 25, 40]);
        cfg.custom = 0;
        if self.r.chance(1, 40) {
            cfg.deep = *self.r.pick(&[20usize, 200, 1000]);
        }
        let mut img = self.gen_image(cfg);
        if self.r.chance(1, 6) {
            self.reshaped(&mut img, false);
        }
        let kinds: &[FK] = &[
            FK::FieldResealed, FK::FieldResealed, FK::FieldRewrite, FK::BitFlip, FK::SetByte, FK::LostBlock,
            FK::DupBlock, FK::SwapBlocks,
        ];
        let m = self.trace(&img);
        let mut present: Vec<Role> =
            INSTR_ROLES.iter().copied().filter(|x| m.fields.iter().any(|f| f.role == *x && f.sec >= 4)).collect();
        if present.is_empty() {
            present = INSTR_ROLES.to_vec();
        }
        for _ in 0..self.r.us(3) {
            let role = [*self.r.pick(&present)];
            self.strike(&mut img, kinds, Some(&role));
        }
        let p = self.mild(&img);
        Self::one(img, p)
    }

    fn c14(&mut self) -> Case {
        let mut img = self.swarm();
        if self.r.chance(1, 8) {
            self.reshaped(&mut img, false);
        }
        let m0 = self.trace(&img);
        let mut p = self.mild(&img);
        if self.r.chance(2, 3) {
            for _ in 0..1 + self.r.us(2) {
                self.strike(&mut img, &ALL_FK, None);
            }
            p.end = img.len();
        } else {
            p.end = self.place(&m0, img.len());
            if self.r.chance(1, 2) {
                p.term = Term::Fail(Fail { form: Form::Custom, code: self.r.us(KINDS.len()) as u16, sticky: true });
            }
        }
        Self::one(img, p)
    }

    /// One fault in one field, kinds of fields and sections alike likely; or
    /// the stream breaks there.
    fn c21(&mut self) -> Case {
        let mut img = if self.r.chance(1, 6) { self.small() } else { self.swarm() };
        let m = self.trace(&img);
        let mut p = self.mild(&img);
        let mut pool: Vec<_> = m.fields.iter().filter(|f| f.len > 0).copied().collect();
        if self.r.chance(2, 3) {
            // which kind of field first, then which one
            let mut kinds: Vec<_> = pool.iter().map(|f| (f.sec, f.role as u8)).collect();
            kinds.sort();
            kinds.dedup();
            if !kinds.is_empty() {
                let k = *self.r.pick(&kinds);
                pool.retain(|f| (f.sec, f.role as u8) == k);
            }
        }
        if pool.is_empty() {
            return Self::one(img, p);
        }
        let f = *self.r.pick(&pool);
        match self.r.below(8) {
            0 | 1 => p.end = f.off + self.r.us(f.len),
            2 | 3 => {
                p.end = f.off + self.r.us(f.len);
                p.term = Term::Fail(Fail { form: Form::Custom, code: self.r.us(KINDS.len()) as u16, sticky: true });
            }
            _ => {
                let new = match self.r.below(4) {
                    // no integer, no byte of any enumeration
                    0 => vec![0xFF; 11],
                    _ => faults::mutate(self.r, f.role, &img[f.off..f.off + f.len]),
                };
                faults::splice_resealed(&mut img, &m.frames, f.off, f.len, &new);
                p.end = img.len();
                self.struck[FK::FieldResealed as usize] += 1;
                self.notes.push(format!("field-rewrite-resealed: bytes {}..{}", f.off, f.off + f.len));
                self.tags.push(Tag { fk: FK::FieldResealed as u8, role: f.role as u8, sec: f.sec });
            }
        }
        Self::one(img, p)
    }

    /// Damage, and a sender that stalls (or breaks) right behind it.
    fn c23(&mut self) -> Case {
        let mut img = if self.r.chance(1, 4) { self.small() } else { self.swarm() };
        for _ in 0..1 + self.r.us(2) {
            self.strike(&mut img, &ALL_FK, None);
        }
        let m = self.trace(&img);
        let mut p = Plan::plain(0, img.len());
        self.noise(&mut p, &m);
        if self.r.chance(3, 4) {
            p.wrap = Wrap::Direct;
        }
        if let Wrap::Buf(_) = p.wrap {
            // (that one reads ahead itself)
            p.wrap = Wrap::Direct;
        }
        let (more, len) = (if self.r.chance(2, 3) { 0 } else { self.r.us(4) }, img.len());
        p.end = match &m.res {
            Err(e) => (e.off + more).min(len),
            Ok(_) => self.place(&m, len),
        };
        if let Wrap::Chain(at) = &mut p.wrap {
            *at = (*at).min(p.end as u32);
        }
        p.term = if self.r.chance(1, 2) { Term::Panic } else { Term::Fail(self.fail()) };
        Self::one(img, p)
    }

    /// Two copies of an image, one of them with damage that leaves it well-formed.
    /// An edit that changes the shape of something: an optional part appears or
    /// vanishes, an element or instruction is added, dropped or swapped with the
    /// next, another form of the same construct is used.
    fn reshape(&mut self, a: &[u8], m: &MOut) -> Option<(usize, usize, Vec<u8>)> {
        let f = &m.fields;
        let n = f.len();
        if n < 3 {
            return None;
        }
        let extreme = |r: &mut Rng| *r.pick(&[0u64, 1, 2, 127, 128, 65_535, 65_536, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX]);
        let bytes = |i: usize| a[f[i].off..f[i].off + f[i].len].to_vec();
        let number = |i: usize| bytes(i).iter().rev().fold(0u128, |v, b| v << 7 | (*b & 0x7F) as u128) as u64;
        let pick = |r: &mut Rng, roles: &[Role]| {
            let pool: Vec<usize> = (0..n).filter(|i| roles.contains(&f[*i].role)).collect();
            if pool.is_empty() { None } else { Some(*r.pick(&pool)) }
        };
        match self.r.below(9) {
            0 => {
                // limits with or without a maximum
                let i = pick(self.r, &[Role::LimFlag])?;
                if i + 1 >= n {
                    return None;
                }
                let has = i + 2 < n && f[i + 2].role == Role::LimVal;
                let mut o = vec![a[f[i].off] ^ 1];
                o.extend(bytes(i + 1));
                let k = if has { 2 } else { 1 };
                if !has {
                    let v = if self.r.chance(1, 4) { number(i + 1) } else { extreme(self.r) };
                    uleb_min(v, &mut o);
                }
                let end = f[i + k].off + f[i + k].len;
                Some((f[i].off, end - f[i].off, o))
            }
            1 => {
                // an instruction more, or an else
                let i = pick(self.r, &[Role::Opcode])?;
                let o = self.r.pick(&[&[0x01u8][..], &[0x00], &[0x05], &[0x1A], &[0x1B], &[0x02, 0x40, 0x0B], &[0x04, 0x40, 0x05, 0x0B], &[0x0C, 0], &[0xD1]]).to_vec();
                Some((f[i].off, 0, o))
            }
            2 => {
                // an instruction less
                let i = pick(self.r, &[Role::Opcode])?;
                let j = (i + 1..n).find(|j| f[*j].role == Role::Opcode)?;
                Some((f[i].off, f[j].off.checked_sub(f[i].off)?, vec![]))
            }
            3 => {
                // neighbours swapped
                let i = self.r.us(n);
                let j = (i + 1..n.min(i + 9)).find(|j| f[*j].role == f[i].role)?;
                let k = (j + 1..n.min(j + 9)).find(|k| f[*k].role == f[i].role).unwrap_or(j + 1);
                let end = if k < n && f[k].role == f[i].role { f[k].off } else { f[j].off + f[j].len };
                let mut o = a.get(f[j].off..end)?.to_vec();
                o.extend(a.get(f[i].off..f[j].off)?);
                Some((f[i].off, end - f[i].off, o))
            }
            4 | 5 => {
                // one element more (a copy) or less
                let i = pick(self.r, &[Role::ListLen])?;
                let k = 1 + self.r.us(5);
                if i + k >= n || number(i) > 1 << 20 {
                    return None;
                }
                let end = f[i + k].off + f[i + k].len;
                let body = a.get(f[i + 1].off..end)?;
                let mut o = vec![];
                if self.r.chance(1, 2) {
                    uleb_min(number(i) + 1, &mut o);
                    o.extend(body);
                    o.extend(body);
                } else {
                    uleb_min(number(i).checked_sub(1)?, &mut o);
                }
                Some((f[i].off, end - f[i].off, o))
            }
            6 => {
                // text or bytes at either end of a name, a segment or contents
                let i = pick(self.r, &[Role::NameBytes, Role::Blob, Role::Contents])?;
                let mut b = bytes(i);
                let x = self.r.pick(&["\0", " ", "\u{feff}", "\u{301}", "\u{200b}", "\u{200d}", "\n", "\"", "\\", "a", "A", "\u{7f}", "\u{85}", "\u{fffd}", "\u{e9}", "e\u{301}"]).as_bytes().to_vec();
                match self.r.below(5) {
                    0 => b.splice(0..0, x).for_each(drop),
                    1 | 2 => b.extend(x),
                    3 => b.truncate(b.len().saturating_sub(1)),
                    _ => {
                        // upper against lower case, one kind of normal form against another
                        for c in &mut b {
                            if c.is_ascii_alphabetic() && self.r.chance(1, 2) {
                                *c ^= 0x20;
                            }
                        }
                    }
                }
                let mut o = vec![];
                if f[i].role == Role::Contents {
                    return Some((f[i].off, f[i].len, b));
                }
                uleb_min(b.len() as u64, &mut o);
                o.extend(b);
                Some((f[i.checked_sub(1)?].off, f[i - 1].len + f[i].len, o))
            }
            7 => {
                // another form of the same construct, or of a similar one
                let i = self.r.us(n);
                let b = bytes(i);
                let o = match (f[i].role, &b[..]) {
                    (Role::Opcode, [0x1B]) => vec![0x1C, 0],
                    (Role::Flags, [0]) => self.r.pick(&[&[2u8, 0][..], &[1], &[4]]).to_vec(),
                    (Role::Flags, [1]) => vec![*self.r.pick(&[3u8, 0, 5])],
                    (Role::Flags, [3]) => vec![*self.r.pick(&[1u8, 7])],
                    (Role::MemAlign, [x @ 0..64]) => vec![x | 64, *self.r.pick(&[0u8, 0, 1])],
                    (Role::Marker, [0x60 | 0x5F | 0x5E]) => [self.r.pick(&[&[0x4Fu8, 0][..], &[0x50, 0], &[0x4E, 1], &[0x50, 1, 0]]), &b[..]].concat(),
                    (Role::ValType | Role::HeapType | Role::Marker, [x @ 0x69..=0x74]) => vec![*self.r.pick(&[0x63u8, 0x64]), *x],
                    (Role::LocalCount, _) if i > 0 && f[i - 1].role == Role::ListLen && number(i) > 0 && i + 1 < n => {
                        // the first group of locals in two
                        let k = self.r.below(number(i).min(100_000) + 1);
                        let mut o = vec![];
                        uleb_min(number(i - 1) + 1, &mut o);
                        uleb_min(k, &mut o);
                        o.extend(bytes(i + 1));
                        uleb_min(number(i) - k, &mut o);
                        return Some((f[i - 1].off, f[i].off + f[i].len - f[i - 1].off, o));
                    }
                    _ => return None,
                };
                Some((f[i].off, f[i].len, o))
            }
            _ => {
                // an extreme number
                let i = pick(self.r, &[Role::LimVal, Role::MemOff, Role::Index, Role::LocalCount, Role::MemAlign])?;
                let mut o = vec![];
                let v = extreme(self.r);
                uleb_min(if matches!(f[i].role, Role::LimVal | Role::MemOff) { v } else { v & 0xFFFF_FFFF }, &mut o);
                Some((f[i].off, f[i].len, o))
            }
        }
    }

    fn reshaped(&mut self, img: &mut Vec<u8>, valid: bool) {
        if img.len() > 200_000 {
            return;
        }
        let m = self.trace(img);
        for _ in 0..4 {
            let Some((off, len, new)) = self.reshape(img, &m) else { continue };
            let mut x = img.clone();
            faults::splice_resealed(&mut x, &m.frames, off, len, &new);
            if valid && model::run(&x, x.len(), false, false).res.is_err() {
                continue;
            }
            *img = x;
            if !valid {
                self.struck[FK::FieldResealed as usize] += 1;
                self.notes.push(format!("field-rewrite-resealed: bytes {off}..{} reshaped", off + len));
            }
            return;
        }
    }

    /// What ends one component begins the next: the two copies consist of the same
    /// parts in the same order, only the boundary between two neighbours differs.
    /// Gives a stretch of the image and what the copies have in its place.
    fn shift(&mut self, a: &[u8], m: &MOut) -> Option<(usize, usize, Vec<u8>, Vec<u8>)> {
        let f = &m.fields;
        let n = f.len();
        let bytes = |i: usize| &a[f[i].off..f[i].off + f[i].len];
        let number = |i: usize| bytes(i).iter().rev().fold(0u128, |v, b| v << 7 | (*b & 0x7F) as u128) as u64;
        let pick = |r: &mut Rng, ok: &dyn Fn(usize) -> bool| {
            let pool: Vec<usize> = (0..n).filter(|i| ok(*i)).collect();
            if pool.is_empty() { None } else { Some(*r.pick(&pool)) }
        };
        let vec = |parts: &[&[u8]], o: &mut Vec<u8>| {
            uleb_min(parts.iter().map(|p| p.len() as u64).sum(), o);
            parts.iter().for_each(|p| o.extend(*p));
        };
        match self.r.below(4) {
            0 | 1 => {
                // two names, or a name and contents
                let i = pick(self.r, &|i| {
                    f[i].role == Role::NameLen && i + 2 < n && f[i + 1].role == Role::NameBytes && (f[i + 2].role == Role::Contents || i + 3 < n && f[i + 3].role == Role::NameBytes && f[i + 2].role == Role::NameLen)
                })?;
                let two = f[i + 2].role == Role::NameLen;
                let last = i + if two { 3 } else { 2 };
                if last >= n || f[last].off + f[last].len - f[i].off > 4000 {
                    return None;
                }
                let sep = self.r.pick(&["", "", ".", "/", ":", "::", "\0", " ", "#", ",", "-", "_", "\n", "@", "$", "|"]).as_bytes();
                let mid = self.r.pick(&["", "a", "x", "0", "é"]).as_bytes();
                let (x, z) = (bytes(i + 1), bytes(last));
                let (mut o, mut p) = (vec![], vec![]);
                vec(&[x, sep, mid], &mut o);
                vec(&[x], &mut p);
                if two {
                    vec(&[z], &mut o);
                    vec(&[mid, sep, z], &mut p);
                } else {
                    o.extend(z);
                    p.extend([mid, sep, z].concat());
                }
                Some((f[i].off, f[last].off + f[last].len - f[i].off, o, p))
            }
            2 => {
                // parameters and results; members of a recursive group
                let i = pick(self.r, &|i| f[i].role == Role::Marker && f[i].sec == 1 && matches!(bytes(i), [0x60] | [0x4E]))?;
                if i + 1 >= n || f[i + 1].role != Role::ListLen {
                    return None;
                }
                let k = number(i + 1);
                if bytes(i) == [0x4E] {
                    let l = f.iter().position(|x| x.sec == 1 && x.role == Role::ListLen)?;
                    let mut o = vec![];
                    uleb_min(number(l) + k.checked_sub(1)?, &mut o);
                    o.extend(a.get(f[l].off + f[l].len..f[i].off)?);
                    let end = f[i + 1].off + f[i + 1].len;
                    return Some((f[l].off, end - f[l].off, a[f[l].off..end].to_vec(), o));
                }
                // (a value type is one field or two)
                let next = |mut at: usize| -> Option<usize> {
                    if number(at) > 100_000 {
                        return None;
                    }
                    for _ in 0..number(at) {
                        let j = at + 1;
                        at = if j < n && matches!(bytes(j), [0x63 | 0x64]) { j + 1 } else { j };
                    }
                    (at + 1 <= n).then_some(at + 1)
                };
                let j = next(i + 1)?;
                if j >= n || f[j].role != Role::ListLen {
                    return None;
                }
                let e = next(j)?.min(n) - 1;
                let (p, r) = (number(i + 1), number(j));
                let end = f[e].off + f[e].len;
                if end < f[j].off + f[j].len {
                    return None;
                }
                let mut o = vec![];
                if r > 0 && (p == 0 || self.r.chance(1, 2)) {
                    // the first result becomes a parameter
                    let one = if j + 1 < n && matches!(bytes(j + 1), [0x63 | 0x64]) { 2 } else { 1 };
                    if j + one >= n {
                        return None;
                    }
                    uleb_min(p + 1, &mut o);
                    o.extend(a.get(f[i + 1].off + f[i + 1].len..f[j].off)?);
                    let cut = f[j + one].off + f[j + one].len;
                    if cut > end {
                        return None;
                    }
                    o.extend(a.get(f[j].off + f[j].len..cut)?);
                    uleb_min(r - 1, &mut o);
                    o.extend(a.get(cut..end)?);
                } else {
                    // all parameters become results
                    uleb_min(0, &mut o);
                    uleb_min(p + r, &mut o);
                    o.extend(a.get(f[i + 1].off + f[i + 1].len..f[j].off)?);
                    o.extend(a.get(f[j].off + f[j].len..end)?);
                }
                Some((f[i + 1].off, end - f[i + 1].off, a[f[i + 1].off..end].to_vec(), o))
            }
            _ => {
                // an instruction moves out of the block before it, or into it
                let i = pick(self.r, &|i| f[i].role == Role::Opcode && matches!(bytes(i), [0x0B] | [0x05]))?;
                let j = (i + 1..n).find(|j| f[*j].role == Role::Opcode)?;
                let (from, mid) = (f[i].off, f[j].off);
                let end = match self.r.below(2) {
                    0 => f[(j + 1..n).find(|k| f[*k].role == Role::Opcode)?].off,
                    _ => {
                        let h = (0..i).rev().find(|h| f[*h].role == Role::Opcode)?;
                        let o = [a.get(from..mid)?, a.get(f[h].off..from)?].concat();
                        return Some((f[h].off, mid - f[h].off, a[f[h].off..mid].to_vec(), o));
                    }
                };
                let o = [a.get(mid..end)?, a.get(from..mid)?].concat();
                Some((from, end - from, a[from..end].to_vec(), o))
            }
        }
    }

    fn c22(&mut self) -> Case {
        let mut cfg = if self.r.chance(1, 4) { Cfg::small(self.r) } else { Cfg::swarm(self.r) };
        cfg.deep = cfg.deep.min(40);
        if self.r.chance(29, 30) {
            cfg.large = 0;
        }
        let mut a = self.gen_image(cfg);
        let mut m = self.trace(&a);
        let mut b = a.clone();
        let mut tries = if self.r.chance(1, 4) { 8 } else { 0 };
        while tries > 0 {
            tries -= 1;
            let Some((off, len, o, p)) = self.shift(&a, &m) else { continue };
            let (mut x, mut y) = (a.clone(), a.clone());
            faults::splice_resealed(&mut x, &m.frames, off, len, &o);
            faults::splice_resealed(&mut y, &m.frames, off, len, &p);
            if x != y && model::run(&x, x.len(), false, false).res.is_ok() && model::run(&y, y.len(), false, false).res.is_ok() {
                m = self.trace(&x);
                (a, b) = (x, y);
                self.struck[FK::FieldResealed as usize] += 1;
                self.notes.push(format!("field-rewrite-resealed: bytes {off}..{} with a boundary moved", off + len));
                break;
            }
        }
        if a == b && self.r.chance(7, 8) {
            let mut kinds: Vec<_> = m.fields.iter().map(|f| (f.sec, f.role as u8)).collect();
            kinds.sort();
            kinds.dedup();
            for _ in 0..12 {
                if kinds.is_empty() {
                    break;
                }
                let k = *self.r.pick(&kinds);
                let pool: Vec<_> = m.fields.iter().filter(|f| (f.sec, f.role as u8) == k).collect();
                let f = **self.r.pick(&pool);
                let mut x = a.clone();
                let old = &a[f.off..f.off + f.len];
                if self.r.chance(1, 2) {
                    let Some((off, len, new)) = self.reshape(&a, &m) else { continue };
                    faults::splice_resealed(&mut x, &m.frames, off, len, &new);
                    if x != a && model::run(&x, x.len(), false, false).res.is_ok() {
                        b = x;
                        self.struck[FK::FieldResealed as usize] += 1;
                        self.notes.push(format!("field-rewrite-resealed: bytes {off}..{} reshaped", off + len));
                        self.tags.push(Tag { fk: FK::FieldResealed as u8, role: f.role as u8, sec: f.sec });
                        break;
                    }
                    continue;
                }
                let new = match self.r.below(3) {
                    0 if f.len > 0 => {
                        let mut n = old.to_vec();
                        let i = self.r.us(n.len());
                        n[i] ^= 1 << self.r.below(8);
                        n
                    }
                    _ => faults::mutate(self.r, f.role, old),
                };
                faults::splice_resealed(&mut x, &m.frames, f.off, f.len, &new);
                if x != a && model::run(&x, x.len(), false, false).res.is_ok() {
                    b = x;
                    self.struck[FK::FieldResealed as usize] += 1;
                    self.notes.push(format!("field-rewrite-resealed: bytes {}..{}", f.off, f.off + f.len));
                    self.tags.push(Tag { fk: FK::FieldResealed as u8, role: f.role as u8, sec: f.sec });
                    break;
                }
            }
        }
        let mut p = Plan::plain(0, a.len());
        if self.r.chance(1, 4) {
            self.noise(&mut p, &m);
            p.wrap = Wrap::Direct;
        }
        let mut q = Plan::plain(1, b.len());
        q.lat = self.r.u64() >> 32;
        if self.r.chance(1, 4) {
            let m = self.trace(&b);
            self.noise(&mut q, &m);
            q.wrap = Wrap::Direct;
        }
        Case { images: vec![a, b], tasks: vec![p, q], ..Case::default() }
    }

    fn c15(&mut self) -> Case {
        let mut cfg = Cfg::swarm(self.r);
        cfg.custom = 0;
        cfg.max_list = cfg.max_list.min(3);
        cfg.ninstr = cfg.ninstr.min(6);
        cfg.large = 0;
        let bare = Gen::new(self.r, cfg.clone()).sections();
        let mut with = vec![];
        let count = self.word(60, 2000);
        let many = if count.is_some() || self.r.chance(1, 250) { self.r.us(bare.0.len() + 1) } else { usize::MAX };
        for k in 0..=bare.0.len() {
            self.customs(&mut with);
            if k == many {
                let n = *self.r.pick(&[20u64, 70, 130, 260, 300, 1030]);
                for _ in 0..count.unwrap_or(n) {
                    let mut p = vec![1, b'a' + self.r.below(26) as u8];
                    let n = self.r.us(4);
                    p.extend(self.r.bytes(n));
                    with.push((0, p));
                }
            }
            if let Some(s) = bare.0.get(k) {
                with.push((s.0, s.1.clone()));
            }
        }
        cfg.pad = *self.r.pick(&[0u8, 8]);
        let w = Gen::new(self.r, cfg).assemble(&Sections(with));
        let mut img = w;
        // damage custom sections only
        for _ in 0..self.r.us(3) {
            let m = self.trace(&img);
            let pool: Vec<_> =
                m.fields.iter().filter(|f| f.sec == 0 && f.len > 0).copied().collect();
            if pool.is_empty() {
                break;
            }
            let f = *self.r.pick(&pool);
            let (fk, text) = match self.r.below(3) {
                0 => {
                    let k = f.off + self.r.us(f.len);
                    let bit = self.r.below(8);
                    img[k] ^= 1 << bit;
                    (FK::BitFlip, format!("bit-flip: bit {bit} of byte {k}"))
                }
                1 => {
                    img[f.off..f.off + f.len].fill(0);
                    (FK::ZeroBlock, format!("zeroed-block: bytes {}..{}", f.off, f.off + f.len))
                }
                _ => {
                    let new = faults::mutate(self.r, f.role, &img[f.off..f.off + f.len]);
                    faults::splice_resealed(&mut img, &m.frames, f.off, f.len, &new);
                    (FK::FieldResealed, format!("field-rewrite-resealed: bytes {}..{}", f.off, f.off + f.len))
                }
            };
            self.struck[fk as usize] += 1;
            self.notes.push(text);
            self.tags.push(Tag { fk: fk as u8, role: f.role as u8, sec: 0 });
        }
        let m = self.trace(&img);
        let mut p = self.mild(&img);
        if self.r.chance(1, 8) {
            // cut inside a custom section
            if let Some(f) = m.frames.iter().find(|f| f.id == 0 && f.level == 0) {
                p.end = (f.head + self.r.us(f.end.saturating_sub(f.head) + 1)).min(img.len());
            }
        }
        Self::one(img, p)
    }
    fn customs(&mut self, out: &mut Vec<(u8, Vec<u8>)>) {
        while self.r.chance(2, 5) {
            let mut p = vec![];
            let mut special = String::new();
            let long;
            let listed = self.dict().filter(|d| !d.strs.is_empty()).filter(|_| self.r.chance(1, 3));
            let length = self.word(8, 2000);
            let name: &[u8] = match self.r.below(10) {
                _ if listed.is_some() => self.r.pick(&listed.unwrap().strs).as_bytes(),
                _ if length.is_some() => {
                    long = vec![b'n'; length.unwrap() as usize];
                    &long
                }
                0 => b"",
                1 | 2 => b"name",
                3 => b"producers",
                4 => b"target_features",
                5 => b".debug_info",
                6 => "\u{1F980}\u{e9}".as_bytes(),
                7 | 8 => {
                    for _ in 0..1 + self.r.us(4) {
                        let c = if self.r.chance(1, 2) {
                            *self.r.pick(crate::image::SPECIAL_CHARS)
                        } else {
                            self.r.range(0x20, 0x7E) as u32
                        };
                        special.extend(char::from_u32(c));
                    }
                    special.as_bytes()
                }
                _ => {
                    if self.r.chance(1, 400) {
                        long = vec![b'n'; *self.r.pick(&[4096usize, 10_000, 65_535, 65_536, 70_000, 131_072])];
                        &long
                    } else {
                        self.r.pick(crate::image::CUSTOM_NAMES).as_bytes()
                    }
                }
            };
            uleb_min(name.len() as u64, &mut p);
            p.extend(name);
            let n = match self.word(6, 70_000) {
                Some(n) if n < 3000 || self.r.chance(1, 20) => n as usize,
                _ => usize::MAX,
            };
            let n = match self.r.below(8) {
                _ if n < usize::MAX => n,
                0 => 0,
                1 => *self.r.pick(&[31usize, 32, 33, 127, 128, 511, 512, 513, 1023, 1024, 1025, 8192, 8193, 20000]),
                2 if self.r.chance(1, 4000) => *self.r.pick(&[1_048_575usize, 1_048_576, 1_048_577, 2_000_000]),
                2 if self.r.chance(1, 50) => *self.r.pick(&[65535usize, 65536, 65537, 131_072, 200_000, 400_000]),
                _ => self.r.us(50),
            };
            match self.r.below(4) {
                // contents that look like something else
                0 => p.extend([10u8, 1, 0, 0xFF, 0x80, 0x80, 0x80, 0x80, 0x80].iter().cycle().take(n)),
                1 => p.extend(b"\0asm\x01\0\0\0\x01\x04\x01\x60\0\0".iter().cycle().take(n)),
                _ => {
                    let b = self.r.bytes(n);
                    p.extend(b);
                }
            }
            out.push((0, p));
            if self.r.chance(1, 8) {
                let p = out.last().unwrap().1.clone();
                out.push((0, p));
            }
        }
    }

    fn wplan(&mut self, fails: bool) -> WPlan {
        let mut w = WPlan::default();
        if self.r.chance(1, 3) {
            w.seed = self.r.u64() >> 40;
            w.max = *self.r.pick(&[1u32, 2, 7, 40, 1000]);
        }
        if self.r.chance(1, 4) {
            w.eintr = *self.r.pick(&[2u32, 3, 5]);
        }
        if fails {
            let at = match self.r.below(4) {
                _ if self.hint && self.r.chance(1, 3) => self.word(1, 20_000).unwrap_or(0),
                0 => 0,
                1 => self.r.below(30),
                2 => self.r.below(800),
                _ => self.r.below(20_000),
            };
            // ENOSPC, EIO, EPIPE, a write that accepts nothing
            w.fail = Some((at, *self.r.pick(&[28u16, 5, 32, 0])));
        }
        w
    }

    fn cli(&mut self) -> Case {
        let mut cfg = if self.r.chance(2, 3) { Cfg::small(self.r) } else { Cfg::swarm(self.r) };
        if self.r.chance(7, 8) {
            cfg.large = 0;
        }
        // (the debug form of a module takes cubic time in its nesting)
        cfg.deep = cfg.deep.min(129);
        let large = self.r.chance(1, 500);
        let mut img = if large { image::aligned(self.r) } else { self.gen_image(cfg) };
        self.maybe_damage(&mut img, 1, 4);
        let m = self.trace(&img);
        let mut p = Plan::plain(0, img.len());
        p.chunk = self.chunk();
        if large {
            p.chunk = *self.r.pick(&[Chunk::All, Chunk::Fixed(8192), Chunk::Fixed(65_537)]);
        }
        p.eintr = self.eintr(&m, img.len());
        p.eintr.truncate(300);
        match self.r.below(8) {
            0 => p.end = self.place(&m, img.len()),
            1 => {
                p.end = self.place(&m, img.len());
                p.term = Term::EofResume;
            }
            2 | 3 => {
                p.end = self.place(&m, img.len());
                p.term = Term::Fail(Fail {
                    form: Form::Os,
                    code: self.errno(true),
                    sticky: self.r.chance(1, 2),
                });
            }
            _ => {}
        }
        let mut c = CliPlan::plain();
        c.mode = *self.r.pick(&[Mode::Path, Mode::Path, Mode::Path, Mode::Dash, Mode::NoArg, Mode::Dev]);
        c.verbose = self.r.chance(1, 2) && !large;
        if self.r.chance(1, 2) {
            c.name = self.r.us(crate::cli::NAMES as usize) as u8;
        } else if self.r.chance(1, 2) {
            c.file = Some(*self.r.pick(crate::cli::LABELS));
        }
        if self.r.chance(1, 4) {
            c.vars = self.r.below(8) as u8;
        }
        let strs = &crate::dict::get().strs;
        if !strs.is_empty() && self.r.chance(1, 3) {
            let f = self.r.u64();
            let s = &strs[self.r.us(strs.len())];
            if self.r.chance(1, 2) {
                c.file = crate::cli::label(s, f);
            } else if s.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') && !s.starts_with("LD_") && !s.starts_with("WSIM_") {
                c.var = Some(format!("{s}={}", ["1", "0", "", "true"][f as usize % 4]).leak());
            }
        }
        c.pipe = self.r.chance(1, 2);
        c.first = self.r.chance(1, 2);
        if matches!(c.mode, Mode::Path | Mode::Dev) && self.r.chance(1, 8) {
            // EINTR, ENOENT, EACCES, EMFILE, ENFILE, EISDIR, EIO
            let e = *self.r.pick(&[4u16, 4, 2, 13, 24, 23, 21, 5]);
            c.open = Some((e, if e == 4 { 1 + self.r.below(3) as u32 } else { 1 + self.r.below(2) as u32 * 1000 }));
        }
        let (f1, f2) = (self.r.chance(1, 4), self.r.chance(1, 12));
        c.w = [self.wplan(f1), self.wplan(f2)];
        let mut case = Self::one(img, p);
        case.cli = Some(c);
        case
    }

    fn c18(&mut self) -> Case {
        let mut b = if self.r.chance(1, 2) { self.small() } else { self.swarm() };
        self.maybe_damage(&mut b, 1, 6);
        let mb = self.trace(&b);
        let mut images = vec![b];
        let mut first = Plan::plain(0, images[0].len());
        self.noise(&mut first, &mb);
        let mut tasks = vec![first];
        let times = self.word(100, 1100);
        let long = times.is_some() || self.r.chance(1, 60);
        if long {
            // a long history of the same failure
            let n = if let Some(n) = times {
                images[0].truncate(if n > 140 { 120 } else { 2000 });
                n as usize
            } else if self.r.chance(1, 12) {
                images[0].truncate(120);
                *self.r.pick(&[257usize, 300, 520, 1030])
            } else {
                images[0].truncate(2000);
                *self.r.pick(&[10usize, 17, 33, 65, 70, 130])
            };
            tasks[0].end = tasks[0].end.min(images[0].len());
            let m = self.trace(&images[0]);
            let mut p = Plan::plain(0, self.place(&m, images[0].len()));
            p.term = match self.r.below(4) {
                0 => Term::Eof,
                1 => Term::Panic,
                _ => Term::Fail(self.fail()),
            };
            // (as many locals each time are slow to repeat)
            let n = if m.locals > 1000 { n.min(10) } else { n };
            for _ in 0..n {
                tasks.push(p.clone());
            }
        }
        for _ in 0..if long { 0 } else { 1 + self.r.us(3) } {
            let k = if self.r.chance(1, 2) {
                0
            } else {
                let mut img = self.swarm();
                self.maybe_damage(&mut img, 1, 2);
                images.push(img);
                images.len() - 1
            };
            let m = self.trace(&images[k]);
            let mut p = Plan::plain(k, images[k].len());
            self.noise(&mut p, &m);
            p.end = self.place(&m, images[k].len());
            p.term = match self.r.below(4) {
                0 => Term::Eof,
                1 => Term::Panic,
                _ => Term::Fail(self.fail()),
            };
            tasks.push(p);
        }
        let variant = if self.r.chance(1, 8) { V_FRESH } else { 0 };
        Case { images, tasks, variant, ..Case::default() }
    }
}
