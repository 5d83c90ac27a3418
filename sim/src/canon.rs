//! Canonical token streams of a decoded `wadec::Module` (same encoding as the
//! model emits).  Reads public fields only.
use crate::model::*;
use crate::ops::{OP_END, canon_expr, reft, val};
use wadec::core::types::comptype::{CompType, FieldType, PackType, StorageType};
use wadec::core::types::{AddrType, ExternType, GlobalType, Limits, Mut, TableType};
use wadec::core::{DataMode, ElemMode, ExternIdx, SectionKind};
use wadec::Module;

fn kind(k: SectionKind) -> u64 {
    match k {
        SectionKind::Custom => 0,
        SectionKind::Type => 1,
        SectionKind::Import => 2,
        SectionKind::Function => 3,
        SectionKind::Table => 4,
        SectionKind::Memory => 5,
        SectionKind::Global => 6,
        SectionKind::Export => 7,
        SectionKind::Start => 8,
        SectionKind::Element => 9,
        SectionKind::Code => 10,
        SectionKind::Data => 11,
        SectionKind::DataCount => 12,
        SectionKind::Tag => 13,
    }
}
fn mutab(m: Mut) -> u64 {
    match m {
        Mut::Const => 0,
        Mut::Var => 1,
    }
}
fn limits(l: &Limits, o: &mut Vec<u64>) {
    let a = match l.address_type {
        AddrType::I32 => 0,
        AddrType::I64 => 4,
    };
    o.push(a | l.max.is_some() as u64);
    o.push(l.min);
    o.extend(l.max);
}
fn global(g: &GlobalType, o: &mut Vec<u64>) {
    o.push(val(&g.1));
    o.push(mutab(g.0));
}
fn table(t: &TableType, o: &mut Vec<u64>) {
    o.push(reft(&t.reftype));
    limits(&t.limits, o);
}
fn field(f: &FieldType, o: &mut Vec<u64>) {
    o.push(match &f.1 {
        StorageType::ValType(v) => val(v),
        StorageType::PackType(PackType::I8) => 0x78,
        StorageType::PackType(PackType::I16) => 0x77,
    });
    o.push(mutab(f.0));
}

pub fn module(m: &Module) -> Comps {
    let mut c = Comps::default();
    let c = {
        let t = &mut c.c;
        t[C_VERSION].push(u32::from_le_bytes(m.version) as u64);
        t[C_KINDS].extend(m.parsed_section_kinds.iter().map(|k| kind(*k)));
        t[C_HEADERS].extend(m.section_headers.iter().map(|h| kind(h.kind) << 32 | h.size as u64));
        for s in &m.custom_sections {
            pack(&mut t[C_CUSTOM], s.name.as_bytes());
            pack(&mut t[C_CUSTOM], &s.contents);
        }
        let o = &mut t[C_TYPES];
        o.push(m.types.len() as u64);
        for r in &m.types {
            o.push(r.0.len() as u64);
            for s in &r.0 {
                o.push(s.is_final as u64);
                o.push(s.supertypes.len() as u64);
                o.extend(s.supertypes.iter().map(|x| x.0 as u64));
                match &s.comptype {
                    CompType::Array(f) => {
                        o.push(0x5E);
                        field(f, o);
                    }
                    CompType::Struct(fs) => {
                        o.push(0x5F);
                        o.push(fs.len() as u64);
                        for f in fs {
                            field(f, o);
                        }
                    }
                    CompType::Func { parameters, results } => {
                        o.push(0x60);
                        for l in [parameters, results] {
                            o.push(l.len() as u64);
                            o.extend(l.iter().map(val));
                        }
                    }
                }
            }
        }
        let o = &mut t[C_IMPORTS];
        o.push(m.imports.len() as u64);
        for i in &m.imports {
            pack(o, i.module_name.as_bytes());
            pack(o, i.item_name.as_bytes());
            match &i.extern_type {
                ExternType::Func(x) => o.extend([0, x.0 as u64]),
                ExternType::Table(x) => {
                    o.push(1);
                    table(x, o);
                }
                ExternType::Mem(x) => {
                    o.push(2);
                    limits(&x.limits, o);
                }
                ExternType::Global(x) => {
                    o.push(3);
                    global(x, o);
                }
                ExternType::Tag(x) => o.extend([4, x.0.0 as u64]),
            }
        }
        for f in &m.funcs {
            t[C_FUNCS].push(f.r#type.0 as u64);
            let mut runs: Vec<(u64, u64)> = vec![];
            for l in &f.locals {
                let v = val(l);
                match runs.last_mut() {
                    Some(r) if r.1 == v => r.0 += 1,
                    _ => runs.push((1, v)),
                }
            }
            t[C_FUNCS].push(runs.len() as u64);
            for (n, v) in runs {
                t[C_FUNCS].extend([n, v]);
            }
        }
        if m.parsed_section_kinds.contains(&SectionKind::Code) {
            for f in &m.funcs {
                canon_expr(&f.body, &mut t[C_BODIES]);
            }
        }
        let o = &mut t[C_TABLES];
        o.push(m.tables.len() as u64);
        for x in &m.tables {
            table(&x.0, o);
            canon_expr(&x.1, o);
        }
        let o = &mut t[C_MEMS];
        o.push(m.mems.len() as u64);
        for x in &m.mems {
            limits(&x.limits, o);
        }
        let o = &mut t[C_TAGS];
        o.push(m.tags.len() as u64);
        o.extend(m.tags.iter().map(|x| x.0.0 as u64));
        let o = &mut t[C_GLOBALS];
        o.push(m.globals.len() as u64);
        for g in &m.globals {
            global(&g.r#type, o);
            canon_expr(&g.init, o);
        }
        let o = &mut t[C_EXPORTS];
        o.push(m.exports.len() as u64);
        for e in &m.exports {
            pack(o, e.name.as_bytes());
            o.extend(match e.externidx {
                ExternIdx::Func(x) => [0, x.0 as u64],
                ExternIdx::Table(x) => [1, x.0 as u64],
                ExternIdx::Mem(x) => [2, x.0 as u64],
                ExternIdx::Global(x) => [3, x.0 as u64],
                ExternIdx::Tag(x) => [4, x.0 as u64],
            });
        }
        t[C_START].extend(m.start.iter().map(|x| x.0 as u64));
        let o = &mut t[C_ELEMS];
        o.push(m.elems.len() as u64);
        for e in &m.elems {
            match &e.mode {
                ElemMode::Passive => o.push(0),
                ElemMode::Declare => o.push(2),
                ElemMode::Active { table, offset } => {
                    o.extend([1, table.0 as u64]);
                    canon_expr(offset, o);
                }
            }
            o.push(reft(&e.r#type));
            o.push(e.init.len() as u64);
            for x in &e.init {
                canon_expr(x, o);
            }
        }
        t[C_DCOUNT].extend(m.data_count.iter().map(|x| *x as u64));
        let o = &mut t[C_DATAS];
        o.push(m.datas.len() as u64);
        for d in &m.datas {
            match &d.mode {
                DataMode::Passive => o.push(0),
                DataMode::Active { memory, offset } => {
                    o.extend([1, memory.0 as u64]);
                    canon_expr(offset, o);
                }
            }
            pack(o, &d.init);
        }
        let _ = OP_END;
        c
    };
    c
}
