//! The bitcode side: a generator of valid multi-module files, mutations of their block and
//! record structure, and what the mapper made of a file.

use super::*;
use crate::gen;
use crate::refdec;
use crate::refmap::{self, Cls, Expect, ModObs};
use crate::rng::Rng;
use crate::shrink;
use llvm_mapper::unroll::Bitcode;
use serde::{Deserialize, Serialize};

pub fn try_map<T: AsRef<[u8]>>(b: Bitstream<T>) -> Result<Bitcode, String> {
    Bitcode::try_from(b).map_err(|e| format!("{e:?}"))
}

pub fn observe(b: &Bitcode) -> Vec<ModObs> {
    b.modules
        .iter()
        .map(|m| ModObs {
            producer: m.identification.producer.clone(),
            epoch: m.identification.epoch,
            triple: if m.module.triple == llvm_support::TARGET_TRIPLE {
                None
            } else {
                Some(m.module.triple.clone())
            },
            asm: m.module.asm.clone(),
            deplibs: m.module.deplibs.clone(),
            strtab: m.strtab.as_ref().to_vec(),
            symtab: m.symtab.as_ref().map(|s| s.as_ref().to_vec()),
            rep: None,
        })
        .collect()
}

pub fn trace_mods(c: &mut Ctx, r: &Result<Vec<ModObs>, String>) {
    match r {
        Err(_) => c.trace.add(0xe),
        Ok(ms) => {
            c.trace.add(ms.len() as u64 + 0x100);
            for m in ms {
                c.trace.add_str(&m.producer);
                c.trace.add(m.epoch);
                c.trace.add_str(m.triple.as_deref().unwrap_or("?"));
                for a in m.asm.iter().chain(&m.deplibs) {
                    c.trace.add_str(a);
                }
                c.trace.add_bytes(&m.strtab);
                if let Some(s) = &m.symtab {
                    c.trace.add_bytes(s);
                }
            }
        }
    }
}

fn diff_bytes(a: &[u8], b: &[u8]) -> String {
    let at = a
        .iter()
        .zip(b)
        .position(|(x, y)| x != y)
        .unwrap_or(a.len().min(b.len()));
    format!(
        "{} bytes vs {} bytes, first difference at {at}",
        a.len(),
        b.len()
    )
}

/// The first difference between what was expected and what was returned.
pub fn difference(want: &[ModObs], got: &[ModObs]) -> Option<String> {
    if want.len() != got.len() {
        return Some(format!(
            "{} modules expected, {} returned",
            want.len(),
            got.len()
        ));
    }
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        macro_rules! cmp {
            ($f:ident) => {
                if w.$f != g.$f {
                    return Some(format!(
                        "module {i}: {} is {:?}, written {:?}",
                        stringify!($f),
                        g.$f,
                        w.$f
                    ));
                }
            };
        }
        cmp!(producer);
        cmp!(epoch);
        // A written triple equal to the default cannot be told from a missing one.
        let d = |t: &Option<String>| {
            t.clone()
                .unwrap_or_else(|| llvm_support::TARGET_TRIPLE.into())
        };
        if d(&w.triple) != d(&g.triple) {
            return Some(format!(
                "module {i}: triple is {:?}, written {:?}",
                g.triple, w.triple
            ));
        }
        cmp!(asm);
        cmp!(deplibs);
        if w.strtab != g.strtab {
            return Some(format!(
                "module {i}: string table: {}",
                diff_bytes(&g.strtab, &w.strtab)
            ));
        }
        match (&w.symtab, &g.symtab) {
            (Some(a), Some(b)) if a != b => {
                return Some(format!("module {i}: symbol table: {}", diff_bytes(b, a)))
            }
            (Some(_), None) => return Some(format!("module {i}: lost its symbol table")),
            (None, Some(_)) => {
                return Some(format!(
                    "module {i}: has a symbol table that is not its own"
                ))
            }
            _ => {}
        }
    }
    None
}

/// What the stored bytes mean, by the reference decoder and the reference mapping.
pub fn meaning(bytes: &[u8]) -> Expect {
    if bytes.len() < 4 || bytes.len() % 4 != 0 {
        return Expect::Unspecified("not whole words".into());
    }
    if bytes[..4] == 0x0b17c0deu32.to_le_bytes() {
        return Expect::Unspecified("a wrapper".into());
    }
    let d = refdec::decode(bytes, 32, bytes.len());
    match d.end {
        refdec::RefEnd::Malformed(w) => Expect::Reject(format!("malformed bitstream: {w}")),
        refdec::RefEnd::Unspecified(w) => Expect::Unspecified(format!("bitstream: {w}")),
        refdec::RefEnd::Clean => refmap::expect(d.entries.iter().map(|e| &e.0)),
    }
}

/// Compare a verdict with the reference's.
pub fn judge(
    c: &mut Ctx,
    want: &Expect,
    got: &Result<Vec<ModObs>, String>,
    what: &str,
) -> Result<(), Violation> {
    match (want, got) {
        (Expect::Unspecified(w), _) => {
            c.probe(&format!("left open: {w}"));
            Ok(())
        }
        (Expect::Reject(_), Err(_)) => {
            c.probe("refused, as expected");
            Ok(())
        }
        (Expect::Reject(w), Ok(m)) => viol(
            "accepted",
            format!(
                "{what}: has to be refused ({w}), but {} modules were returned",
                m.len()
            ),
        ),
        (Expect::Accept(w), Err(e)) => viol(
            "refused",
            format!(
                "{what}: {} whole modules are there, but the file was refused: {e}",
                w.len()
            ),
        ),
        (Expect::Accept(w), Ok(g)) => {
            c.probe("accepted, as expected");
            match difference(w, g) {
                None => Ok(()),
                Some(d) => viol("wrong contents", format!("{what}: {d}")),
            }
        }
    }
}

/// Whether mapping the file takes far more memory than the file has bytes, for the reasons
/// recorded as KF2 (shared subtypes) and KF4 (tables copied per module).
pub fn expands_by(bytes: &[u8], nodes: u64, copies: u64) -> bool {
    if bytes.len() < 4 {
        return false;
    }
    let start = if bytes[..4] == 0x0b17c0deu32.to_le_bytes() && bytes.len() >= 20 {
        // Good enough for a wrapper: where its stream would start.
        let off = u32::from_le_bytes([bytes[8], bytes[9], bytes[10], bytes[11]]) as usize;
        if off + 4 > bytes.len() {
            return false;
        }
        &bytes[off..]
    } else {
        bytes
    };
    let len = start.len() & !3;
    if len < 4 {
        return false;
    }
    let d = refdec::decode(start, 32, len);
    let t = refmap::tops(d.entries.iter().map(|e| &e.0));
    if refmap::type_nodes(&t, nodes) >= nodes {
        return true;
    }
    let idents = t.tops.iter().filter(|b| b.id == 13).count() as u64;
    let table = t
        .tops
        .iter()
        .filter(|b| b.id == 23 || b.id == 25)
        .map(weigh)
        .sum::<u64>();
    // Comdats own their names.
    let mut names = 0;
    for b in t.tops.iter().filter(|b| b.id == 8) {
        for (_, f) in b.recs.iter().filter(|r| r.0 == 12 && r.1.len() == 3) {
            names += f[1].min(len as u64);
        }
    }
    idents.saturating_sub(1) * table > copies || names > copies
}
fn weigh(b: &refmap::RBlock) -> u64 {
    let mut n = 0;
    let mut todo = vec![b];
    while let Some(b) = todo.pop() {
        n += 10 + b.recs.iter().map(|r| r.1.len() as u64 + 8).sum::<u64>();
        todo.extend(b.subs.iter());
    }
    n
}
/// For the memory bound: in proportion to the file.
pub fn expands(bytes: &[u8]) -> bool {
    let n = bytes.len() as u64;
    expands_by(bytes, n + 1000, 8 * n + 4096)
}
/// For everything else: as much as a run can take.
pub fn explodes(bytes: &[u8]) -> bool {
    expands_by(bytes, 400_000, 8_000_000)
}

/// A valid file whose type table has `n` structs of two of the previous type each.
pub fn doubling_file(n: u64) -> Vec<u8> {
    let mut types = vec![Item::rec(1, vec![n + 1]), Item::rec(7, vec![32])];
    for i in 0..n {
        types.push(Item::rec(18, vec![0, i, i]));
    }
    emit(&file(vec![module_with(types)]), &[]).bytes
}
/// A valid file of `n` small modules that share one string table of `m` bytes.
pub fn shared_table_file(n: u64, m: u64) -> Vec<u8> {
    let mut items = vec![];
    for _ in 0..n {
        items.push(ident("pp", 0));
        items.push(module_with(vec![Item::rec(1, vec![0])]));
    }
    items.push(block(
        23,
        vec![Item::Bytes {
            c: 1,
            pre: vec![],
            s: vec![b'x'; m as usize],
            ab: None,
        }],
    ));
    let s = Stream {
        magic: BC_MAGIC,
        overlong: 0,
        items,
    };
    emit(&s, &[]).bytes
}
/// A file of one module with a one-character producer.
pub fn one_char_file() -> Vec<u8> {
    let s = Stream {
        magic: BC_MAGIC,
        overlong: 0,
        items: vec![
            ident("p", 0),
            module_with(vec![Item::rec(1, vec![0])]),
            block(
                23,
                vec![Item::Bytes {
                    c: 1,
                    pre: vec![],
                    s: b"xy".to_vec(),
                    ab: None,
                }],
            ),
        ],
    };
    emit(&s, &[]).bytes
}

/// A valid file of one comdat record per name, all of which share the bytes of the string table.
pub fn comdats_file(n: u64, m: u64) -> Vec<u8> {
    let items = (0..n).map(|_| Item::rec(12, vec![0, m, 1])).collect();
    emit(&amplifier(items, vec![b'x'; m as usize]), &[]).bytes
}
fn amplifier(items: Vec<Item>, table: Vec<u8>) -> Stream {
    let mut all = vec![
        Item::rec(1, vec![2]),
        block(
            17,
            vec![
                Item::rec(1, vec![2]),
                Item::rec(2, vec![]),
                Item::rec(21, vec![0, 0]),
            ],
        ),
    ];
    all.extend(items);
    all.push(block(14, vec![]));
    Stream {
        magic: BC_MAGIC,
        overlong: 0,
        items: vec![
            ident("some producer", 0),
            block(8, all),
            block(
                23,
                vec![Item::Bytes {
                    c: 1,
                    pre: vec![],
                    s: table,
                    ab: None,
                }],
            ),
        ],
    }
}
/// Many small items that refer to one large one. Whoever copies it for each of them needs memory
/// quadratic in the size of the file.
pub fn gen_amplifier(r: &mut Rng) -> Stream {
    let n = r.range(1500, 4000);
    let m = r.range(6000, 20_000);
    let table = vec![b'x'; m as usize];
    let fun = |sec: u64, gc: u64, at: u64, size: u64| {
        Item::rec(8, vec![0, size, 1, 0, 1, 0, at, 0, sec, 0, gc])
    };
    let group = |n: u64| {
        let mut f = vec![1, 0xffffffff];
        let mut left = n;
        while left > 0 {
            let k = left.min(if n % 2 == 0 { n } else { 40 });
            f.push(3);
            f.extend((0..k).map(|_| b'k' as u64));
            f.push(0);
            left -= k;
        }
        block(10, vec![Item::rec(3, f)])
    };
    match r.below(9) {
        // Attribute lists, and the references of one list.
        0 => {
            let lists = (0..n).map(|_| Item::rec(2, vec![1])).collect();
            amplifier(vec![group(m), block(9, lists)], table)
        }
        1 => amplifier(
            vec![group(m), block(9, vec![Item::rec(2, vec![1; n as usize])])],
            table,
        ),
        // Functions and the names of functions, sections and collectors; and their attributes.
        2 => amplifier((0..n).map(|_| fun(0, 0, 0, m)).collect(), table),
        3 | 4 => {
            let gc = r.chance(1, 2) as u64;
            let mut v = vec![Item::Bytes {
                c: if gc == 1 { 11 } else { 5 },
                pre: vec![],
                s: table.clone(),
                ab: None,
            }];
            v.extend((0..n).map(|_| fun(1 - gc, gc, 0, 2)));
            amplifier(v, b"xx".to_vec())
        }
        5 => {
            let mut v = vec![group(m), block(9, vec![Item::rec(2, vec![1])])];
            v.extend((0..n).map(|_| fun(0, 0, 1, 2)));
            amplifier(v, table)
        }
        6 => amplifier(
            (0..n)
                .map(|_| Item::rec(14, vec![0, m, 0, 0, 0, 0]))
                .collect(),
            table,
        ),
        // Abbreviations of a block-information block, in nested blocks and in blocks side by side.
        7 => {
            let info = block(
                0,
                vec![
                    Item::rec(1, vec![50]),
                    Item::Defs(vec![Op::Lit(1)], (m / 2) as u32),
                ],
            );
            let nest = Item::Nest {
                id: 50,
                w: 2,
                depth: n as u32,
                items: vec![],
            };
            Stream {
                magic: BC_MAGIC,
                overlong: 0,
                items: vec![info, nest],
            }
        }
        _ => {
            let info = block(
                0,
                vec![
                    Item::rec(1, vec![8]),
                    Item::Defs(vec![Op::Lit(1)], (m / 2) as u32),
                ],
            );
            let mut s = amplifier(vec![], table);
            let mut items = vec![info];
            for _ in 0..n / 4 {
                items.push(block(8, vec![]));
            }
            items.append(&mut s.items);
            s.items = items;
            s
        }
    }
}

pub fn block(id: u64, items: Vec<Item>) -> Item {
    Item::Block { id, w: 3, items }
}
fn text(c: u64, s: &str) -> Item {
    Item::Bytes {
        c,
        pre: vec![],
        s: s.as_bytes().to_vec(),
        ab: None,
    }
}
pub fn ident(p: &str, epoch: u64) -> Item {
    block(13, vec![text(1, p), Item::rec(2, vec![epoch])])
}
fn module_with(types: Vec<Item>) -> Item {
    block(
        8,
        vec![Item::rec(1, vec![2]), block(17, types), block(14, vec![])],
    )
}
fn file(mods: Vec<Item>) -> Stream {
    let mut items = vec![];
    for m in mods {
        items.push(ident("some producer", 0));
        items.push(m);
        items.push(block(23, vec![text(1, "some strings")]));
    }
    Stream {
        magic: BC_MAGIC,
        overlong: 0,
        items,
    }
}

// ----------------------------------------------------------------- generator

/// What a wide file has many of.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dim {
    Types,
    Components,
    Groups,
    Lists,
    GroupsOfList,
    AttributesOfGroup,
    LongAttribute,
    Sections,
    Collectors,
    Functions,
    Aliases,
    Comdats,
    Libraries,
    Names,
    Table,
    Text,
    Modules,
}
const DIMS: &[Dim] = &[
    Dim::Types,
    Dim::Components,
    Dim::Groups,
    Dim::Lists,
    Dim::GroupsOfList,
    Dim::AttributesOfGroup,
    Dim::LongAttribute,
    Dim::Sections,
    Dim::Collectors,
    Dim::Functions,
    Dim::Aliases,
    Dim::Comdats,
    Dim::Libraries,
    Dim::Names,
    Dim::Table,
    Dim::Text,
    Dim::Modules,
];

#[derive(Clone)]
pub struct MCfg {
    pub wide: Option<(Dim, u64)>,
    /// Nothing that has the whole file refused.
    pub tame: bool,
    pub groups: u64,
    pub mods: u64,
    pub types: u64,
    pub funs: u64,
    pub attrs: bool,
    pub extras: u64,
    pub long: bool,
    pub shuffle: bool,
    pub abbrevs: bool,
}
impl MCfg {
    /// Many things of one kind, at times more than an 8- or 16-bit number can count.
    fn wide(r: &mut Rng, huge: bool) -> Option<(Dim, u64)> {
        let d = if r.chance(1, 2) {
            // Numbers refer to these.
            *r.pick(&[Dim::Types, Dim::Lists, Dim::Sections, Dim::Collectors])
        } else {
            *r.pick(DIMS)
        };
        let n = match r.below(4) {
            0 if huge => r.range(65_530, 65_545),
            _ if huge => r.range(65_580, 66_000),
            0 | 1 => r.range(20, 70),
            2 => r.range(250, 270),
            _ => r.range(500, 1100),
        };
        Some((
            d,
            match d {
                Dim::Modules => n.min(300),
                Dim::Functions | Dim::Aliases => n.min(3000),
                _ => n,
            },
        ))
    }
    pub fn huge(r: &mut Rng) -> Self {
        let mut c = MCfg::random(r);
        c.wide = MCfg::wide(r, true);
        c.groups = 1;
        c.mods = 1;
        c.types = 14;
        c.attrs = true;
        c.funs = 20;
        c.tame = true;
        c
    }
    fn many(&self, d: Dim, n: u64) -> u64 {
        match self.wide {
            Some((e, m)) if d == e => m,
            _ => n,
        }
    }
    pub fn random(r: &mut Rng) -> Self {
        if r.chance(1, 80) {
            let mut c = MCfg::random(r);
            c.wide = MCfg::wide(r, false);
            c.tame = r.chance(7, 8);
            return c;
        }
        MCfg {
            wide: None,
            tame: false,
            groups: match r.below(4) {
                0 | 1 => 1,
                2 => 2,
                _ => r.range(1, 4),
            },
            mods: if r.chance(1, 2) { 1 } else { r.range(1, 3) },
            types: *r.pick(&[2, 6, 14, 26]),
            funs: *r.pick(&[0, 2, 6]),
            attrs: r.chance(2, 3),
            extras: *r.pick(&[0, 1, 3, 8]),
            long: r.chance(1, 6),
            shuffle: r.chance(1, 4),
            abbrevs: r.chance(2, 3),
        }
    }
    pub fn small(r: &mut Rng) -> Self {
        MCfg {
            wide: if r.chance(1, 400) {
                Some((Dim::Modules, r.range(20, 300)))
            } else {
                None
            },
            tame: false,
            groups: r.range(1, 4),
            mods: r.range(1, 3),
            types: 2,
            funs: if r.chance(1, 4) { 1 } else { 0 },
            attrs: false,
            extras: 0,
            long: false,
            shuffle: false,
            abbrevs: r.chance(1, 4),
        }
    }
}

/// An index below `n`, often one of the last.
fn edge(r: &mut Rng, n: u64) -> u64 {
    if r.chance(1, 3) {
        n - 1 - r.below(n.min(3))
    } else {
        r.below(n)
    }
}

fn string(r: &mut Rng, long: bool) -> String {
    let n = match r.below(8) {
        0 => 2,
        1 => 3,
        2 if long && r.chance(1, 60) => *r.pick(&[255, 256, 257, 4096, 65535, 65537]),
        2 if long => r.range(100, 400),
        3 => r.range(20, 60),
        _ => r.range(2, 20),
    };
    let alphabet = r.below(4);
    let mut s = String::new();
    while (s.chars().count() as u64) < n {
        s.push(match alphabet {
            0 => CHAR6[r.idx(64)] as char,
            1 => r.range(0x20, 0x7e) as u8 as char,
            2 => *r.pick(&[
                'a', 'b', '-', '_', '.', '\n', '\0', ' ', '\r', '\t', '\\', '"', ':', '\u{7f}',
                '\u{1}',
            ]),
            _ => *r.pick(&['é', 'ß', '語', 'λ', '🦀', 'x', '\u{7ff}', '\u{ffff}', 'y']),
        });
    }
    if r.chance(1, 6) {
        // What someone might trim, split or normalise.
        let odd = *r.pick(&[
            "\r\n", "\n", " ", "\t", "\0", "\u{feff}", "\u{301}", "/", "\n\n", "\r", "\u{a0}",
        ]);
        match r.below(3) {
            0 => s.insert_str(0, odd),
            1 => s.push_str(odd),
            _ => {
                let at = (0..=s.len())
                    .filter(|i| s.is_char_boundary(*i))
                    .nth(s.chars().count() / 2)
                    .unwrap_or(0);
                s.insert_str(at, odd)
            }
        }
    }
    s
}
fn bytes(r: &mut Rng, long: bool) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 2,
        1 if long && r.chance(1, 60) => r.range(65_530, 65_560),
        1 if long => r.range(200, 3000),
        _ => r.range(2, 80),
    };
    if r.chance(1, 2) {
        r.bytes(n as usize)
    } else {
        (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect()
    }
}

enum Spec {
    Plain(u64),
    Int(u64),
    Ptr(usize, u64),
    OpaquePtr(u64),
    Array(u64, usize),
    Vector(u64, usize, Option<u64>),
    Struct(u64, Vec<usize>),
    Named(String, u64, Vec<usize>),
    Opaque(String),
    Fun(u64, usize, Vec<usize>),
}

struct Types {
    items: Vec<Item>,
    n: u64,
    /// Indices of function types in the table.
    funs: Vec<u64>,
}

fn gen_types(r: &mut Rng, cfg: &MCfg) -> Types {
    let want = cfg.many(Dim::Types, r.range(1, cfg.types.max(1)));
    let wide = cfg.many(Dim::Components, 0);
    let mut specs: Vec<(Spec, Cls, u64, u32)> = vec![];
    use Cls::*;
    let allowed = |specs: &Vec<(Spec, Cls, u64, u32)>, r: &mut Rng, no: &[Cls]| -> Option<usize> {
        let v: Vec<usize> = (0..specs.len())
            .filter(|i| !no.contains(&specs[*i].1) && specs[*i].3 < 12 && specs[*i].2 < 40)
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v[edge(r, v.len() as u64) as usize])
        }
    };
    // Many components: all of them simple.
    let simple = |specs: &Vec<(Spec, Cls, u64, u32)>, r: &mut Rng, n: u64, k: Vec<usize>| {
        let v: Vec<usize> = (0..specs.len())
            .filter(|i| specs[*i].1 == Integer)
            .collect();
        if wide == 0 || v.is_empty() || r.chance(1, 2) || n > 300 && r.chance(2, 3) {
            k
        } else {
            (0..wide).map(|_| *r.pick(&v)).collect()
        }
    };
    const ARR: &[Cls] = &[Void, Label, Metadata, Function, Token, Amx, ScalableVector];
    const STR: &[Cls] = &[Void, Label, Metadata, Function, Token];
    const PTR: &[Cls] = &[Void, Label, Metadata, Token, Amx];
    const RET: &[Cls] = &[Function, Label, Metadata];
    const PAR: &[Cls] = &[Function, Void];
    const VEC: &[Cls] = &[
        Void,
        Label,
        Metadata,
        Function,
        Token,
        Amx,
        Mmx,
        Struct,
        Array,
        FixedVector,
        ScalableVector,
        Unknown,
    ];
    while (specs.len() as u64) < want {
        let k = if want > 1000 && (specs.len() as u64) < want - 40 {
            2
        } else {
            r.below(16)
        };
        let made: Option<(Spec, Cls)> = match k {
            0 => {
                let c = *r.pick(&[2u64, 3, 4, 5, 10, 13, 14, 15, 16, 17, 22, 23, 24]);
                let cls = match c {
                    2 => Void,
                    5 => Label,
                    16 => Metadata,
                    17 => Mmx,
                    22 => Token,
                    24 => Amx,
                    _ => Float,
                };
                Some((Spec::Plain(c), cls))
            }
            1 => Some((Spec::Plain(2), Void)),
            2 | 3 => {
                let w = *r.pick(&[1, 8, 16, 32, 64, 128, 7, 1 << 23, 65535]);
                Some((Spec::Int(w), Integer))
            }
            4 => allowed(&specs, r, PTR).map(|j| {
                let sp = *r.pick(&[0, 0, 1, (1 << 23) - 1]);
                (Spec::Ptr(j, sp), Pointer)
            }),
            5 => Some((
                Spec::OpaquePtr(*r.pick(&[0, 0, 1, 5, (1 << 23) - 1])),
                OpaquePointer,
            )),
            6 | 7 => allowed(&specs, r, ARR).map(|j| (Spec::Array(r.value(64), j), Array)),
            8 => allowed(&specs, r, VEC).map(|j| {
                let s = *r.pick(&[None, Some(0), Some(1)]);
                let cls = if s == Some(1) {
                    ScalableVector
                } else {
                    FixedVector
                };
                (Spec::Vector(r.value(32).max(1), j, s), cls)
            }),
            9 => Some((Spec::Opaque(string(r, false)), Struct)),
            10..=12 => {
                let n = r.below(5);
                let kids: Vec<usize> = (0..n).filter_map(|_| allowed(&specs, r, STR)).collect();
                let kids = simple(&specs, r, wide, kids);
                let packed = r.below(2);
                if r.chance(1, 2) {
                    Some((Spec::Named(string(r, false), packed, kids), Struct))
                } else {
                    Some((Spec::Struct(packed, kids), Struct))
                }
            }
            _ => allowed(&specs, r, RET).map(|ret| {
                let n = r.below(5);
                let ps: Vec<usize> = (0..n).filter_map(|_| allowed(&specs, r, PAR)).collect();
                let ps = simple(&specs, r, wide, ps);
                (Spec::Fun(r.below(2), ret, ps), Function)
            }),
        };
        if let Some((s, cls)) = made {
            let kids: Vec<usize> = match &s {
                Spec::Ptr(j, _) | Spec::Array(_, j) | Spec::Vector(_, j, _) => vec![*j],
                Spec::Struct(_, k) | Spec::Named(_, _, k) => k.clone(),
                Spec::Fun(_, ret, ps) => {
                    let mut x = ps.clone();
                    x.push(*ret);
                    x
                }
                _ => vec![],
            };
            let cost = 1 + kids.iter().map(|k| specs[*k].2).sum::<u64>();
            let depth = 1 + kids.iter().map(|k| specs[*k].3).max().unwrap_or(0);
            specs.push((s, cls, cost, depth));
        }
    }
    // Forward references are as good as backward ones.
    let n = specs.len();
    let mut pos: Vec<usize> = (0..n).collect();
    if r.chance(1, 2) {
        for i in (1..n).rev() {
            pos.swap(i, r.idx(i + 1));
        }
    }
    let p = |k: &usize| pos[*k] as u64;
    let mut slots: Vec<Vec<Item>> = (0..n).map(|_| vec![]).collect();
    let mut funs = vec![];
    for (i, (s, cls, _, _)) in specs.iter().enumerate() {
        let v = match s {
            Spec::Plain(c) => vec![Item::rec(*c, vec![])],
            Spec::Int(w) => vec![Item::rec(7, vec![*w])],
            Spec::Ptr(j, sp) => vec![Item::rec(8, vec![p(j), *sp])],
            Spec::OpaquePtr(sp) => vec![Item::rec(25, vec![*sp])],
            Spec::Array(k, j) => vec![Item::rec(11, vec![*k, p(j)])],
            Spec::Vector(k, j, sc) => {
                let mut f = vec![*k, p(j)];
                f.extend(sc);
                vec![Item::rec(12, f)]
            }
            Spec::Struct(pk, ks) => {
                let mut f = vec![*pk];
                f.extend(ks.iter().map(p));
                vec![Item::rec(18, f)]
            }
            Spec::Named(name, pk, ks) => {
                let mut f = vec![*pk];
                f.extend(ks.iter().map(p));
                vec![text(19, name), Item::rec(20, f)]
            }
            Spec::Opaque(name) => vec![text(19, name), Item::rec(6, vec![0])],
            Spec::Fun(va, ret, ps) => {
                let mut f = vec![*va, p(ret)];
                f.extend(ps.iter().map(p));
                vec![Item::rec(21, f)]
            }
        };
        if *cls == Function {
            funs.push(pos[i] as u64);
        }
        slots[pos[i]] = v;
    }
    let mut items = vec![Item::rec(1, vec![n as u64])];
    for s in slots {
        items.extend(s);
    }
    Types {
        items,
        n: n as u64,
        funs,
    }
}

/// A data layout: a real one, or any list of specifications; at times slightly off.
fn gen_datalayout(r: &mut Rng, tame: bool) -> String {
    let mut s = if r.chance(1, 4) && !tame {
        r.pick(crate::refdl::REAL).to_string()
    } else {
        let mut v = vec![];
        let mut list = [false; 2];
        for _ in 0..r.range(1, 7) {
            let al = |r: &mut Rng| {
                let n = if r.chance(1, 12) { 17 } else { 7 };
                8u64 << r.below(n)
            };
            let sp = |r: &mut Rng| *r.pick(&[0, 1, 2, 3, 200, 270, 271, (1 << 23) - 1]);
            v.push(match r.below(13) {
                0 => r.pick(&["e", "E"]).to_string(),
                1 => format!("S{}", al(r)),
                2 => format!("{}{}", r.pick(&["P", "G", "A"]), sp(r)),
                3..=5 => {
                    let a = al(r);
                    let size = *r.pick(&[8, 16, 32, 64, 64, 128, 160]);
                    let mut s = match sp(r) {
                        0 if r.chance(2, 3) => "p".to_string(),
                        n => format!("p{n}"),
                    };
                    s += &format!(":{size}:{a}");
                    if r.chance(1, 2) {
                        s += &format!(":{}", a << r.below(3));
                        if r.chance(1, 2) {
                            s += &format!(":{}", *r.pick(&[8, 16, 32, size]).min(&size));
                        }
                    }
                    s
                }
                6..=8 => {
                    let (k, w) = match r.below(4) {
                        0 => ("a", 0),
                        1 => ("f", *r.pick(&[16, 32, 64, 80, 128])),
                        2 => ("v", *r.pick(&[16, 32, 64, 128, 256, 8192])),
                        _ => ("i", *r.pick(&[1, 8, 16, 32, 64, 128, 24, (1 << 23) - 1])),
                    };
                    let a = if k == "i" && w == 8 {
                        8
                    } else {
                        al(r).min(1 << 18)
                    };
                    let mut s = k.to_string();
                    if w > 0 {
                        s += &w.to_string();
                    }
                    let zero = k == "a" && r.chance(1, 2);
                    s += &format!(":{}", if zero { 0 } else { a });
                    if r.chance(1, 2) {
                        s += &format!(":{}", (a << r.below(2)).min(1 << 18));
                    }
                    s
                }
                9 => format!("F{}{}", r.pick(&["i", "n"]), al(r)),
                10 => format!("m:{}", r.pick(&["e", "m", "o", "x", "w", "a", "l"])),
                k => {
                    let ni = k == 12;
                    if std::mem::replace(&mut list[ni as usize], true) {
                        continue;
                    }
                    let v: Vec<String> = (0..r.range(1, 5))
                        .map(|_| {
                            if ni {
                                sp(r).max(1).to_string()
                            } else {
                                r.pick(&[1, 8, 16, 32, 64, 128]).to_string()
                            }
                        })
                        .collect();
                    format!("{}{}", if ni { "ni:" } else { "n" }, v.join(":"))
                }
            });
        }
        v.join("-")
    };
    while s.len() < 2 {
        s += "-m:e";
    }
    if !tame && r.chance(1, 12) {
        // ASCII only, so that any index is a character's.
        let mut b = s.clone().into_bytes();
        match r.below(5) {
            0 => {
                b.remove(r.idx(b.len()));
            }
            1 => b.insert(r.idx(b.len() + 1), *r.pick(b":-0189pniaeSFvx")),
            2 => {
                let i = r.idx(b.len());
                b[i] = *r.pick(b":-0123456789pniaeSFvmx");
            }
            3 => {
                let i = r.idx(b.len());
                b.truncate(i.max(2));
            }
            _ => {
                let i = r.idx(b.len());
                let c = b[i];
                b.insert(i, c);
            }
        }
        if b.len() >= 2 {
            s = String::from_utf8(b).unwrap_or(s);
        }
    }
    s
}

fn attr(r: &mut Rng, f: &mut Vec<u64>) {
    match r.below(4) {
        0 | 1 => {
            let id = loop {
                let id = r.range(1, 86);
                if !refmap::INT_ATTRS.contains(&id) {
                    break id;
                }
            };
            f.extend([0, id]);
        }
        2 => {
            let id = if r.chance(1, 8) {
                33
            } else {
                *r.pick(refmap::INT_ATTRS)
            };
            let v = match id {
                1 | 25 => match r.below(6) {
                    0 => 0,
                    _ => 1 << r.below(33),
                },
                33 => r.below(3),
                51 if r.chance(1, 2) => {
                    let n = *r.pick(&[u32::MAX as u64, 0, 1, 2, 7]);
                    (r.below(5) << 32 | n).max(1)
                }
                51 => r.value(64).max(1),
                // Packed pairs.
                74 if r.chance(1, 2) => r.below(20) << 32 | r.below(20),
                _ => r.value(64),
            };
            f.extend([1, id, v]);
        }
        _ => {
            let kv = r.chance(1, 2);
            f.push(if kv { 4 } else { 3 });
            for _ in 0..(1 + kv as u32) {
                let signed = r.chance(1, 2);
                let s: Vec<u64> = string(r, false)
                    .bytes()
                    .filter(|b| *b != 0)
                    .map(|b| if signed { b as i8 as u64 } else { b as u64 })
                    .collect();
                if s.is_empty() {
                    f.push(b'k' as u64);
                }
                f.extend(s);
                f.push(0);
            }
        }
    }
}

/// Records and blocks that readers are to ignore.
fn extra_rec(r: &mut Rng) -> Item {
    let c = match r.below(3) {
        // Global variables, VST offset, source file name, hash, ...
        0 => *r.pick(&[7, 13, 16, 17, 18, 19]),
        1 => r.range(30, 300),
        _ => r.value(64).max(100),
    };
    Item::rec(c, (0..r.below(9)).map(|_| r.value(64)).collect())
}
fn extra_block(r: &mut Rng, depth: u32) -> Item {
    let id = match r.below(3) {
        0 => *r.pick(&[11, 15, 16, 18, 19, 20, 21, 22, 24, 26]),
        1 => r.range(30, 300),
        _ => r.value(32).max(40),
    };
    let n = r.below(6);
    let items = (0..n)
        .map(|_| {
            if depth < 3 && r.chance(1, 6) {
                extra_block(r, depth + 1)
            } else {
                let c = r.value(16);
                let n = r.below(8);
                Item::rec(c, (0..n).map(|_| r.value(64)).collect())
            }
        })
        .collect();
    Item::Block {
        id,
        w: r.range(2, 6) as u32,
        items,
    }
}
fn extra_table_rec(r: &mut Rng) -> Item {
    Item::rec(
        r.range(3, 400),
        (0..r.below(6)).map(|_| r.value(64)).collect(),
    )
}

fn w(r: &mut Rng) -> u32 {
    r.range(2, 6) as u32
}

fn gen_module(r: &mut Rng, cfg: &MCfg, names: &[(u64, u64)]) -> Item {
    let mut items: Vec<Item> = vec![Item::rec(1, vec![2])];
    if cfg.extras > 0 && r.chance(1, 6) {
        if let Item::Rec { f, .. } = &mut items[0] {
            f.push(r.value(64));
        }
    }
    let mut groups: Vec<u64> = vec![];
    let mut lists = 0u64;
    if cfg.attrs {
        let n = cfg.many(Dim::Groups, r.range(1, 4));
        let mut recs = vec![];
        let mut taken = std::collections::HashSet::new();
        for i in 0..n {
            let id = match r.below(3) {
                _ if n > 100 => i + 1,
                0 => i + 1,
                1 => r.value(32),
                _ => r.below(20),
            };
            if !taken.insert(id) {
                continue;
            }
            groups.push(id);
            let idx = *r.pick(&[0, 1, 2, 0xffffffff, 7]);
            let mut f = vec![id, idx];
            let k = if i == 0 {
                cfg.many(Dim::AttributesOfGroup, r.range(1, 4))
            } else {
                r.range(1, 4)
            };
            for _ in 0..k {
                attr(r, &mut f);
            }
            if i == 0 && cfg.many(Dim::LongAttribute, 0) > 0 {
                let n = cfg.many(Dim::LongAttribute, 0);
                f.push(4);
                f.extend((0..n).map(|j| b'a' as u64 + j % 23));
                f.push(0);
                f.extend((0..r.range(1, n)).map(|j| b'b' as u64 + j % 19));
                f.push(0);
                attr(r, &mut f);
            }
            recs.push(Item::rec(3, f));
        }
        items.push(Item::Block {
            id: 10,
            w: w(r),
            items: recs,
        });
        let mut recs = vec![];
        lists = cfg.many(Dim::Lists, r.range(0, 4));
        if cfg.many(Dim::GroupsOfList, 0) > 0 {
            lists += 1;
        }
        for i in 0..lists {
            let k = if i == 0 {
                cfg.many(Dim::GroupsOfList, r.below(4))
            } else {
                r.below(4)
            };
            recs.push(Item::rec(
                2,
                (0..k)
                    .map(|_| groups[edge(r, groups.len() as u64) as usize])
                    .collect(),
            ));
        }
        if lists > 0 || r.chance(1, 2) {
            items.push(Item::Block {
                id: 9,
                w: w(r),
                items: recs,
            });
        }
    }
    let types = gen_types(r, cfg);
    items.push(Item::Block {
        id: 17,
        w: w(r),
        items: types.items.clone(),
    });
    if r.chance(3, 4) {
        items.push(text(2, &string(r, cfg.long)));
    }
    if r.chance(1, 2) {
        items.push(text(3, &gen_datalayout(r, cfg.tame)));
    }
    if r.chance(1, 3) || cfg.many(Dim::Text, 0) > 0 {
        let k = r.range(1, 4);
        let s: Vec<String> = (0..k)
            .map(|_| {
                if r.chance(1, 5) {
                    String::new()
                } else {
                    string(r, cfg.long)
                }
            })
            .collect();
        let mut s = s.join("\n");
        let n = cfg.many(Dim::Text, 0);
        for i in 0..n {
            s.push(if i % 7 == 3 { '\n' } else { 'a' });
        }
        while s.len() < 2 {
            s.push('\n');
        }
        items.push(text(4, &s));
    }
    let sections = cfg.many(Dim::Sections, r.below(3));
    for _ in 0..sections {
        items.push(text(5, &string(r, false)));
    }
    for _ in 0..cfg.many(Dim::Libraries, r.count(5)) {
        items.push(text(6, &string(r, cfg.long)));
    }
    let gcs = cfg.many(Dim::Collectors, r.below(3));
    for _ in 0..gcs {
        items.push(text(11, &string(r, false)));
    }
    let name = |r: &mut Rng| names[edge(r, names.len() as u64) as usize];
    if !names.is_empty() {
        for _ in 0..cfg.many(Dim::Comdats, r.below(cfg.funs / 2 + 1)) {
            let (o, s) = name(r);
            items.push(Item::rec(12, vec![o, s, r.range(1, 5)]));
        }
        if !types.funs.is_empty() {
            for _ in 0..cfg.many(Dim::Functions, r.below(cfg.funs + 1)) {
                let (o, s) = name(r);
                let cc = match r.below(4) {
                    0 | 1 => 0,
                    2 => r.range(8, 17),
                    _ => loop {
                        let x = r.range(64, 96);
                        if x != 73 && x != 74 {
                            break x;
                        }
                    },
                };
                let mut f = vec![
                    o,
                    s,
                    types.funs[edge(r, types.funs.len() as u64) as usize],
                    cc,
                    r.below(2),
                    r.below(20),
                    edge(r, lists + 1),
                    if r.chance(1, 2) {
                        r.below(6)
                    } else {
                        r.below(65)
                    },
                    edge(r, sections + 1),
                    r.below(3),
                ];
                let more = r.below(8);
                let all = [
                    edge(r, gcs + 1),
                    r.below(4),
                    r.value(16),
                    r.below(3),
                    r.value(8),
                    r.value(16),
                    r.value(16),
                    1,
                ];
                f.extend(&all[..more as usize]);
                items.push(Item::rec(8, f));
            }
        }
        for _ in 0..cfg.many(Dim::Aliases, r.below(cfg.funs / 2 + 1)) {
            let (o, s) = name(r);
            // Type, address space, aliasee, linkage.
            let mut f = vec![o, s, edge(r, types.n), r.below(4), r.value(8), r.below(22)];
            // Visibility, storage class, thread local, unnamed_addr, preemption.
            let more = r.below(6);
            let all = [r.below(3), r.below(3), r.below(6), r.below(4), r.below(3)];
            f.extend(&all[..more as usize]);
            items.push(Item::rec(14, f));
        }
    }
    let mut vst = vec![];
    for _ in 0..r.below(4) {
        let c = r.range(1, 3);
        vst.push(Item::rec(
            c,
            (0..r.range(1, 8)).map(|_| r.below(256)).collect(),
        ));
    }
    items.push(Item::Block {
        id: 14,
        w: w(r),
        items: vst,
    });
    for _ in 0..r.below(cfg.extras + 1) {
        let at = r.idx(items.len() + 1);
        let x = if r.chance(1, 2) {
            extra_rec(r)
        } else {
            extra_block(r, 0)
        };
        items.insert(at, x);
    }
    if cfg.shuffle {
        for i in (1..items.len()).rev() {
            items.swap(i, r.idx(i + 1));
        }
    }
    Item::Block {
        id: 8,
        w: w(r),
        items,
    }
}

pub fn gen_file(r: &mut Rng, cfg: &MCfg) -> Stream {
    if !r.chance(1, 20) {
        return gen_own(r, cfg);
    }
    // Files written by LLVM, possibly one behind the other.
    let fs = crate::corpus::files();
    let mut s = r.pick(fs).clone();
    if cfg.groups > 1 && r.chance(1, 3) {
        s.items.extend(r.pick(fs).items.iter().cloned());
    }
    s.overlong = *r.pick(&[0, 0, 0, 1, 3, 11]);
    s
}
fn gen_own(r: &mut Rng, cfg: &MCfg) -> Stream {
    let mut items = vec![];
    for _ in 0..cfg.many(Dim::Modules, cfg.groups) {
        // The names of the group's string table.
        let mut table: Vec<u8> = vec![];
        let mut names = vec![];
        let count = cfg.many(Dim::Names, r.range(1, 6));
        for i in 0..count {
            let mut s = string(r, false);
            if i == 0 {
                match cfg.many(Dim::Table, 0) {
                    0 => {}
                    n if r.chance(1, 2) => table.extend(vec![b'-'; n as usize]),
                    n => s.extend((0..n).map(|j| (b'a' + (j % 23) as u8) as char)),
                }
            }
            let at = table.len() as u64;
            table.extend_from_slice(s.as_bytes());
            names.push((at, s.len() as u64));
            if r.chance(1, 4) {
                let n = r.range(1, 9) as usize;
                if r.chance(1, 2) {
                    table.extend(r.bytes(n));
                } else {
                    table.extend(vec![0; n]);
                }
            }
        }
        let mods = r.range(1, cfg.mods);
        for _ in 0..mods {
            let mut id = vec![
                text(1, &string(r, cfg.long)),
                Item::rec(2, vec![r.value(64)]),
            ];
            if r.chance(1, 6) {
                id.swap(0, 1);
            }
            for _ in 0..r.below(cfg.extras / 3 + 1) {
                let at = r.idx(id.len() + 1);
                id.insert(at, extra_table_rec(r));
            }
            items.push(Item::Block {
                id: 13,
                w: w(r),
                items: id,
            });
            items.push(gen_module(r, cfg, &names));
        }
        let tab = |r: &mut Rng, s: Vec<u8>| {
            let mut t = vec![Item::Bytes {
                c: 1,
                pre: vec![],
                s,
                ab: None,
            }];
            for _ in 0..r.below(cfg.extras / 4 + 1) {
                let at = r.idx(t.len() + 1);
                t.insert(at, extra_table_rec(r));
            }
            t
        };
        let st = tab(r, table);
        let strtab = Item::Block {
            id: 23,
            w: w(r),
            items: st,
        };
        let symtab = if r.chance(1, 2) {
            let b = bytes(r, cfg.long);
            let t = tab(r, b);
            Some(Item::Block {
                id: 25,
                w: w(r),
                items: t,
            })
        } else {
            None
        };
        if r.chance(1, 2) {
            items.extend(symtab);
            items.push(strtab);
        } else {
            items.push(strtab);
            items.extend(symtab);
        }
    }
    if r.chance(1, 2) {
        let to = *r.pick(&[u32::MAX as u64, u64::MAX]);
        extend_signs(r, &mut items, to, cfg.tame);
    }
    if cfg.abbrevs {
        gen::abbreviate(r, &mut items);
        // BLOCKINFO often lives in the module block.
        if matches!(items[0], Item::Block { id: 0, .. }) && r.chance(1, 2) {
            let bi = items.remove(0);
            if let Some(Item::Block { items, .. }) = items
                .iter_mut()
                .find(|i| matches!(i, Item::Block { id: 8, .. }))
            {
                items.insert(0, bi);
            }
        }
    }
    Stream {
        magic: BC_MAGIC,
        overlong: *r.pick(&[0, 0, 0, 1, 3, 11]),
        items,
    }
}

/// LLVM writes the characters of strings sign-extended where `char` is signed.
fn extend_signs(r: &mut Rng, items: &mut [Item], to: u64, tame: bool) {
    for i in items {
        match i {
            Item::Block {
                id: 8 | 13 | 17,
                items,
                ..
            } => extend_signs(r, items, to, tame),
            Item::Bytes { c, pre, s, .. } if !s.is_ascii() && r.chance(3, 4) => {
                let mut f = pre.clone();
                f.extend(s.iter().map(|b| *b as i8 as u64 & to));
                if !tame && r.chance(1, 40) {
                    // Something else that ends in a byte.
                    let k = r.idx(f.len());
                    f[k] = match r.below(4) {
                        0 => f[k] & 0xff | 0x100,
                        1 => f[k] & 0x7f | (to & !0xff),
                        2 => f[k] & 0xff | 0xff00,
                        _ => f[k] ^ 1 << r.range(32, 63),
                    };
                }
                *i = Item::rec(*c, f);
            }
            _ => {}
        }
    }
}

pub fn gen_stream(r: &mut Rng) -> Stream {
    let cfg = MCfg::random(r);
    gen_file(r, &cfg)
}

/// One small module, mostly named and opaque structs; sometimes it lost a name or a struct.
pub fn gen_small_stream(r: &mut Rng) -> Stream {
    let cfg = MCfg {
        wide: None,
        tame: false,
        groups: 1,
        mods: 1,
        types: r.range(2, 8),
        funs: r.below(2),
        attrs: r.chance(1, 4),
        extras: 0,
        long: false,
        shuffle: false,
        abbrevs: r.chance(1, 6),
    };
    let mut s = gen_own(r, &cfg);
    let n = r.range(1, 3);
    let mut lose = r.chance(1, 3);
    for i in &mut s.items {
        let Item::Block { id: 8, items, .. } = i else {
            continue;
        };
        for i in items.iter_mut() {
            let Item::Block { id: 17, items, .. } = i else {
                continue;
            };
            // More opaque structs, at the end so that no index changes.
            for _ in 0..n {
                items.push(text(19, &string(r, false)));
                items.push(Item::rec(6, vec![0]));
            }
            if let Some(Item::Rec { f, .. }) = items.first_mut() {
                f[0] += n;
            }
            if std::mem::take(&mut lose) {
                let at = r.idx(2 * n as usize);
                let k = items.len() - 1 - at;
                items.remove(k);
                if at % 2 == 0 && r.chance(1, 2) {
                    if let Some(Item::Rec { f, .. }) = items.first_mut() {
                        f[0] -= 1;
                    }
                }
            }
        }
    }
    s
}

// ----------------------------------------------------------------- mutations

/// Losses and alterations of blocks, records and fields. Nodes are numbered in preorder.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mut {
    Drop {
        at: u64,
    },
    Dup {
        at: u64,
        n: u32,
    },
    /// Swap with the next sibling that is `by` further.
    Swap {
        at: u64,
        by: u64,
    },
    /// Move to another place, any block.
    Move {
        at: u64,
        to: u64,
    },
    Field {
        at: u64,
        f: u64,
        v: u64,
    },
    Trunc {
        at: u64,
        n: u64,
    },
    Extend {
        at: u64,
        v: Vec<u64>,
    },
    Code {
        at: u64,
        c: u64,
    },
    BlockId {
        at: u64,
        id: u64,
    },
    Insert {
        at: u64,
        item: Item,
    },
    Deep {
        at: u64,
        id: u64,
        depth: u32,
    },
}
impl Mut {
    pub fn name(&self) -> &'static str {
        match self {
            Mut::Drop { .. } => "lost_record_or_block",
            Mut::Dup { .. } => "duplicated_record_or_block",
            Mut::Swap { .. } => "reordered_records_or_blocks",
            Mut::Move { .. } => "misplaced_record_or_block",
            Mut::Field { .. } => "altered_field",
            Mut::Trunc { .. } => "shortened_record",
            Mut::Extend { .. } => "lengthened_record",
            Mut::Code { .. } => "altered_record_code",
            Mut::BlockId { .. } => "altered_block_id",
            Mut::Insert { .. } => "inserted_record_or_block",
            Mut::Deep { .. } => "deep_nesting",
        }
    }
    fn at(&mut self) -> &mut u64 {
        match self {
            Mut::Drop { at }
            | Mut::Dup { at, .. }
            | Mut::Swap { at, .. }
            | Mut::Move { at, .. }
            | Mut::Field { at, .. }
            | Mut::Trunc { at, .. }
            | Mut::Extend { at, .. }
            | Mut::Code { at, .. }
            | Mut::BlockId { at, .. }
            | Mut::Insert { at, .. }
            | Mut::Deep { at, .. } => at,
        }
    }
}

pub fn nodes(items: &[Item]) -> u64 {
    items
        .iter()
        .map(|i| match i {
            Item::Block { items, .. } | Item::Nest { items, .. } => 1 + nodes(items),
            _ => 1,
        })
        .sum()
}

/// The list and index of the k-th node.
fn locate(items: &mut Vec<Item>, mut k: u64) -> Option<(&mut Vec<Item>, usize)> {
    let mut found = None;
    for (i, it) in items.iter().enumerate() {
        if k == 0 {
            found = Some((i, None));
            break;
        }
        k -= 1;
        if let Item::Block { items, .. } | Item::Nest { items, .. } = it {
            let n = nodes(items);
            if k < n {
                found = Some((i, Some(k)));
                break;
            }
            k -= n;
        }
    }
    match found? {
        (i, None) => Some((items, i)),
        (i, Some(k)) => match &mut items[i] {
            Item::Block { items, .. } | Item::Nest { items, .. } => locate(items, k),
            _ => None,
        },
    }
}

fn as_rec(it: &mut Item) -> Option<(&mut u64, &mut Vec<u64>)> {
    if let Item::Bytes { ab, .. } = it {
        let ab = *ab;
        let (c, f) = it.fields()?;
        *it = Item::Rec { c, f, ab };
    }
    match it {
        Item::Rec { c, f, .. } => Some((c, f)),
        _ => None,
    }
}

pub fn mutate(items: &mut Vec<Item>, m: &Mut) -> bool {
    let total = nodes(items);
    if total == 0 {
        return false;
    }
    let mut m = m.clone();
    *m.at() %= total;
    let k = *m.at();
    if let Mut::Move { to, .. } = m {
        let Some((l, i)) = locate(items, k) else {
            return false;
        };
        let it = l.remove(i);
        let left = nodes(items);
        if left == 0 {
            items.push(it);
            return false;
        }
        return match locate(items, to % left) {
            Some((l, j)) => {
                l.insert(j, it);
                true
            }
            None => false,
        };
    }
    let Some((l, i)) = locate(items, k) else {
        return false;
    };
    match m {
        Mut::Drop { .. } => {
            l.remove(i);
        }
        Mut::Dup { n, .. } => {
            let it = l[i].clone();
            if nodes(std::slice::from_ref(&it)) * n as u64 > 5000 {
                return false;
            }
            for _ in 0..n {
                l.insert(i, it.clone());
            }
        }
        Mut::Swap { by, .. } => {
            let j = (i + 1 + by as usize % l.len()) % l.len();
            if l[i] == l[j] {
                return false;
            }
            l.swap(i, j);
        }
        Mut::Field { f, v, .. } => match as_rec(&mut l[i]) {
            Some((_, fs)) if !fs.is_empty() => {
                let n = fs.len() as u64;
                let x = &mut fs[(f % n) as usize];
                if *x == v {
                    return false;
                }
                *x = v;
            }
            _ => return false,
        },
        Mut::Trunc { n, .. } => match as_rec(&mut l[i]) {
            Some((_, fs)) if !fs.is_empty() => {
                let n = n % fs.len() as u64;
                fs.truncate(n as usize);
            }
            _ => return false,
        },
        Mut::Extend { v, .. } => match as_rec(&mut l[i]) {
            Some((_, fs)) => fs.extend(v),
            _ => return false,
        },
        Mut::Code { c, .. } => match as_rec(&mut l[i]) {
            Some((x, _)) if *x != c => *x = c,
            _ => return false,
        },
        Mut::BlockId { id, .. } => match &mut l[i] {
            Item::Block { id: x, .. } if *x != id => *x = id,
            _ => return false,
        },
        Mut::Insert { item, .. } => l.insert(i, item),
        Mut::Deep { id, depth, .. } => {
            let it = l.remove(i);
            l.insert(
                i,
                Item::Nest {
                    id,
                    w: 3,
                    depth,
                    items: vec![it],
                },
            );
        }
        Mut::Move { .. } => unreachable!(),
    }
    true
}

fn collect<'a>(items: &'a [Item], parent: u64, k: &mut u64, out: &mut Vec<(u64, u64, &'a Item)>) {
    for it in items {
        out.push((*k, parent, it));
        *k += 1;
        match it {
            Item::Block { items, id, .. } | Item::Nest { items, id, .. } => {
                collect(items, *id, k, out)
            }
            _ => {}
        }
    }
}

/// An insert that means something where it lands.
fn plausible(r: &mut Rng, parent: u64) -> Item {
    let small = |r: &mut Rng| match r.below(4) {
        0 => r.value(64),
        _ => r.below(30),
    };
    let n = r.below(16);
    let f: Vec<u64> = (0..n).map(|_| small(r)).collect();
    match parent {
        17 => Item::rec(r.range(1, 27), f),
        10 => {
            let mut f = vec![r.below(5), *r.pick(&[0, 1, 0xffffffff])];
            for _ in 0..r.below(4) {
                if r.chance(1, 2) {
                    attr(r, &mut f);
                } else {
                    f.push(small(r));
                }
            }
            Item::rec(*r.pick(&[3, 3, 3, 1, 2]), f)
        }
        9 => Item::rec(*r.pick(&[2, 2, 1, 3]), f),
        8 => {
            if r.chance(1, 3) {
                block(
                    *r.pick(&[9, 10, 12, 14, 17, 11, 8, 13, 23, 1, 7, 26]),
                    vec![],
                )
            } else {
                Item::rec(*r.pick(&[1, 2, 3, 4, 5, 6, 8, 11, 12, 14, 40]), f)
            }
        }
        12 => Item::rec(r.range(1, 62), f),
        u64::MAX => {
            if r.chance(1, 2) {
                block(*r.pick(&[13, 8, 23, 25, 0, 17, 99]), vec![])
            } else {
                Item::rec(r.below(5), f)
            }
        }
        _ => Item::rec(r.below(5), f),
    }
}

pub fn gen_mut(r: &mut Rng, items: &[Item]) -> Option<Mut> {
    let mut all = vec![];
    collect(items, u64::MAX, &mut 0, &mut all);
    if all.is_empty() {
        return None;
    }
    // Half of the time aim at rarer kinds of nodes: first pick a kind, then a node of it.
    let (at, parent, it) = if r.chance(1, 2) {
        *r.pick(&all)
    } else {
        let key = |x: &(u64, u64, &Item)| match x.2 {
            Item::Block { id, .. } => (1, x.1, *id),
            Item::Nest { id, .. } => (2, x.1, *id),
            Item::Rec { c, .. } | Item::Bytes { c, .. } => (0, x.1, *c),
            _ => (3, x.1, 0),
        };
        let mut keys: Vec<_> = all.iter().map(key).collect();
        keys.sort();
        keys.dedup();
        let k = *r.pick(&keys);
        let of: Vec<_> = all.iter().filter(|x| key(x) == k).collect();
        **r.pick(&of)
    };
    let rec = it.fields();
    Some(match r.below(20) {
        0..=2 => Mut::Drop { at },
        3 => Mut::Dup {
            at,
            n: if r.chance(1, 10) {
                r.range(2, 40) as u32
            } else {
                1
            },
        },
        4 => Mut::Swap { at, by: r.below(6) },
        5 => Mut::Move {
            at,
            to: r.below(all.len() as u64),
        },
        6 => Mut::Insert {
            at,
            item: plausible(r, parent),
        },
        7 if r.chance(1, 6) => Mut::Deep {
            at,
            id: *r.pick(&[8, 11, 12, 17, 99]),
            depth: *r.pick(&[1, 10, 60, 64, 65, 70, 300, 5000]),
        },
        8 if rec.is_none() => Mut::BlockId {
            at,
            id: match r.below(3) {
                0 => r.value(32),
                _ => r.below(27),
            },
        },
        9 => match &rec {
            Some((c, _)) => Mut::Code {
                at,
                c: match r.below(4) {
                    0 => r.value(64),
                    1 => c.wrapping_add(1 << r.below(33)),
                    _ => r.below(28),
                },
            },
            None => Mut::Drop { at },
        },
        10 | 11 => match &rec {
            Some((_, f)) if !f.is_empty() => Mut::Trunc {
                at,
                n: r.below(f.len() as u64),
            },
            _ => Mut::Drop { at },
        },
        12 => Mut::Extend {
            at,
            v: (0..r.range(1, 4))
                .map(|_| {
                    if r.chance(1, 2) {
                        r.below(300)
                    } else {
                        r.value(64)
                    }
                })
                .collect(),
        },
        _ => match &rec {
            Some((_, f)) if !f.is_empty() => {
                let k = r.idx(f.len());
                let x = f[k];
                let v = match r.below(14) {
                    0 => x.wrapping_add(1),
                    1 => x.wrapping_sub(1),
                    2 => x.wrapping_add(1 << 32),
                    3 => x | 1 << 63,
                    4 => u64::MAX,
                    5 => 0,
                    6 => x.wrapping_add(256),
                    7 => crate::faults::hostile(r),
                    8 => r.range(2, 6),
                    9 => x.wrapping_add(65536),
                    10 => r.range(60, 70),
                    _ => r.below(40),
                };
                Mut::Field { at, f: k as u64, v }
            }
            Some(_) => Mut::Extend {
                at,
                v: vec![r.below(40)],
            },
            None => match r.below(3) {
                0 => Mut::Drop { at },
                1 => Mut::Dup { at, n: 1 },
                _ => Mut::Swap { at, by: 0 },
            },
        },
    })
}

/// A file with damaged structure and damaged bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MapPlan {
    pub s: Stream,
    pub muts: Vec<Mut>,
    pub claims: Vec<Claim>,
    pub faults: Vec<BFault>,
    pub late: Vec<(u64, BFault)>,
    pub log: bool,
}
impl MapPlan {
    pub fn stream(&self, c: &mut Ctx) -> Stream {
        let mut s = self.s.clone();
        for m in &self.muts {
            if mutate(&mut s.items, m) {
                c.fault(m.name());
            }
        }
        s
    }
    pub fn bytes(&self, c: &mut Ctx) -> Vec<u8> {
        let s = self.stream(c);
        let e = emit(&s, &self.claims);
        c.faults_n("hostile_claim", e.claims_fired);
        let mut b = e.bytes;
        apply_faults(c, &mut b, &self.faults);
        b
    }
    pub fn shrink(&self) -> Vec<MapPlan> {
        let mut out = vec![];
        for x in shrink::lists(&self.muts) {
            out.push(MapPlan {
                muts: x,
                ..self.clone()
            });
        }
        for x in shrink::bfaults(&self.faults) {
            out.push(MapPlan {
                faults: x,
                ..self.clone()
            });
        }
        for x in shrink::lists(&self.late) {
            out.push(MapPlan {
                late: x,
                ..self.clone()
            });
        }
        for x in shrink::claims(&self.claims) {
            out.push(MapPlan {
                claims: x,
                ..self.clone()
            });
        }
        if self.log {
            out.push(MapPlan {
                log: false,
                ..self.clone()
            });
        }
        let n0 = nodes(&self.s.items);
        for s in shrink::stream(&self.s) {
            let n1 = nodes(&s.items);
            out.push(MapPlan {
                s: s.clone(),
                ..self.clone()
            });
            if n1 < n0 && n1 > 0 && !self.muts.is_empty() {
                let mut x = self.clone();
                x.s = s;
                for m in &mut x.muts {
                    let a = m.at();
                    *a = (*a % n0).saturating_sub(n0 - n1);
                }
                out.push(x);
            }
        }
        for (i, m) in self.muts.iter().enumerate() {
            let alts: Vec<Mut> = match m {
                Mut::Field { at, f, v } => shrink::value(*v)
                    .into_iter()
                    .map(|v| Mut::Field { at: *at, f: *f, v })
                    .collect(),
                Mut::Dup { at, n } if *n > 1 => {
                    vec![Mut::Dup { at: *at, n: 1 }, Mut::Dup { at: *at, n: n / 2 }]
                }
                Mut::Deep { at, id, depth } => shrink::value(*depth as u64)
                    .into_iter()
                    .map(|d| Mut::Deep {
                        at: *at,
                        id: *id,
                        depth: d as u32,
                    })
                    .collect(),
                Mut::Extend { at, v } => shrink::lists(v)
                    .into_iter()
                    .map(|v| Mut::Extend { at: *at, v })
                    .collect(),
                _ => vec![],
            };
            for a in alts {
                let mut x = self.clone();
                x.muts[i] = a;
                out.push(x);
            }
        }
        if !self.muts.is_empty() {
            // Last: take the damage for granted and shrink on.
            let s = self.stream(&mut Ctx::new());
            if nodes(&s.items) <= 60 {
                for s in shrink::stream(&s) {
                    if nodes(&s.items) + s.items.len() as u64 <= nodes(&self.s.items) {
                        out.push(MapPlan {
                            s,
                            muts: vec![],
                            ..self.clone()
                        });
                    }
                }
            }
        }
        out
    }
}

pub fn gen_muts(r: &mut Rng, s: &Stream, max: u64) -> Vec<Mut> {
    let mut cur = s.items.clone();
    let mut muts = vec![];
    let k = match r.below(6) {
        0..=2 => 1,
        3 | 4 => 2,
        _ => r.range(1, max),
    };
    for _ in 0..k {
        if let Some(m) = gen_mut(r, &cur) {
            if mutate(&mut cur, &m) {
                muts.push(m);
            }
        }
    }
    muts
}

pub const MAP_REAL: &[&str] = &[
    "llvm-bitcursor (all of it)",
    "llvm-bitstream (all of it)",
    "llvm-mapper (all of it)",
    "llvm-support (the parts they use)",
];
pub const MAP_STUB: &[&str] = &[
    "storage: simulated disk or byte slice behind the AsRef<[u8]> parameter",
    "writer of the stored bytes: the harness's own bitcode generator and emitter",
    "logger: formats every record, keeps nothing",
    "allocator: system allocator behind an accounting layer with a cap",
    "hash seeds (getrandom): from the plan",
];

/// Map a byte slice; panics are violations.
pub fn map_bytes(bytes: &[u8]) -> Result<Result<Vec<ModObs>, String>, Violation> {
    guard("mapping", || {
        Bitcode::try_from(bytes)
            .map(|b| observe(&b))
            .map_err(|e| format!("{e:?}"))
    })
}

/// Times of huge files, to keep runs small: sim huge.
pub fn huge_times(seed: u64) -> i32 {
    for d in DIMS {
        let mut r = Rng::new(seed);
        let mut cfg = MCfg::huge(&mut r);
        cfg.wide = Some((*d, 65_540));
        match d {
            Dim::Modules => cfg.wide = Some((*d, 300)),
            Dim::Functions | Dim::Aliases => cfg.wide = Some((*d, 3000)),
            _ => {}
        }
        let t = std::time::Instant::now();
        let mut last = 0.0;
        let mut lap = || {
            let x = t.elapsed().as_secs_f64();
            let y = x - last;
            last = x;
            format!("{y:.2}")
        };
        let s = gen_file(&mut r, &cfg);
        let a = lap();
        let e = emit(&s, &[]);
        let b = lap();
        let m = meaning(&e.bytes);
        let c = lap();
        let x = expands_by(&e.bytes, 200_000, 1 << 20);
        let f = lap();
        let (g, peak, _) = crate::seams::measure(|| map_bytes(&e.bytes));
        let h = lap();
        let (_, said) = crate::seams::capture(|| Bitcode::try_from(&e.bytes[..]).is_ok());
        let i = lap();
        let n: usize = said.iter().map(|s| s.len()).sum();
        println!("{d:?}: {} bytes, gen {a} emit {b} meaning {c} expands {x} {f} map {h} ({} MB) said {n} {i}; {} {}", e.bytes.len(), peak >> 20,
            match &m { Expect::Accept(_) => "ok".to_string(), Expect::Reject(x) | Expect::Unspecified(x) => x.to_string() }, g.map(|g| g.is_ok()).unwrap_or(false));
    }
    0
}
