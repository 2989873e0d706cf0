//! A reference model of what mapping a bitcode file has to result in: the grouping of top-level
//! blocks, and for every module whether it is complete and consistent. It knows nothing of the
//! code under test; where the format or the property leaves a choice, it says so.

use crate::refdl::{self, Dl};
use crate::writer::Entry;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct RBlock {
    pub id: u64,
    pub recs: Vec<(u64, Vec<u64>)>,
    pub subs: Vec<RBlock>,
}
impl RBlock {
    pub fn code(&self, c: u64) -> impl Iterator<Item = &Vec<u64>> + '_ {
        self.recs.iter().filter(move |r| r.0 == c).map(|r| &r.1)
    }
    pub fn sub(&self, id: u64) -> impl Iterator<Item = &RBlock> + '_ {
        self.subs.iter().filter(move |b| b.id == id)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ModObs {
    pub producer: String,
    pub epoch: u64,
    /// None: the default.
    pub triple: Option<String>,
    pub asm: Vec<String>,
    pub deplibs: Vec<String>,
    pub strtab: Vec<u8>,
    pub symtab: Option<Vec<u8>>,
    /// What else the records say; not part of what was returned.
    pub rep: Option<Box<Rep>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TyRep {
    Plain(u64),
    Int(u64),
    Ptr(u64, u64),
    OpaquePtr(u64),
    Array(u64, u64),
    Vector(u64, u64, bool),
    Struct(Option<String>, bool, Vec<u64>),
    Fun(bool, u64, Vec<u64>),
    Open,
}
#[derive(Clone, Debug, PartialEq)]
pub enum AttrRep {
    Enum(u64),
    Int(u64, u64),
    Str(String),
    KeyValue(String, String),
}
/// What the records of a module say, beyond what mapping returns.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rep {
    pub version: u64,
    pub dl: Dl,
    pub sections: Vec<String>,
    pub gcs: Vec<String>,
    pub types: Vec<TyRep>,
    /// Group id to (what it is for, attributes).
    pub groups: BTreeMap<u64, (u64, Vec<AttrRep>)>,
    pub lists: Vec<Vec<u64>>,
    /// The records themselves.
    pub comdats: Vec<Vec<u64>>,
    pub funs: Vec<Vec<u64>>,
    pub aliases: Vec<Vec<u64>>,
}

#[derive(Clone, Debug)]
pub enum Expect {
    Accept(Vec<ModObs>),
    Reject(String),
    Unspecified(String),
}

/// What is known to be wrong, and what is left open.
#[derive(Default)]
struct V {
    reject: Option<String>,
    open: Option<String>,
}
impl V {
    fn bad(&mut self, s: impl Into<String>) {
        if self.reject.is_none() {
            self.reject = Some(s.into());
        }
    }
    fn open(&mut self, s: impl Into<String>) {
        if self.open.is_none() {
            self.open = Some(s.into());
        }
    }
}

/// The complete top-level blocks of a sequence of entries.
pub struct Tops {
    pub tops: Vec<RBlock>,
    /// A block was still open at the end.
    pub dangling: bool,
    /// Something other than a block at the top.
    pub stray: bool,
    pub depth: usize,
}

pub fn tops<'a>(entries: impl Iterator<Item = &'a Entry>) -> Tops {
    let mut t = Tops {
        tops: vec![],
        dangling: false,
        stray: false,
        depth: 0,
    };
    let mut st: Vec<RBlock> = vec![];
    for e in entries {
        match e {
            Entry::Block { id, .. } => {
                st.push(RBlock {
                    id: *id,
                    ..Default::default()
                });
                t.depth = t.depth.max(st.len());
            }
            Entry::End => match st.pop() {
                None => t.stray = true,
                Some(b) => match st.last_mut() {
                    Some(p) => p.subs.push(b),
                    None => t.tops.push(b),
                },
            },
            Entry::Rec { c, f, .. } => match st.last_mut() {
                None => t.stray = true,
                Some(b) => b.recs.push((*c, f.clone())),
            },
        }
    }
    t.dangling = !st.is_empty();
    // Deep trees are dropped piece by piece, not recursively.
    while let Some(mut b) = st.pop() {
        flatten(&mut b);
    }
    t
}
pub fn flatten(b: &mut RBlock) {
    let mut todo = std::mem::take(&mut b.subs);
    while let Some(mut x) = todo.pop() {
        todo.append(&mut x.subs);
    }
}
impl Drop for Tops {
    fn drop(&mut self) {
        for b in &mut self.tops {
            flatten(b);
        }
    }
}

struct Group<'a> {
    ident: &'a RBlock,
    module: Option<&'a RBlock>,
    strtab: Option<&'a RBlock>,
    symtab: Option<&'a RBlock>,
}

/// `ok`: decoding ended cleanly.
pub fn expect<'a>(entries: impl Iterator<Item = &'a Entry>) -> Expect {
    let t = tops(entries);
    let mut v = V::default();
    if t.dangling {
        v.bad("the file ends inside a block");
    }
    if t.stray {
        v.bad("a record or an end at the top level");
    }
    if t.depth > 16 {
        v.open("deeply nested blocks");
    }
    let mut groups: Vec<Group> = vec![];
    for b in &t.tops {
        match b.id {
            13 => groups.push(Group {
                ident: b,
                module: None,
                strtab: None,
                symtab: None,
            }),
            8 => match groups.last_mut() {
                None => v.bad("a module block without identification"),
                Some(g) if g.module.is_some() => v.bad("two module blocks for one identification"),
                Some(g) => g.module = Some(b),
            },
            23 => {
                // The first string table after a group is its own.
                for g in groups.iter_mut().filter(|g| g.strtab.is_none()) {
                    g.strtab = Some(b);
                }
            }
            25 => {
                for g in groups.iter_mut().filter(|g| g.symtab.is_none()) {
                    g.symtab = Some(b);
                }
            }
            x => v.bad(format!("top-level block {x}")),
        }
    }
    let mut out = vec![];
    for (i, g) in groups.iter().enumerate() {
        let mut gv = V::default();
        let o = group(g, &mut gv);
        if let Some(s) = gv.reject {
            v.bad(format!("module {i}: {s}"));
        }
        if let Some(s) = gv.open {
            v.open(s);
        }
        out.push(o);
    }
    if let Some(s) = v.reject {
        return Expect::Reject(s);
    }
    if let Some(s) = v.open {
        return Expect::Unspecified(s);
    }
    Expect::Accept(out)
}

fn blob(v: &mut V, f: &[u64], what: &str) -> Vec<u8> {
    if f.len() < 2 {
        // See KNOWN_FINDINGS.txt, KF1.
        v.open(format!("{what} of less than two bytes"));
    }
    if f.iter().any(|x| *x > 255) {
        v.bad(format!("{what}: a field that is not a byte"));
    }
    f.iter().map(|x| *x as u8).collect()
}
/// The byte that a field of a string stands for. LLVM writes `char`s, which come out sign-extended
/// to 32 or 64 bits where they are signed.
pub fn chr(x: u64) -> Option<u8> {
    let plain = x < 256;
    let signed = (0xffff_ff80..=0xffff_ffff).contains(&x) || x >= u64::MAX - 127;
    (plain || signed).then_some(x as u8)
}
fn string(v: &mut V, f: &[u64], what: &str) -> String {
    let f: Vec<u64> = f.iter().map(|x| chr(*x).map_or(*x, |b| b as u64)).collect();
    let b = blob(v, &f, what);
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            v.bad(format!("{what}: not UTF-8"));
            String::new()
        }
    }
}

fn group(g: &Group, v: &mut V) -> ModObs {
    let mut o = ModObs {
        producer: String::new(),
        epoch: 0,
        triple: None,
        asm: vec![],
        deplibs: vec![],
        strtab: vec![],
        symtab: None,
        rep: None,
    };
    for b in [Some(g.ident), g.strtab, g.symtab].into_iter().flatten() {
        if !b.subs.is_empty() {
            v.open("blocks inside a table");
        }
    }
    match g.strtab {
        None => v.bad("no string table"),
        Some(b) => {
            let n = b.code(1).count();
            match b.code(1).next() {
                None => v.bad("string table without contents"),
                Some(f) => o.strtab = blob(v, f, "string table"),
            }
            if n > 1 {
                v.open("string table with two blobs");
            }
        }
    }
    if let Some(b) = g.symtab {
        match b.code(1).next() {
            None => v.open("symbol table without contents"),
            Some(f) => o.symtab = Some(blob(v, f, "symbol table")),
        }
        if b.code(1).count() > 1 {
            v.open("symbol table with two blobs");
        }
    }
    match g.ident.code(1).next() {
        None => v.bad("no producer"),
        Some(f) => o.producer = string(v, f, "producer"),
    }
    match g.ident.code(2).next() {
        None => v.bad("no epoch"),
        Some(f) => match f.first() {
            None => v.bad("no epoch value"),
            Some(e) => o.epoch = *e,
        },
    }
    if g.ident.code(1).count() > 1 || g.ident.code(2).count() > 1 {
        v.open("identification with repeated records");
    }
    match g.module {
        None => v.bad("no module block"),
        Some(m) => module(m, &mut o, v),
    }
    o
}

fn unique<'a>(v: &mut V, b: &'a RBlock, c: u64, what: &str) -> Option<&'a Vec<u64>> {
    if b.code(c).count() > 1 {
        v.bad(format!("two records: {what}"));
    }
    b.code(c).next()
}

fn module(b: &RBlock, o: &mut ModObs, v: &mut V) {
    let mut rep = Box::new(Rep::default());
    let mut version = 0;
    match unique(v, b, 1, "version") {
        None => v.bad("no version"),
        Some(f) => match f.first() {
            None => v.bad("no version value"),
            Some(x) => {
                version = *x;
                if *x > 2 {
                    v.open("unknown version");
                }
            }
        },
    }
    if let Some(f) = unique(v, b, 3, "datalayout") {
        let s = string(v, f, "datalayout");
        let r = refdl::read(&s);
        if let Some(e) = r.bad {
            v.bad(e);
        }
        if let Some(e) = r.open {
            v.open(e);
        }
        rep.dl = r.dl;
    }
    if let Some(f) = unique(v, b, 2, "triple") {
        o.triple = Some(string(v, f, "triple"));
    }
    if let Some(f) = unique(v, b, 4, "asm") {
        let s = string(v, f, "asm");
        o.asm = s.split('\n').map(String::from).collect();
    }
    for f in b.code(6) {
        let s = string(v, f, "dependent library");
        o.deplibs.push(s);
    }
    let mut sections = 0u64;
    for f in b.code(5) {
        rep.sections.push(string(v, f, "section name"));
        sections += 1;
    }
    let mut gcs = 0u64;
    for f in b.code(11) {
        rep.gcs.push(string(v, f, "collector name"));
        gcs += 1;
    }
    for s in &b.subs {
        match s.id {
            1..=7 => v.open("reserved block"),
            12 => v.open("function bodies"),
            _ => {}
        }
        if matches!(s.id, 9 | 10 | 17) && !s.subs.is_empty() {
            v.open("blocks inside a table");
        }
    }
    let types = match b.sub(17).count() {
        0 => {
            v.bad("no type table");
            vec![]
        }
        1 => types(b.sub(17).next().unwrap(), v, &mut rep),
        _ => {
            v.bad("two type tables");
            vec![]
        }
    };
    match b.sub(14).count() {
        0 => v.bad("no value symbol table"),
        1 => {}
        _ => v.bad("two value symbol tables"),
    }
    let mut groups = vec![];
    match b.sub(10).count() {
        0 => {}
        1 => groups = attr_groups(b.sub(10).next().unwrap(), v, &mut rep),
        _ => v.bad("two attribute group tables"),
    }
    let mut attrs = 0u64;
    match b.sub(9).count() {
        0 => {}
        1 => {
            for (c, f) in &b.sub(9).next().unwrap().recs {
                match c {
                    2 => {
                        attrs += 1;
                        rep.lists.push(f.clone());
                        for g in f {
                            if !groups.contains(g) {
                                v.bad(format!("attribute group {g} is not there"));
                            }
                        }
                    }
                    _ => v.open("other attribute record"),
                }
            }
        }
        _ => v.bad("two attribute tables"),
    }
    let name = |v: &mut V, f: &[u64]| {
        if f[1] == 0 {
            v.open("empty name");
            return;
        }
        let n = o.strtab.len() as u64;
        if f[0].checked_add(f[1]).map(|e| e > n).unwrap_or(true) {
            v.bad(format!(
                "name at {}+{} in a string table of {n} bytes",
                f[0], f[1]
            ));
            return;
        }
        if std::str::from_utf8(&o.strtab[f[0] as usize..(f[0] + f[1]) as usize]).is_err() {
            v.bad("name is not UTF-8");
        }
    };
    let enum3 = |v: &mut V, x: Option<&u64>, what: &str| {
        if let Some(x) = x {
            if *x > 2 {
                v.bad(format!("{what} {x}"));
            }
        }
    };
    for f in b.code(12) {
        if version < 2 {
            v.open("comdat in an old version");
            continue;
        }
        if f.len() < 3 {
            v.bad("short comdat");
            continue;
        }
        if f.len() > 3 {
            v.open("long comdat");
        }
        name(v, f);
        if f[2] == 0 || f[2] > 5 {
            v.bad(format!("comdat kind {}", f[2]));
        }
        rep.comdats.push(f.clone());
    }
    for f in b.code(8) {
        if version < 2 {
            v.open("function in an old version");
            continue;
        }
        if f.len() < 10 {
            v.bad("short function record");
            continue;
        }
        name(v, f);
        match types.get(f[2] as usize) {
            None => v.bad(format!("function type {}", f[2])),
            Some(Cls::Function) => {}
            Some(Cls::Unknown) => v.open("function of an open type"),
            Some(_) => v.bad(format!("function of non-function type {}", f[2])),
        }
        match f[3] {
            0 | 8..=17 | 64..=72 | 75..=96 => {}
            1..=7 | 25..=63 | 111.. => v.bad(format!("calling convention {}", f[3])),
            _ => v.open("calling convention"),
        }
        if f[6] > attrs {
            v.bad(format!("attribute list {} of {attrs}", f[6]));
        }
        if f[7] > 64 {
            v.bad(format!("alignment {}", f[7]));
        }
        if f[8] > sections {
            v.bad(format!("section {} of {sections}", f[8]));
        }
        enum3(v, Some(&f[9]), "visibility");
        if let Some(g) = f.get(10) {
            if *g > gcs {
                v.bad(format!("collector {g} of {gcs}"));
            }
        }
        enum3(v, f.get(13), "storage class");
        rep.funs.push(f.clone());
    }
    for f in b.code(14) {
        if version < 2 {
            v.open("alias in an old version");
            continue;
        }
        if f.len() < 6 {
            v.bad("short alias record");
            continue;
        }
        name(v, f);
        if f[2] >= types.len() as u64 {
            v.bad(format!("alias type {}", f[2]));
        }
        for (x, what) in [(f.get(6), "visibility"), (f.get(7), "storage class")] {
            if let Some(x) = x {
                if *x > 2 {
                    v.bad(format!("alias {what} {x}"));
                }
            }
        }
        rep.aliases.push(f.clone());
    }
    rep.version = version;
    o.rep = Some(rep);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cls {
    Float,
    Void,
    Label,
    Metadata,
    Mmx,
    Amx,
    Token,
    Integer,
    Function,
    Pointer,
    OpaquePointer,
    Struct,
    Array,
    FixedVector,
    ScalableVector,
    Unknown,
}

fn set(rep: &mut Rep, t: TyRep) {
    if let Some(x) = rep.types.last_mut() {
        *x = t;
    }
}

enum Refs {
    None,
    Pointee(u64),
    Array(u64),
    Vector(u64),
    Struct(Vec<u64>),
    Function(u64, Vec<u64>),
}

fn types(b: &RBlock, v: &mut V, rep: &mut Rep) -> Vec<Cls> {
    let mut cls: Vec<(Cls, Refs)> = vec![];
    let mut name: Option<String> = None;
    let mut num = None;
    for (c, f) in &b.recs {
        let need = |v: &mut V, n: usize| {
            if f.len() < n {
                v.bad(format!("short type record {c}"));
                false
            } else {
                true
            }
        };
        let mut add = |c: Cls, r: Refs| {
            cls.push((c, r));
            rep.types.push(TyRep::Open);
        };
        match c {
            1 => {
                if num.is_some() {
                    v.open("two type counts");
                } else {
                    match f.first() {
                        None => v.bad("type count without value"),
                        Some(n) => num = Some(*n),
                    }
                    if f.is_empty() {
                        num = Some(u64::MAX);
                    }
                }
            }
            2 => add(Cls::Void, Refs::None),
            3 | 4 | 10 | 13 | 14 | 15 | 23 => add(Cls::Float, Refs::None),
            5 => add(Cls::Label, Refs::None),
            6 => {
                if name.is_none() {
                    v.bad("opaque type without name");
                }
                add(Cls::Struct, Refs::None);
                set(rep, TyRep::Struct(name.take(), false, vec![]));
            }
            7 => {
                if need(v, 1) {
                    if f[0] == 0 || f[0] >= 1 << 24 {
                        v.bad(format!("integer width {}", f[0]));
                    } else if f[0] > 1 << 23 {
                        v.open("integer width");
                    }
                }
                add(Cls::Integer, Refs::None);
                set(rep, TyRep::Int(f.first().copied().unwrap_or(0)));
            }
            8 => {
                if f.len() == 1 {
                    v.open("pointer without address space");
                    add(Cls::Pointer, Refs::None);
                } else if need(v, 2) {
                    space(v, f[1]);
                    add(Cls::Pointer, Refs::Pointee(f[0]));
                    set(rep, TyRep::Ptr(f[0], f[1]));
                }
            }
            9 => {
                v.open("old function type");
                add(Cls::Unknown, Refs::None)
            }
            11 => {
                if need(v, 2) {
                    add(Cls::Array, Refs::Array(f[1]));
                    set(rep, TyRep::Array(f[0], f[1]));
                }
            }
            12 => {
                if need(v, 2) {
                    if f[0] == 0 {
                        v.open("vector without elements");
                    }
                    let c = if f.get(2).map(|x| *x > 0).unwrap_or(false) {
                        Cls::ScalableVector
                    } else {
                        Cls::FixedVector
                    };
                    add(c, Refs::Vector(f[1]));
                    set(rep, TyRep::Vector(f[0], f[1], c == Cls::ScalableVector));
                }
            }
            16 => add(Cls::Metadata, Refs::None),
            17 => add(Cls::Mmx, Refs::None),
            18 | 20 => {
                if need(v, 1) {
                    let n = if *c == 20 { name.take() } else { None };
                    add(Cls::Struct, Refs::Struct(f[1..].to_vec()));
                    set(rep, TyRep::Struct(n, f[0] != 0, f[1..].to_vec()));
                }
            }
            19 => {
                if name.is_some() {
                    v.open("two names for one type");
                }
                name = Some(string(v, f, "type name"));
            }
            21 => {
                if need(v, 2) {
                    add(Cls::Function, Refs::Function(f[1], f[2..].to_vec()));
                    set(rep, TyRep::Fun(f[0] != 0, f[1], f[2..].to_vec()));
                }
            }
            22 => add(Cls::Token, Refs::None),
            24 => add(Cls::Amx, Refs::None),
            25 => {
                if need(v, 1) {
                    space(v, f[0]);
                }
                add(Cls::OpaquePointer, Refs::None);
                set(rep, TyRep::OpaquePtr(f.first().copied().unwrap_or(0)));
            }
            26 => {
                v.open("target type");
                add(Cls::Unknown, Refs::None)
            }
            x => v.bad(format!("type code {x}")),
        }
        if matches!(c, 2..=5 | 10 | 13..=17 | 22..=24) {
            set(rep, TyRep::Plain(*c));
        }
    }
    match num {
        None => v.bad("no type count"),
        Some(n) if n != cls.len() as u64 => {
            v.bad(format!("type count {n}, but {} types", cls.len()))
        }
        _ => {}
    }
    if name.is_some() {
        v.open("type name without type");
    }
    // Check what types are built from.
    let n = cls.len() as u64;
    let get = |v: &mut V, i: u64| -> Option<Cls> {
        if i >= n {
            v.bad(format!("type {i} of {n}"));
            None
        } else {
            Some(cls[i as usize].0)
        }
    };
    for (i, (_, r)) in cls.iter().enumerate() {
        use Cls::*;
        let mut check = |v: &mut V, j: u64, no: &[Cls]| {
            if let Some(c) = get(v, j) {
                if c == Unknown {
                    v.open("type built from an open type");
                } else if no.contains(&c) {
                    v.bad(format!("type {i} cannot be built from {c:?}"));
                }
            }
        };
        match r {
            Refs::None => {}
            Refs::Pointee(j) => check(v, *j, &[Void, Label, Metadata, Token, Amx]),
            Refs::Array(j) => check(
                v,
                *j,
                &[Void, Label, Metadata, Function, Token, Amx, ScalableVector],
            ),
            Refs::Struct(js) => {
                for j in js {
                    check(v, *j, &[Void, Label, Metadata, Function, Token])
                }
            }
            Refs::Vector(j) => match get(v, *j) {
                None | Some(Float | Integer | Pointer | OpaquePointer) => {}
                Some(Unknown) => v.open("vector of an open type"),
                Some(c) => v.bad(format!("type {i}: a vector of {c:?}")),
            },
            Refs::Function(r, ps) => {
                check(v, *r, &[Function, Label, Metadata]);
                for p in ps {
                    check(v, *p, &[Function, Void]);
                }
            }
        }
    }
    // Recursive and very deep types are a reader's choice.
    let kids: Vec<Vec<usize>> = cls
        .iter()
        .map(|(_, r)| {
            let v: Vec<u64> = match r {
                Refs::None => vec![],
                Refs::Pointee(j) | Refs::Array(j) | Refs::Vector(j) => vec![*j],
                Refs::Struct(js) => js.clone(),
                Refs::Function(r, ps) => {
                    let mut x = ps.clone();
                    x.push(*r);
                    x
                }
            };
            v.into_iter()
                .filter(|j| *j < n)
                .map(|j| j as usize)
                .collect()
        })
        .collect();
    if depth_over(&kids, 64) {
        v.open("recursive or deep types");
    }
    cls.into_iter().map(|c| c.0).collect()
}

/// Whether some path of references is longer than `max` (cycles are).
fn depth_over(kids: &[Vec<usize>], max: usize) -> bool {
    // Longest paths by repeated relaxation, up to max rounds.
    let mut cur: Vec<bool> = kids.iter().map(|k| !k.is_empty()).collect();
    for _ in 0..max {
        let next: Vec<bool> = kids.iter().map(|k| k.iter().any(|j| cur[*j])).collect();
        if !next.iter().any(|x| *x) {
            return false;
        }
        if next == cur {
            return true;
        }
        cur = next;
    }
    true
}

fn space(v: &mut V, x: u64) {
    if x >= 1 << 24 {
        v.bad(format!("address space {x}"));
    } else if x >= 1 << 23 {
        v.open("address space");
    }
}

/// Attributes with an integer value.
pub const INT_ATTRS: &[u64] = &[1, 25, 41, 42, 51, 74, 82, 86];

fn attr_groups(b: &RBlock, v: &mut V, rep: &mut Rep) -> Vec<u64> {
    let mut ids = vec![];
    for (c, f) in &b.recs {
        if *c != 3 {
            v.open("other attribute group record");
            continue;
        }
        if f.len() < 3 {
            v.bad("short attribute group");
            continue;
        }
        if f[0] > u32::MAX as u64 || f[1] > u32::MAX as u64 {
            v.open("attribute group id beyond 32 bits");
        }
        if ids.contains(&f[0]) {
            v.open("two attribute groups of one id");
        }
        ids.push(f[0]);
        let mut list = vec![];
        let mut i = 2;
        while i < f.len() {
            let kind = f[i];
            i += 1;
            match kind {
                0 | 1 => {
                    let Some(id) = f.get(i) else {
                        v.bad("attribute without id");
                        break;
                    };
                    i += 1;
                    if *id == 0 || *id > 86 {
                        v.bad(format!("attribute id {id}"));
                    }
                    let int = INT_ATTRS.contains(id);
                    if *id != 33 && int != (kind == 1) {
                        v.open("attribute of the other kind");
                    }
                    if kind == 1 {
                        let Some(x) = f.get(i) else {
                            v.bad("attribute without value");
                            break;
                        };
                        i += 1;
                        match id {
                            // In bytes.
                            1 | 25 if *x > 0 && !x.is_power_of_two() => {
                                v.bad(format!("alignment {x}"))
                            }
                            1 | 25 if *x > 1 << 32 => v.open("large alignment"),
                            51 if *x == 0 => v.open("allocsize 0"),
                            33 if *x > 2 => v.bad(format!("uwtable {x}")),
                            _ => {}
                        }
                        list.push(AttrRep::Int(*id, *x));
                    } else {
                        list.push(AttrRep::Enum(*id));
                    }
                }
                3 | 4 => {
                    let mut strs = vec![];
                    for k in 0..(kind - 2) {
                        let s = &f[i.min(f.len())..];
                        let Some(e) = s.iter().position(|x| *x == 0) else {
                            v.bad("unterminated attribute string");
                            i = f.len();
                            break;
                        };
                        if e == 0 {
                            v.open(if k == 0 {
                                "empty attribute name"
                            } else {
                                "empty attribute value"
                            });
                        }
                        if s[..e].iter().any(|x| chr(*x).is_none()) {
                            v.bad("attribute string field that is not a byte");
                        } else {
                            let bytes: Vec<u8> = s[..e].iter().map(|x| *x as u8).collect();
                            match String::from_utf8(bytes) {
                                Ok(s) => strs.push(s),
                                Err(_) => v.open("attribute string that is not UTF-8"),
                            }
                        }
                        i += e + 1;
                    }
                    let mut strs = strs.into_iter();
                    match (strs.next(), strs.next()) {
                        (Some(a), Some(b)) => list.push(AttrRep::KeyValue(a, b)),
                        (Some(a), None) => list.push(AttrRep::Str(a)),
                        _ => {}
                    }
                }
                5..=8 => {
                    v.open("attribute kind");
                    i = f.len();
                }
                k => {
                    v.bad(format!("attribute kind {k}"));
                    i = f.len();
                }
            }
        }
        rep.groups.insert(f[0], (f[1], list));
    }
    ids
}

/// The number of type nodes that fully owned copies of all types would take, up to `max`.
pub fn type_nodes(tops: &Tops, max: u64) -> u64 {
    let mut total = 0u64;
    let mut todo: Vec<&RBlock> = tops.tops.iter().collect();
    while let Some(b) = todo.pop() {
        todo.extend(b.subs.iter());
        if b.id != 17 {
            continue;
        }
        let mut kids: Vec<Vec<u64>> = vec![];
        for (c, f) in &b.recs {
            match c {
                1 | 19 => {}
                8 => kids.push(f.first().copied().into_iter().collect()),
                11 | 12 => kids.push(f.get(1).copied().into_iter().collect()),
                18 | 20 | 21 => kids.push(f.iter().skip(1).copied().collect()),
                _ => kids.push(vec![]),
            }
        }
        let mut left = max.saturating_sub(total);
        for i in 0..kids.len() {
            if !count(&kids, i as u64, 0, &mut left) || left == 0 {
                break;
            }
        }
        total = max - left;
        if left == 0 {
            return max;
        }
    }
    total
}
fn count(kids: &[Vec<u64>], i: u64, depth: u32, left: &mut u64) -> bool {
    if depth > 130 || *left == 0 {
        return false;
    }
    let Some(k) = kids.get(i as usize) else {
        return false;
    };
    *left -= 1;
    for j in k {
        if !count(kids, *j, depth + 1, left) {
            return false;
        }
    }
    true
}
