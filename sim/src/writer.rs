//! A writer of bitstreams that keeps an exact log of what it wrote and where.

use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Lit(u64),
    Fixed(u32),
    Vbr(u32),
    Array(Box<Op>),
    Char6,
    Blob,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    /// A block, its abbreviation width and contents.
    Block { id: u64, w: u32, items: Vec<Item> },
    /// `depth` blocks directly inside each other around `items`.
    Nest {
        id: u64,
        w: u32,
        depth: u32,
        items: Vec<Item>,
    },
    /// A DEFINE_ABBREV.
    Def(Vec<Op>),
    /// `n` times the same DEFINE_ABBREV.
    Defs(Vec<Op>, u32),
    /// A record; `ab` selects the abbreviation (by position in the current scope's list). Records
    /// that do not fit their abbreviation are written unabbreviated.
    Rec {
        c: u64,
        f: Vec<u64>,
        ab: Option<u32>,
    },
    /// A record whose fields are bytes.
    Bytes {
        c: u64,
        pre: Vec<u64>,
        s: Vec<u8>,
        ab: Option<u32>,
    },
    /// Bare bits (value, width): for hostile streams only, the log ignores them.
    Raw(Vec<(u64, u32)>),
    /// The same bare bits, many times over.
    Run(Vec<(u64, u32)>, u32),
}

impl Item {
    pub fn rec(c: u64, f: Vec<u64>) -> Item {
        Item::Rec { c, f, ab: None }
    }
    pub fn fields(&self) -> Option<(u64, Vec<u64>)> {
        match self {
            Item::Rec { c, f, .. } => Some((*c, f.clone())),
            Item::Bytes { c, pre, s, .. } => {
                let mut f = pre.clone();
                f.extend(s.iter().map(|b| *b as u64));
                Some((*c, f))
            }
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Entry {
    Block {
        id: u64,
        len: u64,
    },
    End,
    Rec {
        ab: Option<u64>,
        c: u64,
        f: Vec<u64>,
    },
}

#[derive(Clone, Debug)]
pub struct LogItem {
    pub start: u64,
    pub end: u64,
    /// What a reader gets, if anything.
    pub entry: Option<Entry>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    AbbrevId,
    BlockId,
    NewWidth,
    BlockLen,
    Code,
    NumOps,
    Value,
    ArrayLen,
    BlobLen,
    BlobByte,
    NumAbbrevOps,
    LitFlag,
    LitVal,
    Enc,
    OpWidth,
    Magic,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub bit: u64,
    pub bits: u32,
    pub kind: Kind,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Claim {
    /// Index of the written field (taken modulo the number of fields).
    pub n: u64,
    pub v: u64,
}

pub struct Emitted {
    pub bytes: Vec<u8>,
    pub log: Vec<LogItem>,
    pub fields: Vec<Field>,
    pub claims_fired: u64,
}

pub struct BitW {
    pub b: Vec<u8>,
    pub bits: u64,
}
impl BitW {
    pub fn put(&mut self, v: u64, n: u32) {
        let mut v = if n == 64 { v } else { v & ((1u64 << n) - 1) };
        let mut n = n;
        while n > 0 {
            let off = (self.bits % 8) as u32;
            if off == 0 {
                self.b.push(0);
            }
            let k = n.min(8 - off);
            let last = self.b.len() - 1;
            self.b[last] |= ((v & ((1u64 << k) - 1)) << off) as u8;
            v = if k == 64 { 0 } else { v >> k };
            n -= k;
            self.bits += k as u64;
        }
    }
    pub fn align(&mut self) {
        while self.b.len() % 4 != 0 {
            self.b.push(0);
        }
        self.bits = self.b.len() as u64 * 8;
    }
}

pub const CHAR6: &[u8; 64] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";
pub fn char6(v: u64) -> Option<u64> {
    CHAR6.iter().position(|c| *c as u64 == v).map(|i| i as u64)
}

fn scalar_fits(op: &Op, v: u64) -> bool {
    match op {
        Op::Lit(x) => *x == v,
        // As in LLVM, an operand without bits is a literal zero.
        Op::Fixed(0) | Op::Vbr(0) => v == 0,
        Op::Fixed(w) => *w <= 63 && v < (1u64 << *w),
        Op::Vbr(w) => *w >= 2 && *w <= 32,
        Op::Char6 => char6(v).is_some(),
        _ => false,
    }
}

/// Whether the record can be written with the abbreviation.
pub fn fits(ops: &[Op], vals: &[u64]) -> bool {
    let mut i = 0;
    for (k, op) in ops.iter().enumerate() {
        let last = k + 1 == ops.len();
        match op {
            Op::Array(e) => {
                return last
                    && i > 0
                    && !matches!(**e, Op::Lit(_) | Op::Fixed(0) | Op::Vbr(0))
                    && vals[i..].iter().all(|v| scalar_fits(e, *v));
            }
            Op::Blob => return last && i > 0 && vals[i..].iter().all(|v| *v < 256),
            _ => {
                if i >= vals.len() || !scalar_fits(op, vals[i]) {
                    return false;
                }
                i += 1;
            }
        }
    }
    i == vals.len()
}

/// Abbreviations by block id, as BLOCKINFO defines them.
pub type Info = HashMap<u64, std::rc::Rc<Vec<std::rc::Rc<Vec<Op>>>>>;

/// The abbreviations of a scope: the shared ones of BLOCKINFO and its own.
#[derive(Default)]
pub struct Abbrevs {
    base: std::rc::Rc<Vec<std::rc::Rc<Vec<Op>>>>,
    own: Vec<std::rc::Rc<Vec<Op>>>,
}
impl Abbrevs {
    pub fn of(info: &Info, id: u64) -> Abbrevs {
        Abbrevs {
            base: info.get(&id).cloned().unwrap_or_default(),
            own: vec![],
        }
    }
    pub fn get(&self, i: usize) -> Option<&std::rc::Rc<Vec<Op>>> {
        self.base
            .get(i)
            .or_else(|| self.own.get(i - self.base.len()))
    }
    pub fn push(&mut self, ops: Vec<Op>) {
        self.own.push(std::rc::Rc::new(ops));
    }
}
pub fn add_info(info: &mut Info, id: u64, ops: Vec<Op>) {
    std::rc::Rc::make_mut(info.entry(id).or_default()).push(std::rc::Rc::new(ops));
}

struct Scope {
    w: u32,
    id: u64,
    abbrevs: Abbrevs,
    setbid: Option<u64>,
}

pub struct Emitter {
    w: BitW,
    pub log: Vec<LogItem>,
    pub fields: Vec<Field>,
    claims: HashMap<u64, u64>,
    claims_fired: u64,
    blockinfo: Info,
    scopes: Vec<Scope>,
    /// Every n-th VBR is written with one superfluous chunk.
    overlong: u64,
    vbrs: u64,
}

impl Emitter {
    fn field(&mut self, kind: Kind, v: u64, bits: u32) -> u64 {
        let n = self.fields.len() as u64;
        let v = match self.claims.get(&n) {
            Some(c) => {
                self.claims_fired += 1;
                *c
            }
            None => v,
        };
        self.fields.push(Field {
            bit: self.w.bits,
            bits,
            kind,
        });
        v
    }
    fn fixed(&mut self, kind: Kind, v: u64, bits: u32) {
        let v = self.field(kind, v, bits);
        self.w.put(v, bits);
    }
    fn vbr(&mut self, kind: Kind, v: u64, w: u32) {
        let mut v = self.field(kind, v, w);
        let start = self.w.bits;
        let d = w - 1;
        let hi = 1u64 << d;
        self.vbrs += 1;
        let mut shift = 0;
        while v >= hi {
            self.w.put((v & (hi - 1)) | hi, w);
            v >>= d;
            shift += d;
        }
        if self.overlong > 0 && self.vbrs % self.overlong == 0 && shift + d < 64 {
            self.w.put(v | hi, w);
            v = 0;
        }
        self.w.put(v, w);
        let f = self.fields.last_mut().unwrap();
        f.bits = (self.w.bits - start) as u32;
    }
    fn cur_w(&self) -> u32 {
        self.scopes.last().map(|s| s.w).unwrap_or(2)
    }
    fn in_info(&self) -> bool {
        self.scopes.last().map(|s| s.id == 0).unwrap_or(false)
    }
    fn begin(&mut self, id: u64, w: u32) -> (usize, usize, u64) {
        let start = self.w.bits;
        let cw = self.cur_w();
        self.fixed(Kind::AbbrevId, 1, cw);
        self.vbr(Kind::BlockId, id, 8);
        self.vbr(Kind::NewWidth, w as u64, 4);
        self.w.align();
        let lenpos = self.w.b.len();
        let fidx = self.fields.len() as u64;
        self.fixed(Kind::BlockLen, 0, 32);
        let claimed = self.claims.contains_key(&fidx);
        let li = self.log.len();
        self.log.push(LogItem {
            start,
            end: self.w.bits,
            entry: if id == 0 {
                None
            } else {
                Some(Entry::Block { id, len: 0 })
            },
        });
        let abbrevs = Abbrevs::of(&self.blockinfo, id);
        if id == 0 {
            // Each BLOCKINFO replaces the previous one.
            self.blockinfo.clear();
        }
        self.scopes.push(Scope {
            w,
            id,
            abbrevs,
            setbid: None,
        });
        (li, lenpos, claimed as u64)
    }
    fn end(&mut self, h: (usize, usize, u64)) {
        let (li, lenpos, claimed) = h;
        let start = self.w.bits;
        let cw = self.cur_w();
        self.fixed(Kind::AbbrevId, 0, cw);
        self.w.align();
        let info = self.in_info();
        self.scopes.pop();
        self.log.push(LogItem {
            start,
            end: self.w.bits,
            entry: if info { None } else { Some(Entry::End) },
        });
        let words = ((self.w.b.len() - lenpos - 4) / 4) as u32;
        if claimed == 0 {
            self.w.b[lenpos..lenpos + 4].copy_from_slice(&words.to_le_bytes());
        }
        if let Some(Entry::Block { len, .. }) = &mut self.log[li].entry {
            *len = words as u64 * 4;
        }
    }
    fn scalar_def(&mut self, op: &Op) {
        match op {
            Op::Lit(v) => {
                self.fixed(Kind::LitFlag, 1, 1);
                self.vbr(Kind::LitVal, *v, 8);
            }
            Op::Fixed(w) => {
                self.fixed(Kind::LitFlag, 0, 1);
                self.fixed(Kind::Enc, 1, 3);
                self.vbr(Kind::OpWidth, *w as u64, 5);
            }
            Op::Vbr(w) => {
                self.fixed(Kind::LitFlag, 0, 1);
                self.fixed(Kind::Enc, 2, 3);
                self.vbr(Kind::OpWidth, *w as u64, 5);
            }
            Op::Array(e) => {
                self.fixed(Kind::LitFlag, 0, 1);
                self.fixed(Kind::Enc, 3, 3);
                self.scalar_def(e);
            }
            Op::Char6 => {
                self.fixed(Kind::LitFlag, 0, 1);
                self.fixed(Kind::Enc, 4, 3);
            }
            Op::Blob => {
                self.fixed(Kind::LitFlag, 0, 1);
                self.fixed(Kind::Enc, 5, 3);
            }
        }
    }
    fn define(&mut self, ops: &[Op]) {
        let w = self.cur_w();
        if w < 2 || ops.is_empty() {
            return;
        }
        if self.in_info() && self.scopes.last().unwrap().setbid.is_none() {
            return;
        }
        let start = self.w.bits;
        self.fixed(Kind::AbbrevId, 2, w);
        let n: usize = ops
            .iter()
            .map(|o| if matches!(o, Op::Array(_)) { 2 } else { 1 })
            .sum();
        self.vbr(Kind::NumAbbrevOps, n as u64, 5);
        for op in ops {
            self.scalar_def(op);
        }
        self.log.push(LogItem {
            start,
            end: self.w.bits,
            entry: None,
        });
        if let Some(s) = self.scopes.last_mut() {
            if s.id == 0 {
                let b = s.setbid.unwrap();
                add_info(&mut self.blockinfo, b, ops.to_vec());
            } else {
                s.abbrevs.push(ops.to_vec());
            }
        }
    }
    fn scalar_val(&mut self, kind: Kind, op: &Op, v: u64) {
        match op {
            Op::Lit(_) | Op::Fixed(0) | Op::Vbr(0) => {}
            Op::Fixed(w) => self.fixed(kind, v, *w),
            Op::Vbr(w) => self.vbr(kind, v, *w),
            Op::Char6 => self.fixed(kind, char6(v).unwrap(), 6),
            _ => unreachable!(),
        }
    }
    fn record(&mut self, c: u64, f: &[u64], ab: Option<u32>) {
        let w = self.cur_w();
        let in_info = self.in_info();
        let start = self.w.bits;
        let mut used = None;
        if let (Some(k), Some(s)) = (ab, self.scopes.last()) {
            let id = k as u64 + 4;
            if (!in_info || c == 2 || c == 3)
                && s.abbrevs.get(k as usize).is_some()
                && (w >= 32 || id < (1u64 << w))
            {
                let ops = s.abbrevs.get(k as usize).unwrap().clone();
                let mut vals = vec![c];
                vals.extend_from_slice(f);
                if fits(&ops, &vals) {
                    used = Some((id, ops, vals));
                }
            }
        }
        let abid = used.as_ref().map(|u| u.0);
        if let Some((id, ops, vals)) = used {
            self.fixed(Kind::AbbrevId, id, w);
            let mut i = 0;
            for op in ops.iter() {
                match op {
                    Op::Array(e) => {
                        self.vbr(Kind::ArrayLen, (vals.len() - i) as u64, 6);
                        for v in &vals[i..] {
                            self.scalar_val(Kind::Value, e, *v);
                        }
                        i = vals.len();
                    }
                    Op::Blob => {
                        self.vbr(Kind::BlobLen, (vals.len() - i) as u64, 6);
                        self.w.align();
                        for v in &vals[i..] {
                            self.w.put(*v, 8);
                        }
                        self.w.align();
                        i = vals.len();
                    }
                    _ => {
                        let k = if i == 0 { Kind::Code } else { Kind::Value };
                        self.scalar_val(k, op, vals[i]);
                        i += 1;
                    }
                }
            }
        } else {
            if w < 2 || self.scopes.is_empty() {
                return;
            }
            if in_info && !(1..=3).contains(&c) {
                return;
            }
            if in_info && c == 1 && f.is_empty() {
                return;
            }
            self.fixed(Kind::AbbrevId, 3, w);
            self.vbr(Kind::Code, c, 6);
            self.vbr(Kind::NumOps, f.len() as u64, 6);
            for v in f {
                self.vbr(Kind::Value, *v, 6);
            }
            if in_info && c == 1 {
                self.scopes.last_mut().unwrap().setbid = Some(f[0]);
            }
        }
        self.log.push(LogItem {
            start,
            end: self.w.bits,
            entry: if in_info {
                None
            } else {
                Some(Entry::Rec {
                    ab: abid,
                    c,
                    f: f.to_vec(),
                })
            },
        });
    }
    pub fn items(&mut self, items: &[Item]) {
        for it in items {
            match it {
                Item::Block { id, w, items } => {
                    let h = self.begin(*id, *w);
                    self.items(items);
                    self.end(h);
                }
                Item::Nest {
                    id,
                    w,
                    depth,
                    items,
                } => {
                    let hs: Vec<_> = (0..*depth).map(|_| self.begin(*id, *w)).collect();
                    self.items(items);
                    for h in hs.into_iter().rev() {
                        self.end(h);
                    }
                }
                Item::Def(ops) => self.define(ops),
                Item::Defs(ops, n) => {
                    for _ in 0..*n {
                        self.define(ops)
                    }
                }
                Item::Rec { c, f, ab } => self.record(*c, f, *ab),
                Item::Bytes { c, pre, s, ab } => {
                    let mut f = pre.clone();
                    f.extend(s.iter().map(|b| *b as u64));
                    self.record(*c, &f, *ab)
                }
                Item::Raw(bits) => {
                    for (v, n) in bits {
                        self.fixed(Kind::Value, *v, (*n).min(64));
                    }
                }
                Item::Run(bits, n) => {
                    for _ in 0..*n {
                        for (v, n) in bits {
                            self.w.put(*v, (*n).min(64));
                        }
                    }
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stream {
    pub magic: u32,
    pub overlong: u64,
    pub items: Vec<Item>,
}

pub const BC_MAGIC: u32 = 0xdec04342;

/// Write the stream; `claims` replace the values of the n-th fields.
pub fn emit(s: &Stream, claims: &[Claim]) -> Emitted {
    let mut map = HashMap::new();
    if !claims.is_empty() {
        let n = emit(s, &[]).fields.len() as u64;
        for c in claims {
            if n > 0 {
                map.insert(c.n % n, c.v);
            }
        }
    }
    let mut e = Emitter {
        w: BitW { b: vec![], bits: 0 },
        log: vec![],
        fields: vec![],
        claims: map,
        claims_fired: 0,
        blockinfo: HashMap::new(),
        scopes: vec![],
        overlong: s.overlong,
        vbrs: 0,
    };
    e.w.put(s.magic as u64, 32);
    e.items(&s.items);
    e.w.align();
    Emitted {
        bytes: e.w.b,
        log: e.log,
        fields: e.fields,
        claims_fired: e.claims_fired,
    }
}
