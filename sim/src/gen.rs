//! Generators of bitstreams: every run draws its own sizes, mixes and widths.

use crate::rng::Rng;
use crate::writer::*;
use std::collections::HashMap;

#[derive(Clone)]
pub struct StreamCfg {
    pub max_items: u64,
    pub max_depth: u32,
    pub blockinfo: u32,
    pub def: u32,
    pub rec: u32,
    pub block: u32,
    pub big: bool,
    pub widths: u32,
    pub value_bits: u32,
    pub many_defs: bool,
}

impl StreamCfg {
    pub fn random(r: &mut Rng) -> Self {
        StreamCfg {
            max_items: match r.below(6) {
                0 => r.range(1, 4),
                1..=3 => r.range(4, 40),
                4 => r.range(20, 100),
                _ => r.range(50, 220),
            },
            max_depth: match r.below(5) {
                0 => 1,
                1..=3 => r.range(2, 5) as u32,
                _ => r.range(4, 12) as u32,
            },
            blockinfo: *r.pick(&[0, 1, 2, 4]),
            def: *r.pick(&[0, 1, 3, 6]),
            rec: *r.pick(&[2, 6, 12]),
            block: *r.pick(&[1, 2, 4]),
            big: r.chance(1, 12),
            widths: r.below(4) as u32,
            value_bits: *r.pick(&[8, 16, 32, 33, 48, 63, 64, 64]),
            many_defs: r.chance(1, 10),
        }
    }
}

/// A scalar encoding wide enough for `v`.
pub fn scalar_op(r: &mut Rng, max: u64, all_char6: bool) -> Op {
    let bits = 64 - max.leading_zeros();
    let bits = bits.max(1);
    if all_char6 && r.chance(1, 2) {
        return Op::Char6;
    }
    if bits <= 32 && r.chance(1, 2) {
        let w = if r.chance(1, 2) {
            bits
        } else {
            r.range(bits as u64, 32) as u32
        };
        return Op::Fixed(w);
    }
    Op::Vbr(match r.below(4) {
        0 => 2,
        1 => 32,
        2 => 6,
        _ => r.range(2, 32) as u32,
    })
}

/// A random abbreviation that can hold the given values (code first).
pub fn abbrev_for(r: &mut Rng, vals: &[u64]) -> Vec<Op> {
    let mut ops = vec![];
    let n = vals.len();
    // Where the array or blob begins (n: none).
    let tail = if n > 1 && r.chance(3, 4) {
        if r.chance(1, 2) {
            1
        } else {
            r.range(1, n as u64) as usize
        }
    } else if r.chance(1, 8) {
        n
    } else {
        usize::MAX
    };
    for (i, v) in vals.iter().enumerate() {
        if i == tail {
            break;
        }
        if r.chance(1, 3) {
            ops.push(Op::Lit(*v));
        } else if *v == 0 && r.chance(1, 6) {
            ops.push(if r.chance(3, 4) {
                Op::Fixed(0)
            } else {
                Op::Vbr(0)
            });
        } else {
            let slack = r.value(12);
            ops.push(scalar_op(r, *v | slack, char6(*v).is_some()));
        }
    }
    if tail <= n {
        let rest = &vals[tail.min(n)..];
        let max = rest.iter().fold(0, |a, b| a | b);
        if max < 256 && r.chance(1, 2) {
            ops.push(Op::Blob);
        } else {
            let c6 = rest.iter().all(|v| char6(*v).is_some());
            ops.push(Op::Array(Box::new(scalar_op(r, max, c6))));
        }
    }
    ops
}

/// A random abbreviation, not made for a particular record.
pub fn abbrev_any(r: &mut Rng) -> Vec<Op> {
    let n = match r.below(6) {
        0 => 1,
        1..=4 => r.range(1, 5),
        _ => r.range(1, 40),
    };
    let mut ops: Vec<Op> = (0..n)
        .map(|_| {
            if r.chance(1, 4) {
                Op::Lit(r.value(64))
            } else if r.chance(1, 16) {
                // What LLVM writes for a field that can only be zero.
                if r.chance(3, 4) {
                    Op::Fixed(0)
                } else {
                    Op::Vbr(0)
                }
            } else {
                let m = r.value(64);
                scalar_op(r, m, true)
            }
        })
        .collect();
    match r.below(3) {
        0 => {
            let m = r.value(64);
            ops.push(Op::Array(Box::new(scalar_op(r, m, true))))
        }
        1 => ops.push(Op::Blob),
        _ => {}
    }
    ops
}

fn scalar_val(r: &mut Rng, op: &Op) -> u64 {
    match op {
        Op::Lit(v) => *v,
        Op::Fixed(0) | Op::Vbr(0) => 0,
        Op::Fixed(w) => r.value(*w),
        Op::Vbr(_) => r.value(64),
        Op::Char6 => CHAR6[r.idx(64)] as u64,
        _ => 0,
    }
}

fn tail_len(r: &mut Rng, big: bool) -> u64 {
    if big && r.chance(1, 6) {
        return match r.below(3) {
            0 => r.range(250, 300),
            1 => r.range(1000, 5000),
            _ => r.range(60000, 70000),
        };
    }
    match r.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => r.range(2, 9),
        7 | 8 => r.range(9, 40),
        _ => r.range(30, 70),
    }
}

/// Values (code first) that fit the abbreviation.
pub fn vals_for(r: &mut Rng, ops: &[Op], big: bool) -> Vec<u64> {
    let mut v = vec![];
    for op in ops {
        match op {
            Op::Array(e) => {
                let n = tail_len(r, big);
                for _ in 0..n {
                    v.push(scalar_val(r, e));
                }
            }
            Op::Blob => {
                let n = tail_len(r, big);
                for _ in 0..n {
                    v.push(r.below(256));
                }
            }
            o => v.push(scalar_val(r, o)),
        }
    }
    v
}

struct G<'a> {
    r: &'a mut Rng,
    c: StreamCfg,
    left: u64,
    info: HashMap<u64, Vec<Vec<Op>>>,
    ids: Vec<u64>,
    bytes_left: i64,
}

impl G<'_> {
    fn width(&mut self) -> u32 {
        match self.c.widths {
            0 => self.r.range(3, 5) as u32,
            1 => self.r.range(2, 8) as u32,
            2 => *self.r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 31, 32]),
            _ => self.r.range(1, 32) as u32,
        }
    }
    fn rec(&mut self, abbrevs: &[Vec<Op>]) -> Item {
        let use_ab = !abbrevs.is_empty() && self.r.chance(3, 4);
        if use_ab {
            // The newest and the oldest are the interesting ones.
            let k = match self.r.below(4) {
                0 => 0,
                1 => abbrevs.len() - 1,
                _ => self.r.idx(abbrevs.len()),
            };
            let big = self.c.big && self.bytes_left > 0;
            let v = vals_for(self.r, &abbrevs[k], big);
            self.bytes_left -= v.len() as i64;
            return Item::Rec {
                c: v[0],
                f: v[1..].to_vec(),
                ab: Some(k as u32),
            };
        }
        let n = tail_len(self.r, false);
        let vb = self.c.value_bits;
        Item::Rec {
            c: if self.r.chance(1, 3) {
                self.r.value(64)
            } else {
                self.r.below(40)
            },
            f: (0..n).map(|_| self.r.value(vb)).collect(),
            ab: None,
        }
    }
    fn blockinfo(&mut self) -> Item {
        let mut items = vec![];
        // Each BLOCKINFO replaces the previous one. What that one defines for BLOCKINFO itself
        // is there for this one.
        let own = self.info.get(&0).cloned().unwrap_or_default();
        self.info.clear();
        let n = self.r.range(1, 8);
        let mut cur = None;
        for _ in 0..n {
            match self.r.below(6) {
                0 | 1 => {
                    let id = if self.r.chance(1, 10) {
                        0
                    } else {
                        *self.r.pick(&self.ids)
                    };
                    cur = Some(id);
                    let mut f = vec![id];
                    if self.r.chance(1, 8) {
                        f.push(self.r.value(64));
                    }
                    items.push(Item::rec(1, f));
                }
                2 if !own.is_empty() => {
                    let k = self.r.idx(own.len());
                    let mut v = vals_for(self.r, &own[k], false);
                    if !matches!(own[k][0], Op::Lit(_)) {
                        v[0] = self.r.range(2, 3);
                    }
                    items.push(Item::Rec {
                        c: v[0],
                        f: v[1..].to_vec(),
                        ab: Some(k as u32),
                    });
                }
                2 => {
                    let c = self.r.range(2, 3);
                    let f = (0..self.r.below(6)).map(|_| self.r.below(256)).collect();
                    items.push(Item::rec(c, f));
                }
                _ => {
                    if cur.is_none() {
                        let id = *self.r.pick(&self.ids);
                        cur = Some(id);
                        items.push(Item::rec(1, vec![id]));
                    }
                    let mut a = abbrev_any(self.r);
                    if cur == Some(0)
                        && matches!(a[0], Op::Lit(_) | Op::Char6 | Op::Fixed(0 | 1) | Op::Vbr(0))
                    {
                        a[0] = Op::Lit(self.r.range(2, 3));
                    }
                    self.info.entry(cur.unwrap()).or_default().push(a.clone());
                    items.push(Item::Def(a));
                }
            }
        }
        let w = (self.r.range(2, 5)) as u32;
        Item::Block { id: 0, w, items }
    }
    fn block(&mut self, depth: u32) -> Item {
        let id = *self.r.pick(&self.ids);
        let mut w = self.width();
        let mut abbrevs = self.info.get(&id).cloned().unwrap_or_default();
        let mut items = vec![];
        if self.left > 3 && self.r.chance(1, 500) {
            // So many abbreviations that their numbers need more than one byte.
            let n = match self.r.below(20) {
                0 => self.r.range(65_520, 65_560),
                1..=3 => self.r.range(1000, 5000),
                _ => self.r.range(240, 300),
            };
            w = w.max(64 - (n + 80).leading_zeros());
            let a = abbrev_any(self.r);
            for _ in 0..n {
                abbrevs.push(a.clone());
            }
            items.push(Item::Defs(a, n as u32));
            for _ in 0..2 {
                let a = abbrev_any(self.r);
                abbrevs.push(a.clone());
                items.push(Item::Def(a));
                items.push(self.rec(&abbrevs));
            }
        }
        let n = if self.r.chance(1, 8) {
            0
        } else {
            self.r.range(1, 14)
        };
        if self.c.many_defs && w >= 3 && self.r.chance(1, 3) {
            for _ in 0..self.r.range(30, 70) {
                let a = abbrev_any(self.r);
                abbrevs.push(a.clone());
                items.push(Item::Def(a));
            }
        }
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            let wts = [
                self.c.rec,
                self.c.def,
                if depth < self.c.max_depth {
                    self.c.block
                } else {
                    0
                },
                if depth < self.c.max_depth {
                    self.c.blockinfo
                } else {
                    0
                },
            ];
            match self.r.weighted(&wts) {
                0 => items.push(self.rec(&abbrevs)),
                1 => {
                    if w >= 2 {
                        let a = abbrev_any(self.r);
                        abbrevs.push(a.clone());
                        items.push(Item::Def(a));
                        if self.r.chance(2, 3) {
                            let k = abbrevs.len() - 1;
                            let v = vals_for(self.r, &abbrevs[k], false);
                            items.push(Item::Rec {
                                c: v[0],
                                f: v[1..].to_vec(),
                                ab: Some(k as u32),
                            });
                        }
                    }
                }
                2 => items.push(self.block(depth + 1)),
                _ => items.push(self.blockinfo()),
            }
        }
        Item::Block { id, w, items }
    }
}

/// A well-formed stream.
pub fn stream(r: &mut Rng) -> Stream {
    let c = StreamCfg::random(r);
    stream_cfg(r, c)
}
pub fn stream_cfg(r: &mut Rng, c: StreamCfg) -> Stream {
    let k = r.range(1, 5);
    let mut ids: Vec<u64> = (0..k)
        .map(|_| match r.below(4) {
            0 => r.value(32).max(1),
            1 => r.range(1, 7),
            _ => r.range(8, 26),
        })
        .collect();
    ids.dedup();
    let left = c.max_items;
    let mut g = G {
        r,
        c,
        left,
        info: HashMap::new(),
        ids,
        bytes_left: 70000,
    };
    let mut items = vec![];
    while g.left > 0 {
        g.left -= 1;
        if g.c.blockinfo > 0 && g.r.chance(1, 4) {
            items.push(g.blockinfo());
        } else {
            items.push(g.block(1));
        }
    }
    let magic = match r.below(4) {
        0 => r.u64() as u32,
        _ => BC_MAGIC,
    };
    if r.chance(1, 300) {
        deepen(r, &mut items);
    }
    // The wrapper's magic would make the stream something else.
    let magic = if magic == 0x0b17c0de { BC_MAGIC } else { magic };
    Stream {
        magic,
        overlong: *r.pick(&[0, 0, 0, 1, 2, 5, 17]),
        items,
    }
}

/// Blocks in blocks in blocks, with something at several depths.
fn deepen(r: &mut Rng, items: &mut Vec<Item>) {
    let at = r.idx(items.len() + 1);
    let mut inner = items.split_off(at);
    let id = *r.pick(&[8, 17, 9, 30]);
    for _ in 0..r.range(1, 5) {
        let few = |r: &mut Rng| -> Vec<Item> {
            (0..r.below(3))
                .map(|_| Item::rec(r.value(16), (0..r.below(4)).map(|_| r.value(64)).collect()))
                .collect()
        };
        let mut v = few(r);
        v.append(&mut inner);
        v.extend(few(r));
        inner = vec![Item::Nest {
            id: if r.chance(1, 2) { id } else { r.range(1, 30) },
            w: r.range(2, 6) as u32,
            depth: match r.below(20) {
                0 => r.range(65_530, 65_545),
                1 | 2 => r.range(1000, 4000),
                3..=6 => r.range(200, 700),
                _ => r.range(2, 40),
            } as u32,
            items: v,
        }];
    }
    items.append(&mut inner);
}

/// Give some records of an (unabbreviated) tree abbreviations of their own, registered either in
/// the block itself or ahead of time in a BLOCKINFO block.
pub fn abbreviate(r: &mut Rng, items: &mut Vec<Item>) {
    let dens = *r.pick(&[0u64, 1, 3, 6]);
    let via_info = *r.pick(&[0u64, 0, 1, 2]);
    if dens == 0 {
        return;
    }
    if via_info > 0 && r.chance(1, 2) {
        // The way LLVM does it: each module brings its own.
        let mut cur: Info = vec![];
        for it in items.iter_mut() {
            let mut inner = cur.clone();
            if let Item::Block { id: 8, items, .. } = it {
                if r.chance(7, 8) {
                    inner.clear();
                    collect_info(r, items, &mut inner, via_info);
                    // The module itself was entered with the previous one in force.
                    inner.retain(|(i, _)| *i != 8);
                    if r.chance(1, 2) {
                        // For blocks that may not be there.
                        let a = abbrev_any(r);
                        inner.push((r.range(9, 26), vec![a]));
                    }
                    assign(r, it, &cur, &inner, dens);
                    if let Item::Block { items, .. } = it {
                        items.insert(0, info_block(r, &inner));
                    }
                    cur = inner;
                    continue;
                }
            }
            assign(r, it, &cur, &inner, dens);
        }
        return;
    }
    let mut info: Info = vec![];
    // Abbreviations shared through BLOCKINFO come first in each block's list, so collect them
    // before numbering.
    if via_info > 0 {
        collect_info(r, items, &mut info, via_info);
    }
    for it in items.iter_mut() {
        assign(r, it, &info, &info, dens);
    }
    if !info.is_empty() {
        items.insert(0, info_block(r, &info));
    }
}
type Info = Vec<(u64, Vec<Vec<Op>>)>;
fn info_block(r: &mut Rng, info: &Info) -> Item {
    let mut bi = vec![];
    for (id, abs) in info {
        bi.push(Item::rec(1, vec![*id]));
        for a in abs {
            bi.push(Item::Def(a.clone()));
        }
    }
    Item::Block {
        id: 0,
        w: r.range(2, 4) as u32,
        items: bi,
    }
}
fn collect_info(r: &mut Rng, items: &[Item], info: &mut Vec<(u64, Vec<Vec<Op>>)>, p: u64) {
    for it in items {
        if let Item::Block { id, items, .. } = it {
            let n = items.len() as u64;
            for x in items {
                if let Some((c, f)) = x.fields() {
                    // Not thousands of them for one block.
                    if r.chance(p, 12) && (n < 1500 || r.chance(200, n)) {
                        let mut v = vec![c];
                        v.extend(f);
                        let a = abbrev_for(r, &v);
                        match info.iter_mut().find(|(i, _)| i == id) {
                            Some((_, l)) => l.push(a),
                            None => info.push((*id, vec![a])),
                        }
                    }
                }
            }
            collect_info(r, items, info, p);
        }
    }
}
fn assign(r: &mut Rng, it: &mut Item, own: &Info, info: &Info, dens: u64) {
    if let Item::Block { id, items, w } = it {
        let mut abbrevs: Vec<Vec<Op>> = own
            .iter()
            .find(|(i, _)| i == id)
            .map(|(_, l)| l.clone())
            .unwrap_or_default();
        let mut out = vec![];
        let n = items.len() as u64;
        for mut x in std::mem::take(items) {
            if let Some((c, f)) = x.fields() {
                let mut v = vec![c];
                v.extend(f);
                let found: Vec<u32> = abbrevs
                    .iter()
                    .enumerate()
                    .filter(|(_, a)| fits(a, &v))
                    .map(|(i, _)| i as u32)
                    .collect();
                let mut pickd = None;
                if !found.is_empty() && r.chance(3, 4) {
                    pickd = Some(*r.pick(&found));
                } else if r.chance(dens, 12) && (n < 1500 || r.chance(200, n)) {
                    let a = abbrev_for(r, &v);
                    out.push(Item::Def(a.clone()));
                    abbrevs.push(a);
                    pickd = Some(abbrevs.len() as u32 - 1);
                }
                match &mut x {
                    Item::Rec { ab, .. } | Item::Bytes { ab, .. } => *ab = pickd,
                    _ => {}
                }
            } else {
                assign(r, &mut x, info, info, dens);
            }
            out.push(x);
        }
        // Make the width large enough for the abbreviations.
        let need = 64 - (abbrevs.len() as u64 + 4).leading_zeros();
        if *w < need {
            *w = need;
        }
        *items = out;
    }
}

/// A long stream that consists of one small thing over and over: work or memory that grows faster
/// than the stream shows on these.
pub fn long(r: &mut Rng) -> Stream {
    let w = *r.pick(&[2, 3, 3, 4, 6, 8, 32]);
    let chunk = |r: &mut Rng, k: u32| -> (u64, u32) {
        let hi = 1u64 << (k - 1);
        (
            match r.below(4) {
                0 | 1 => hi,
                2 => hi | 1,
                _ => hi | r.value(k - 1),
            },
            k,
        )
    };
    let mut pre = vec![];
    let mut lead = vec![];
    let unit = match r.below(13) {
        // Integers that go on and on.
        0 => {
            lead.push((3, w));
            if r.chance(1, 2) {
                lead.push((1, 6));
            }
            vec![chunk(r, 6)]
        }
        1 => {
            lead.push((1, w));
            if r.chance(1, 2) {
                vec![chunk(r, 8)]
            } else {
                lead.push((9, 8));
                vec![chunk(r, 4)]
            }
        }
        2 => {
            lead.push((2, w));
            vec![chunk(r, 5)]
        }
        3 => {
            let k = r.range(2, 32) as u32;
            let op = Op::Vbr(k);
            pre.push(Item::Def(if r.chance(1, 2) {
                vec![op]
            } else {
                vec![Op::Lit(1), Op::Array(Box::new(op))]
            }));
            lead.push((4, w.max(3)));
            if r.chance(1, 2) {
                lead.push((5, 6));
            }
            vec![chunk(r, k)]
        }
        // Blocks that claim to be long, inside each other, well-formed or not.
        4 | 5 => {
            let w = w.min(16);
            let nw = *r.pick(&[w as u64, w as u64, 0, 15]);
            vec![
                (1, w),
                (*r.pick(&[0, 8, 9, 17, 127]), 8),
                (nw & 7 | (nw > 7) as u64 * 8, 4),
                (if nw > 7 { nw >> 3 } else { 0 }, 4),
                (0, 32 - w - 16),
                (*r.pick(&[0, 1, 0x3fff_ffff, 0xffff_ffff, 2000]), 32),
            ]
        }
        // Ends, definitions, records, and things that are not there.
        6 => vec![(0, 32)],
        7 => {
            let n = r.range(1, 3);
            let mut u = vec![(2, w), (n, 5)];
            for _ in 0..n {
                u.push((1, 1));
                u.push((r.below(128), 8));
            }
            u
        }
        8 => {
            let n = r.below(4);
            let mut u = vec![(3, w), (r.below(32), 6), (n, 6)];
            for _ in 0..n {
                u.push((r.below(32), 6));
            }
            u
        }
        9 => vec![(u64::MAX, w)],
        10 => {
            // Records with arrays or blobs of every claimed length.
            pre.push(Item::Def(match r.below(3) {
                0 => vec![Op::Lit(1), Op::Blob],
                1 => vec![Op::Lit(1), Op::Array(Box::new(Op::Fixed(1)))],
                _ => vec![Op::Array(Box::new(Op::Char6))],
            }));
            let mut u = vec![(4, w.max(3))];
            for _ in 0..r.below(4) {
                u.push(chunk(r, 6));
            }
            u.push((r.below(32), 6));
            u
        }
        _ => (0..r.range(1, 3))
            .map(|_| (r.u64(), r.range(1, 64) as u32))
            .collect(),
    };
    let w = if pre.is_empty() { w } else { w.max(3) };
    let bits: u64 = unit.iter().map(|x| x.1 as u64).sum();
    let n = r.range(8 << 10, 80 << 10) * 8 / bits;
    let mut items = pre;
    items.push(Item::Raw(lead));
    items.push(Item::Run(unit, n as u32));
    let id = *r.pick(&[0, 8, 8, 17, 30]);
    if id == 0 {
        items.insert(0, Item::rec(1, vec![8]));
    }
    Stream {
        magic: BC_MAGIC,
        overlong: 0,
        items: vec![Item::Block { id, w, items }],
    }
}
