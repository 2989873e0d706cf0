//! Smaller variants of plans.

use crate::faults::BFault;
use crate::writer::*;

thread_local! {
    /// Bytes that the variants of one plan may still take.
    static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
/// To be called before the variants of a plan are listed.
pub fn begin() {
    LEFT.with(|l| l.set(300 << 20));
}
fn take(bytes: u64) -> bool {
    LEFT.with(|l| {
        let ok = l.get() >= bytes;
        l.set(l.get().saturating_sub(bytes));
        ok
    })
}
fn weigh(v: &[Item]) -> u64 {
    v.iter()
        .map(|i| {
            std::mem::size_of::<Item>() as u64
                + match i {
                    Item::Block { items, .. } | Item::Nest { items, .. } => weigh(items),
                    Item::Rec { f, .. } => f.len() as u64 * 8,
                    Item::Bytes { s, .. } => s.len() as u64,
                    Item::Raw(b) | Item::Run(b, _) => b.len() as u64 * 16,
                    Item::Def(o) | Item::Defs(o, _) => o.len() as u64 * 16,
                }
        })
        .sum()
}

/// Variants of a list with pieces removed: halves, quarters, ... single elements.
pub fn lists<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    lists_of(v, std::mem::size_of_val(v) as u64)
}
fn lists_of<T: Clone>(v: &[T], bytes: u64) -> Vec<Vec<T>> {
    let mut out = vec![];
    let n = v.len();
    if n == 0 {
        return out;
    }
    let mut size = n;
    let mut budget = 200;
    while size >= 1 {
        let mut at = 0;
        while at < n && budget > 0 && take(bytes) {
            let e = (at + size).min(n);
            let mut x = v[..at].to_vec();
            x.extend_from_slice(&v[e..]);
            out.push(x);
            at += size;
            budget -= 1;
        }
        if size == 1 || budget == 0 {
            break;
        }
        size = size.div_ceil(2);
    }
    out
}

pub fn value(v: u64) -> Vec<u64> {
    let mut out = vec![];
    if v > 0 {
        out.push(0);
    }
    if v > 1 {
        out.push(1);
        out.push(v / 2);
        out.push(v - 1);
    }
    out
}

fn item(it: &Item, out: &mut Vec<Vec<Item>>) {
    match it {
        Item::Block { id, w, items } => {
            // The contents in place of the block.
            for x in self::items(items) {
                out.push(vec![Item::Block {
                    id: *id,
                    w: *w,
                    items: x,
                }]);
            }
            if *w != 3 {
                out.push(vec![Item::Block {
                    id: *id,
                    w: 3,
                    items: items.clone(),
                }]);
            }
        }
        Item::Nest {
            id,
            w,
            depth,
            items,
        } => {
            for d in value(*depth as u64) {
                out.push(vec![Item::Nest {
                    id: *id,
                    w: *w,
                    depth: d as u32,
                    items: items.clone(),
                }]);
            }
            for x in self::items(items) {
                out.push(vec![Item::Nest {
                    id: *id,
                    w: *w,
                    depth: *depth,
                    items: x,
                }]);
            }
        }
        Item::Def(ops) => {
            if ops.len() > 1 {
                for x in lists(ops) {
                    if !x.is_empty() {
                        out.push(vec![Item::Def(x)]);
                    }
                }
            }
        }
        Item::Defs(ops, n) => {
            for k in value(*n as u64) {
                out.push(vec![Item::Defs(ops.clone(), k as u32)]);
            }
        }
        Item::Rec { c, f, ab } => {
            if ab.is_some() {
                out.push(vec![Item::Rec {
                    c: *c,
                    f: f.clone(),
                    ab: None,
                }]);
            }
            if f.len() <= 64 || f.len() % 7 == 0 {
                for x in lists(f) {
                    out.push(vec![Item::Rec {
                        c: *c,
                        f: x,
                        ab: *ab,
                    }]);
                }
            } else {
                for k in [0, 1, f.len() / 2, f.len() - 1] {
                    out.push(vec![Item::Rec {
                        c: *c,
                        f: f[..k].to_vec(),
                        ab: *ab,
                    }]);
                }
            }
            if f.len() <= 16 {
                for i in 0..f.len() {
                    for v in value(f[i]) {
                        let mut g = f.clone();
                        g[i] = v;
                        out.push(vec![Item::Rec {
                            c: *c,
                            f: g,
                            ab: *ab,
                        }]);
                    }
                }
            }
        }
        Item::Raw(b) => {
            for x in lists(b) {
                out.push(vec![Item::Raw(x)]);
            }
        }
        Item::Run(b, n) => {
            for k in value(*n as u64) {
                out.push(vec![Item::Run(b.clone(), k as u32)]);
            }
            for x in lists(b) {
                out.push(vec![Item::Run(x, *n)]);
            }
        }
        Item::Bytes { c, pre, s, ab } => {
            if ab.is_some() {
                out.push(vec![Item::Bytes {
                    c: *c,
                    pre: pre.clone(),
                    s: s.clone(),
                    ab: None,
                }]);
            }
            if s.len() > 2 {
                for k in [2, s.len() / 2, s.len() - 1] {
                    out.push(vec![Item::Bytes {
                        c: *c,
                        pre: pre.clone(),
                        s: s[..k].to_vec(),
                        ab: *ab,
                    }]);
                }
            }
        }
    }
}

pub fn items(v: &[Item]) -> Vec<Vec<Item>> {
    let bytes = weigh(v);
    let mut out = lists_of(v, bytes);
    // Unwrap a block.
    for (i, it) in v.iter().enumerate() {
        if let Item::Block { items, id, .. } = it {
            if *id != 0
                && items.iter().all(|x| matches!(x, Item::Block { .. }))
                && !items.is_empty()
                && take(bytes)
            {
                let mut x = v[..i].to_vec();
                x.extend(items.iter().cloned());
                x.extend_from_slice(&v[i + 1..]);
                out.push(x);
            }
        }
    }
    if v.len() <= 40 {
        for (i, it) in v.iter().enumerate() {
            let mut vs = vec![];
            item(it, &mut vs);
            for alt in vs {
                if !take(bytes) {
                    break;
                }
                let mut x = v[..i].to_vec();
                x.extend(alt);
                x.extend_from_slice(&v[i + 1..]);
                out.push(x);
            }
        }
    }
    out
}

pub fn stream(s: &Stream) -> Vec<Stream> {
    let mut out = vec![];
    if s.overlong != 0 {
        out.push(Stream {
            overlong: 0,
            ..s.clone()
        });
    }
    if s.magic != BC_MAGIC {
        out.push(Stream {
            magic: BC_MAGIC,
            ..s.clone()
        });
    }
    for items in items(&s.items) {
        out.push(Stream { items, ..s.clone() });
    }
    out
}

pub fn bfault(f: &BFault) -> Vec<BFault> {
    let mut out = vec![];
    match f {
        BFault::Torn { at } => {
            for a in value(*at) {
                out.push(BFault::Torn { at: a });
            }
        }
        BFault::Lost { at, len } => {
            for l in value(*len) {
                out.push(BFault::Lost { at: *at, len: l });
            }
        }
        BFault::Erased { at, len } => {
            for l in value(*len) {
                out.push(BFault::Erased { at: *at, len: l });
            }
        }
        BFault::Dup { at, len } => {
            for l in value(*len) {
                out.push(BFault::Dup { at: *at, len: l });
            }
        }
        BFault::Gone { at, len } => {
            for l in value(*len) {
                out.push(BFault::Gone { at: *at, len: l });
            }
        }
        BFault::Trailing { len, seed } => {
            for l in value(*len) {
                out.push(BFault::Trailing {
                    len: l,
                    seed: *seed,
                });
            }
        }
        _ => {}
    }
    out
}

pub fn bfaults(v: &[BFault]) -> Vec<Vec<BFault>> {
    let mut out = lists(v);
    for (i, f) in v.iter().enumerate() {
        for g in bfault(f) {
            let mut x = v.to_vec();
            x[i] = g;
            out.push(x);
        }
    }
    out
}

pub fn claims(v: &[Claim]) -> Vec<Vec<Claim>> {
    lists(v)
}
