//! C01, C03, C04, C05, C07, C12: the bitstream decoder over damaged storage.

use super::*;
use crate::gen;
use crate::refdec::{self, RefEnd};
use crate::rng::Rng;
use crate::seams::{self, Disk};
use crate::shrink;
use serde::{Deserialize, Serialize};

/// A written stream and everything that happens to it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damaged {
    pub s: Stream,
    pub claims: Vec<Claim>,
    pub faults: Vec<BFault>,
    /// Faults that happen while the stream is being read: (read number, fault).
    pub late: Vec<(u64, BFault)>,
    pub wrap: Option<Wrap>,
    pub log: bool,
    /// Use the iterator rather than advance().
    pub iter: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wrap {
    /// Words between the header and the stream.
    pub pad: u32,
    pub pad_seed: u64,
    /// Bytes after the stream.
    pub tail: u32,
    pub version: u32,
    pub cpu: u32,
    /// Replacements for the header's fields.
    pub offset: Option<u32>,
    pub size: Option<u32>,
}

fn gen_wrap(r: &mut Rng) -> Wrap {
    Wrap {
        pad: r.count(9) as u32,
        pad_seed: r.u64(),
        tail: r.count(20) as u32,
        version: r.value(32) as u32,
        cpu: r.value(32) as u32,
        offset: if r.chance(1, 3) {
            Some(match r.below(3) {
                0 => r.below(64) as u32,
                _ => r.value(32) as u32,
            })
        } else {
            None
        },
        size: if r.chance(1, 3) {
            Some(r.value(32) as u32)
        } else {
            None
        },
    }
}

/// Operands no sane writer emits.
fn odd_op(r: &mut Rng) -> Op {
    match r.below(10) {
        0 => Op::Fixed(0),
        1 => Op::Vbr(0),
        2 => Op::Vbr(1),
        3 => Op::Fixed(*r.pick(&[33, 63, 64, 65, 127, u32::MAX])),
        4 => Op::Vbr(*r.pick(&[33, 63, 64, 65, u32::MAX])),
        5 => Op::Array(Box::new(Op::Lit(r.value(64)))),
        6 => Op::Array(Box::new(Op::Fixed(0))),
        7 => Op::Array(Box::new(Op::Array(Box::new(Op::Char6)))),
        8 => Op::Array(Box::new(Op::Blob)),
        _ => Op::Blob,
    }
}

fn oddities(r: &mut Rng, items: &mut Vec<Item>) {
    let blocks: Vec<usize> = items
        .iter()
        .enumerate()
        .filter(|(_, i)| matches!(i, Item::Block { .. }))
        .map(|(i, _)| i)
        .collect();
    if blocks.is_empty() {
        return;
    }
    let b = *r.pick(&blocks);
    if let Item::Block { w, items, .. } = &mut items[b] {
        if r.chance(1, 2) && items.iter().any(|i| matches!(i, Item::Block { .. })) {
            return oddities(r, items);
        }
        let at = r.idx(items.len() + 1);
        let w = *w;
        let defs = items[..at]
            .iter()
            .filter(|i| matches!(i, Item::Def(_)))
            .count() as u64;
        let ins: Vec<Item> = match r.below(6) {
            0 | 1 => {
                let mut ops = vec![];
                for _ in 0..r.below(3) {
                    ops.push(Op::Lit(r.value(8)));
                }
                ops.push(odd_op(r));
                if r.chance(1, 4) {
                    ops.push(odd_op(r));
                }
                let mut raw = vec![(4 + defs, w)];
                for _ in 0..r.below(5) {
                    raw.push((crate::faults::hostile(r), r.range(1, 40) as u32));
                }
                vec![Item::Def(ops), Item::Raw(raw)]
            }
            2 => vec![Item::Raw(vec![
                (0, w),
                (0, 0),
                (crate::faults::hostile(r), r.range(1, 64) as u32),
            ])],
            3 => vec![Item::Raw(
                (0..r.range(1, 6))
                    .map(|_| (r.u64(), r.range(1, 64) as u32))
                    .collect(),
            )],
            4 => {
                let raw = vec![
                    (3, w),
                    (r.below(32), 6),
                    (0x20 | r.below(32), 6),
                    (0x20 | r.below(32), 6),
                    (r.below(32), 6),
                ];
                vec![Item::Raw(raw)]
            }
            _ => {
                // An enter-block with odd id and width.
                vec![Item::Raw(vec![
                    (1, w),
                    (r.below(256), 8),
                    (r.below(16), 4),
                    (r.below(16), 4),
                ])]
            }
        };
        for (k, x) in ins.into_iter().enumerate() {
            items.insert(at + k, x);
        }
    }
}

pub fn gen_damaged(r: &mut Rng, odd: bool, late: bool) -> Damaged {
    let mut s = gen::stream(r);
    if odd && r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            oddities(r, &mut s.items);
        }
    }
    if odd && r.chance(1, 40) {
        let it = match r.below(3) {
            0 => Item::Nest {
                id: r.range(1, 30),
                w: r.range(2, 6) as u32,
                depth: r.range(50, 20000) as u32,
                items: vec![Item::rec(1, vec![1, 2, 3])],
            },
            1 => Item::Block {
                id: 8,
                w: 4,
                items: vec![
                    Item::Defs(vec![Op::Lit(7), Op::Fixed(3)], r.range(100, 30000) as u32),
                    Item::rec(1, vec![2]),
                ],
            },
            _ => Item::Block {
                id: 0,
                w: 2,
                items: (0..r.range(100, 4000))
                    .map(|_| Item::rec(1, vec![8]))
                    .collect(),
            },
        };
        let at = r.idx(s.items.len() + 1);
        s.items.insert(at, it);
    }
    damage(r, s, late)
}

/// A long, repetitive stream, sometimes with a few damaged bytes.
fn long(r: &mut Rng) -> Damaged {
    let mut d = Damaged::plain(gen::long(r));
    d.iter = r.chance(1, 2);
    if r.chance(1, 4) {
        let e = emit(&d.s, &[]);
        d.faults = faults::some(r, &e);
    }
    d
}

pub fn damage(r: &mut Rng, s: Stream, late: bool) -> Damaged {
    let e = emit(&s, &[]);
    let mut d = Damaged {
        s,
        claims: vec![],
        faults: vec![],
        late: vec![],
        wrap: None,
        log: r.chance(1, 5) && e.bytes.len() < 20_000,
        iter: r.chance(1, 3),
    };
    if r.chance(1, 10) {
        return d;
    }
    if r.chance(1, 2) {
        d.claims = faults::claims(r, &e, faults::STRUCTURAL, 3);
    }
    if d.claims.is_empty() || r.chance(1, 2) {
        d.faults = faults::some(r, &e);
    }
    if late && r.chance(1, 6) {
        let mix = faults::FaultMix::random(r).no_len_change();
        for _ in 0..r.range(1, 3) {
            let at = r.below(e.bytes.len() as u64 / 6 + 10);
            d.late.push((at, faults::one(r, &e, &mix)));
        }
        d.late.sort_by_key(|x| x.0);
    }
    if r.chance(1, 8) {
        d.wrap = Some(gen_wrap(r));
    }
    d
}

impl Damaged {
    pub fn plain(s: Stream) -> Damaged {
        Damaged {
            s,
            claims: vec![],
            faults: vec![],
            late: vec![],
            wrap: None,
            log: false,
            iter: false,
        }
    }
    /// The stored bytes.
    pub fn bytes(&self, c: &mut Ctx) -> Vec<u8> {
        let e = emit(&self.s, &self.claims);
        c.faults_n("hostile_claim", e.claims_fired);
        let mut b = e.bytes;
        apply_faults(c, &mut b, &self.faults);
        if let Some(w) = &self.wrap {
            let mut r = Rng::new(w.pad_seed);
            let pad = r.bytes(w.pad as usize * 4);
            let off = w.offset.unwrap_or(20 + w.pad * 4);
            let size = w.size.unwrap_or(b.len() as u32);
            if w.offset.is_some() || w.size.is_some() {
                c.fault("hostile_wrapper");
            }
            let mut x = wrap(&b, off, size, w.version, w.cpu, &pad);
            x.extend(r.bytes(w.tail as usize));
            b = x;
        }
        b
    }
    pub fn disk(&self, c: &mut Ctx) -> Disk<'static> {
        let b = self.bytes(c);
        let mut d = Disk::new(b.clone());
        let mut cur = b;
        for (at, f) in &self.late {
            let mut next = cur.clone();
            faults::apply(&mut next, f);
            if next.len() == cur.len() && next != cur {
                d.push_version(*at, next.clone());
                cur = next;
            }
        }
        d
    }
    pub fn shrink(&self) -> Vec<Damaged> {
        let mut out = vec![];
        for x in shrink::bfaults(&self.faults) {
            out.push(Damaged {
                faults: x,
                ..self.clone()
            });
        }
        for x in shrink::lists(&self.late) {
            out.push(Damaged {
                late: x,
                ..self.clone()
            });
        }
        if self.claims.len() > 0 {
            // Freeze the claims in terms of the present fields before the stream changes.
            for x in shrink::claims(&self.claims) {
                out.push(Damaged {
                    claims: x,
                    ..self.clone()
                });
            }
            for i in 0..self.claims.len() {
                for v in shrink::value(self.claims[i].v) {
                    let mut x = self.claims.clone();
                    x[i].v = v;
                    out.push(Damaged {
                        claims: x,
                        ..self.clone()
                    });
                }
            }
        }
        if self.wrap.is_some() {
            out.push(Damaged {
                wrap: None,
                ..self.clone()
            });
        }
        if self.log {
            out.push(Damaged {
                log: false,
                ..self.clone()
            });
        }
        if self.iter {
            out.push(Damaged {
                iter: false,
                ..self.clone()
            });
        }
        for s in shrink::stream(&self.s) {
            // Claims count fields: try to keep them on the same ones by position from either end.
            out.push(Damaged {
                s: s.clone(),
                ..self.clone()
            });
            if !self.claims.is_empty() {
                let n0 = emit(&self.s, &[]).fields.len() as u64;
                let n1 = emit(&s, &[]).fields.len() as u64;
                if n1 < n0 && n1 > 0 {
                    let mut x = self.clone();
                    x.s = s;
                    for cl in &mut x.claims {
                        let k = cl.n % n0;
                        cl.n = k.saturating_sub(n0 - n1);
                    }
                    out.push(x);
                }
            }
        }
        out
    }
}

/// The history of a decode that goes on to the end of the stream, past errors.
pub struct History {
    pub evs: Vec<Ev>,
    pub ended: bool,
    pub opened: bool,
}

pub fn open<'a, 'h>(d: &'a Disk<'h>) -> Result<Result<Bitstream<&'a Disk<'h>>, String>, Violation> {
    guard("opening the stream", || {
        Bitstream::from(d)
            .map(|(_, b)| b)
            .map_err(|e| format!("{e:?}"))
    })
}

/// Ask for entries until the end of the stream, past errors, up to `max` requests.
pub fn history<T: AsRef<[u8]>>(
    bs: &mut Bitstream<T>,
    max: u64,
    iter: bool,
) -> Result<History, Violation> {
    guard("decoding", || {
        let mut evs = vec![];
        let mut ended = false;
        for _ in 0..max {
            let ev = if iter {
                match bs.next() {
                    None => Ev::End,
                    Some(Ok(e)) => Ev::Entry(entry(e)),
                    Some(Err(e)) => Ev::Err(format!("{e:?}")),
                }
            } else {
                step(bs)
            };
            let end = ev == Ev::End;
            evs.push(ev);
            if end {
                ended = true;
                break;
            }
        }
        History {
            evs,
            ended,
            opened: true,
        }
    })
}

fn call_bound(n: u64) -> u64 {
    8 * n + 256
}
fn read_bound(n: u64) -> u64 {
    64 * n + 8192
}

fn count_evs(c: &mut Ctx, h: &History) {
    let mut entries = 0;
    let mut errs = 0;
    for e in &h.evs {
        trace_ev(c, e);
        match e {
            Ev::Entry(_) => entries += 1,
            Ev::Err(_) => errs += 1,
            _ => {}
        }
    }
    c.steps += h.evs.len() as u64;
    if errs > 0 {
        c.probe("runs_with_decode_errors");
    }
    if errs > 1 {
        c.probe("runs_continued_past_errors");
    }
    if entries >= 3 {
        c.nontrivial = true;
    }
    c.note = format!("{entries} entries, {errs} errors, ended: {}", h.ended);
}

const REAL: &[&str] = &[
    "llvm-bitcursor (all of it)",
    "llvm-bitstream (all of it)",
    "llvm-support (the parts they use)",
];
const STUB: &[&str] = &[
    "storage: simulated disk behind the AsRef<[u8]> parameter",
    "writer of the stored bytes: the harness's own emitter",
    "logger: formats every record, keeps nothing",
    "allocator: system allocator behind an accounting layer with a cap",
    "hash seeds (getrandom): from the plan",
];
const ASSUME: &[&str] = &[
    "a clean batch of seeded runs is evidence, not proof",
    "storage objects keep their length while they are being read (AsRef<[u8]> contract of the cursor)",
];

// ------------------------------------------------------------------------ C01

pub struct C01;
impl Prop for C01 {
    const ID: &'static str = "C01";
    type Plan = Damaged;
    const RUNS: (u64, u64) = (300_000, 20000_000);
    fn gen(r: &mut Rng, _: u64) -> Damaged {
        if r.chance(1, 600) {
            return long(r);
        }
        if r.chance(1, 6) {
            let s = super::mapping::gen_stream(r);
            return damage(r, s, true);
        }
        gen_damaged(r, true, true)
    }
    fn exec(p: &Damaged, c: &mut Ctx) -> Result<(), Violation> {
        let d = p.disk(c);
        let n = d.as_ref().len() as u64;
        seams::set_log(p.log);
        let r = (|| {
            // Every way to open it.
            let raw = guard("opening as raw", || Bitstream::from_raw(&d).is_ok())?;
            let wrapped = guard("opening as wrapped", || Bitstream::from_wrapped(&d).is_ok())?;
            c.trace.add(raw as u64 * 2 + wrapped as u64);
            let mut bs = match open(&d)? {
                Ok(b) => b,
                Err(_) => {
                    c.trace.add(9);
                    c.probe("refused_container");
                    return Ok(());
                }
            };
            let mut h = history(&mut bs, call_bound(n), p.iter)?;
            // The end stays the end, quietly.
            let more = guard("asking again after the end", || {
                (0..3).map(|_| step(&mut bs)).collect::<Vec<_>>()
            })?;
            h.evs.extend(more);
            count_evs(c, &h);
            // Debug formatting is part of the API of a parser that gets logged.
            guard("formatting the parser", || {
                if n < 2000 {
                    let mut s = String::new();
                    let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{bs:?}"));
                }
            })?;
            Ok(())
        })();
        c.faults_n("changed_between_reads", d.mutations_fired());
        c.steps += d.reads();
        seams::set_log(false);
        r
    }
    fn shrink(p: &Damaged) -> Vec<Damaged> {
        p.shrink()
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a random stream (or a hostile one, or a bitcode file), damages it (claims at emission, byte/bit/range faults, changes between reads), opens it in every way and asks for entries past every error to the end; non-trivial: at least 3 entries were delivered; distinct: by hash of the delivered history",
            real: REAL,
            stub: STUB,
            time_unit: "requests for entries plus storage reads",
            assumptions: ASSUME,
        }
    }
}

// ------------------------------------------------------------------------ C03

pub struct C03;
impl Prop for C03 {
    const ID: &'static str = "C03";
    type Plan = Damaged;
    const RUNS: (u64, u64) = (250_000, 15000_000);
    const CPU_LIMIT: u64 = 10;
    fn gen(r: &mut Rng, _: u64) -> Damaged {
        let mut d = if r.chance(1, 150) {
            long(r)
        } else if r.chance(1, 4) {
            let s = super::mapping::gen_stream(r);
            damage(r, s, true)
        } else {
            gen_damaged(r, true, true)
        };
        d.log = false;
        d
    }
    fn exec(p: &Damaged, c: &mut Ctx) -> Result<(), Violation> {
        let mut d = p.disk(c);
        let n = d.as_ref().len() as u64;
        d = d.with_budget(read_bound(n));
        {
            let bs = open(&d)?;
            match bs {
                Err(_) => c.trace.add(9),
                Ok(mut bs) => {
                    let h = history(&mut bs, call_bound(n), p.iter)?;
                    count_evs(c, &h);
                    c.max(
                        "requests_per_mille_of_bound",
                        h.evs.len() as u64 * 1000 / call_bound(n),
                    );
                    if !h.ended {
                        return viol(
                            "no end",
                            format!(
                                "{} requests on {n} stored bytes did not reach the end of the stream",
                                h.evs.len()
                            ),
                        );
                    }
                }
            }
        }
        c.max("reads_per_mille_of_bound", d.reads() * 1000 / read_bound(n));
        c.steps += d.reads();
        c.faults_n("changed_between_reads", d.mutations_fired());
        // Mapping ends, too.
        let mut d2 = p.disk(&mut Ctx::new());
        d2 = d2.with_budget(read_bound(n));
        let ok = guard("mapping", || match Bitstream::from(&d2) {
            Ok((_, bs)) => super::mapping::try_map(bs).is_ok(),
            Err(_) => false,
        })?;
        c.max(
            "map_reads_per_mille_of_bound",
            d2.reads() * 1000 / read_bound(n),
        );
        c.trace.add(ok as u64);
        c.steps += d2.reads();
        Ok(())
    }
    fn shrink(p: &Damaged) -> Vec<Damaged> {
        p.shrink()
    }
    fn meta() -> Meta {
        Meta {
            rule: "as C01; requests are counted against 8*bytes+256, storage reads against 64*bytes+8192, and the CPU time of a run is limited; non-trivial: at least 3 entries were delivered; distinct: by hash of the delivered history",
            real: REAL,
            stub: STUB,
            time_unit: "requests for entries plus storage reads",
            assumptions: ASSUME,
        }
    }
}

// ------------------------------------------------------------------------ C04

pub struct C04;
/// Bytes a decode or mapping of n stored bytes, which hold `fields` record fields, may hold.
pub fn mem_bound(n: u64, fields: u64) -> u64 {
    512 * n + 64 * fields + (64 << 10)
}
impl Prop for C04 {
    const ID: &'static str = "C04";
    type Plan = Damaged;
    const RUNS: (u64, u64) = (400_000, 30000_000);
    fn gen(r: &mut Rng, _: u64) -> Damaged {
        if r.chance(1, 400) {
            return long(r);
        }
        let amplifier = r.chance(1, 100);
        let s = if amplifier {
            super::mapping::gen_amplifier(r)
        } else if r.chance(1, 2) {
            super::mapping::gen_stream(r)
        } else {
            let mut cfg = gen::StreamCfg::random(r);
            cfg.max_items = cfg.max_items.min(60);
            gen::stream_cfg(r, cfg)
        };
        let e = emit(&s, &[]);
        let mut d = Damaged {
            s,
            claims: vec![],
            faults: vec![],
            late: vec![],
            wrap: None,
            log: false,
            iter: r.chance(1, 2),
        };
        match r.below(12) {
            _ if amplifier => {}
            0 => {}
            1 | 2 => d.faults = faults::some(r, &e),
            3 => {
                // Record fields: sizes and counts of the mapping layer.
                d.claims = faults::claims(r, &e, &[Kind::Value], 4);
            }
            _ => {
                d.claims = faults::claims(r, &e, faults::LENGTHS, 3);
                if r.chance(1, 4) {
                    d.faults = faults::some(r, &e);
                }
            }
        }
        if r.chance(1, 10) {
            d.wrap = Some(gen_wrap(r));
        }
        d
    }
    fn exec(p: &Damaged, c: &mut Ctx) -> Result<(), Violation> {
        let d = p.disk(c);
        let bytes = d.as_ref().to_vec();
        let n = bytes.len() as u64;
        let (r, peak, _) = seams::measure(|| {
            guard("decoding", || {
                let mut entries = 0u64;
                let mut fields = 0u64;
                if let Ok((_, mut bs)) = Bitstream::from(&bytes[..]) {
                    for _ in 0..call_bound(n) {
                        match bs.advance() {
                            Ok(StreamEntry::Record(r)) => {
                                entries += 1;
                                fields += r.fields.len() as u64;
                            }
                            Ok(_) => entries += 1,
                            Err(llvm_bitstream::error::Error::Exhausted) => break,
                            Err(_) => {}
                        }
                    }
                }
                (entries, fields)
            })
        });
        let (entries, fields) = r?;
        let bound = mem_bound(n, fields);
        c.trace.add(entries);
        c.trace.add(fields);
        c.steps += entries;
        c.max("decode_peak_permille_of_bound", peak * 1000 / bound);
        if peak > bound {
            return viol(
                "memory",
                format!("decoding {n} stored bytes with {fields} fields held {peak} bytes at its peak (bound {bound})"),
            );
        }
        if super::mapping::expands(&bytes) {
            c.probe("skipped_mapping_of_KF2_files");
            c.nontrivial = entries >= 3;
            return Ok(());
        }
        let (r, peak, allocs) = seams::measure(|| {
            guard("mapping", || {
                llvm_mapper::unroll::Bitcode::try_from(&bytes[..])
                    .map(|b| b.modules.len())
                    .ok()
            })
        });
        let ok = r?;
        if ok.is_some() {
            c.probe("mapped_files");
        }
        c.trace.add(ok.map(|x| x as u64 + 1).unwrap_or(0));
        c.steps += allocs;
        c.max("map_peak_permille_of_bound", peak * 1000 / bound);
        c.nontrivial = entries >= 3;
        c.note = format!("{n} bytes, {entries} entries, mapping ok: {ok:?}, peak {peak}");
        if peak > bound {
            return viol(
                "memory",
                format!("mapping {n} stored bytes with {fields} fields held {peak} bytes at its peak (bound {bound})"),
            );
        }
        Ok(())
    }
    fn shrink(p: &Damaged) -> Vec<Damaged> {
        p.shrink()
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a stream or bitcode file, replaces length, count, width and size fields (and others) by hostile values, damages some bytes, and measures the peak of live bytes of decoding past all errors and of mapping against 512*bytes + 64*fields decoded + 64 KiB; non-trivial: at least 3 entries; distinct: by number of entries and verdict",
            real: &["llvm-bitcursor", "llvm-bitstream", "llvm-support", "llvm-mapper", "the system allocator below the accounting layer"],
            stub: STUB,
            time_unit: "entries plus allocations",
            assumptions: &["a clean batch of seeded runs is evidence, not proof", "type tables whose entries share subtypes more than ~50,000 times in total are skipped (known finding KF2)"],
        }
    }
    fn known() -> Vec<(&'static str, &'static str, Box<dyn Fn() -> bool>)> {
        vec![(
            "KF2",
            "a type table of 24 small records, each a struct of two fields of the previous type, expands to a copy of every subtype and takes memory exponential in the number of records",
            Box::new(|| {
                let bytes = super::mapping::doubling_file(24);
                let n = bytes.len() as u64;
                let (r, peak, _) = seams::measure(|| {
                    guard("mapping", || {
                        llvm_mapper::unroll::Bitcode::try_from(&bytes[..]).is_ok()
                    })
                });
                r.is_err() || peak > mem_bound(n, n * 8)
            }),
        ),
        (
            "KF4",
            "a string table that follows many modules is cloned and mapped again for each of them, so n empty modules and one table of n bytes take memory quadratic in n",
            Box::new(|| {
                let bytes = super::mapping::shared_table_file(2000, 80_000);
                let n = bytes.len() as u64;
                let (r, peak, _) = seams::measure(|| {
                    guard("mapping", || {
                        llvm_mapper::unroll::Bitcode::try_from(&bytes[..]).is_ok()
                    })
                });
                r.is_err() || peak > mem_bound(n, 100_000)
            }),
        ),
        (
            "KF5",
            "each comdat owns a copy of its name, so n comdat records that name the same bytes of a string table of n bytes take memory quadratic in n",
            Box::new(|| {
                let bytes = super::mapping::comdats_file(4000, 80_000);
                let n = bytes.len() as u64;
                let (r, peak, _) = seams::measure(|| {
                    guard("mapping", || {
                        llvm_mapper::unroll::Bitcode::try_from(&bytes[..]).is_ok()
                    })
                });
                r.is_err() || peak > mem_bound(n, 100_000)
            }),
        )]
    }
}

// ------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Torn {
    pub s: Stream,
    /// Bytes that survive (modulo length + 1), or everything.
    pub at: Option<u64>,
    pub more: Vec<u64>,
    pub iter: bool,
    pub log: bool,
}

pub struct C05;
impl Prop for C05 {
    const ID: &'static str = "C05";
    type Plan = Torn;
    const RUNS: (u64, u64) = (400_000, 25000_000);
    fn gen(r: &mut Rng, _: u64) -> Torn {
        let s = if r.chance(1, 6) {
            super::mapping::gen_stream(r)
        } else {
            gen::stream(r)
        };
        let e = emit(&s, &[]);
        let words = e.bytes.len() as u64 / 4;
        let mut at = |r: &mut Rng| match r.below(6) {
            0 => r.below(e.bytes.len() as u64 + 1),
            1 | 2 if !e.log.is_empty() => {
                // Next to the edge of an item.
                let l = r.pick(&e.log);
                let b = if r.chance(1, 2) { l.start } else { l.end };
                let w = (b / 32 + r.below(3)).saturating_sub(1);
                w.min(words) * 4
            }
            _ => r.below(words + 1) * 4,
        };
        let first = if r.chance(1, 7) { None } else { Some(at(r)) };
        let more = (0..r.below(6)).map(|_| at(r)).collect();
        Torn {
            s,
            at: first,
            more,
            iter: r.chance(1, 2),
            log: r.chance(1, 12) && e.bytes.len() < 20_000,
        }
    }
    fn exec(p: &Torn, c: &mut Ctx) -> Result<(), Violation> {
        let e = emit(&p.s, &[]);
        seams::set_log(p.log);
        let mut cuts = vec![p.at];
        cuts.extend(p.more.iter().map(|x| Some(*x)));
        let mut r = Ok(());
        for cut in cuts {
            r = torn_once(p, &e, cut, c);
            if r.is_err() {
                break;
            }
        }
        seams::set_log(false);
        r
    }
    fn shrink(p: &Torn) -> Vec<Torn> {
        let mut out = vec![];
        for m in shrink::lists(&p.more) {
            out.push(Torn {
                more: m,
                ..p.clone()
            });
        }
        if p.at.is_some() {
            out.push(Torn {
                at: None,
                ..p.clone()
            });
        }
        if p.more.len() == 1 {
            out.push(Torn {
                at: Some(p.more[0]),
                more: vec![],
                ..p.clone()
            });
        }
        if p.iter {
            out.push(Torn {
                iter: false,
                ..p.clone()
            });
        }
        if p.log {
            out.push(Torn {
                log: false,
                ..p.clone()
            });
        }
        let n0 = emit(&p.s, &[]).bytes.len() as u64;
        for s in shrink::stream(&p.s) {
            let n1 = emit(&s, &[]).bytes.len() as u64;
            // Keep the tear at its place, or at its distance from the end.
            if let Some(at) = p.at {
                let at = at % (n0 + 1);
                out.push(Torn {
                    s: s.clone(),
                    at: Some(at.min(n1)),
                    ..p.clone()
                });
                if n1 + at >= n0 && n1 != n0 {
                    out.push(Torn {
                        s: s.clone(),
                        at: Some(n1 + at - n0),
                        ..p.clone()
                    });
                }
            } else {
                out.push(Torn { s, ..p.clone() });
            }
        }
        if let Some(at) = p.at {
            for v in shrink::value(at) {
                out.push(Torn {
                    at: Some(v),
                    ..p.clone()
                });
            }
        }
        out
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a random well-formed stream, lets the writer crash after some bytes (several crash points per run, many at item edges) and compares every entry and the way decoding ends with the writer's log; non-trivial: at least 3 entries were expected and delivered; distinct: by hash of the delivered histories",
            real: REAL,
            stub: STUB,
            time_unit: "requests for entries",
            assumptions: ASSUME,
        }
    }
}

fn torn_once(p: &Torn, e: &Emitted, cut: Option<u64>, c: &mut Ctx) -> Result<(), Violation> {
    let n = e.bytes.len() as u64;
    let t = cut.map(|a| a % (n + 1)).unwrap_or(n);
    if t < n {
        c.fault("torn_write");
    }
    let bytes = &e.bytes[..t as usize];
    let opened = guard("opening", || Bitstream::from(bytes).map(|x| x.1))?;
    let mut bs = match opened {
        Err(err) => {
            c.trace.add(8);
            if t % 4 == 0 && t >= 4 {
                return viol(
                    "refused",
                    format!(
                        "{t} of {n} written bytes survive, but the stream was refused: {err:?}"
                    ),
                );
            }
            return Ok(());
        }
        Ok(b) => b,
    };
    if t < 4 {
        return viol(
            "accepted",
            format!("a stream of {t} bytes has no magic, but was opened"),
        );
    }
    if bs.magic != p.s.magic {
        return viol(
            "magic",
            format!("magic {:#x}, written {:#x}", bs.magic, p.s.magic),
        );
    }
    let bits = t * 8;
    let h = history_until_error(&mut bs, 8 * n + 64, p.iter)?;
    let expect: Vec<&LogItem> = e.log.iter().filter(|l| l.end <= bits).collect();
    let clean = expect.last().map(|l| l.end).unwrap_or(32) == bits;
    let mut want = expect
        .iter()
        .filter_map(|l| l.entry.as_ref().map(|x| (x, l)));
    let mut k = 0;
    for ev in &h {
        trace_ev(c, ev);
        c.steps += 1;
        match ev {
            Ev::Entry(got) => match want.next() {
                Some((w, l)) => {
                    k += 1;
                    if w != got {
                        return viol(
                            "wrong entry",
                            format!(
                                "cut at byte {t} of {n}: entry {k}, written at bits {}..{} as {}, was read as {}",
                                l.start, l.end, short(w), short(got)
                            ),
                        );
                    }
                }
                None => {
                    return viol(
                        "invented entry",
                        format!(
                            "cut at byte {t} of {n}: after {k} complete entries, {} was delivered",
                            short(got)
                        ),
                    )
                }
            },
            Ev::Err(x) => {
                if let Some((w, l)) = want.next() {
                    return viol(
                        "lost entry",
                        format!("cut at byte {t} of {n}: {} at bits {}..{} survived, but reading it failed: {x}", short(w), l.start, l.end),
                    );
                }
                if clean && t % 4 == 0 {
                    return viol(
                        "spurious error",
                        format!("cut at byte {t} of {n}, between two items: {x}"),
                    );
                }
            }
            Ev::End => {
                if let Some((w, l)) = want.next() {
                    return viol(
                        "lost entry",
                        format!(
                            "cut at byte {t} of {n}: the stream ended before {} at bits {}..{}",
                            short(w),
                            l.start,
                            l.end
                        ),
                    );
                }
                if !clean && t % 4 == 0 {
                    return viol(
                        "silent truncation",
                        format!("cut at byte {t} of {n}, inside an item: the stream ended as if it were complete"),
                    );
                }
            }
        }
    }
    if !matches!(h.last(), Some(Ev::Err(_)) | Some(Ev::End)) {
        return viol("no end", "the decode did not end".into());
    }
    if k >= 3 {
        c.nontrivial = true;
    }
    if clean && t < n {
        c.probe("tears_between_items");
    }
    if !clean {
        c.probe("tears_inside_items");
    }
    c.note = format!("cut at {t} of {n} bytes: {k} entries, clean end: {clean}");
    Ok(())
}

pub fn history_until_error<T: AsRef<[u8]>>(
    bs: &mut Bitstream<T>,
    max: u64,
    iter: bool,
) -> Result<Vec<Ev>, Violation> {
    guard("decoding", || {
        let mut evs = vec![];
        for _ in 0..max {
            let ev = if iter {
                match bs.next() {
                    None => Ev::End,
                    Some(Ok(e)) => Ev::Entry(entry(e)),
                    Some(Err(e)) => Ev::Err(format!("{e:?}")),
                }
            } else {
                step(bs)
            };
            let stop = !matches!(ev, Ev::Entry(_));
            evs.push(ev);
            if stop {
                break;
            }
        }
        evs
    })
}

// ------------------------------------------------------------------------ C07

pub struct C07;
impl Prop for C07 {
    const ID: &'static str = "C07";
    type Plan = Damaged;
    const RUNS: (u64, u64) = (300_000, 20000_000);
    fn gen(r: &mut Rng, _: u64) -> Damaged {
        if r.chance(1, 600) {
            return long(r);
        }
        let mut d = gen_damaged(r, true, true);
        d.log = false;
        d
    }
    fn exec(p: &Damaged, c: &mut Ctx) -> Result<(), Violation> {
        let d = p.disk(c);
        let n = d.as_ref().len() as u64;
        let mut bs = match open(&d)? {
            Ok(b) => b,
            Err(_) => return Ok(()),
        };
        let h = history(&mut bs, call_bound(n), p.iter)?;
        c.faults_n("changed_between_reads", d.mutations_fired());
        count_evs(c, &h);
        let mut open: Vec<u64> = vec![];
        let mut errors = 0;
        for (i, ev) in h.evs.iter().enumerate() {
            match ev {
                Ev::Entry(Entry::Block { id, .. }) => {
                    if *id == 0 {
                        return viol(
                            "own structure",
                            format!("request {i} delivered the block-information block"),
                        );
                    }
                    open.push(*id);
                    c.max("depth", open.len() as u64);
                }
                Ev::Entry(Entry::End) => {
                    if open.pop().is_none() {
                        return viol("unbalanced end", format!("request {i} (after {errors} errors) ended a block, but none was open"));
                    }
                    if errors > 0 {
                        c.probe("ends_after_errors");
                    }
                }
                Ev::Entry(e @ Entry::Rec { .. }) => {
                    if open.is_empty() {
                        return viol("record outside of blocks", format!("request {i} (after {errors} errors) delivered {} while no block was open", short(e)));
                    }
                    if errors > 0 {
                        c.probe("records_after_errors");
                    }
                }
                Ev::Err(_) => errors += 1,
                Ev::End => {}
            }
        }
        Ok(())
    }
    fn shrink(p: &Damaged) -> Vec<Damaged> {
        p.shrink()
    }
    fn meta() -> Meta {
        Meta {
            rule: "as C01, requests past every error to the end; a monitor tracks the open blocks; non-trivial: at least 3 entries; distinct: by hash of the delivered history",
            real: REAL,
            stub: STUB,
            time_unit: "requests for entries",
            assumptions: ASSUME,
        }
    }
}

// ------------------------------------------------------------------------ C12

pub struct C12;
impl Prop for C12 {
    const ID: &'static str = "C12";
    type Plan = Damaged;
    const RUNS: (u64, u64) = (300_000, 20000_000);
    fn gen(r: &mut Rng, _: u64) -> Damaged {
        let mut d = if r.chance(1, 600) {
            long(r)
        } else if r.chance(1, 6) {
            let s = super::mapping::gen_stream(r);
            damage(r, s, false)
        } else {
            gen_damaged(r, true, false)
        };
        d.wrap = None;
        d.log = false;
        d
    }
    fn exec(p: &Damaged, c: &mut Ctx) -> Result<(), Violation> {
        let bytes = p.bytes(c);
        if bytes.len() < 4 || bytes.len() % 4 != 0 {
            c.trace.add(1);
            return Ok(());
        }
        let want = refdec::decode(&bytes, 32, bytes.len());
        let opened = guard("opening", || Bitstream::from_raw(&bytes[..]))?;
        let mut bs = match opened {
            Ok(b) => b,
            Err(e) => {
                return viol(
                    "refused",
                    format!("a stream of {} bytes was refused: {e:?}", bytes.len()),
                )
            }
        };
        let max = want.entries.len() as u64 + 1;
        let h = history_until_error(&mut bs, max, p.iter)?;
        let mut end_at = 32;
        for (k, (w, at)) in want.entries.iter().enumerate() {
            c.steps += 1;
            let start = end_at;
            end_at = *at;
            match h.get(k) {
                Some(Ev::Entry(g)) => {
                    trace_entry(c, g);
                    if g != w {
                        return viol("misread", format!("entry {k}, somewhere in bits {start}..{at}: the format says {}, delivered {}", short(w), short(g)));
                    }
                }
                Some(Ev::Err(e)) => {
                    return viol(
                        "refused entry",
                        format!(
                            "entry {k}, ending at bit {at}, means {}, but was an error: {e}",
                            short(w)
                        ),
                    )
                }
                _ => {
                    return viol(
                        "missing entry",
                        format!(
                            "entry {k}, ending at bit {at}, means {}, but the stream ended",
                            short(w)
                        ),
                    )
                }
            }
        }
        let k = want.entries.len();
        match (&want.end, h.get(k)) {
            (RefEnd::Unspecified(why), _) => {
                c.probe(&format!("unspecified: {why}"));
                c.trace.add(7);
            }
            (RefEnd::Clean, Some(Ev::End)) => c.probe("clean"),
            (RefEnd::Clean, g) => {
                return viol(
                    "no clean end",
                    format!("after {k} entries the stream is complete, but: {g:?}"),
                )
            }
            (RefEnd::Malformed(why), Some(Ev::Err(_))) => {
                c.probe(&format!("malformed: {why}"));
                c.trace.add(8);
            }
            (RefEnd::Malformed(why), g) => {
                return viol(
                    "malformed item accepted",
                    format!(
                        "the item at bit {} is malformed ({why}), but: {g:?}",
                        want.at
                    ),
                )
            }
        }
        c.nontrivial = k >= 3;
        c.note = format!("{k} entries, then {:?}", want.end);
        Ok(())
    }
    fn shrink(p: &Damaged) -> Vec<Damaged> {
        p.shrink()
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a stream (well-formed or hostile), damages it, and compares decoding item by item, up to the first error, with an independent decoder of the format; non-trivial: at least 3 entries agreed; distinct: by hash of the delivered history",
            real: REAL,
            stub: STUB,
            time_unit: "entries",
            assumptions: &["a clean batch of seeded runs is evidence, not proof", "the reference decoder stops comparing where the format leaves a construct undefined (counted as 'unspecified' probes)"],
        }
    }
}
