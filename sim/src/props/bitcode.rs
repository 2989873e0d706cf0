//! C02, C06, C11, C13, C14: the module mapper over damaged storage.

use super::mapping::*;
use super::*;
use crate::refmap::{self, Expect};
use crate::rng::Rng;
use crate::seams::{self, Disk};
use crate::shrink;
use llvm_mapper::unroll::Bitcode;
use serde::{Deserialize, Serialize};

const ASSUME: &[&str] = &[
    "a clean batch of seeded runs is evidence, not proof",
    "where the format or the property leaves a choice the reference mapping gives no verdict (counted as 'left open' probes)",
];

// ------------------------------------------------------------------------ C02

pub struct C02;
impl Prop for C02 {
    const ID: &'static str = "C02";
    type Plan = MapPlan;
    const RUNS: (u64, u64) = (400_000, 20000_000);
    fn gen(r: &mut Rng, _: u64) -> MapPlan {
        let cfg = if r.chance(1, 5000) {
            MCfg::huge(r)
        } else {
            MCfg::random(r)
        };
        let s = gen_file(r, &cfg);
        let mut p = MapPlan {
            s,
            muts: vec![],
            claims: vec![],
            faults: vec![],
            late: vec![],
            log: r.chance(1, 6),
        };
        if r.chance(9, 10) {
            p.muts = gen_muts(r, &p.s, 8);
        }
        if p.muts.is_empty() || r.chance(1, 4) {
            let e = emit(&p.stream(&mut Ctx::new()), &[]);
            match r.below(3) {
                0 => p.claims = faults::claims(r, &e, faults::STRUCTURAL, 3),
                1 => p.faults = faults::some(r, &e),
                _ => {
                    let mix = faults::FaultMix::random(r).no_len_change();
                    for _ in 0..r.range(1, 3) {
                        let at = r.below(e.bytes.len() as u64 / 6 + 10);
                        p.late.push((at, faults::one(r, &e, &mix)));
                    }
                    p.late.sort_by_key(|x| x.0);
                }
            }
        }
        p
    }
    fn exec(p: &MapPlan, c: &mut Ctx) -> Result<(), Violation> {
        let b = p.bytes(c);
        if explodes(&b) {
            c.probe("skipped_KF2_files");
            return Ok(());
        }
        let mut d = Disk::new(b.clone());
        let mut cur = b.clone();
        for (at, f) in &p.late {
            let mut next = cur.clone();
            faults::apply(&mut next, f);
            if next.len() == cur.len() && next != cur && !explodes(&next) {
                d.push_version(*at, next.clone());
                cur = next;
            }
        }
        seams::set_log(p.log && b.len() < 8000);
        let r = guard("mapping", || match Bitstream::from(&d) {
            Ok((_, bs)) => Bitcode::try_from(bs).map_err(|e| format!("{e} {e:?}")),
            Err(e) => Err(format!("{e:?}")),
        });
        c.faults_n("changed_between_reads", d.mutations_fired());
        c.steps += d.reads();
        let r = match r {
            Ok(r) => r,
            Err(v) => {
                seams::set_log(false);
                return Err(v);
            }
        };
        match &r {
            Ok(bc) => {
                c.probe("mapped");
                let shown = guard("formatting the result", || format!("{bc:?}").len());
                seams::set_log(false);
                c.trace.add(shown? as u64);
                trace_mods(c, &Ok(observe(bc)));
                c.note = format!("{} modules", bc.modules.len());
            }
            Err(e) => {
                c.probe("refused");
                c.trace.add_str(e);
                c.note = e.clone();
            }
        }
        seams::set_log(false);
        c.trace.add(d.reads());
        c.nontrivial = d.reads() > 50;
        Ok(())
    }
    fn shrink(p: &MapPlan) -> Vec<MapPlan> {
        p.shrink()
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a random multi-module file, loses, repeats, reorders, shortens or alters blocks, records and fields, or damages bytes (before or between reads), and maps it; non-trivial: mapping read the storage more than 50 times; distinct: by hash of the verdict, the returned contents and the number of storage reads",
            real: MAP_REAL,
            stub: MAP_STUB,
            time_unit: "storage reads",
            assumptions: &["a clean batch of seeded runs is evidence, not proof", "files whose types expand to more than 400,000 nodes are skipped (known finding KF2 of C04)"],
        }
    }
}

// ------------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TornFile {
    pub s: Stream,
    pub cuts: Vec<u64>,
    pub log: bool,
}

/// What has to come of the first `t` bytes.
fn torn_expect(e: &Emitted, t: u64) -> Expect {
    if t < 4 || t % 4 != 0 {
        return Expect::Reject("not a whole number of words".into());
    }
    let bits = t * 8;
    let survived: Vec<&LogItem> = e.log.iter().filter(|l| l.end <= bits).collect();
    if survived.last().map(|l| l.end).unwrap_or(32) != bits {
        return Expect::Reject("the file ends inside an item".into());
    }
    refmap::expect(survived.iter().filter_map(|l| l.entry.as_ref()))
}

pub struct C06;
impl Prop for C06 {
    const ID: &'static str = "C06";
    type Plan = TornFile;
    const RUNS: (u64, u64) = (500_000, 30000_000);
    fn gen(r: &mut Rng, _: u64) -> TornFile {
        let cfg = if r.chance(1, 5000) {
            MCfg::huge(r)
        } else {
            MCfg::random(r)
        };
        let s = gen_file(r, &cfg);
        let e = emit(&s, &[]);
        let n = e.bytes.len() as u64;
        // Ends of top-level blocks.
        let mut depth = 0;
        let mut tops = vec![4];
        for l in &e.log {
            match l.entry {
                Some(Entry::Block { .. }) => depth += 1,
                Some(Entry::End) => {
                    depth -= 1;
                    if depth == 0 {
                        tops.push(l.end / 8);
                    }
                }
                _ => {}
            }
        }
        let most = if n > 300_000 { 2 } else { 6 };
        let cuts = (0..r.range(1, most))
            .map(|_| match r.below(6) {
                0 => r.below(n + 1),
                1..=3 => {
                    let t = *r.pick(&tops);
                    (t + r.below(3) * 4).saturating_sub(4).min(n)
                }
                4 => {
                    let l = r.pick(&e.log);
                    (l.end / 32 * 4).min(n)
                }
                _ => r.below(n / 4 + 1) * 4,
            })
            .collect();
        TornFile {
            s,
            cuts,
            log: r.chance(1, 20) && n < 8000,
        }
    }
    fn exec(p: &TornFile, c: &mut Ctx) -> Result<(), Violation> {
        let e = emit(&p.s, &[]);
        let n = e.bytes.len() as u64;
        let mut all = vec![n];
        all.extend(p.cuts.iter().map(|x| x % (n + 1)));
        let mut whole = 0;
        for t in all {
            if t < n {
                c.fault("torn_write");
            }
            let want = torn_expect(&e, t);
            seams::set_log(p.log);
            let got = map_bytes(&e.bytes[..t as usize]);
            seams::set_log(false);
            let got = got?;
            trace_mods(c, &got);
            c.steps += 1;
            judge(c, &want, &got, &format!("{t} of {n} bytes survive"))?;
            if let Ok(g) = &got {
                if t == n {
                    whole = g.len();
                } else if !g.is_empty() {
                    c.probe("whole_modules_out_of_torn_files");
                }
            }
            if t == n && matches!(want, Expect::Accept(_)) {
                c.probe("intact_files_accepted");
            }
        }
        c.nontrivial = whole > 0;
        c.note = format!("{n} bytes, {whole} modules, {} tears", p.cuts.len());
        Ok(())
    }
    fn shrink(p: &TornFile) -> Vec<TornFile> {
        let mut out = vec![];
        for x in shrink::lists(&p.cuts) {
            out.push(TornFile {
                cuts: x,
                ..p.clone()
            });
        }
        if p.log {
            out.push(TornFile {
                log: false,
                ..p.clone()
            });
        }
        let n0 = emit(&p.s, &[]).bytes.len() as u64;
        for s in shrink::stream(&p.s) {
            let n1 = emit(&s, &[]).bytes.len() as u64;
            out.push(TornFile {
                s: s.clone(),
                ..p.clone()
            });
            if n1 < n0 && !p.cuts.is_empty() {
                out.push(TornFile {
                    s,
                    cuts: p
                        .cuts
                        .iter()
                        .map(|x| (x % (n0 + 1)).saturating_sub(n0 - n1))
                        .collect(),
                    ..p.clone()
                });
            }
        }
        out
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a random multi-module file (any encoding), maps it intact and after the writer crashed at several points (at and around the ends of top-level blocks, of items, anywhere), and compares verdict and contents with the reference mapping of the complete top-level blocks; non-trivial: the intact file gave at least one module; distinct: by hash of all verdicts and contents",
            real: MAP_REAL,
            stub: MAP_STUB,
            time_unit: "mapped files",
            assumptions: ASSUME,
        }
    }
    fn known() -> Vec<(&'static str, &'static str, Box<dyn Fn() -> bool>)> {
        vec![(
            "KF1",
            "a file whose producer is one character long is refused",
            Box::new(|| Bitcode::try_from(&one_char_file()[..]).is_err()),
        )]
    }
}

// ------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shuffled {
    pub s: Stream,
    pub muts: Vec<Mut>,
}
impl Shuffled {
    fn muts(items: &[Item], at: usize) -> u64 {
        nodes(&items[..at])
    }
}

pub struct C11;
impl Prop for C11 {
    const ID: &'static str = "C11";
    type Plan = Shuffled;
    const RUNS: (u64, u64) = (1000_000, 80000_000);
    fn gen(r: &mut Rng, _: u64) -> Shuffled {
        let cfg = MCfg::small(r);
        let s = gen_file(r, &cfg);
        let mut cur = s.items.clone();
        let mut muts = vec![];
        let n = match r.below(8) {
            0 => 0,
            1..=4 => 1,
            5 | 6 => 2,
            _ => r.range(2, 6),
        };
        for _ in 0..n {
            if cur.is_empty() {
                break;
            }
            let i = r.idx(cur.len());
            let at = Shuffled::muts(&cur, i);
            let m = match r.below(9) {
                0..=2 => Mut::Drop { at },
                3 => Mut::Dup { at, n: 1 },
                4 | 5 => Mut::Swap { at, by: r.below(4) },
                6 => {
                    let j = r.idx(cur.len());
                    // Counted without the moved block.
                    let mut rest = cur.clone();
                    rest.remove(i);
                    if rest.is_empty() {
                        continue;
                    }
                    let j = j.min(rest.len() - 1);
                    Mut::Move {
                        at,
                        to: Shuffled::muts(&rest, j),
                    }
                }
                7 => Mut::Swap { at, by: 0 },
                _ => Mut::Insert {
                    at,
                    item: match r.below(5) {
                        0 => block(
                            *r.pick(&[17, 14, 9, 10, 11, 12, 15, 24, 26, 1, 7, 99, 1 << 31]),
                            vec![],
                        ),
                        1 => ident("fresh producer", r.value(64)),
                        _ => {
                            // Another file's table.
                            let id = *r.pick(&[23, 23, 25]);
                            let b = r.range(20, 60);
                            block(
                                id,
                                vec![Item::Bytes {
                                    c: 1,
                                    pre: vec![],
                                    s: (0..b).map(|_| r.range(0x20, 0x7e) as u8).collect(),
                                    ab: None,
                                }],
                            )
                        }
                    },
                },
            };
            if mutate(&mut cur, &m) {
                muts.push(m);
            }
        }
        Shuffled { s, muts }
    }
    fn exec(p: &Shuffled, c: &mut Ctx) -> Result<(), Violation> {
        let mut s = p.s.clone();
        for m in &p.muts {
            if mutate(&mut s.items, m) {
                c.fault(m.name());
            }
        }
        let e = emit(&s, &[]);
        let want = refmap::expect(e.log.iter().filter_map(|l| l.entry.as_ref()));
        let got = map_bytes(&e.bytes)?;
        trace_mods(c, &got);
        let seq: Vec<String> = s
            .items
            .iter()
            .map(|i| match i {
                Item::Block { id: 13, .. } => "identification".into(),
                Item::Block { id: 8, .. } => "module".into(),
                Item::Block { id: 23, .. } => "strings".into(),
                Item::Block { id: 25, .. } => "symbols".into(),
                Item::Block { id, .. } => format!("{id}"),
                _ => "?".into(),
            })
            .collect();
        for x in &seq {
            c.trace.add_str(x);
        }
        c.steps += seq.len() as u64;
        c.note = format!(
            "{}: {}",
            seq.join(" "),
            match &got {
                Ok(m) => format!("{} modules", m.len()),
                Err(e) => e.clone(),
            }
        );
        c.nontrivial = seq.len() > 1;
        judge(c, &want, &got, &format!("blocks {}", seq.join(" ")))
    }
    fn shrink(p: &Shuffled) -> Vec<Shuffled> {
        let mp = MapPlan {
            s: p.s.clone(),
            muts: p.muts.clone(),
            claims: vec![],
            faults: vec![],
            late: vec![],
            log: false,
        };
        mp.shrink()
            .into_iter()
            .map(|m| Shuffled {
                s: m.s,
                muts: m.muts,
            })
            .collect()
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes several small modules with distinguishable contents, loses, repeats, moves and swaps whole top-level blocks or adds foreign ones, and compares which module got which companions with the reference pairing; non-trivial: more than one top-level block; distinct: by hash of the sequence of blocks, the verdict and the contents",
            real: MAP_REAL,
            stub: MAP_STUB,
            time_unit: "top-level blocks",
            assumptions: ASSUME,
        }
    }
}

// ------------------------------------------------------------------------ C13

pub struct C13;
impl Prop for C13 {
    const ID: &'static str = "C13";
    type Plan = MapPlan;
    const RUNS: (u64, u64) = (700_000, 60000_000);
    fn gen(r: &mut Rng, _: u64) -> MapPlan {
        let mut cfg = if r.chance(1, 2000) {
            MCfg::huge(r)
        } else {
            MCfg::random(r)
        };
        cfg.groups = cfg.groups.min(2);
        cfg.mods = cfg.mods.min(2);
        let s = gen_file(r, &cfg);
        let mut p = MapPlan {
            s,
            muts: vec![],
            claims: vec![],
            faults: vec![],
            late: vec![],
            log: r.chance(1, 40),
        };
        if r.chance(14, 15) {
            p.muts = gen_muts(r, &p.s, 3);
        }
        if r.chance(1, 12) {
            let e = emit(&p.stream(&mut Ctx::new()), &[]);
            let mix = faults::FaultMix::random(r);
            p.faults = vec![faults::one(r, &e, &mix), BFault::Words];
        }
        p
    }
    fn exec(p: &MapPlan, c: &mut Ctx) -> Result<(), Violation> {
        let b = p.bytes(c);
        if explodes(&b) {
            c.probe("skipped_KF2_files");
            return Ok(());
        }
        let want = meaning(&b);
        seams::set_log(p.log && b.len() < 8000);
        let got = map_bytes(&b);
        seams::set_log(false);
        let got = got?;
        trace_mods(c, &got);
        if let Err(e) = &got {
            c.trace.add_str(e);
        }
        c.steps += 1;
        c.nontrivial = !matches!(want, Expect::Unspecified(_));
        c.note = match (&want, &got) {
            (Expect::Reject(w), Err(e)) => format!("{w}: {e}"),
            (_, Ok(m)) => format!("{} modules", m.len()),
            (_, Err(e)) => e.clone(),
        };
        if let Expect::Reject(w) = &want {
            let w: String = w.chars().filter(|c| !c.is_ascii_digit()).collect();
            let w = w.trim_start_matches("module : ").to_string();
            c.probe(&format!("to be refused: {w}"));
        }
        judge(c, &want, &got, "the damaged file")
    }
    fn shrink(p: &MapPlan) -> Vec<MapPlan> {
        p.shrink()
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a random multi-module file, loses, repeats, reorders, shortens or alters blocks, records and fields (or bytes), and compares verdict and contents with the reference mapping; non-trivial: the reference has a verdict; distinct: by hash of verdict, error and contents",
            real: MAP_REAL,
            stub: MAP_STUB,
            time_unit: "mapped files",
            assumptions: ASSUME,
        }
    }
}

// ------------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lookups {
    pub table: Vec<u8>,
    /// Written as a blob, an array of bytes or plainly.
    pub ops: Option<Vec<Op>>,
    pub mods: u64,
    pub faults: Vec<BFault>,
    pub refs: Vec<(u64, u64)>,
}
impl Lookups {
    fn stream(&self) -> Stream {
        let mut items = vec![];
        for k in 0..self.mods.max(1) {
            items.push(ident("producer", k));
            items.push(block(
                8,
                vec![
                    Item::rec(1, vec![2]),
                    block(17, vec![Item::rec(1, vec![1]), Item::rec(7, vec![32])]),
                    block(14, vec![]),
                ],
            ));
        }
        let mut t = vec![];
        let mut ab = None;
        if let Some(o) = &self.ops {
            t.push(Item::Def(o.clone()));
            ab = Some(0);
        }
        t.push(Item::Bytes {
            c: 1,
            pre: vec![],
            s: self.table.clone(),
            ab,
        });
        items.push(block(23, t));
        Stream {
            magic: BC_MAGIC,
            overlong: 0,
            items,
        }
    }
}

pub struct C14;
impl Prop for C14 {
    const ID: &'static str = "C14";
    type Plan = Lookups;
    const RUNS: (u64, u64) = (2000_000, 100000_000);
    fn gen(r: &mut Rng, _: u64) -> Lookups {
        let n = match r.below(6) {
            _ if r.chance(1, 500) => r.range(65_500, 66_500),
            0 => r.range(2, 4),
            1 => r.range(100, 2000),
            _ => r.range(2, 60),
        };
        let kind = r.below(4);
        let mut table: Vec<u8> = vec![];
        while (table.len() as u64) < n {
            match kind {
                0 => table.push(r.below(256) as u8),
                1 => table.push(r.range(0x20, 0x7e) as u8),
                2 => {
                    let ch = *r.pick(&[
                        'é', '語', '🦀', 'a', 'b', '\0', '\u{7f}', '\u{80}', '\u{800}',
                    ]);
                    let mut b = [0; 4];
                    table.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                _ => {
                    if r.chance(1, 12) {
                        table.push(*r.pick(&[0x80, 0xff, 0xc0, 0xf5, 0xed, 0xa0]));
                    } else {
                        table.push(r.range(0x20, 0x7e) as u8);
                    }
                }
            }
        }
        let len = table.len() as u64;
        let ops = match r.below(4) {
            0 => None,
            1 => Some(vec![Op::Lit(1), Op::Blob]),
            2 => Some(vec![Op::Fixed(3), Op::Array(Box::new(Op::Fixed(8)))]),
            _ => Some(vec![Op::Vbr(6), Op::Array(Box::new(Op::Vbr(4)))]),
        };
        let mut p = Lookups {
            table,
            ops,
            mods: r.range(1, 3),
            faults: vec![],
            refs: vec![],
        };
        if r.chance(1, 2) {
            let e = emit(&p.stream(), &[]);
            let total = e.bytes.len() as u64;
            if r.chance(1, 3) {
                let mix = faults::FaultMix::random(r);
                p.faults = vec![faults::one(r, &e, &mix), BFault::Words];
            } else {
                // Into the table itself.
                let at = total - r.below(len.min(total - 1) + 4).min(total);
                p.faults = vec![match r.below(4) {
                    0 => BFault::Flip {
                        bit: at * 8 + r.below(8),
                    },
                    1 => BFault::Set {
                        at,
                        v: r.below(256) as u8,
                    },
                    2 => BFault::Lost {
                        at,
                        len: r.range(1, 40),
                    },
                    _ => BFault::Misdirected {
                        src: r.below(total),
                        dst: at,
                        len: r.range(1, 30),
                    },
                }];
            }
        }
        let edge = |r: &mut Rng| -> u64 {
            match r.below(7) {
                0 => r.value(64),
                1 => u64::MAX - r.below(len + 3),
                2 => (1u64 << 63).wrapping_add(r.below(5)).wrapping_sub(2),
                3 if len > 60_000 && r.chance(2, 3) => len - r.below(900),
                3 => (len + r.below(4)).saturating_sub(2),
                4 => (1u64 << 32).wrapping_add(r.below(len + 2)),
                _ => r.below(len + 2),
            }
        };
        for _ in 0..r.range(4, 40) {
            let o = edge(r);
            let s = match r.below(5) {
                0 => edge(r),
                // Up to the end, and one beyond it.
                1 => len.wrapping_sub(o),
                2 => len.wrapping_sub(o).wrapping_add(1),
                // Wrapping around to inside the table.
                3 => r.below(len + 1).wrapping_sub(o),
                _ => r.range(1, 6),
            };
            p.refs.push((o, s));
        }
        p
    }
    fn exec(p: &Lookups, c: &mut Ctx) -> Result<(), Violation> {
        let e = emit(&p.stream(), &[]);
        let mut b = e.bytes;
        apply_faults(c, &mut b, &p.faults);
        let want = meaning(&b);
        let r = guard("mapping", || {
            Bitcode::try_from(&b[..]).map_err(|e| format!("{e:?}"))
        })?;
        let bc = match r {
            Err(x) => {
                c.trace.add(1);
                return judge(c, &want, &Err(x), "the file");
            }
            Ok(bc) => bc,
        };
        judge(c, &want, &Ok(observe(&bc)), "the file")?;
        let mut hits = 0;
        for (mi, m) in bc.modules.iter().enumerate() {
            let blob = m.strtab.as_ref().to_vec();
            c.trace.add_bytes(&blob);
            for (o, s) in &p.refs {
                c.steps += 1;
                // Either way to make a reference.
                let sref: llvm_support::StrtabRef = if (o ^ s) & 1 == 0 {
                    (*o as usize, *s as usize).into()
                } else {
                    (*o, *s).into()
                };
                let (got, tried) = guard("string table lookup", || {
                    (
                        m.strtab.get(&sref).map(String::from),
                        m.strtab
                            .try_get(&sref)
                            .map(String::from)
                            .map_err(|e| format!("{e:?}")),
                    )
                })?;
                let want: Option<&str> = (|| {
                    let end = o.checked_add(*s)?;
                    if end > blob.len() as u64 {
                        return None;
                    }
                    std::str::from_utf8(&blob[*o as usize..end as usize]).ok()
                })();
                if got != tried.as_ref().ok().cloned() {
                    return viol(
                        "get and try_get differ",
                        format!("module {mi}, {o}+{s}: {got:?} and {tried:?}"),
                    );
                }
                if *s == 0 {
                    continue;
                }
                if got.as_deref() != want {
                    return viol(
                        "wrong lookup",
                        format!("module {mi}: {o}+{s} in a table of {} bytes is {want:?}, looked up {got:?} ({tried:?})", blob.len()),
                    );
                }
                c.trace.add(got.is_some() as u64);
                if got.is_some() {
                    hits += 1;
                    c.probe("found");
                } else if o
                    .checked_add(*s)
                    .map(|e| e > blob.len() as u64)
                    .unwrap_or(true)
                {
                    c.probe("out_of_range");
                } else {
                    c.probe("not_utf8");
                }
            }
        }
        c.nontrivial = hits > 0;
        c.note = format!("{} lookups, {hits} found", c.steps);
        Ok(())
    }
    fn shrink(p: &Lookups) -> Vec<Lookups> {
        let mut out = vec![];
        for x in shrink::lists(&p.refs) {
            out.push(Lookups {
                refs: x,
                ..p.clone()
            });
        }
        for x in shrink::bfaults(&p.faults) {
            out.push(Lookups {
                faults: x,
                ..p.clone()
            });
        }
        if p.mods > 1 {
            out.push(Lookups {
                mods: 1,
                ..p.clone()
            });
        }
        if p.ops.is_some() {
            out.push(Lookups {
                ops: None,
                ..p.clone()
            });
        }
        for x in shrink::lists(&p.table) {
            if x.len() >= 2 {
                out.push(Lookups {
                    table: x,
                    ..p.clone()
                });
            }
        }
        for (i, (o, s)) in p.refs.iter().enumerate() {
            for v in shrink::value(*o) {
                let mut x = p.clone();
                x.refs[i].0 = v;
                out.push(x);
            }
            for v in shrink::value(*s) {
                let mut x = p.clone();
                x.refs[i].1 = v;
                out.push(x);
            }
        }
        out
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes modules sharing a random string table (text, multi-byte text, bytes; as blob, array or plain fields), damages it, maps it and looks up references inside, at the edges, beyond and wrapping around, against slices of the stored blob; non-trivial: at least one reference was found; distinct: by hash of the table and the outcomes",
            real: MAP_REAL,
            stub: MAP_STUB,
            time_unit: "lookups",
            assumptions: ASSUME,
        }
    }
}
