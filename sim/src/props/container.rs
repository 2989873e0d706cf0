//! C10: bytes outside of the declared window.

use super::cursor::{act, gen_ops, COp};
use super::mapping::{self, explodes, map_bytes};
use super::stream::{history, Damaged, History};
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::seams::Disk;
use serde::{Deserialize, Serialize};

/// What lies around the window.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Around {
    /// How the bytes before and after the window are made, see `fill`.
    pub before: u8,
    pub after: u8,
    pub seed: u64,
    pub tail: u32,
    pub version: u32,
    pub cpu: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub d: Damaged,
    /// Words between header and window.
    pub pad: u32,
    /// The window holds the first `cut` words of the stream (modulo their number + 1).
    pub cut: Option<u32>,
    pub a: Around,
    pub b: Around,
    /// Bytes of the container that survive (modulo its length + 1).
    pub torn: Option<u64>,
    /// Bytes by which the header claims more than is there.
    pub over: Option<(bool, u32)>,
    pub map: bool,
    /// Positions of a cursor over a declared length: (words declared, reads).
    pub reads: Vec<u16>,
    /// A history of a cursor over a declared length.
    pub ops: Vec<COp>,
    /// The window lies that many words into a large file, with that many bytes behind it.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub far: Option<(u32, u64)>,
}

fn far(r: &mut Rng) -> Option<(u32, u64)> {
    if r.chance(1, 50) {
        let w = (super::cursor::gen_far(r).min(u32::MAX as u64) / 4) as u32;
        let tail = match r.below(3) {
            0 => 0,
            1 => r.below(64),
            _ => super::cursor::gen_far(r),
        };
        Some((w, tail))
    } else {
        None
    }
}

/// Bytes outside of the window. `rest` is what the writer stored after the window's end.
fn fill(kind: u8, r: &mut Rng, n: usize, rest: &[u8], whole: &[u8]) -> Vec<u8> {
    let cycle = |x: &[u8]| -> Vec<u8> {
        if x.is_empty() {
            vec![0; n]
        } else {
            x.iter().copied().cycle().take(n).collect()
        }
    };
    match kind % 6 {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => r.bytes(n),
        // What would be read next if the end were missed.
        3 => cycle(rest),
        4 => cycle(whole),
        _ => {
            // A tidy continuation: block ends.
            let w = r.range(2, 8);
            cycle(&(1u64 << w << 32).to_le_bytes())
        }
    }
}

fn around(r: &mut Rng) -> Around {
    Around {
        before: r.below(6) as u8,
        after: r.below(6) as u8,
        seed: r.u64(),
        tail: r.count(40) as u32 * if r.chance(1, 2) { 4 } else { 1 },
        version: r.value(32) as u32,
        cpu: r.value(32) as u32,
    }
}

impl Plan {
    fn window(&self, c: &mut Ctx) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
        let b = self.d.bytes(c);
        let (w, rest) = match self.cut {
            Some(k) => {
                let n = (k as usize % (b.len() / 4 + 1)) * 4;
                if n < b.len() {
                    c.fault("window_shorter_than_the_stream");
                }
                (b[..n].to_vec(), b[n..].to_vec())
            }
            None => (b.clone(), vec![]),
        };
        (b, w, rest)
    }
}

fn container(
    p: &Plan,
    ar: &Around,
    whole: &[u8],
    win: &[u8],
    rest: &[u8],
    size: u32,
    offset: u32,
) -> Vec<u8> {
    let mut r = Rng::new(ar.seed);
    let pad = fill(ar.before, &mut r, p.pad as usize * 4, win, whole);
    let mut x = wrap(win, offset, size, ar.version, ar.cpu, &pad);
    let tail = if ar.after % 6 == 3 {
        rest.len().max(ar.tail as usize)
    } else {
        ar.tail as usize
    };
    x.extend(fill(ar.after, &mut r, tail, rest, whole));
    x
}

type Opened<'a> = Result<(u32, Option<[u32; 5]>, History), String>;

fn run(bytes: &[u8], wrapped: bool, iter: bool, max: u64) -> Result<Opened<'static>, Violation> {
    let d = Disk::new(bytes.to_vec()).with_budget(64 * bytes.len() as u64 + 16384);
    let o = guard("opening", || {
        if wrapped {
            Bitstream::from_wrapped(&d).map(|(w, b)| (Some(w), b))
        } else {
            Bitstream::from(&d)
        }
        .map_err(|e| format!("{e:?}"))
    })?;
    Ok(match o {
        Err(e) => Err(e),
        Ok((w, mut b)) => {
            let w = w.map(|w| [w.magic, w.version, w.offset, w.size, w.cpu_type]);
            let magic = b.magic;
            let h = history(&mut b, max, iter)?;
            Ok((magic, w, h))
        }
    })
}

fn differ(a: &[Ev], b: &[Ev], kinds_only: bool) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        let same = match (x, y) {
            (Some(Ev::Err(p)), Some(Ev::Err(q))) => kinds_only || p == q,
            (x, y) => x == y,
        };
        if !same {
            let s = |e: Option<&Ev>| match e {
                None => "nothing".to_string(),
                Some(Ev::Entry(e)) => short(e),
                Some(e) => format!("{e:?}"),
            };
            return Some(format!("entry {i}: {} against {}", s(x), s(y)));
        }
    }
    None
}
fn to_first_error(e: &[Ev]) -> &[Ev] {
    let n = e
        .iter()
        .position(|e| matches!(e, Ev::Err(_)))
        .map(|i| i + 1)
        .unwrap_or(e.len());
    &e[..n]
}

pub struct C10;
impl Prop for C10 {
    const ID: &'static str = "C10";
    type Plan = Plan;
    const RUNS: (u64, u64) = (300_000, 20000_000);
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let map = r.chance(1, 3);
        let s = if map {
            mapping::gen_stream(r)
        } else {
            let mut cfg = gen::StreamCfg::random(r);
            cfg.max_items = cfg.max_items.min(80);
            gen::stream_cfg(r, cfg)
        };
        let mut d = super::stream::damage(r, s, false);
        d.wrap = None;
        if r.chance(1, 2) {
            d.claims.clear();
            d.faults.clear();
        }
        Plan {
            d,
            pad: r.count(9) as u32,
            cut: if r.chance(1, 2) {
                Some(r.u64() as u32)
            } else {
                None
            },
            a: around(r),
            b: around(r),
            torn: if r.chance(1, 4) { Some(r.u64()) } else { None },
            over: if r.chance(1, 6) {
                Some((
                    r.chance(1, 2),
                    *r.pick(&[4, 4, 8, 32, 1 << 20, 0x7fff_fff0, u32::MAX - 3]),
                ))
            } else {
                None
            },
            map,
            reads: (0..r.below(12)).map(|_| r.range(1, 64) as u16).collect(),
            ops: if r.chance(1, 2) {
                let k = r.below(10);
                let bits = r.range(1, 1 << k) * 32;
                gen_ops(r, bits)
            } else {
                vec![]
            },
            far: far(r),
        }
    }
    fn exec(p: &Plan, c: &mut Ctx) -> Result<(), Violation> {
        let (whole, win, rest) = p.window(c);
        let off = 20 + p.pad * 4;
        let size = win.len() as u32;
        let a = container(p, &p.a, &whole, &win, &rest, size, off);
        let b = container(p, &p.b, &whole, &win, &rest, size, off);
        if a != b {
            c.fault("different_surroundings");
        }
        let max = 8 * a.len().max(b.len()) as u64 + 256;
        // The window alone.
        let alone = {
            // Not through `from`: a window that looks like a container would be opened as one.
            let d = Disk::new(win.clone());
            let o = guard("opening", || {
                Bitstream::from_raw(&d).map_err(|e| format!("{e:?}"))
            })?;
            match o {
                Err(e) => Err(e),
                Ok(mut bs) => {
                    let m = bs.magic;
                    Ok((m, history(&mut bs, max, false)?))
                }
            }
        };
        let ha = run(&a, false, p.d.iter, max)?;
        let hb = run(&b, true, false, max)?;
        c.steps += 3;
        let header = |ar: &Around| [0x0b17c0de, ar.version, off, size, ar.cpu];
        match (&alone, &ha, &hb) {
            (Err(_), Err(_), Err(_)) => c.probe("window_refused"),
            (Ok(_), Err(e), _) | (Ok(_), _, Err(e)) => {
                return viol(
                    "refused",
                    format!("a window of {size} bytes at {off} is refused: {e}; alone it is not"),
                )
            }
            (Err(e), ..) => {
                return viol(
                    "accepted",
                    format!(
                        "a window of {size} bytes at {off} is accepted; alone it is refused: {e}"
                    ),
                )
            }
            (Ok((m, h)), Ok((ma, wa, ha)), Ok((mb, wb, hb))) => {
                if *wa != Some(header(&p.a)) || *wb != Some(header(&p.b)) {
                    return viol(
                        "header",
                        format!(
                            "header fields {wa:?} or {wb:?}, stored {:?} and {:?}",
                            header(&p.a),
                            header(&p.b)
                        ),
                    );
                }
                if m != ma || m != mb {
                    return viol(
                        "magic",
                        format!("magic {ma:#x} and {mb:#x} in containers, {m:#x} alone"),
                    );
                }
                if let Some(d) = differ(&ha.evs, &hb.evs, false) {
                    return viol(
                        "outside bytes",
                        format!("two containers that differ only outside of the window: {d}"),
                    );
                }
                if let Some(d) = differ(to_first_error(&ha.evs), to_first_error(&h.evs), true) {
                    return viol("not the window", format!("in the container and alone: {d}"));
                }
                for e in &ha.evs {
                    trace_ev(c, e);
                }
                c.steps += (ha.evs.len() + hb.evs.len() + h.evs.len()) as u64;
                c.nontrivial = ha.evs.len() > 3;
                c.note = format!(
                    "window of {size} bytes at {off} in {} and {}: {} events",
                    a.len(),
                    b.len(),
                    ha.evs.len()
                );
            }
        }
        // Mapping.
        if p.map && !explodes(&win) && win.get(..4) != Some(&0x0b17c0deu32.to_le_bytes()[..]) {
            let m = map_bytes(&win)?;
            for x in [&a, &b] {
                let g = map_bytes(x)?;
                match (&m, &g) {
                    (Ok(m), Ok(g)) => {
                        c.probe("mapped");
                        if let Some(d) = mapping::difference(m, g) {
                            return viol("mapping", format!("in a container and alone: {d}"));
                        }
                    }
                    (Err(_), Err(_)) => c.probe("mapping_refused"),
                    (x, y) => {
                        return viol(
                            "mapping",
                            format!(
                                "mapped alone: {:?}, in a container: {:?}",
                                x.as_ref().map(|m| m.len()),
                                y.as_ref().map(|m| m.len())
                            ),
                        )
                    }
                }
            }
        }
        // The same window far into a large file.
        if let Some((words, tail)) = p.far {
            let off = words * 4;
            let mut isl = vec![(
                0u64,
                wrap(&[], off, size, p.a.version, p.a.cpu, &[])[..20].to_vec(),
            )];
            let mut r = Rng::new(p.a.seed);
            let before = fill(p.a.before, &mut r, 64.min(off as usize - 20), &win, &whole);
            isl.push((off as u64 - before.len() as u64, before));
            isl.push((off as u64, win.clone()));
            let n = off as u64 + win.len() as u64;
            isl.push((
                n,
                fill(p.a.after, &mut r, tail.min(64) as usize, &rest, &whole),
            ));
            match crate::seams::Sparse::new((n + tail) as usize, &isl) {
                None => c.probe("no room for a large file"),
                Some(x) => {
                    c.probe("windows in large files");
                    let o = guard("opening", || {
                        Bitstream::from(&x).map_err(|e| format!("{e:?}"))
                    })?;
                    match (&alone, o) {
                        (Ok((m, h)), Ok((_, mut bs))) => {
                            let g = history(&mut bs, max, p.d.iter)?;
                            if *m != bs.magic {
                                return viol("magic", format!("magic {:#x} at {off}, {m:#x} alone", bs.magic));
                            }
                            if let Some(d) =
                                differ(to_first_error(&g.evs), to_first_error(&h.evs), true)
                            {
                                return viol("not the window", format!("in a container at {off} and alone: {d}"));
                            }
                            c.steps += g.evs.len() as u64;
                        }
                        (Err(_), Err(_)) => {}
                        (Ok(_), Err(e)) => {
                            return viol("refused", format!("a window of {size} bytes at {off}, {tail} bytes before the end of the file, is refused: {e}; alone it is not"))
                        }
                        (Err(e), Ok(_)) => {
                            return viol("accepted", format!("a window of {size} bytes at {off} is accepted; alone it is refused: {e}"))
                        }
                    }
                    if p.map
                        && !explodes(&win)
                        && win.get(..4) != Some(&0x0b17c0deu32.to_le_bytes()[..])
                    {
                        match (map_bytes(&win)?, map_bytes(x.as_ref())?) {
                            (Ok(m), Ok(g)) => {
                                if let Some(d) = mapping::difference(&m, &g) {
                                    return viol(
                                        "mapping",
                                        format!("in a container at {off} and alone: {d}"),
                                    );
                                }
                            }
                            (Err(_), Err(_)) => {}
                            (x, y) => {
                                return viol(
                                    "mapping",
                                    format!(
                                        "mapped alone: {:?}, in a container at {off}: {:?}",
                                        x.map(|m| m.len()),
                                        y.map(|m| m.len())
                                    ),
                                )
                            }
                        }
                    }
                }
            }
        }
        // A torn container.
        if let Some(t) = p.torn {
            let t = (t % (a.len() as u64 + 1)) as usize;
            c.fault("torn_container");
            let h = run(&a[..t], true, false, max)?;
            if t < (off + size) as usize {
                if h.is_ok() {
                    return viol(
                        "torn",
                        format!("a window {off}+{size} is accepted in a container of {t} bytes"),
                    );
                }
                // `from` may see another kind of stream only if the magic itself is torn.
                if t >= 4 && run(&a[..t], false, false, max)?.is_ok() {
                    return viol(
                        "torn",
                        format!("a window {off}+{size} is accepted in a container of {t} bytes"),
                    );
                }
                c.probe("torn_container_refused");
            } else if let (Ok((_, _, x)), Ok((_, _, y))) = (&h, &ha) {
                if let Some(d) = differ(&x.evs, &y.evs, false) {
                    return viol(
                        "outside bytes",
                        format!("the bytes after the window were torn off: {d}"),
                    );
                }
            } else if h.is_ok() != ha.is_ok() {
                return viol(
                    "torn",
                    "the bytes after the window were torn off: other verdict".into(),
                );
            }
        }
        // A window that claims more than is stored.
        if let Some((at_offset, by)) = p.over {
            c.fault("window_beyond_storage");
            let by = by.max(4);
            let spare = (a.len() as u32).saturating_sub(off + size);
            let by = by.saturating_add(spare + 3 & !3).max(by) & !3;
            let (o2, s2) = if at_offset {
                (off.saturating_add(by), size)
            } else {
                (off, size.saturating_add(by))
            };
            let mut x = a.clone();
            x[8..12].copy_from_slice(&o2.to_le_bytes());
            x[12..16].copy_from_slice(&s2.to_le_bytes());
            if o2 as u64 + s2 as u64 > x.len() as u64 {
                for w in [false, true] {
                    if run(&x, w, false, max)?.is_ok() {
                        return viol(
                            "beyond",
                            format!(
                                "a window {o2}+{s2} is accepted in a container of {} bytes",
                                x.len()
                            ),
                        );
                    }
                }
            }
        }
        // A cursor with a declared length: the same reads over two buffers that agree up to it.
        {
            use llvm_bitcursor::BitCursor;
            let len = win.len();
            let mut xa = win.clone();
            xa.extend(fill(
                p.a.after,
                &mut Rng::new(p.a.seed),
                p.a.tail as usize,
                &rest,
                &whole,
            ));
            let mut xb = win.clone();
            xb.extend(fill(
                p.b.after,
                &mut Rng::new(p.b.seed),
                p.b.tail as usize,
                &rest,
                &whole,
            ));
            let r = guard("cursor", || -> Option<String> {
                let mut ca = BitCursor::new_with_len(&xa, len).ok()?;
                let mut cb = BitCursor::new_with_len(&xb, len).ok()?;
                let mut cw = BitCursor::new(&win);
                if p.reads.is_empty() {
                    return None;
                }
                let widths: Vec<usize> = p.reads.iter().map(|w| *w as usize).collect();
                let mut i = 0;
                let mut left = len * 8;
                loop {
                    let w = widths[i % widths.len()];
                    let x = ca.read(w).map_err(|e| format!("{e:?}"));
                    let y = cb.read(w).map_err(|e| format!("{e:?}"));
                    let z = cw.read(w).map_err(|e| format!("{e:?}"));
                    if x != y || x.as_ref().ok() != z.as_ref().ok() {
                        return Some(format!("read({w}) number {i} of a cursor declared to end at byte {len}: {x:?}, with other bytes behind the end {y:?}, over these bytes alone {z:?}"));
                    }
                    if x.is_ok() && w > left {
                        return Some(format!(
                            "read({w}) number {i} succeeded with {left} bits left"
                        ));
                    }
                    if ca.tell_bit() != cb.tell_bit() || ca.tell_bit() > len * 8 {
                        return Some(format!(
                            "after read({w}) number {i}: positions {} and {} of {}",
                            ca.tell_bit(),
                            cb.tell_bit(),
                            len * 8
                        ));
                    }
                    if x.is_err() {
                        return None;
                    }
                    left -= w;
                    i += 1;
                }
            })?;
            if let Some(d) = r {
                return viol("cursor", d);
            }
            let r = guard("cursor", || -> Option<String> {
                let mut ca = BitCursor::new_with_len(&xa, len).ok()?;
                let mut cb = BitCursor::new_with_len(&xb, len).ok()?;
                let mut cw = BitCursor::new(&win);
                for (i, op) in p.ops.iter().enumerate() {
                    let all = [
                        (act(&mut ca, op), ca.tell_bit(), ca.exhausted()),
                        (act(&mut cb, op), cb.tell_bit(), cb.exhausted()),
                        (act(&mut cw, op), cw.tell_bit(), cw.exhausted()),
                    ];
                    if all[0] != all[1] || all[0] != all[2] || all[0].1 > len * 8 {
                        return Some(format!("operation {i}, {op:?}, of a cursor declared to end at byte {len}: (result, position, at the end) are {:?}, with other bytes behind the end {:?}, over these bytes alone {:?}", all[0], all[1], all[2]));
                    }
                }
                None
            })?;
            if let Some(d) = r {
                return viol("cursor", d);
            }
        }
        Ok(())
    }
    fn shrink(p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        if p.torn.is_some() {
            out.push(Plan {
                torn: None,
                ..p.clone()
            });
        }
        if p.over.is_some() {
            out.push(Plan {
                over: None,
                ..p.clone()
            });
        }
        if p.map {
            out.push(Plan {
                map: false,
                ..p.clone()
            });
        }
        if let Some((w, t)) = p.far {
            out.push(Plan {
                far: None,
                ..p.clone()
            });
            for v in crate::shrink::value(w as u64) {
                if v >= 5 {
                    out.push(Plan {
                        far: Some((v as u32, t)),
                        ..p.clone()
                    });
                }
            }
            for v in crate::shrink::value(t) {
                out.push(Plan {
                    far: Some((w, v)),
                    ..p.clone()
                });
            }
        }
        if p.cut.is_some() {
            out.push(Plan {
                cut: None,
                ..p.clone()
            });
            let n = (p.cut.unwrap() as usize % (p.d.bytes(&mut Ctx::new()).len() / 4 + 1)) as u64;
            for v in crate::shrink::value(n) {
                out.push(Plan {
                    cut: Some(v as u32),
                    ..p.clone()
                });
            }
        }
        if !p.reads.is_empty() {
            out.push(Plan {
                reads: vec![],
                ..p.clone()
            });
        }
        for ops in crate::shrink::lists(&p.ops) {
            out.push(Plan { ops, ..p.clone() });
        }
        for v in crate::shrink::value(p.pad as u64) {
            out.push(Plan {
                pad: v as u32,
                ..p.clone()
            });
        }
        for v in crate::shrink::value(p.a.tail as u64) {
            let mut q = p.clone();
            q.a.tail = v as u32;
            out.push(q);
        }
        for v in crate::shrink::value(p.b.tail as u64) {
            let mut q = p.clone();
            q.b.tail = v as u32;
            out.push(q);
        }
        for d in p.d.shrink() {
            out.push(Plan { d, ..p.clone() });
        }
        out
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run writes a stream or file (half of them damaged), takes all or the first words of it as the window of two wrapper containers with different bytes before and behind it (zeros, ones, noise, the writer's own continuation, block ends), different version and CPU fields and lengths, decodes both past all errors and the window alone, maps them, tears the container, and lets the window claim more than is stored; non-trivial: more than 3 events; distinct: by hash of the decoded history",
            real: &["llvm-bitcursor", "llvm-bitstream", "llvm-support", "llvm-mapper"],
            stub: &["storage: simulated disk", "writer and container: the harness's own emitter", "logger", "hash seeds"],
            time_unit: "entries requested",
            assumptions: &["a clean batch of seeded runs is evidence, not proof", "offsets that are not a multiple of 4, or lie inside the header, are not decided"],
        }
    }
}
