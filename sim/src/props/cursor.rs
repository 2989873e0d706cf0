//! C08: histories of cursor operations against a bit array.

use super::*;
use crate::rng::Rng;
use crate::seams;
use crate::shrink;
use llvm_bitcursor::BitCursor;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum COp {
    Read(u64),
    ReadAs(u8, u64),
    Exact(u8),
    Vbr(u64),
    Svbr(u64),
    Align,
    SeekBit(u64),
    Start(u64),
    EndSeek(i64),
    Cur(i64),
    Rewind,
    Tell,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CPlan {
    pub buf: Vec<u8>,
    /// Declared length; None: the whole buffer.
    pub len: Option<u64>,
    pub ops: Vec<COp>,
    pub log: bool,
    /// Instead of `buf`: a length, and what is not zero.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub big: Option<(u64, Vec<(u64, Vec<u8>)>)>,
}

/// A length at which some integer type or unit ends, and a bit more or less.
pub fn gen_far(r: &mut Rng) -> u64 {
    let b = *r.pick(&[16u32, 24, 28, 29, 30, 31, 32, 33]);
    (1u64 << b) + r.below(40) - 20
}

fn gen_big(r: &mut Rng) -> CPlan {
    let n = gen_far(r);
    let len = if r.chance(1, 2) {
        None
    } else {
        Some(if r.chance(1, 2) {
            n - r.below(20)
        } else {
            gen_far(r)
        })
    };
    let end = len.unwrap_or(n).min(n);
    let mut at = vec![0, n, end, 1 << 29, 1 << 28, 1 << 31, 1 << 32];
    at.retain(|a| *a <= n);
    let islands = (0..r.range(1, 5))
        .map(|_| {
            let a = r.pick(&at).saturating_sub(r.below(40));
            let k = r.range(8, 70) as usize;
            (a, r.bytes(k))
        })
        .collect::<Vec<_>>();
    let mut ops = gen_ops(r, end * 8);
    // Many of them where something is stored.
    let mut i = 0;
    while i < ops.len() {
        if r.chance(1, 4) {
            let a = r.pick(&islands).0;
            let bit = (a * 8 + r.below(600)).saturating_sub(40);
            let op = match r.below(4) {
                0 => COp::SeekBit(bit),
                1 => COp::Start(bit / 8),
                2 => COp::EndSeek((bit / 8) as i64 - end as i64),
                _ => COp::Cur((bit / 8) as i64 - (r.pick(&islands).0 as i64)),
            };
            ops.insert(i, op);
            i += 1;
        }
        i += 1;
    }
    CPlan {
        buf: vec![],
        len,
        ops,
        log: r.chance(1, 20),
        big: Some((n, islands)),
    }
}

/// The model: an array of bits and a position.
struct Model<'a> {
    b: &'a [u8],
    pos: u64,
}
impl Model<'_> {
    fn bits(&self) -> u64 {
        self.b.len() as u64 * 8
    }
    fn bit(&self, i: u64) -> u64 {
        (self.b[(i / 8) as usize] >> (i % 8) & 1) as u64
    }
    fn read(&mut self, n: u64) -> Option<u64> {
        if n == 0 || n >= 64 || self.pos + n > self.bits() {
            return None;
        }
        let mut v = 0;
        for i in 0..n {
            v |= self.bit(self.pos + i) << i;
        }
        self.pos += n;
        Some(v)
    }
    fn vbr(&mut self, w: u64) -> Option<u64> {
        if !(2..=32).contains(&w) {
            return None;
        }
        // Collect the data bits of all chunks, then see whether they fit.
        let mut v: u128 = 0;
        let mut sh = 0;
        loop {
            let c = self.read(w)?;
            let d = (c & ((1 << (w - 1)) - 1)) as u128;
            if sh >= 64 || (d << sh) >> 64 != 0 {
                return None;
            }
            v |= d << sh;
            if c >> (w - 1) == 0 {
                return Some(v as u64);
            }
            sh += w - 1;
        }
    }
}

fn typed(t: u8) -> (u64, u64) {
    // (width of the type, largest value)
    match t {
        0 => (8, u8::MAX as u64),
        1 => (16, u16::MAX as u64),
        2 => (32, u32::MAX as u64),
        3 => (64, u64::MAX),
        4 => (8, i8::MAX as u64),
        5 => (16, i16::MAX as u64),
        6 => (32, i32::MAX as u64),
        7 => (64, i64::MAX as u64),
        _ => (64, u64::MAX),
    }
}

fn read_as<T: AsRef<[u8]>>(c: &mut BitCursor<T>, t: u8, n: usize) -> Result<u64, String> {
    macro_rules! go {
        ($t:ty) => {
            c.read_as::<$t>(n)
                .map(|x| x as u64)
                .map_err(|e| format!("{e:?}"))
        };
    }
    match t {
        0 => go!(u8),
        1 => go!(u16),
        2 => go!(u32),
        3 => go!(u64),
        4 => go!(i8),
        5 => go!(i16),
        6 => go!(i32),
        7 => go!(i64),
        _ => go!(usize),
    }
}
fn exact<T: AsRef<[u8]>>(c: &mut BitCursor<T>, t: u8) -> Result<u64, String> {
    macro_rules! go {
        ($t:ty) => {
            c.read_exact::<$t>()
                .map(|x| x as u64)
                .map_err(|e| format!("{e:?}"))
        };
    }
    match t {
        0 => go!(u8),
        1 => go!(u16),
        2 => go!(u32),
        3 => go!(u64),
        4 => go!(i8),
        5 => go!(i16),
        6 => go!(i32),
        7 => go!(i64),
        _ => go!(usize),
    }
}

fn gen_pos(r: &mut Rng, bits: u64) -> u64 {
    match r.below(8) {
        0 => bits,
        1 => bits + r.below(130),
        2 => r.value(64),
        3 => bits.saturating_sub(r.below(70)),
        4 => (r.below(bits / 64 + 1) * 64 + r.below(5)).saturating_sub(2),
        _ => r.below(bits + 1),
    }
}

/// A history of operations on a cursor over that many bits.
pub fn gen_ops(r: &mut Rng, bits: u64) -> Vec<COp> {
    let k = match r.below(4) {
        0 => r.range(1, 5),
        1 | 2 => r.range(4, 30),
        _ => r.range(20, 80),
    };
    // Swarm: each run prefers some operations.
    let w: Vec<u32> = (0..12).map(|_| *r.pick(&[0u32, 1, 2, 5])).collect();
    let narrow = r.chance(1, 2);
    (0..k)
        .map(|_| match r.weighted(&w) {
            0 => COp::Read(match r.below(8) {
                0 => *r.pick(&[0, 64, 65, 128, u64::MAX]),
                1 => r.range(57, 63),
                2 => r.range(1, 63),
                _ if narrow => r.range(1, 8),
                _ => r.range(1, 40),
            }),
            1 => COp::ReadAs(r.below(9) as u8, r.range(1, 64)),
            2 => COp::Exact(r.below(9) as u8),
            3 => COp::Vbr(match r.below(8) {
                0 => *r.pick(&[0, 1, 33, 64, u64::MAX]),
                1 => 2,
                2 => 32,
                _ => r.range(2, 32),
            }),
            4 => COp::Svbr(r.range(2, 32)),
            5 => COp::Align,
            6 => COp::SeekBit(gen_pos(r, bits)),
            7 => COp::Start(match r.below(6) {
                0 => r.value(64),
                _ => gen_pos(r, bits) / 8,
            }),
            8 => COp::EndSeek(match r.below(6) {
                0 => r.value(64) as i64,
                1 => 0,
                2 => i64::MIN + r.below(2) as i64,
                _ => -(r.below(bits / 8 + 3) as i64),
            }),
            9 => COp::Cur(match r.below(6) {
                0 => r.value(64) as i64,
                1 => *r.pick(&[i64::MIN, i64::MAX, 0]),
                2 => -(r.below(bits / 8 + 2) as i64),
                _ => r.range(0, 20) as i64 - 10,
            }),
            10 => COp::Rewind,
            _ => COp::Tell,
        })
        .collect()
}

/// Do an operation: its value, or that it failed.
pub fn act<T: AsRef<[u8]>>(k: &mut BitCursor<T>, op: &COp) -> Result<u64, ()> {
    fn no<E>(_: E) {}
    match op {
        COp::Read(n) => k.read(*n as usize).map_err(no),
        COp::ReadAs(t, n) => read_as(k, *t, *n as usize).map_err(no),
        COp::Exact(t) => exact(k, *t).map_err(no),
        COp::Vbr(w) => k.read_vbr(*w as usize).map_err(no),
        COp::Svbr(w) => k.read_svbr(*w as usize).map(|x| x as u64).map_err(no),
        COp::Align => {
            k.align32();
            Ok(0)
        }
        COp::SeekBit(n) => k.seek_bit(*n as usize).map(|_| 0).map_err(no),
        COp::Start(n) => k.seek(SeekFrom::Start(*n)).map_err(no),
        COp::EndSeek(n) => k.seek(SeekFrom::End(*n)).map_err(no),
        COp::Cur(n) => k.seek(SeekFrom::Current(*n)).map_err(no),
        COp::Rewind => k.rewind().map(|_| 0).map_err(no),
        COp::Tell => k.stream_position().map_err(no),
    }
}

pub struct C08;
impl Prop for C08 {
    const ID: &'static str = "C08";
    type Plan = CPlan;
    const RUNS: (u64, u64) = (8000_000, 200000_000);
    fn gen(r: &mut Rng, _: u64) -> CPlan {
        if r.chance(1, 200) {
            return gen_big(r);
        }
        let n = match r.below(6) {
            0 => r.below(5),
            1 => r.range(5, 12),
            2 => 8 * r.range(1, 6),
            3 => 4 * r.range(1, 12),
            _ => r.range(1, 80),
        };
        let mut buf = r.bytes(n as usize);
        // VBR continuation bits make long or short chains: vary their density.
        match r.below(5) {
            0 => buf.iter_mut().for_each(|b| *b |= 0x88),
            1 => buf.iter_mut().for_each(|b| *b &= 0x77),
            2 => {
                for b in buf.iter_mut() {
                    if r.chance(1, 3) {
                        *b = *r.pick(&[0, 0xff, 1, 0x80])
                    }
                }
            }
            3 => {
                // Runs of ones and zeroes.
                let mut x = 0u8;
                for b in buf.iter_mut() {
                    if r.chance(1, 4) {
                        x = *r.pick(&[0, 0xff, 0xaa]);
                    }
                    *b = x;
                }
            }
            _ => {}
        }
        let len = if r.chance(1, 2) {
            None
        } else {
            Some(if r.chance(1, 12) {
                n + r.range(1, 10)
            } else {
                r.below(n + 1)
            })
        };
        let bits = len.unwrap_or(n).min(n) * 8;
        let ops = gen_ops(r, bits);
        CPlan {
            buf,
            len,
            ops,
            log: r.chance(1, 20),
            big: None,
        }
    }
    fn exec(p: &CPlan, c: &mut Ctx) -> Result<(), Violation> {
        seams::set_log(p.log);
        let r = run(p, c);
        seams::set_log(false);
        r
    }
    fn shrink(p: &CPlan) -> Vec<CPlan> {
        let mut out = vec![];
        for ops in shrink::lists(&p.ops) {
            out.push(CPlan { ops, ..p.clone() });
        }
        if p.len.is_some() {
            out.push(CPlan {
                len: None,
                ..p.clone()
            });
        }
        if let Some((n, is)) = &p.big {
            for is in shrink::lists(is) {
                out.push(CPlan {
                    big: Some((*n, is)),
                    ..p.clone()
                });
            }
        }
        if p.buf.len() > 0 {
            out.push(CPlan {
                buf: p.buf[..p.buf.len() - 1].to_vec(),
                ..p.clone()
            });
            out.push(CPlan {
                buf: p.buf[..p.buf.len() / 2].to_vec(),
                ..p.clone()
            });
            for i in 0..p.buf.len() {
                if p.buf[i] != 0 {
                    let mut b = p.buf.clone();
                    b[i] = 0;
                    out.push(CPlan {
                        buf: b,
                        ..p.clone()
                    });
                }
            }
        }
        if p.log {
            out.push(CPlan {
                log: false,
                ..p.clone()
            });
        }
        out
    }
    fn meta() -> Meta {
        Meta {
            rule: "a run draws a buffer, a declared length and a history of cursor operations (many at 64-bit and end-of-data edges) and compares each result and position with a bit-array model; non-trivial: at least 3 reads returned values; distinct: by hash of all results",
            real: &["llvm-bitcursor (all of it)"],
            stub: &["the caller: seeded histories of operations", "end of data: declared lengths and short buffers", "logger"],
            time_unit: "cursor operations",
            assumptions: &["a clean batch of seeded runs is evidence, not proof", "read_svbr of the encodings 1 (negative zero) and of magnitudes beyond 63 bits is only required to return without panic"],
        }
    }
}

fn run(p: &CPlan, c: &mut Ctx) -> Result<(), Violation> {
    let sparse;
    let buf: &[u8] = match &p.big {
        None => &p.buf,
        Some((n, islands)) => {
            sparse = seams::Sparse::new(*n as usize, islands);
            match &sparse {
                None => {
                    c.probe("no room for a large buffer");
                    return Ok(());
                }
                Some(s) => {
                    c.probe("large buffers");
                    s.as_ref()
                }
            }
        }
    };
    let made = guard("creating a cursor", || match p.len {
        None => Ok(BitCursor::new(buf)),
        Some(l) => BitCursor::new_with_len(buf, l as usize),
    })?;
    let n = match p.len {
        None => buf.len(),
        Some(l) => l as usize,
    };
    let mut cur = match made {
        Err(_) => {
            c.probe("declared_length_too_large");
            if n <= buf.len() {
                return viol(
                    "refused",
                    format!("declared length {n} of {} was refused", buf.len()),
                );
            }
            return Ok(());
        }
        Ok(x) => x,
    };
    if n > buf.len() {
        return viol(
            "accepted",
            format!("declared length {n} of {} was accepted", buf.len()),
        );
    }
    if n < buf.len() {
        c.fault("short_window");
    }
    let mut m = Model {
        b: &buf[..n],
        pos: 0,
    };
    let mut values = 0;
    for (i, op) in p.ops.iter().enumerate() {
        c.steps += 1;
        let before = m.pos;
        // Some(Some(v)): must return v; Some(None): must fail; None: must only return.
        let mut want: Option<Option<u64>>;
        let mut strict_pos = false;
        let got: Result<u64, String> = match op {
            COp::Read(k) => {
                want = Some(m.read(*k));
                guard("read", || {
                    cur.read(*k as usize).map_err(|e| format!("{e:?}"))
                })?
            }
            COp::ReadAs(t, k) => {
                let v = m.read(*k);
                want = Some(v.filter(|v| *v <= typed(*t).1));
                guard("read_as", || read_as(&mut cur, *t, *k as usize))?
            }
            COp::Exact(t) => {
                let v = m.read(typed(*t).0);
                want = Some(v.filter(|v| *v <= typed(*t).1));
                guard("read_exact", || exact(&mut cur, *t))?
            }
            COp::Vbr(w) => {
                want = Some(m.vbr(*w));
                guard("read_vbr", || {
                    cur.read_vbr(*w as usize).map_err(|e| format!("{e:?}"))
                })?
            }
            COp::Svbr(w) => {
                let v = m.vbr(*w);
                want = match v {
                    None => Some(None),
                    // Negative zero stands for the smallest integer; readers differ.
                    Some(1) => None,
                    Some(v) => {
                        let mag = (v >> 1) as i64;
                        Some(Some(if v & 1 == 1 { -mag } else { mag } as u64))
                    }
                };
                guard("read_svbr", || {
                    cur.read_svbr(*w as usize)
                        .map(|x| x as i64 as u64)
                        .map_err(|e| format!("{e:?}"))
                })?
            }
            COp::Align => {
                m.pos = (m.pos.div_ceil(32) * 32).min(m.bits());
                want = Some(Some(0));
                guard("align32", || {
                    cur.align32();
                    Ok(0)
                })?
            }
            COp::SeekBit(b) => {
                want = Some(if *b <= m.bits() {
                    m.pos = *b;
                    Some(0)
                } else {
                    None
                });
                guard("seek_bit", || {
                    cur.seek_bit(*b as usize)
                        .map(|_| 0)
                        .map_err(|e| format!("{e:?}"))
                })?
            }
            COp::Start(b) => {
                strict_pos = true;
                want = Some(seek_model(&mut m, Some(*b as i128)));
                guard("seek", || {
                    cur.seek(SeekFrom::Start(*b)).map_err(|e| format!("{e:?}"))
                })?
            }
            COp::EndSeek(b) => {
                strict_pos = true;
                // A seek to the end itself may be refused or not.
                let t = n as i128 + *b as i128;
                if *b == 0 {
                    want = None;
                } else {
                    want = Some(seek_model(&mut m, Some(t)));
                }
                guard("seek", || {
                    cur.seek(SeekFrom::End(*b)).map_err(|e| format!("{e:?}"))
                })?
            }
            COp::Cur(b) => {
                strict_pos = true;
                let t = (m.pos / 8) as i128 + *b as i128;
                want = Some(seek_model(&mut m, Some(t)));
                guard("seek", || {
                    cur.seek(SeekFrom::Current(*b))
                        .map_err(|e| format!("{e:?}"))
                })?
            }
            COp::Rewind => {
                m.pos = 0;
                want = Some(Some(0));
                guard("rewind", || {
                    cur.rewind().map(|_| 0).map_err(|e| format!("{e:?}"))
                })?
            }
            COp::Tell => {
                want = Some(Some(m.pos / 8));
                guard("stream_position", || {
                    cur.stream_position().map_err(|e| format!("{e:?}"))
                })?
            }
        };
        let pos = guard("tell_bit", || cur.tell_bit())? as u64;
        match (&want, &got) {
            (Some(Some(w)), Ok(g)) if w == g => {
                c.trace.add(*g);
                if matches!(
                    op,
                    COp::Read(_) | COp::ReadAs(..) | COp::Exact(_) | COp::Vbr(_) | COp::Svbr(_)
                ) {
                    values += 1;
                }
            }
            (Some(None), Err(_)) => {
                c.trace.add(77);
                c.probe("failed_operations");
                if matches!(
                    op,
                    COp::Read(_) | COp::ReadAs(..) | COp::Exact(_) | COp::Vbr(_) | COp::Svbr(_)
                ) && before < m.bits()
                {
                    c.fault("end_of_data_inside_operation");
                }
                if strict_pos && pos != before {
                    return viol("moved", format!("operation {i} {op:?} failed, but moved the position from bit {before} to {pos}"));
                }
                if pos > m.bits() {
                    return viol(
                        "outside",
                        format!(
                            "operation {i} {op:?} failed and left the position at bit {pos} of {}",
                            m.bits()
                        ),
                    );
                }
                m.pos = pos;
            }
            (None, g) => {
                if let (COp::EndSeek(0), Ok(v)) = (op, g) {
                    if *v != n as u64 {
                        return viol(
                            "wrong result",
                            format!("operation {i} {op:?} returned {v}, the end is {n}"),
                        );
                    }
                }
                if pos > m.bits() {
                    return viol(
                        "outside",
                        format!(
                            "operation {i} {op:?} left the position at bit {pos} of {}",
                            m.bits()
                        ),
                    );
                }
                m.pos = pos;
            }
            (Some(Some(w)), g) => {
                return viol("wrong result", format!("operation {i} {op:?} at bit {before} of {}: the model says {w:#x}, got {g:x?}", m.bits()));
            }
            (Some(None), Ok(g)) => {
                return viol("accepted", format!("operation {i} {op:?} at bit {before} of {} cannot succeed, but returned {g:#x}", m.bits()));
            }
        }
        want = None;
        let _ = want;
        let (tb, ex, bl, bil) = guard("queries", || {
            (
                cur.tell_byte() as u64,
                cur.exhausted(),
                cur.byte_len(),
                cur.bit_len(),
            )
        })?;
        if pos != m.pos || tb != m.pos / 8 {
            return viol("wrong position", format!("after operation {i} {op:?} from bit {before}: the model is at bit {}, the cursor at bit {pos}, byte {tb}", m.pos));
        }
        if ex != (m.pos == m.bits()) {
            return viol(
                "exhausted",
                format!(
                    "after operation {i} {op:?}: at bit {} of {}, exhausted() is {ex}",
                    m.pos,
                    m.bits()
                ),
            );
        }
        if bl != n || bil != n * 8 {
            return viol(
                "length",
                format!("byte_len {bl}, bit_len {bil}, declared {n} bytes"),
            );
        }
        c.trace.add(pos);
    }
    if values >= 3 {
        c.nontrivial = true;
    }
    c.note = format!(
        "{} operations, {values} values read, end at bit {} of {}",
        p.ops.len(),
        m.pos,
        m.bits()
    );
    Ok(())
}

fn seek_model(m: &mut Model, t: Option<i128>) -> Option<u64> {
    let t = t?;
    if t < 0 || t > m.b.len() as i128 {
        return None;
    }
    m.pos = t as u64 * 8;
    Some(t as u64)
}
