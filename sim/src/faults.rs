//! Storage faults: what a disk, a crash or a bad copy can do to stored bytes.

use crate::rng::Rng;
use crate::writer::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BFault {
    /// Only the first bytes survive.
    Torn { at: u64 },
    /// One bit flips.
    Flip { bit: u64 },
    /// One byte changes.
    Set { at: u64, v: u8 },
    /// A range was never written (zeroes).
    Lost { at: u64, len: u64 },
    /// A range reads as ones (erased flash).
    Erased { at: u64, len: u64 },
    /// A range holds other data of the same file (misdirected or stale write).
    Misdirected { src: u64, dst: u64, len: u64 },
    /// A range is stored twice.
    Dup { at: u64, len: u64 },
    /// A range is missing; the rest moves up.
    Gone { at: u64, len: u64 },
    /// Two ranges change places (reordered writes).
    Swap { a: u64, b: u64, len: u64 },
    /// Bits slip: some are inserted...
    SlipIn { bit: u64, n: u8, v: u64 },
    /// ...or lost.
    SlipOut { bit: u64, n: u8 },
    /// Something follows the file.
    Trailing { len: u64, seed: u64 },
    /// The file is padded or cut to whole words (as block devices do).
    Words,
}

impl BFault {
    pub fn name(&self) -> &'static str {
        match self {
            BFault::Torn { .. } => "torn_write",
            BFault::Flip { .. } => "bit_flip",
            BFault::Set { .. } => "byte_change",
            BFault::Lost { .. } => "lost_range",
            BFault::Erased { .. } => "erased_range",
            BFault::Misdirected { .. } => "misdirected_write",
            BFault::Dup { .. } => "duplicated_range",
            BFault::Gone { .. } => "missing_range",
            BFault::Swap { .. } => "reordered_writes",
            BFault::SlipIn { .. } => "bits_inserted",
            BFault::SlipOut { .. } => "bits_lost",
            BFault::Trailing { .. } => "trailing_data",
            BFault::Words => "word_padding",
        }
    }
}

fn to_bits(b: &[u8]) -> Vec<bool> {
    (0..b.len() * 8)
        .map(|i| b[i / 8] >> (i % 8) & 1 == 1)
        .collect()
}
fn from_bits(v: &[bool]) -> Vec<u8> {
    let mut b = vec![0u8; v.len().div_ceil(8)];
    for (i, x) in v.iter().enumerate() {
        if *x {
            b[i / 8] |= 1 << (i % 8);
        }
    }
    b
}

/// Apply one fault; false if it had no effect.
pub fn apply(b: &mut Vec<u8>, f: &BFault) -> bool {
    let n = b.len() as u64;
    if n == 0 && !matches!(f, BFault::Trailing { .. }) {
        return false;
    }
    let before = if matches!(f, BFault::Trailing { .. } | BFault::Torn { .. }) {
        vec![]
    } else {
        b.clone()
    };
    match f {
        BFault::Torn { at } => {
            let at = at % (n + 1);
            b.truncate(at as usize);
            return at < n;
        }
        BFault::Flip { bit } => {
            let bit = bit % (n * 8);
            b[(bit / 8) as usize] ^= 1 << (bit % 8);
        }
        BFault::Set { at, v } => b[(at % n) as usize] = *v,
        BFault::Lost { at, len } | BFault::Erased { at, len } => {
            let a = at % n;
            let e = a.saturating_add(*len).min(n);
            let v = if matches!(f, BFault::Lost { .. }) {
                0
            } else {
                0xff
            };
            b[a as usize..e as usize].fill(v);
        }
        BFault::Misdirected { src, dst, len } => {
            let (s, d) = (src % n, dst % n);
            let l = (*len).min(n - s).min(n - d) as usize;
            b.copy_within(s as usize..s as usize + l, d as usize);
        }
        BFault::Dup { at, len } => {
            let a = at % n;
            let e = a.saturating_add((*len).min(1 << 16)).min(n);
            let piece = b[a as usize..e as usize].to_vec();
            b.splice(e as usize..e as usize, piece);
        }
        BFault::Gone { at, len } => {
            let a = at % n;
            let e = a.saturating_add(*len).min(n);
            b.drain(a as usize..e as usize);
        }
        BFault::Swap { a, b: c, len } => {
            let (x, y) = ((a % n).min(c % n), (a % n).max(c % n));
            let l = (*len).min(y - x).min(n - y);
            for i in 0..l {
                b.swap((x + i) as usize, (y + i) as usize);
            }
        }
        BFault::SlipIn { bit, n: k, v } => {
            let mut bits = to_bits(b);
            let p = (bit % (n * 8)) as usize;
            let k = *k as usize % 65;
            let ins: Vec<bool> = (0..k).map(|i| v >> (i % 64) & 1 == 1).collect();
            bits.splice(p..p, ins);
            *b = from_bits(&bits);
        }
        BFault::SlipOut { bit, n: k } => {
            let mut bits = to_bits(b);
            let p = (bit % (n * 8)) as usize;
            let e = (p + *k as usize).min(bits.len());
            bits.drain(p..e);
            *b = from_bits(&bits);
        }
        BFault::Trailing { len, seed } => {
            let mut r = Rng::new(*seed);
            let l = len % 4096;
            let x = if r.chance(1, 3) {
                vec![0; l as usize]
            } else {
                r.bytes(l as usize)
            };
            b.extend(x);
            return l > 0;
        }
        BFault::Words => {
            while b.len() % 4 != 0 {
                b.push(0);
            }
        }
    }
    *b != before
}

/// A hostile value for a length, count, width or size.
pub fn hostile(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[2, 3, 4, 5, 6, 7, 8]),
        3 => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128]),
        4 => {
            let k = r.below(64);
            1u64 << k
        }
        5 => {
            let k = r.range(1, 63);
            (1u64 << k) - 1
        }
        6 => {
            let k = r.range(1, 63);
            (1u64 << k) + 1
        }
        7 => u64::MAX,
        8 => u32::MAX as u64 + r.below(3) - 1,
        9 => (1 << 63) + r.below(2),
        10 => u64::MAX - r.below(8),
        _ => r.value(64),
    }
}

/// Which kinds of faults a run may use (swarm testing).
#[derive(Clone)]
pub struct FaultMix {
    w: Vec<u32>,
}
impl FaultMix {
    pub fn random(r: &mut Rng) -> Self {
        // torn flip set lost erased misdir dup gone swap slipin slipout trailing
        let base = [3u32, 12, 6, 3, 2, 3, 3, 3, 2, 3, 3, 2];
        let mut w: Vec<u32> = base
            .iter()
            .map(|x| if r.chance(1, 2) { *x } else { 0 })
            .collect();
        if w.iter().all(|x| *x == 0) {
            w[1] = 1;
        }
        FaultMix { w }
    }
    pub fn no_len_change(mut self) -> Self {
        for i in [0, 6, 7, 9, 10, 11] {
            self.w[i] = 0;
        }
        self.w[1] += 1;
        self
    }
}

fn pos(r: &mut Rng, e: &Emitted) -> u64 {
    // Aim inside a field or at the edge of an item half of the time.
    let total = e.bytes.len() as u64 * 8;
    match r.below(4) {
        0 if !e.fields.is_empty() => {
            let f = r.pick(&e.fields);
            f.bit + r.below(f.bits.max(1) as u64)
        }
        1 if !e.log.is_empty() => {
            let l = r.pick(&e.log);
            if r.chance(1, 2) {
                l.start
            } else {
                l.end
            }
        }
        2 if !e.fields.is_empty() => {
            // Structure rather than values.
            for _ in 0..6 {
                let f = r.pick(&e.fields);
                if !matches!(f.kind, Kind::Value | Kind::BlobByte) {
                    return f.bit + r.below(f.bits.max(1) as u64);
                }
            }
            r.below(total)
        }
        _ => r.below(total.max(1)),
    }
}

fn span(r: &mut Rng, n: u64) -> u64 {
    match r.below(5) {
        0 => 1,
        1 => 4,
        2 => *r.pick(&[8, 16, 32, 64, 512]),
        3 => r.range(1, 16),
        _ => r.range(1, n.max(1)),
    }
}

pub fn one(r: &mut Rng, e: &Emitted, mix: &FaultMix) -> BFault {
    let n = e.bytes.len() as u64;
    let bit = pos(r, e);
    let mut at = bit / 8;
    if r.chance(1, 2) {
        at &= !3;
    }
    let len = span(r, n);
    match r.weighted(&mix.w) {
        0 => BFault::Torn { at },
        1 => BFault::Flip { bit },
        2 => BFault::Set {
            at: bit / 8,
            v: *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x55, 0xaa, 4, 32]),
        },
        3 => BFault::Lost { at, len },
        4 => BFault::Erased { at, len },
        5 => BFault::Misdirected {
            src: r.below(n.max(1)) & !3,
            dst: at,
            len,
        },
        6 => BFault::Dup { at, len },
        7 => BFault::Gone { at, len },
        8 => BFault::Swap {
            a: at,
            b: r.below(n.max(1)) & !3,
            len,
        },
        9 => BFault::SlipIn {
            bit,
            n: if r.chance(1, 2) {
                1
            } else {
                r.range(1, 64) as u8
            },
            v: r.u64(),
        },
        10 => BFault::SlipOut {
            bit,
            n: if r.chance(1, 2) {
                1
            } else {
                r.range(1, 64) as u8
            },
        },
        _ => BFault::Trailing {
            len: if r.chance(1, 2) {
                r.range(1, 8) * 4
            } else {
                r.range(1, 300)
            },
            seed: r.u64(),
        },
    }
}

/// A sequence of faults for the emitted stream: few per run, ending in whole words mostly.
pub fn some(r: &mut Rng, e: &Emitted) -> Vec<BFault> {
    let mix = FaultMix::random(r);
    let k = match r.below(8) {
        0..=3 => 1,
        4 | 5 => 2,
        6 => 3,
        _ => r.range(3, 8),
    };
    let mut v: Vec<BFault> = (0..k).map(|_| one(r, e, &mix)).collect();
    if r.chance(9, 10) {
        v.push(BFault::Words);
    }
    v
}

/// Claims that hit the fields of the given kinds.
pub fn claims(r: &mut Rng, e: &Emitted, kinds: &[Kind], max: u64) -> Vec<Claim> {
    let cand: Vec<usize> = e
        .fields
        .iter()
        .enumerate()
        .filter(|(_, f)| kinds.contains(&f.kind))
        .map(|(i, _)| i)
        .collect();
    if cand.is_empty() {
        return vec![];
    }
    // Spread over kinds, so that rare ones get their share.
    let mut ks: Vec<Kind> = cand.iter().map(|i| e.fields[*i].kind).collect();
    ks.sort();
    ks.dedup();
    let k = r.range(1, max);
    (0..k)
        .map(|_| {
            let kd = *r.pick(&ks);
            let of: Vec<usize> = cand
                .iter()
                .copied()
                .filter(|i| e.fields[*i].kind == kd)
                .collect();
            Claim {
                n: *r.pick(&of) as u64,
                v: hostile(r),
            }
        })
        .collect()
}

pub const STRUCTURAL: &[Kind] = &[
    Kind::AbbrevId,
    Kind::BlockId,
    Kind::NewWidth,
    Kind::BlockLen,
    Kind::Code,
    Kind::NumOps,
    Kind::Value,
    Kind::ArrayLen,
    Kind::BlobLen,
    Kind::NumAbbrevOps,
    Kind::LitFlag,
    Kind::LitVal,
    Kind::Enc,
    Kind::OpWidth,
];
pub const LENGTHS: &[Kind] = &[
    Kind::NewWidth,
    Kind::BlockLen,
    Kind::NumOps,
    Kind::ArrayLen,
    Kind::BlobLen,
    Kind::NumAbbrevOps,
    Kind::OpWidth,
];
