//! An independent decoder of the bitstream container, written from the format's documentation
//! (LLVM BitCodeFormat). It is the oracle for damaged streams: it says which entries the bits
//! mean, where the first meaningless item is, or that the format leaves the construct undefined.

use crate::writer::{add_info, Abbrevs, Entry, Info, Op, CHAR6};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefEnd {
    /// The stream ends between two items.
    Clean,
    /// The item starting at `at` is meaningless or incomplete.
    Malformed(&'static str),
    /// The format does not define the item that follows.
    Unspecified(&'static str),
}

/// An item as it was written, for building item trees from files.
pub enum Raw {
    Enter(u64, u32),
    Exit,
    Def(Vec<Op>),
    Rec(Option<u64>, u64, Vec<u64>),
}

pub struct RefOut {
    pub raw: Option<Vec<Raw>>,
    pub entries: Vec<(Entry, u64)>,
    pub end: RefEnd,
    /// Start of the item at which decoding ended.
    pub at: u64,
    /// Fields delivered, for effort bounds.
    pub cells: u64,
}

struct Bits<'a> {
    b: &'a [u8],
    pos: u64,
    end: u64,
}

enum Stop {
    Bad(&'static str),
    Unspec(&'static str),
}
type R<T> = Result<T, Stop>;

impl Bits<'_> {
    fn get(&mut self, n: u32) -> R<u64> {
        if self.pos + n as u64 > self.end {
            return Err(Stop::Bad("end of data"));
        }
        let mut v = 0u64;
        let mut got = 0;
        while got < n {
            let byte = self.b[(self.pos / 8) as usize] as u64;
            let off = (self.pos % 8) as u32;
            let k = (n - got).min(8 - off);
            v |= ((byte >> off) & ((1u64 << k) - 1)) << got;
            got += k;
            self.pos += k as u64;
        }
        Ok(v)
    }
    fn vbr(&mut self, w: u32) -> R<u64> {
        let mut v: u128 = 0;
        let mut sh = 0u32;
        loop {
            let c = self.get(w)?;
            let more = c >> (w - 1) & 1 == 1;
            let data = (c & ((1u64 << (w - 1)) - 1)) as u128;
            // A value needs more than 64 bits, or chunks go on past 64 bits.
            if sh >= 64 || (data << sh) >> 64 != 0 {
                return Err(Stop::Bad("VBR exceeds 64 bits"));
            }
            v |= data << sh;
            if !more {
                return Ok(v as u64);
            }
            sh += w - 1;
        }
    }
    /// The next 32-bit boundary, counted from the start of the buffer.
    fn align(&mut self) {
        self.pos = (self.pos.div_ceil(32) * 32).min(self.end);
    }
}

struct Scope {
    id: u64,
    w: u32,
    abbrevs: Abbrevs,
    setbid: Option<u64>,
}

fn scalar_def(b: &mut Bits, enc: u64, elem: bool) -> R<Op> {
    Ok(match enc {
        1 => {
            let w = b.vbr(5)?;
            // As in LLVM, an operand without bits is a literal zero.
            if w == 0 && !elem {
                return Ok(Op::Lit(0));
            }
            if w == 0 || w > 32 {
                return Err(Stop::Unspec("fixed width outside 1..=32"));
            }
            Op::Fixed(w as u32)
        }
        2 => {
            let w = b.vbr(5)?;
            if w == 0 && !elem {
                return Ok(Op::Lit(0));
            }
            if w < 2 || w > 32 {
                return Err(Stop::Unspec("VBR width outside 2..=32"));
            }
            Op::Vbr(w as u32)
        }
        4 => Op::Char6,
        _ => return Err(Stop::Bad("bad encoding")),
    })
}

fn define(b: &mut Bits) -> R<Vec<Op>> {
    let n = b.vbr(5)?;
    if n == 0 {
        return Err(Stop::Bad("no operands"));
    }
    let mut ops = vec![];
    let mut i = 0;
    while i < n {
        if b.get(1)? == 1 {
            ops.push(Op::Lit(b.vbr(8)?));
            i += 1;
            continue;
        }
        match b.get(3)? {
            3 => {
                if i + 2 != n {
                    return Err(Stop::Bad("array not second to last"));
                }
                if i == 0 {
                    // No operand is left for the record code.
                    return Err(Stop::Unspec("array as first operand"));
                }
                if b.get(1)? == 1 {
                    return Err(Stop::Unspec("literal array element"));
                }
                let enc = b.get(3)?;
                let e = scalar_def(b, enc, true)?;
                ops.push(Op::Array(Box::new(e)));
                i += 2;
            }
            5 => {
                if i + 1 != n {
                    return Err(Stop::Bad("blob not last"));
                }
                if i == 0 {
                    return Err(Stop::Unspec("blob as first operand"));
                }
                ops.push(Op::Blob);
                i += 1;
            }
            e => {
                ops.push(scalar_def(b, e, false)?);
                i += 1;
            }
        }
    }
    Ok(ops)
}

fn scalar(b: &mut Bits, op: &Op) -> R<u64> {
    match op {
        Op::Lit(v) => Ok(*v),
        Op::Fixed(w) => b.get(*w),
        Op::Vbr(w) => b.vbr(*w),
        Op::Char6 => Ok(CHAR6[b.get(6)? as usize] as u64),
        _ => unreachable!(),
    }
}

/// Decode the items in `bytes[..len]` from bit `start` on. Alignment counts from byte 0.
pub fn decode(bytes: &[u8], start: u64, len: usize) -> RefOut {
    decode_raw(bytes, start, len, false)
}
pub fn decode_raw(bytes: &[u8], start: u64, len: usize, raw: bool) -> RefOut {
    let mut b = Bits {
        b: &bytes[..len],
        pos: start,
        end: len as u64 * 8,
    };
    let mut out = RefOut {
        raw: raw.then(Vec::new),
        entries: vec![],
        end: RefEnd::Clean,
        at: start,
        cells: 0,
    };
    let mut scopes: Vec<Scope> = vec![];
    let mut info = Info::new();
    loop {
        out.at = b.pos;
        if b.pos >= b.end {
            return out;
        }
        let r = item(&mut b, &mut scopes, &mut info, &mut out);
        match r {
            Ok(()) => {}
            Err(Stop::Bad(s)) => {
                out.end = RefEnd::Malformed(s);
                return out;
            }
            Err(Stop::Unspec(s)) => {
                out.end = RefEnd::Unspecified(s);
                return out;
            }
        }
    }
}

fn item(b: &mut Bits, scopes: &mut Vec<Scope>, info: &mut Info, out: &mut RefOut) -> R<()> {
    let w = scopes.last().map(|s| s.w).unwrap_or(2);
    let in_info = scopes.last().map(|s| s.id == 0).unwrap_or(false);
    let id = b.get(w)?;
    match id {
        0 => {
            b.align();
            if scopes.pop().is_none() {
                return Err(Stop::Bad("END_BLOCK outside of blocks"));
            }
            if let Some(t) = &mut out.raw {
                t.push(Raw::Exit);
            }
            if !in_info {
                out.entries.push((Entry::End, b.pos));
            }
        }
        1 => {
            let bid = b.vbr(8)?;
            let nw = b.vbr(4)?;
            b.align();
            let words = b.get(32)?;
            if in_info {
                return Err(Stop::Unspec("block inside BLOCKINFO"));
            }
            if bid > u32::MAX as u64 {
                return Err(Stop::Unspec("block id beyond 32 bits"));
            }
            if nw == 0 || nw > 32 {
                return Err(Stop::Bad("abbreviation width"));
            }
            if let Some(t) = &mut out.raw {
                t.push(Raw::Enter(bid, nw as u32));
            }
            scopes.push(Scope {
                id: bid,
                w: nw as u32,
                abbrevs: Abbrevs::of(info, bid),
                setbid: None,
            });
            if bid != 0 {
                out.entries.push((
                    Entry::Block {
                        id: bid,
                        len: words * 4,
                    },
                    b.pos,
                ));
            } else {
                // Each BLOCKINFO replaces the previous one.
                info.clear();
            }
        }
        2 => {
            let ops = define(b)?;
            if let Some(t) = &mut out.raw {
                t.push(Raw::Def(ops.clone()));
            }
            match scopes.last_mut() {
                None => return Err(Stop::Bad("DEFINE_ABBREV outside of blocks")),
                Some(s) if s.id == 0 => match s.setbid {
                    None => return Err(Stop::Bad("DEFINE_ABBREV before SETBID")),
                    Some(bid) => add_info(info, bid, ops),
                },
                Some(s) => s.abbrevs.push(ops),
            }
        }
        3 => {
            if scopes.is_empty() {
                return Err(Stop::Bad("record outside of blocks"));
            }
            let c = b.vbr(6)?;
            let n = b.vbr(6)?;
            let mut f = vec![];
            for _ in 0..n {
                f.push(b.vbr(6)?);
            }
            out.cells += n;
            if let Some(t) = &mut out.raw {
                t.push(Raw::Rec(None, c, f.clone()));
            }
            if in_info {
                match c {
                    1 if f.is_empty() => return Err(Stop::Bad("SETBID without id")),
                    1 => scopes.last_mut().unwrap().setbid = Some(f[0]),
                    2 | 3 => {}
                    // Readers differ: ignored by some, refused by others.
                    _ => return Err(Stop::Unspec("unknown BLOCKINFO record")),
                }
            } else {
                out.entries.push((Entry::Rec { ab: None, c, f }, b.pos));
            }
        }
        _ => {
            let ops = match scopes.last() {
                None => return Err(Stop::Bad("record outside of blocks")),
                Some(s) => s
                    .abbrevs
                    .get((id - 4) as usize)
                    .cloned()
                    .ok_or(Stop::Bad("undefined abbreviation"))?,
            };
            let mut v = vec![];
            for op in ops.iter() {
                match op {
                    Op::Array(e) => {
                        let n = b.vbr(6)?;
                        for _ in 0..n {
                            v.push(scalar(b, e)?);
                        }
                    }
                    Op::Blob => {
                        let n = b.vbr(6)?;
                        b.align();
                        for _ in 0..n {
                            v.push(b.get(8)?);
                        }
                        b.align();
                    }
                    _ => v.push(scalar(b, op)?),
                }
            }
            out.cells += v.len() as u64;
            let c = v.remove(0);
            if let Some(t) = &mut out.raw {
                t.push(Raw::Rec(Some(id), c, v.clone()));
            }
            if in_info {
                // Names of blocks and records are skipped in any form.
                return match c {
                    2 | 3 => Ok(()),
                    _ => Err(Stop::Unspec("abbreviated record in BLOCKINFO")),
                };
            }
            out.entries.push((
                Entry::Rec {
                    ab: Some(id),
                    c,
                    f: v,
                },
                b.pos,
            ));
        }
    }
    Ok(())
}
