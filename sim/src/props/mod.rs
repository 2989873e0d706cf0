pub mod bitcode;
pub mod container;
pub mod cursor;
pub mod mapping;
pub mod report;
pub mod sched;
pub mod stream;

use crate::engine::*;
use crate::faults::{self, BFault};
use crate::writer::*;
use llvm_bitstream::error::Error;
use llvm_bitstream::parser::StreamEntry;
use llvm_bitstream::Bitstream;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Entry(Entry),
    Err(String),
    End,
}

pub fn entry(e: StreamEntry) -> Entry {
    match e {
        StreamEntry::EndBlock => Entry::End,
        StreamEntry::SubBlock(b) => Entry::Block {
            id: b.block_id,
            len: b.len,
        },
        StreamEntry::Record(r) => Entry::Rec {
            ab: r.abbrev_id,
            c: r.code,
            f: r.fields,
        },
    }
}

/// One request for the next entry.
pub fn step<T: AsRef<[u8]>>(bs: &mut Bitstream<T>) -> Ev {
    match bs.advance() {
        Ok(e) => Ev::Entry(entry(e)),
        Err(Error::Exhausted) => Ev::End,
        Err(e) => Ev::Err(format!("{e:?}")),
    }
}

pub fn trace_entry(c: &mut Ctx, e: &Entry) {
    match e {
        Entry::Block { id, len } => {
            c.trace.add(1);
            c.trace.add(*id);
            c.trace.add(*len);
        }
        Entry::End => c.trace.add(2),
        Entry::Rec { ab, c: code, f } => {
            c.trace.add(3);
            c.trace.add(ab.unwrap_or(3));
            c.trace.add(*code);
            for x in f {
                c.trace.add(*x);
            }
            c.trace.add(f.len() as u64);
        }
    }
}
pub fn trace_ev(c: &mut Ctx, e: &Ev) {
    match e {
        Ev::Entry(e) => trace_entry(c, e),
        Ev::Err(_) => c.trace.add(4),
        Ev::End => c.trace.add(5),
    }
}

pub fn short(e: &Entry) -> String {
    match e {
        Entry::Rec { ab, c, f } if f.len() > 12 => {
            format!(
                "Rec {{ ab: {ab:?}, c: {c}, f: {} fields, first {:?} }}",
                f.len(),
                &f[..8]
            )
        }
        e => format!("{e:?}"),
    }
}

pub fn apply_faults(c: &mut Ctx, bytes: &mut Vec<u8>, fs: &[BFault]) -> bool {
    let mut any = false;
    for f in fs {
        if faults::apply(bytes, f) {
            c.fault(f.name());
            any = true;
        }
    }
    any
}

/// Wrap a raw stream in a container.
pub fn wrap(inner: &[u8], offset: u32, size: u32, version: u32, cpu: u32, pad: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    for x in [0x0b17c0deu32, version, offset, size, cpu] {
        b.extend_from_slice(&x.to_le_bytes());
    }
    b.extend_from_slice(pad);
    b.extend_from_slice(inner);
    b
}
