//! For comparing the harness's own writer and reference with LLVM's tools (tools/crosscheck.py).
//! Not part of any check.

use crate::props::mapping;
use crate::refmap::Expect;
use crate::rng::Rng;
use crate::writer::{self, Entry, Item};
use crate::{gen, seams};

/// Whether llvm-bcanalyzer supports the items: it keeps codes in 32 bits and a BLOCKINFO's names
/// have to follow a SETBID.
fn plain(items: &[Item]) -> bool {
    items.iter().all(|x| match x {
        Item::Block { id, w, items } => {
            let mut set = *id != 0;
            let ok = items.iter().all(|y| match y {
                Item::Rec { c, f, .. } if *id == 0 => {
                    set |= *c == 1;
                    set && !f.is_empty()
                }
                Item::Bytes { .. } => set,
                _ => true,
            });
            ok && *w <= 32 && plain(items)
        }
        Item::Nest { w, items, .. } => *w <= 32 && plain(items),
        Item::Rec { c, .. } | Item::Bytes { c, .. } => *c < 1 << 20,
        _ => true,
    })
}

pub fn emit_files(seed: u64, lo: u64, hi: u64, dir: &str) -> i32 {
    for i in lo..hi {
        let mut s = gen::stream(&mut Rng::for_run(seed, "emit", i));
        s.magic = writer::BC_MAGIC;
        s.overlong = 0;
        if !plain(&s.items) {
            continue;
        }
        let e = writer::emit(&s, &[]);
        let mut t = String::new();
        for l in &e.log {
            match &l.entry {
                Some(Entry::Block { id, .. }) => t += &format!("B {id}\n"),
                Some(Entry::End) => t += "E\n",
                Some(Entry::Rec { c, f, .. }) => t += &format!("R {c} {f:?}\n"),
                None => {}
            }
        }
        std::fs::write(format!("{dir}/{i}.bc"), &e.bytes).unwrap();
        std::fs::write(format!("{dir}/{i}.txt"), t).unwrap();
    }
    0
}

/// What the reference and mollusc make of a file.
pub fn file(path: &str) -> i32 {
    let mut b = std::fs::read(path).unwrap();
    let whole = b.clone();
    let word = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    if word(0) == 0x0b17c0de {
        let (o, n) = (word(8), word(12));
        b = b[o..o + n].to_vec();
    }
    let want = mapping::meaning(&b);
    let (got, said) = seams::capture(|| {
        llvm_mapper::unroll::Bitcode::try_from(&whole[..])
            .map(|b| mapping::observe(&b))
            .map_err(|e| format!("{e} {e:?}"))
    });
    match &want {
        Expect::Accept(w) => println!("reference: {} modules", w.len()),
        Expect::Reject(w) => println!("reference: refused: {w}"),
        Expect::Unspecified(w) => println!("reference: open: {w}"),
    }
    match &got {
        Ok(m) => println!("mollusc: {} modules", m.len()),
        Err(e) => println!("mollusc: refused: {e}"),
    }
    if let (Expect::Accept(w), Ok(g)) = (&want, &got) {
        println!("difference: {:?}", mapping::difference(w, g));
        println!("report: {:?}", crate::props::report::file(w, &said));
    }
    for s in said {
        println!("  {s}");
    }
    0
}
