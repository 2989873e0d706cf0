//! A few files written by LLVM 18 (llvm-as, clang, llvm-cat -b), as item trees.

use crate::refdec::{decode_raw, Raw};
use crate::writer::{Item, Stream, BC_MAGIC};
use std::sync::OnceLock;

const FILES: &[&[u8]] = &[
    include_bytes!("../corpus/plain.bc"),
    include_bytes!("../corpus/debug.bc"),
    include_bytes!("../corpus/types.bc"),
    include_bytes!("../corpus/empty.bc"),
    include_bytes!("../corpus/multi.bc"),
    include_bytes!("../corpus/attrs.bc"),
    include_bytes!("../corpus/links.bc"),
];

fn tree(it: &mut std::vec::IntoIter<Raw>) -> Vec<Item> {
    let mut out = vec![];
    while let Some(x) = it.next() {
        out.push(match x {
            Raw::Enter(id, w) => Item::Block {
                id,
                w,
                items: tree(it),
            },
            Raw::Exit => return out,
            Raw::Def(ops) => Item::Def(ops),
            Raw::Rec(ab, c, f) => {
                let ab = ab.map(|a| a as u32 - 4);
                if f.len() > 40 && f.iter().all(|x| *x < 256) {
                    Item::Bytes {
                        c,
                        pre: vec![],
                        s: f.iter().map(|x| *x as u8).collect(),
                        ab,
                    }
                } else {
                    Item::Rec { c, f, ab }
                }
            }
        });
    }
    out
}

pub fn files() -> &'static [Stream] {
    static F: OnceLock<Vec<Stream>> = OnceLock::new();
    F.get_or_init(|| {
        FILES
            .iter()
            .map(|b| {
                let raw = decode_raw(b, 32, b.len(), true).raw.unwrap();
                Stream {
                    magic: BC_MAGIC,
                    overlong: 0,
                    items: tree(&mut raw.into_iter()),
                }
            })
            .collect()
    })
}

/// Whether the harness writes the files exactly as LLVM did.
pub fn exact() -> Vec<bool> {
    files()
        .iter()
        .zip(FILES)
        .map(|(s, b)| crate::writer::emit(s, &[]).bytes == *b)
        .collect()
}
