//! A reference reading of data layout strings, after LLVM's language reference. Where readers
//! differ, or the reference says nothing, it says so.

use std::collections::BTreeMap;

/// Alignments in bytes, sizes in bits.
#[derive(Clone, Debug, PartialEq)]
pub struct Dl {
    pub big: bool,
    pub stack: Option<u64>,
    /// Program, globals, alloca.
    pub spaces: [u64; 3],
    /// (kind, width) to (ABI, preferred).
    pub types: BTreeMap<(char, u64), (u64, u64)>,
    /// Address space to (size, ABI, preferred, index).
    pub ptrs: BTreeMap<u64, (u64, u64, u64, u64)>,
    /// Whether independent of the function's alignment, and the alignment.
    pub fptr: Option<(bool, u64)>,
    pub mangling: Option<&'static str>,
    pub native: Vec<u64>,
    pub nonint: Vec<u64>,
}
impl Default for Dl {
    fn default() -> Self {
        let mut types = BTreeMap::new();
        for (k, w, a, p) in [
            ('a', 0, 1, 8),
            ('f', 16, 2, 2),
            ('f', 32, 4, 4),
            ('f', 64, 8, 8),
            ('f', 128, 16, 16),
            ('i', 1, 1, 1),
            ('i', 8, 1, 1),
            ('i', 16, 2, 2),
            ('i', 32, 4, 4),
            ('i', 64, 4, 8),
            ('v', 64, 8, 8),
            ('v', 128, 16, 16),
        ] {
            types.insert((k, w), (a, p));
        }
        Dl {
            big: true,
            stack: None,
            spaces: [0; 3],
            types,
            ptrs: [(0, (64, 8, 8, 64))].into_iter().collect(),
            fptr: None,
            mangling: None,
            native: vec![],
            nonint: vec![],
        }
    }
}

pub struct Read {
    pub dl: Dl,
    pub bad: Option<String>,
    pub open: Option<String>,
}

enum E {
    Bad(String),
    Open(String),
}
use E::{Bad, Open};

fn bad<T>(s: impl Into<String>) -> Result<T, E> {
    Err(Bad(s.into()))
}
fn open<T>(s: impl Into<String>) -> Result<T, E> {
    Err(Open(s.into()))
}

fn num(s: &str, wide: bool) -> Result<u64, E> {
    if let Some(t) = s.strip_prefix('+') {
        if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) {
            return open("a number with a sign");
        }
    }
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return bad("not a number");
    }
    match s.parse::<u64>() {
        Err(_) => bad("too large a number"),
        Ok(x) if x > u32::MAX as u64 => {
            if wide {
                open("a large number")
            } else {
                bad("too large a number")
            }
        }
        Ok(x) => Ok(x),
    }
}
fn space(s: &str) -> Result<u64, E> {
    match num(s, false)? {
        x if x >= 1 << 24 => bad("address space"),
        x if x >= 1 << 23 => open("address space"),
        x => Ok(x),
    }
}
/// In bytes.
fn align(s: &str) -> Result<u64, E> {
    let x = num(s, true)?;
    if x % 8 != 0 || !(x / 8).is_power_of_two() {
        return bad("alignment");
    }
    Ok(x / 8)
}

fn spec(dl: &mut Dl, s: &str) -> Result<(), E> {
    let Some(k) = s.chars().next() else {
        return bad("empty specification");
    };
    let body = &s[1..];
    match k {
        'e' | 'E' => {
            dl.big = k == 'E';
            if !body.is_empty() {
                return open("more after the endianness");
            }
        }
        'S' => {
            if num(body, true)? == 0 {
                return open("stack alignment 0");
            }
            dl.stack = Some(align(body)?);
        }
        'P' => dl.spaces[0] = space(body)?,
        'G' => dl.spaces[1] = space(body)?,
        'A' => dl.spaces[2] = space(body)?,
        'p' => {
            let f: Vec<&str> = body.split(':').collect();
            if f.len() < 3 {
                return bad("short pointer specification");
            }
            let sp = if f[0].is_empty() { Ok(0) } else { space(f[0]) };
            let size = num(f[1], true);
            let abi = align(f[2]);
            let pref = f.get(3).map(|x| align(x));
            let idx = f.get(4).map(|x| num(x, true));
            // Anything bad first, then anything open.
            let mut err = None;
            for e in [sp.as_ref().err(), size.as_ref().err(), abi.as_ref().err()]
                .into_iter()
                .chain([
                    pref.as_ref().and_then(|x| x.as_ref().err()),
                    idx.as_ref().and_then(|x| x.as_ref().err()),
                ])
                .flatten()
            {
                match (e, &err) {
                    (Bad(s), _) => err = Some(Bad(s.clone())),
                    (Open(s), None) => err = Some(Open(s.clone())),
                    _ => {}
                }
            }
            if let Some(e) = err {
                return Err(e);
            }
            let (Ok(sp), Ok(size), Ok(abi)) = (sp, size, abi) else {
                unreachable!()
            };
            let pref = pref.and_then(|x| x.ok()).unwrap_or(abi);
            let idx = idx.and_then(|x| x.ok());
            if pref < abi {
                return bad("preferred alignment below the ABI's");
            }
            if size == 0 || size % 8 != 0 || size >= 1 << 24 {
                return open("pointer size");
            }
            if idx.map(|i| i == 0 || i > size).unwrap_or(false) {
                return open("index size");
            }
            if f.len() > 5 {
                return open("more after the index size");
            }
            dl.ptrs.insert(sp, (size, abi, pref, idx.unwrap_or(size)));
        }
        'i' | 'v' | 'f' | 'a' => {
            let f: Vec<&str> = body.split(':').collect();
            if f.len() < 2 {
                return bad("short type specification");
            }
            let mut o = None;
            let w = if k == 'a' {
                match f[0] {
                    "" => 0,
                    "0" => return open("a size for aggregates"),
                    _ => return bad("a size for aggregates"),
                }
            } else {
                match num(f[0], false)? {
                    0 => return bad("width 0"),
                    x if x >= 1 << 24 => return bad("width"),
                    x => {
                        if x >= 1 << 23 {
                            o = Some("width");
                        }
                        x
                    }
                }
            };
            let al = |s: &str, o: &mut Option<&'static str>, zero: bool| -> Result<u64, E> {
                match num(s, true) {
                    Ok(0) if zero => Ok(1),
                    Err(Open(_)) => {
                        *o = Some("number");
                        Ok(u64::MAX)
                    }
                    _ => match align(s)? {
                        x if x >= 1 << 16 => bad("alignment"),
                        x => Ok(x),
                    },
                }
            };
            let abi = al(f[1], &mut o, k == 'a')?;
            let pref = match f.get(2) {
                None => abi,
                Some(x) => {
                    if matches!(num(x, true), Ok(0)) {
                        if abi > 1 && abi != u64::MAX {
                            return bad("preferred alignment 0");
                        }
                        return open("preferred alignment 0");
                    }
                    al(x, &mut o, false)?
                }
            };
            if o.is_none() && pref < abi {
                return bad("preferred alignment below the ABI's");
            }
            if f.len() > 3 {
                o = Some("more after the preferred alignment");
            }
            if k == 'i' && w == 8 && abi != 1 {
                o = Some("alignment of bytes");
            }
            if let Some(o) = o {
                return open(o);
            }
            dl.types.insert((k, w), (abi, pref));
        }
        'F' => {
            let ind = match body.chars().next() {
                Some('i') => true,
                Some('n') => false,
                _ => return bad("function pointer alignment"),
            };
            if matches!(num(&body[1..], true), Ok(0)) {
                return open("function pointer alignment 0");
            }
            dl.fptr = Some((ind, align(&body[1..])?));
        }
        'm' => {
            let mut c = body.chars();
            if c.next() != Some(':') {
                return bad("mangling");
            }
            let m = match c.next() {
                Some('e') => "Elf",
                Some('m') => "Mips",
                Some('o') => "Macho",
                Some('x') => "WindowsX86Coff",
                Some('w') => "WindowsCoff",
                Some('a') => "XCoff",
                Some('l') => "Goff",
                _ => return bad("mangling"),
            };
            if c.next().is_some() {
                return open("more after the mangling");
            }
            dl.mangling = Some(m);
        }
        'n' if body.starts_with('i') => {
            let Some(list) = body[1..].strip_prefix(':') else {
                if body.len() > 2 && body.is_char_boundary(2) {
                    return open("no separator after ni");
                }
                return bad("non-integral address spaces");
            };
            let mut v = vec![];
            let mut err = None;
            for s in list.split(':') {
                match space(s) {
                    Ok(0) => return bad("address space 0 cannot be non-integral"),
                    Ok(x) => v.push(x),
                    Err(Bad(s)) => return Err(Bad(s)),
                    Err(e) => err = Some(e),
                }
            }
            if let Some(e) = err {
                return Err(e);
            }
            if !dl.nonint.is_empty() {
                return open("repeated ni");
            }
            dl.nonint = v;
        }
        'n' => {
            let mut v = vec![];
            let mut err = None;
            for s in body.split(':') {
                match num(s, false) {
                    Ok(x) => {
                        if x == 0 || x >= 1 << 24 {
                            err = Some(Open("native width".into()));
                        }
                        v.push(x)
                    }
                    Err(Bad(s)) => return Err(Bad(s)),
                    Err(e) => err = Some(e),
                }
            }
            if let Some(e) = err {
                return Err(e);
            }
            if !dl.native.is_empty() {
                return open("repeated n");
            }
            dl.native = v;
        }
        's' => return open("old specification"),
        k => return bad(format!("specification {k}")),
    }
    Ok(())
}

pub fn read(s: &str) -> Read {
    let mut r = Read {
        dl: Dl::default(),
        bad: None,
        open: None,
    };
    if !s.is_ascii() {
        r.bad = Some("not ASCII".into());
        return r;
    }
    if s.is_empty() {
        r.open = Some("empty data layout".into());
        return r;
    }
    for x in s.split('-') {
        match spec(&mut r.dl, x) {
            Ok(()) => {}
            Err(Bad(e)) => {
                if r.bad.is_none() {
                    r.bad = Some(format!("data layout {x:?}: {e}"));
                }
            }
            Err(Open(e)) => {
                if r.open.is_none() {
                    r.open = Some(format!("data layout: {e}"));
                }
            }
        }
    }
    r
}

/// Data layouts of real targets.
pub const REAL: &[&str] = &[
    "E-m:a-Fi64-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    "E-m:a-p:32:32-Fi32-i64:64-n32",
    "E-m:e-Fi64-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    "E-m:e-i1:8:16-i8:8:16-i64:64-f128:64-v128:64-a:8:16-n32:64",
    "E-m:e-i64:64-n32:64-S128",
    "E-m:e-i8:8:32-i16:16:32-i64:64-i128:128-n32:64-S128",
    "E-m:e-i8:8:32-i16:16:32-i64:64-n32:64-S128",
    "E-m:e-p:32:16:32-i8:8:8-i16:16:16-i32:16:32-n8:16:32-a:0:16-S16",
    "E-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64",
    "E-m:e-p:32:32-Fn32-i64:64-n32",
    "E-m:e-p:32:32-i64:64-a:0:32-n32-S64",
    "E-m:e-p:32:32-i64:64-f128:64-n32-S64",
    "E-m:e-p:64:64-i64:64-i128:128-n32:64-S128",
    "E-m:l-i1:8:16-i8:8:16-i64:64-f128:64-v128:64-a:8:16-n32:64",
    "E-m:m-p:32:32-i8:8:32-i16:16:32-i64:64-n32-S64",
    "E-p:32:32:32-i1:8:8-i8:8:32-i16:16:32-i32:32:32-i64:32:32-f32:32:32-f64:32:32-v64:32:32-v128:32:32-v256:32:32-v512:32:32-v1024:32:32-a0:0:32-n32",
    "e-P1-p:16:8-i8:8-i16:8-i32:8-i64:8-f32:8-f64:8-n8-a:8",
    "e-i64:64-i128:128-v16:16-v32:32-n16:32:64",
    "e-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024",
    "e-m:e-Fn32-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    "e-m:e-S32-p:32:32-i32:32:32-i64:32:32-f32:32:32-f64:32:32-v64:32:32-v128:32:32-a:0:32-Fi32-n32",
    "e-m:e-i64:64-n32:64-S128-v64:64:64-v128:64:64-v256:64:64-v512:64:64-v1024:64:64-v2048:64:64-v4096:64:64-v8192:64:64-v16384:64:64",
    "e-m:e-i8:8:32-i16:16:32-i64:64-i128:128-n32:64-S128",
    "e-m:e-i8:8:32-i16:16:32-i64:64-n32:64-S128",
    "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128",
    "e-m:e-p:16:16-i32:16-i64:16-f32:16-f64:16-a:8-n8:16-S16",
    "e-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64",
    "e-m:e-p:32:32-i1:32-i8:8-i16:16-i32:32-i64:64-f16:16-f32:32-f64:64-n8:16:32:64",
    "e-m:e-p:32:32-i1:8:32-i8:8:32-i16:16:32-i32:32:32-f32:32:32-i64:32-f64:32-a:0:32-n32",
    "e-m:e-p:32:32-i1:8:32-i8:8:32-i16:16:32-i64:32-f64:32-a:0:32-n32",
    "e-m:e-p:32:32-i64:64-f128:64-n32-S64",
    "e-m:e-p:32:32-i64:64-n32-S128",
    "e-m:e-p:32:32-p10:8:8-p20:8:8-i64:64-f128:64-n32:64-S128-ni:1:10:20",
    "e-m:e-p:32:32-p10:8:8-p20:8:8-i64:64-n32:64-S128-ni:1:10:20",
    "e-m:e-p:32:32-p270:32:32-p271:32:32-p272:64:64-i128:128-f64:32:64-f80:32-n8:16:32-S128",
    "e-m:e-p:32:32-p270:32:32-p271:32:32-p272:64:64-i64:32-f64:32-f128:32-n8:16:32-a:0:32-S32",
    "e-m:e-p:32:32-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128",
    "e-m:e-p:32:32:32-a:0-n16:32-i64:64:64-i32:32:32-i16:16:16-i1:8:8-f32:32:32-f64:64:64-v32:32:32-v64:64:64-v512:512:512-v1024:1024:1024-v2048:2048:2048",
    "e-m:e-p:64:64-i64:64-i128:128-n32:64-S128",
    "e-m:e-p:64:64-i64:64-i128:128-n64-S128",
    "e-m:e-p:64:64-p10:8:8-p20:8:8-i64:64-n32:64-S128-ni:1:10:20",
    "e-m:m-p:32:32-i8:8:32-i16:16:32-i64:64-n32-S64",
    "e-m:o-i64:64-i128:128-n32:64-S128",
    "e-m:o-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128",
    "e-m:o-p:32:32-Fi8-i64:64-a:0:32-n32-S128",
    "e-m:o-p:32:32-p270:32:32-p271:32:32-p272:64:64-i128:128-f64:32:64-f80:128-n8:16:32-S128",
    "e-m:w-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128",
    "e-m:w-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64",
    "e-m:x-p:32:32-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32-a:0:32-S32",
    "e-m:x-p:32:32-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:32-n8:16:32-a:0:32-S32",
    "e-p:32:32-i64:64",
    "e-p:32:32-i64:64-i128:128-v16:16-v32:32-n16:32:64",
    "e-p:32:32-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024",
    "e-p:32:32-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-v2048:2048-n32:64-S32-A5-G1",
    "e-p:32:32:32-i1:8:8-i8:8:32-i16:16:32-i32:32:32-i64:32:32-f32:32:32-f64:32:32-v64:32:32-v128:32:32-v256:32:32-v512:32:32-v1024:32:32-a0:0:32-n32",
    "e-p:64:64-p1:64:64-p2:32:32-p3:32:32-p4:64:64-p5:32:32-p6:32:32-p7:160:256:256:32-p8:128:128-p9:192:256:256:32-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-v2048:2048-n32:64-S32-A5-G1-ni:7:8:9",
];
