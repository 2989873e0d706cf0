//! C19: what mapping makes of a module is what its records say, as it reports it.

use super::mapping::*;
use crate::dbg::{self, D};
use crate::engine::*;
use crate::faults::{self, BFault};
use crate::refmap::{AttrRep, Expect, ModObs, Rep, TyRep};
use crate::rng::Rng;
use crate::seams;
use crate::writer::emit;
use llvm_mapper::unroll::Bitcode;
use std::convert::TryFrom;

/// The first difference between what is reported and what is meant. What is not reported, or in
/// a shape that is not understood, is counted, nothing else.
#[derive(Default)]
struct Cmp {
    diff: Option<(String, String)>,
    seen: u64,
    unseen: u64,
    unseen_at: Option<String>,
}
impl Cmp {
    fn skip(&mut self, what: &str) {
        self.unseen += 1;
        if self.unseen_at.is_none() {
            self.unseen_at = Some(what.to_string());
        }
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: Option<T>, want: T) {
        match got {
            None => self.skip(what),
            Some(g) => {
                self.seen += 1;
                if g != want && self.diff.is_none() {
                    let mut a = format!("{g:?}");
                    let mut b = format!("{want:?}");
                    a.truncate(200);
                    b.truncate(200);
                    self.diff = Some((
                        what.to_string(),
                        format!("{a} is reported, but the records say {b}"),
                    ));
                }
            }
        }
    }
    fn num(&mut self, what: &str, d: Option<&D>, want: u64) {
        self.eq(what, d.and_then(|d| d.num()), want as i128)
    }
    fn opt_num(&mut self, what: &str, d: Option<&D>, want: Option<u64>) {
        let got = match d.and_then(|d| d.opt()) {
            None => None,
            Some(None) => Some(None),
            Some(Some(x)) => x.num().map(Some),
        };
        self.eq(what, got, want.map(|x| x as i128))
    }
    fn opt_str(&mut self, what: &str, d: Option<&D>, want: Option<&str>) {
        let got = match d.and_then(|d| d.opt()) {
            None => None,
            Some(None) => Some(None),
            Some(Some(x)) => x.str().map(Some),
        };
        self.eq(what, got, want)
    }
    /// A name of a known set; other names are not understood.
    fn name(&mut self, what: &str, d: Option<&D>, want: &str, known: &[&str]) {
        let got = d.and_then(|d| d.name()).filter(|n| known.contains(n));
        self.eq(what, got, want)
    }
    fn bool(&mut self, what: &str, d: Option<&D>, want: bool) {
        self.eq(what, d.and_then(|d| d.bool()), want)
    }
    fn strs(&mut self, what: &str, d: Option<&D>, want: &[String]) {
        let got: Option<Vec<String>> = d
            .and_then(|d| d.list())
            .and_then(|l| l.iter().map(|x| x.str().map(String::from)).collect());
        self.eq(what, got, want.to_vec())
    }
    fn nums(&mut self, what: &str, d: Option<&D>, want: &[u64]) {
        let got: Option<Vec<i128>> = d
            .and_then(|d| d.list())
            .and_then(|l| l.iter().map(|x| x.num()).collect());
        self.eq(what, got, want.iter().map(|x| *x as i128).collect())
    }
}

const LINKAGES: &[&str] = &[
    "External",
    "AvailableExternally",
    "LinkOnceAny",
    "LinkOnceOdr",
    "WeakAny",
    "WeakOdr",
    "Appending",
    "Internal",
    "Private",
    "ExternalWeak",
    "Common",
];
fn linkage(x: u64) -> &'static str {
    match x {
        1 | 16 => "WeakAny",
        2 => "Appending",
        3 => "Internal",
        4 | 18 => "LinkOnceAny",
        7 => "ExternalWeak",
        8 => "Common",
        9 | 13 | 14 => "Private",
        10 | 17 => "WeakOdr",
        11 | 19 => "LinkOnceOdr",
        12 => "AvailableExternally",
        _ => "External",
    }
}
const VISIBILITIES: &[&str] = &["Default", "Hidden", "Protected"];
const STORAGES: &[&str] = &["Default", "Import", "Export"];
const UNNAMED: &[&str] = &["None", "Global", "Local"];
const TLS: &[&str] = &[
    "NotThreadLocal",
    "GeneralDynamicTls",
    "LocalDynamicTls",
    "InitialExecTls",
    "LocalExecTls",
];
const PREEMPT: &[&str] = &["DsoPreemptable", "DsoLocal"];
const COMDATS: &[&str] = &["Any", "ExactMatch", "Largest", "NoDeduplicate", "SameSize"];
const MANGLINGS: &[&str] = &[
    "Elf",
    "Mips",
    "Macho",
    "WindowsX86Coff",
    "WindowsCoff",
    "XCoff",
    "Goff",
];
const CCS: &[(u64, &str)] = &[
    (0, "C"),
    (8, "Fast"),
    (9, "Cold"),
    (10, "GHC"),
    (11, "HiPE"),
    (12, "WebKitJS"),
    (13, "AnyReg"),
    (14, "PreserveMost"),
    (15, "PreserveAll"),
    (16, "Swift"),
    (17, "CXXFASTTLS"),
    (64, "X86Stdcall"),
    (65, "X86Fastcall"),
    (66, "ARMAPCS"),
    (67, "ARMAAPCS"),
    (68, "ARMAAPCSVFP"),
    (69, "MSP430INTR"),
    (70, "X86ThisCall"),
    (71, "PTXKernel"),
    (72, "PTXDevice"),
    (75, "SPIRFUNC"),
    (76, "SPIRKERNEL"),
    (77, "IntelOCLBI"),
    (78, "X8664SysV"),
    (79, "Win64"),
    (80, "X86VectorCall"),
    (81, "HHVM"),
    (82, "HHVMC"),
    (83, "X86INTR"),
    (84, "AVRINTR"),
    (85, "AVRSIGNAL"),
    (86, "AVRBUILTIN"),
    (87, "AMDGPUVS"),
    (88, "AMDGPUGS"),
    (89, "AMDGPUPS"),
    (90, "AMDGPUCS"),
    (91, "AMDGPUKERNEL"),
    (92, "X86RegCall"),
    (93, "AMDGPUHS"),
    (94, "MSP430BUILTIN"),
    (95, "AMDGPULS"),
    (96, "AMDGPUES"),
];
/// Attribute n is called ATTRS[n - 1].
const ATTRS: &[&str] = &[
    "Alignment",
    "AlwaysInline",
    "ByVal",
    "InlineHint",
    "InReg",
    "MinSize",
    "Naked",
    "Nest",
    "NoAlias",
    "NoBuiltin",
    "NoCapture",
    "NoDuplicate",
    "NoImplicitFloat",
    "NoInline",
    "NonLazyBind",
    "NoRedZone",
    "NoReturn",
    "NoUnwind",
    "OptimizeForSize",
    "ReadNone",
    "ReadOnly",
    "Returned",
    "ReturnsTwice",
    "SExt",
    "StackAlignment",
    "StackProtect",
    "StackProtectReq",
    "StackProtectStrong",
    "StructRet",
    "SanitizeAddress",
    "SanitizeThread",
    "SanitizeMemory",
    "UwTable",
    "ZExt",
    "Builtin",
    "Cold",
    "OptimizeNone",
    "InAlloca",
    "NonNull",
    "JumpTable",
    "Dereferenceable",
    "DereferenceableOrNull",
    "Convergent",
    "SafeStack",
    "ArgMemOnly",
    "SwiftSelf",
    "SwiftError",
    "NoRecurse",
    "InaccessiblememOnly",
    "InaccessiblememOrArgmemonly",
    "AllocSize",
    "WriteOnly",
    "Speculatable",
    "StrictFp",
    "SanitizeHwAddress",
    "NoCfCheck",
    "OptForFuzzing",
    "Shadowcallstack",
    "SpeculativeLoadHardening",
    "ImmArg",
    "WillReturn",
    "NoFree",
    "NoSync",
    "SanitizeMemtag",
    "Preallocated",
    "NoMerge",
    "NullPointerIsValid",
    "NoUndef",
    "ByRef",
    "MustProgress",
    "NoCallback",
    "Hot",
    "NoProfile",
    "VScaleRange",
    "SwiftAsync",
    "NoSanitizeCoverage",
    "ElementType",
    "DisableSanitizerInstrumentation",
    "NoSanitizeBounds",
    "AllocAlign",
    "AllocatedPointer",
    "AllocKind",
    "PresplitCoroutine",
    "FnretthunkExtern",
    "SkipProfile",
    "Memory",
];
const INTS: &[&str] = &[
    "Alignment",
    "StackAlignment",
    "Dereferenceable",
    "DereferenceableOrNull",
    "AllocSize",
    "VScaleRange",
    "UwTable",
    "AllocKind",
    "MemoryKind",
];
const PLAIN: &[(u64, &str)] = &[
    (2, "Void"),
    (3, "Float"),
    (4, "Double"),
    (5, "Label"),
    (10, "Half"),
    (13, "X86Fp80"),
    (14, "Fp128"),
    (15, "PpcFp128"),
    (16, "Metadata"),
    (17, "X86Mmx"),
    (22, "Token"),
    (23, "BFloat"),
    (24, "X86Amx"),
];
const TYPES: &[&str] = &[
    "Half",
    "BFloat",
    "Float",
    "Double",
    "Metadata",
    "X86Fp80",
    "Fp128",
    "PpcFp128",
    "Void",
    "Label",
    "X86Mmx",
    "X86Amx",
    "Token",
    "Integer",
    "Function",
    "Pointer",
    "OpaquePointer",
    "Struct",
    "Array",
    "FixedVector",
    "ScalableVector",
];

/// A type by its index. `d` is None where nothing is reported.
fn ty(c: &mut Cmp, rep: &Rep, i: u64, d: Option<&D>, depth: u32) {
    let Some(t) = rep.types.get(i as usize) else {
        return;
    };
    let Some(d) = d else {
        return c.skip("type");
    };
    if depth > 70 || *t == TyRep::Open || c.diff.is_some() {
        return;
    }
    let want = match t {
        TyRep::Plain(k) => PLAIN.iter().find(|p| p.0 == *k).map(|p| p.1).unwrap_or("?"),
        TyRep::Int(_) => "Integer",
        TyRep::Ptr(..) => "Pointer",
        TyRep::OpaquePtr(_) => "OpaquePointer",
        TyRep::Array(..) => "Array",
        TyRep::Vector(_, _, false) => "FixedVector",
        TyRep::Vector(_, _, true) => "ScalableVector",
        TyRep::Struct(..) => "Struct",
        TyRep::Fun(..) => "Function",
        TyRep::Open => return,
    };
    c.name("type", Some(d), want, TYPES);
    if c.diff.is_some() {
        return;
    }
    let x = d.nth(0);
    shape(c, rep, t, x, depth);
}
fn shape(c: &mut Cmp, rep: &Rep, t: &TyRep, x: Option<&D>, depth: u32) {
    let f = |k: &str| x.and_then(|x| x.field(k));
    match t {
        TyRep::Plain(_) | TyRep::Open => {}
        TyRep::Int(w) => c.num("integer width", f("bit_width"), *w),
        TyRep::OpaquePtr(s) => c.num("address space of a pointer", x, *s),
        TyRep::Ptr(p, s) => {
            c.num("address space of a pointer", f("address_space"), *s);
            ty(c, rep, *p, f("pointee"), depth + 1);
        }
        TyRep::Array(n, e) => {
            c.num("elements of an array", f("num_elements"), *n);
            ty(c, rep, *e, f("element_type"), depth + 1);
        }
        TyRep::Vector(n, e, _) => {
            c.num("elements of a vector", f("num_elements"), *n);
            ty(c, rep, *e, f("element_type"), depth + 1);
        }
        TyRep::Struct(n, packed, fs) => {
            // No name may be an empty one.
            let got = match f("name").and_then(|d| d.opt()) {
                None => None,
                Some(None) => Some(""),
                Some(Some(x)) => x.str(),
            };
            c.eq("name of a struct", got, n.as_deref().unwrap_or(""));
            c.bool("packed struct", f("is_packed"), *packed);
            tys(c, rep, "fields of a struct", f("fields"), fs, depth);
        }
        TyRep::Fun(va, r, ps) => {
            c.bool("variable arguments", f("is_vararg"), *va);
            ty(c, rep, *r, f("return_type"), depth + 1);
            tys(
                c,
                rep,
                "parameters of a function type",
                f("param_types"),
                ps,
                depth,
            );
        }
    }
}
fn tys(c: &mut Cmp, rep: &Rep, what: &str, d: Option<&D>, want: &[u64], depth: u32) {
    let l = d.and_then(|d| d.list());
    c.eq(what, l.map(|l| l.len()), want.len());
    if let Some(l) = l {
        for (x, i) in l.iter().zip(want) {
            ty(c, rep, *i, Some(x), depth + 1);
        }
    }
}

fn attr(c: &mut Cmp, d: &D, want: &AttrRep) {
    let (k, x) = (d.name(), d.nth(0));
    let kind = match want {
        AttrRep::Enum(_) => "Enum",
        AttrRep::Int(..) => "Int",
        AttrRep::Str(_) => "Str",
        AttrRep::KeyValue(..) => "StrKeyValue",
    };
    c.eq(
        "kind of an attribute",
        k.filter(|k| ["Enum", "Int", "Str", "StrKeyValue"].contains(k)),
        kind,
    );
    if k != Some(kind) {
        return;
    }
    match want {
        AttrRep::Enum(n) => {
            if let Some(want) = ATTRS.get((*n as usize).wrapping_sub(1)) {
                c.name("attribute", x, want, ATTRS);
            }
        }
        AttrRep::Str(s) => c.eq("string attribute", x.and_then(|x| x.str()), s),
        AttrRep::KeyValue(a, b) => {
            c.eq("key of an attribute", x.and_then(|x| x.str()), a);
            c.eq("value of an attribute", d.nth(1).and_then(|x| x.str()), b);
        }
        AttrRep::Int(n, v) => {
            let want = match n {
                1 => "Alignment",
                25 => "StackAlignment",
                33 => "UwTable",
                41 => "Dereferenceable",
                42 => "DereferenceableOrNull",
                51 => "AllocSize",
                74 => "VScaleRange",
                82 => "AllocKind",
                86 => "MemoryKind",
                _ => return,
            };
            c.name("integer attribute", x, want, INTS);
            let Some(x) = x.filter(|x| x.name() == Some(want)) else {
                return;
            };
            match n {
                1 | 25 => c.opt_num(
                    "alignment of an attribute",
                    x.nth(0),
                    Some(*v).filter(|v| *v > 0),
                ),
                33 => {
                    let t = ["None", "Sync", "Async"];
                    if let Some(w) = t.get(*v as usize) {
                        c.name("unwind table kind", x.nth(0), w, &t);
                    }
                }
                51 | 74 => {
                    c.num("first of a pair of values", x.nth(0), v >> 32);
                    let none = if *n == 51 { u32::MAX as u64 } else { 0 };
                    let lo = v & 0xffff_ffff;
                    c.opt_num(
                        "second of a pair of values",
                        x.nth(1),
                        Some(lo).filter(|x| *x != none),
                    );
                }
                _ => c.num("value of an attribute", x.nth(0), *v),
            }
        }
    }
}

fn group(c: &mut Cmp, d: &D, want: &(u64, Vec<AttrRep>)) {
    let x = d.field("disposition");
    let w = match want.0 {
        0 => "Return",
        0xffff_ffff => "Function",
        _ => "Parameter",
    };
    c.name(
        "what attributes are for",
        x,
        w,
        &["Return", "Function", "Parameter"],
    );
    if w == "Parameter" && c.diff.is_none() {
        c.num("parameter that has attributes", x, want.0);
    }
    let l = d.field("attributes").and_then(|d| d.list());
    c.eq("attributes in a group", l.map(|l| l.len()), want.1.len());
    if let Some(l) = l {
        for (d, w) in l.iter().zip(&want.1) {
            attr(c, d, w);
        }
    }
}
fn list(c: &mut Cmp, rep: &Rep, d: Option<&D>, want: &[u64]) {
    let l = d.and_then(|d| d.list());
    c.eq(
        "groups in an attribute list",
        l.map(|l| l.len()),
        want.len(),
    );
    for (d, w) in l.into_iter().flatten().zip(want) {
        if let Some(g) = rep.groups.get(w) {
            group(c, d, g);
        }
    }
}

fn layout(c: &mut Cmp, d: Option<&D>, rep: &Rep) {
    let dl = &rep.dl;
    let f = |k: &str| d.and_then(|d| d.field(k));
    c.name(
        "endianness",
        f("endianness"),
        if dl.big { "Big" } else { "Little" },
        &["Big", "Little"],
    );
    c.opt_num("stack alignment", f("natural_stack_alignment"), dl.stack);
    for (i, k) in ["program", "global_variable", "alloca"].iter().enumerate() {
        let k = format!("{k}_address_space");
        c.num(&k, f(&k), dl.spaces[i]);
    }
    match f("type_alignments").and_then(|d| d.list()) {
        None => c.skip("type alignments"),
        Some(l) => {
            let mut seen = vec![];
            for d in l {
                let t = d.field("aligned_type");
                let k = match t.and_then(|t| t.name()) {
                    Some("Aggregate") => Some(('a', 0)),
                    Some("Float") => t.and_then(|t| t.num()).map(|n| ('f', n as u64)),
                    Some("Integer") => t.and_then(|t| t.num()).map(|n| ('i', n as u64)),
                    Some("Vector") => t.and_then(|t| t.num()).map(|n| ('v', n as u64)),
                    _ => None,
                };
                let Some(k) = k else {
                    c.skip("aligned type");
                    continue;
                };
                match dl.types.get(&k) {
                    None => c.eq("type with an alignment", Some(k), ('-', 0)),
                    Some((a, p)) => {
                        c.num(
                            &format!("ABI alignment of {}{}", k.0, k.1),
                            d.field("abi_alignment"),
                            *a,
                        );
                        c.num(
                            &format!("preferred alignment of {}{}", k.0, k.1),
                            d.field("preferred_alignment"),
                            *p,
                        );
                    }
                }
                seen.push(k);
            }
            if seen.len() == l.len() {
                for k in dl.types.keys() {
                    c.eq("type alignment reported", Some(seen.contains(k)), true);
                }
            }
        }
    }
    match f("pointer_alignments").and_then(|d| d.list()) {
        None => c.skip("pointer alignments"),
        Some(l) => {
            let mut seen = vec![];
            for d in l {
                let Some(s) = d.field("address_space").and_then(|d| d.num()) else {
                    c.skip("address space of a pointer alignment");
                    continue;
                };
                seen.push(s as u64);
                match dl.ptrs.get(&(s as u64)) {
                    None => c.eq("address space with a pointer alignment", Some(s), -1),
                    Some((size, abi, pref, index)) => {
                        c.num(
                            &format!("pointer size of space {s}"),
                            d.field("pointer_size"),
                            *size,
                        );
                        c.num(
                            &format!("pointer alignment of space {s}"),
                            d.field("abi_alignment"),
                            *abi,
                        );
                        c.num(
                            &format!("preferred pointer alignment of space {s}"),
                            d.field("preferred_alignment"),
                            *pref,
                        );
                        c.num(
                            &format!("index size of space {s}"),
                            d.field("index_size"),
                            *index,
                        );
                    }
                }
            }
            if seen.len() == l.len() {
                for k in dl.ptrs.keys() {
                    c.eq("pointer alignment reported", Some(seen.contains(k)), true);
                }
            }
        }
    }
    if let Some((a, _)) = dl.types.get(&('a', 0)) {
        c.num("aggregate alignment", f("aggregate_alignment"), *a);
    }
    match (
        f("function_pointer_alignment").and_then(|d| d.opt()),
        dl.fptr,
    ) {
        (None, _) => c.skip("function pointer alignment"),
        (Some(g), None) => c.eq("function pointer alignment", Some(g.is_some()), false),
        (Some(None), Some(_)) => c.eq("function pointer alignment", Some(false), true),
        (Some(Some(g)), Some((ind, a))) => {
            let known = ["Independent", "MultipleOfFunctionAlign"];
            c.name(
                "kind of function pointer alignment",
                Some(g),
                known[!ind as usize],
                &known,
            );
            c.num("function pointer alignment", Some(g), a);
        }
    }
    match (f("mangling").and_then(|d| d.opt()), dl.mangling) {
        (None, _) => c.skip("mangling"),
        (Some(g), None) => c.eq("mangling", Some(g.is_some()), false),
        (Some(None), Some(_)) => c.eq("mangling", Some(false), true),
        (Some(Some(g)), Some(m)) => c.name("mangling", Some(g), m, MANGLINGS),
    }
    c.nums(
        "native integer widths",
        f("native_integer_widths"),
        &dl.native,
    );
    c.nums(
        "non-integral address spaces",
        f("non_integral_address_spaces"),
        &dl.nonint,
    );
}

fn text<'a>(m: &'a ModObs, f: &[u64]) -> Option<&'a str> {
    let s = m
        .strtab
        .get(f[0] as usize..f[0].checked_add(f[1])? as usize)?;
    std::str::from_utf8(s).ok()
}

fn module(c: &mut Cmp, m: &ModObs, rep: &Rep, d: &D) {
    let f = |k: &str| d.field(k);
    c.opt_num("version", f("version"), Some(rep.version));
    layout(c, f("datalayout"), rep);
    c.strs("section names", f("section_table"), &rep.sections);
    c.strs("collector names", f("gc_table"), &rep.gcs);
    let tab: Vec<u64> = m.strtab.iter().map(|x| *x as u64).collect();
    c.nums("string table", f("strtab"), &tab);
    match f("type_table").and_then(|d| d.opt()) {
        None | Some(None) => c.skip("type table"),
        Some(Some(d)) => match d.list() {
            None => c.skip("type table"),
            Some(l) => {
                c.eq("number of types", Some(l.len()), rep.types.len());
                for (i, d) in l.iter().enumerate() {
                    ty(c, rep, i as u64, Some(d), 0);
                }
            }
        },
    }
    match f("attribute_groups").and_then(|d| d.map()) {
        None => c.skip("attribute groups"),
        Some(l) => {
            c.eq(
                "number of attribute groups",
                Some(l.len()),
                rep.groups.len(),
            );
            for (k, d) in l {
                match k.num().map(|k| rep.groups.get(&(k as u64))) {
                    None => c.skip("id of an attribute group"),
                    Some(None) => c.eq("attribute group", k.num(), -1),
                    Some(Some(g)) => group(c, d, g),
                }
            }
        }
    }
    match f("attributes").and_then(|d| d.list()) {
        None => c.skip("attribute lists"),
        Some(l) => {
            c.eq("number of attribute lists", Some(l.len()), rep.lists.len());
            for (d, w) in l.iter().zip(&rep.lists) {
                list(c, rep, Some(d), w);
            }
        }
    }
    match f("comdats").and_then(|d| d.list()) {
        None => c.skip("comdats"),
        Some(l) => {
            c.eq("number of comdats", Some(l.len()), rep.comdats.len());
            for (d, w) in l.iter().zip(&rep.comdats) {
                if let Some(k) = COMDATS.get((w[2] as usize).wrapping_sub(1)) {
                    c.name("kind of a comdat", d.field("selection_kind"), k, COMDATS);
                }
                if let Some(n) = text(m, w) {
                    c.eq("name of a comdat", d.field("name").and_then(|d| d.str()), n);
                }
            }
        }
    }
}

fn index<'a>(l: &'a [String], i: u64) -> Option<&'a str> {
    l.get((i as usize).checked_sub(1)?).map(|s| s.as_str())
}

fn functions(c: &mut Cmp, m: &ModObs, rep: &Rep, l: &[D]) {
    c.eq("number of functions", Some(l.len()), rep.funs.len());
    for (d, w) in l.iter().zip(&rep.funs) {
        let f = |k: &str| d.field(k);
        if let Some(n) = text(m, w) {
            c.eq("name of a function", f("name").and_then(|d| d.str()), n);
        }
        if let Some(t) = rep.types.get(w[2] as usize) {
            shape(c, rep, t, f("ty"), 0);
        }
        if let Some(k) = CCS.iter().find(|k| k.0 == w[3]) {
            let all: Vec<&str> = CCS.iter().map(|k| k.1).collect();
            c.name("calling convention", f("calling_convention"), k.1, &all);
        }
        c.bool("declaration", f("is_declaration"), w[4] != 0);
        c.name(
            "linkage of a function",
            f("linkage"),
            linkage(w[5]),
            LINKAGES,
        );
        match f("attributes").and_then(|d| d.opt()) {
            None => c.skip("attributes of a function"),
            Some(x) => {
                c.eq("function with attributes", Some(x.is_some()), w[6] != 0);
                if let Some(l) = rep.lists.get((w[6] as usize).wrapping_sub(1)) {
                    list(c, rep, x, l);
                }
            }
        }
        let al = w[7].checked_sub(1).and_then(|s| 1u64.checked_shl(s as u32));
        c.opt_num("alignment of a function", f("alignment"), al);
        c.opt_str(
            "section of a function",
            f("section"),
            index(&rep.sections, w[8]),
        );
        c.name(
            "visibility of a function",
            f("visibility"),
            VISIBILITIES.get(w[9] as usize).unwrap_or(&"?"),
            VISIBILITIES,
        );
        c.opt_str(
            "collector of a function",
            f("gc_name"),
            w.get(10).and_then(|i| index(&rep.gcs, *i)),
        );
        c.name(
            "unnamed_addr of a function",
            f("unnamed_addr"),
            w.get(11)
                .and_then(|x| UNNAMED.get(*x as usize))
                .unwrap_or(&"None"),
            UNNAMED,
        );
        c.name(
            "storage class of a function",
            f("storage_class"),
            w.get(13)
                .and_then(|x| STORAGES.get(*x as usize))
                .unwrap_or(&"Default"),
            STORAGES,
        );
    }
}
fn aliases(c: &mut Cmp, m: &ModObs, rep: &Rep, l: &[D]) {
    c.eq("number of aliases", Some(l.len()), rep.aliases.len());
    for (d, w) in l.iter().zip(&rep.aliases) {
        let f = |k: &str| d.field(k);
        if let Some(n) = text(m, w) {
            c.eq("name of an alias", f("name").and_then(|d| d.str()), n);
        }
        ty(c, rep, w[2], f("ty"), 0);
        c.num("aliasee", f("value_index"), w[4]);
        c.name("linkage of an alias", f("linkage"), linkage(w[5]), LINKAGES);
        let at = |i: usize, l: &[&'static str], no: usize, unknown: usize| -> &'static str {
            match w.get(i) {
                None => l[no],
                Some(x) => l.get(*x as usize).unwrap_or(&l[unknown]),
            }
        };
        c.name(
            "visibility of an alias",
            f("visibility"),
            at(6, VISIBILITIES, 0, 0),
            VISIBILITIES,
        );
        c.name(
            "storage class of an alias",
            f("storage_class"),
            at(7, STORAGES, 0, 0),
            STORAGES,
        );
        c.name(
            "thread-local mode of an alias",
            f("tls_mode"),
            at(8, TLS, 0, 1),
            TLS,
        );
        c.name(
            "unnamed_addr of an alias",
            f("unnamed_addr"),
            at(9, UNNAMED, 0, 0),
            UNNAMED,
        );
        c.name(
            "preemption of an alias",
            f("preemption_specifier"),
            at(10, PREEMPT, 0, 0),
            PREEMPT,
        );
    }
}

/// Messages of one module.
#[derive(Default)]
struct Said<'a> {
    ctx: &'a str,
    funs: Option<&'a str>,
    aliases: Option<&'a str>,
}

/// The log lines of each module.
fn split(said: &[String]) -> Vec<Said<'_>> {
    let mut mods: Vec<Said> = vec![];
    for s in said {
        if s.contains("PartialMapCtx {") {
            mods.push(Said {
                ctx: s,
                ..Default::default()
            });
        } else if let Some(m) = mods.last_mut() {
            if s.starts_with("functions") {
                m.funs = Some(s);
            } else {
                m.aliases = Some(s);
            }
        }
    }
    mods
}
fn compare(m: &ModObs, rep: &Rep, s: &Said) -> Cmp {
    let mut k = Cmp::default();
    match dbg::parse(s.ctx, "PartialMapCtx {") {
        None => k.skip("context"),
        Some(d) => module(&mut k, m, rep, &d),
    }
    match s.funs.and_then(dbg::parse_after) {
        Some(D::List(l)) => functions(&mut k, m, rep, &l),
        _ => k.skip("functions"),
    }
    match s.aliases.and_then(dbg::parse_after) {
        Some(D::List(l)) => aliases(&mut k, m, rep, &l),
        _ => k.skip("aliases"),
    }
    k
}
/// The first difference between what a file says and what was reported about it.
pub fn file(want: &[ModObs], said: &[String]) -> (u64, u64, Option<String>) {
    let mods = split(said);
    let (mut seen, mut unseen) = (0, 0);
    for (i, (m, s)) in want.iter().zip(&mods).enumerate() {
        let Some(rep) = &m.rep else {
            continue;
        };
        let k = compare(m, rep, s);
        seen += k.seen;
        unseen += k.unseen;
        if let Some((what, text)) = k.diff {
            return (seen, unseen, Some(format!("module {i}: {what}: {text}")));
        }
    }
    (seen, unseen, None)
}

pub struct C19;
impl Prop for C19 {
    const ID: &'static str = "C19";
    type Plan = MapPlan;
    const RUNS: (u64, u64) = (400_000, 30_000_000);
    fn gen(r: &mut Rng, _: u64) -> MapPlan {
        let mut cfg = if r.chance(1, 1000) {
            MCfg::huge(r)
        } else {
            MCfg::random(r)
        };
        cfg.groups = cfg.groups.min(2);
        cfg.mods = cfg.mods.min(2);
        cfg.attrs = r.chance(5, 6);
        cfg.funs = *r.pick(&[2, 6]);
        let s = gen_file(r, &cfg);
        let mut p = MapPlan {
            s,
            muts: vec![],
            claims: vec![],
            faults: vec![],
            late: vec![],
            log: false,
        };
        match r.below(8) {
            0..=2 => {}
            3..=6 => p.muts = gen_muts(r, &p.s, 2),
            _ => {
                let e = emit(&p.s, &[]);
                let mix = faults::FaultMix::random(r);
                p.faults = (0..r.range(1, 3))
                    .map(|_| {
                        if e.bytes.is_empty() {
                            BFault::Words
                        } else if r.chance(1, 2) {
                            BFault::Flip {
                                bit: r.below(e.bytes.len() as u64 * 8),
                            }
                        } else {
                            faults::one(r, &e, &mix)
                        }
                    })
                    .collect();
                p.faults.push(BFault::Words);
            }
        }
        p
    }
    fn exec(p: &MapPlan, c: &mut Ctx) -> Result<(), Violation> {
        let b = p.bytes(c);
        // Of large files only those that were written that way.
        let large = b.len() > 3000 && emit(&p.s, &[]).bytes.len() > b.len() / 3 * 2;
        let (nodes, most) = if large {
            (200_000, 4_000_000)
        } else {
            (20_000, 40_000)
        };
        if expands_by(&b, nodes, 1 << 20) || b.len() > most {
            c.probe("too large a report");
            return Ok(());
        }
        let Expect::Accept(want) = meaning(&b) else {
            c.probe("not to be accepted, or open");
            return Ok(());
        };
        let (got, said) = seams::capture(|| {
            guard("mapping", || {
                Bitcode::try_from(&b[..]).map(|b| observe(&b)).ok()
            })
        });
        c.steps += 1;
        let got = got?.unwrap_or_default();
        if got.len() != want.len() {
            // What C13 and C06 decide.
            c.probe("not mapped as expected");
            return Ok(());
        }
        if let Some(d) = difference(&want, &got) {
            return viol("wrong contents of a module", d);
        }
        let mods = split(&said);
        if mods.len() != want.len() {
            c.probe("modules not reported");
            return Ok(());
        }
        for s in &said {
            // The order in maps is not part of the report.
            c.trace.add(s.len() as u64);
        }
        c.trace.add(b.len() as u64);
        for (i, (m, s)) in want.iter().zip(&mods).enumerate() {
            let Some(rep) = &m.rep else {
                continue;
            };
            let k = compare(m, rep, s);
            c.probe_n("facts compared", k.seen);
            c.trace.add(k.seen);
            if let Some(w) = k.unseen_at {
                c.probe_n("facts not reported", k.unseen);
                c.probe(&format!("not reported: {w}"));
            }
            c.nontrivial |= k.seen > 0;
            if let Some((what, text)) = k.diff {
                return viol(
                    &format!("wrong report: {what}"),
                    format!("module {i}: {what}: {text}"),
                );
            }
        }
        Ok(())
    }
    fn shrink(p: &MapPlan) -> Vec<MapPlan> {
        p.shrink()
    }
    fn meta() -> Meta {
        let mut stub =
            vec!["logger: keeps what mapping reports of modules and hands it to the check"];
        stub.extend(MAP_STUB.iter().filter(|s| !s.starts_with("logger")));
        Meta {
            rule: "a run writes a random multi-module file with functions, aliases, comdats, attributes, types and a data layout, intact, with altered records or with rotten bytes, and compares everything mapping reports of every module, if the file is to be accepted, with what its records say; non-trivial: something was compared; distinct: by hash of the sizes of the reports and the number of facts",
            real: MAP_REAL,
            stub: Box::leak(stub.into_boxed_slice()),
            time_unit: "mapped files",
            assumptions: &[
                "a clean batch of seeded runs is evidence, not proof",
                "mapping reports through debug log messages with derived Debug output; what is not reported, or in another shape, is counted ('not reported' probes) and not judged",
            ],
        }
    }
}
