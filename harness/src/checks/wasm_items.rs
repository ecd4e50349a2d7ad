//! C01 sizes, C02 names and kinds, C03 references of wasm items.

use crate::graph::{Graph, Kind};
use crate::runner::{Check, Ctx};
use crate::sut;
use crate::wasm::{self, WasmOpts};
use std::collections::BTreeMap;

const TRUST: &[&str] = &[
    "modules are produced by an encoder written for this check from the WebAssembly binary format; it emits core modules with several memories, reference types, bulk memory, multi-value, SIMD constants and tail calls",
    "items are matched by name, kind and size, never by identifier or order",
];

pub static CHECKS: &[&Check] = &[
    &Check { id: "C01", rule: "random well-formed modules (all section kinds, padded integers, custom sections anywhere); non-trivial: at least 3 kinds of entry sections and at least one function", assumptions: TRUST, tape: 900, quick: 400_000, thorough: 6_000_000, run: c01, serial: false },
    &Check { id: "C02", rule: "random well-formed modules with partial name sections; non-trivial: imported functions or a name section that names some but not all functions", assumptions: TRUST, tape: 900, quick: 400_000, thorough: 6_000_000, run: c02, serial: false },
    &Check { id: "C03", rule: "random well-formed modules; non-trivial: at least 4 references of at least 3 kinds (call, global, data, export, element, start, type)", assumptions: TRUST, tape: 1200, quick: 400_000, thorough: 6_000_000, run: c03, serial: false },
];

fn module(c: &mut Ctx, o: &WasmOpts) -> (wasm::Module, Vec<u8>, wasm::Expected) {
    let m = wasm::generate(&mut c.s, o);
    let (bytes, exp) = wasm::encode(&m);
    c.id(&bytes);
    c.sample(|| m.describe());
    c.file("module.wasm", &bytes);
    if let Some((_, n)) = m.big {
        c.label(if n > 65_535 { "more than 65535 of something" } else { "more than 100 of something" });
    }
    (m, bytes, exp)
}

fn opts(c: &mut Ctx) -> WasmOpts {
    let unique = !c.s.chance(1, 4);
    WasmOpts {
        max_funcs: if c.thorough { 40 } else { 14 },
        odd_names: c.s.chance(1, 4),
        generics: c.s.chance(1, 4),
        sparse: false,
        unique,
        telling_names: !unique && c.s.chance(1, 2),
        pad: true,
        big: true,
    }
}

/// What twiggy calls the section of tags is not specified.
fn tag_section(mut g: Graph) -> Graph {
    for n in &mut g.nodes {
        if n.name.starts_with("TagSection") {
            n.name = "tag section headers".into();
        }
    }
    g
}

fn multiset<T: Ord>(it: impl Iterator<Item = T>) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in it {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}

fn diff_multiset<T: Ord + std::fmt::Debug>(what: &str, got: &BTreeMap<T, usize>, want: &BTreeMap<T, usize>) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let mut s = format!("{what} differ from the module's.");
    for (k, n) in want {
        let g = got.get(k).copied().unwrap_or(0);
        if g < *n {
            s.push_str(&format!("\n  missing: {k:?} (expected {n}, found {g})"));
        }
    }
    for (k, n) in got {
        let w = want.get(k).copied().unwrap_or(0);
        if w < *n {
            s.push_str(&format!("\n  extra: {k:?} (expected {w}, found {n})"));
        }
    }
    Err(s.chars().take(3000).collect())
}

fn c01(c: &mut Ctx) -> Result<(), String> {
    let o = opts(c);
    let (m, bytes, exp) = module(c, &o);
    let kinds = [m.imports.len(), m.tables.len(), m.globals.len(), m.exports.len(), m.elems.len(), m.datas.len(), usize::from(m.memory)].iter().filter(|n| **n > 0).count();
    c.nontrivial = kinds >= 3 && !m.funcs.is_empty();
    c.label_if(!m.pads.is_empty(), "padded integers");
    c.label_if(m.empty_sections, "empty sections");
    c.label_if(m.datas.iter().any(|d| d.offset.is_none()), "passive data");
    c.label_if(m.elems.iter().any(|e| e.exprs), "expression elements");
    c.label_if(m.customs.iter().any(|(p, _)| *p < 10), "custom section before code");
    let esum: usize = exp.items.iter().map(|i| i.size).sum();
    assert_eq!(esum, bytes.len(), "the model does not account for the file");
    if c.s.chance(1, 3) {
        return c01_variant(c, &bytes);
    }
    let items = sut::must_parse(&bytes)?;
    let g = tag_section(sut::view(&items)?.0);
    if g.total as usize != bytes.len() {
        return Err(format!("the file has {} bytes but its size is given as {}", bytes.len(), g.total));
    }
    // The kind keeps "custom section" items of equal names apart.
    let got = multiset(g.nodes.iter().map(|n| (n.name.clone(), n.size as usize)));
    let want = multiset(exp.items.iter().map(|n| (n.name.clone(), n.size)));
    let sum: u64 = g.sum(|_| true);
    if sum != bytes.len() as u64 {
        return Err(format!("item sizes add up to {sum}, the file has {} bytes", bytes.len()));
    }
    if got.keys().map(|k| &k.0).eq(want.keys().map(|k| &k.0)) || got.len() == want.len() {
        diff_multiset("item sizes", &got, &want)
    } else {
        diff_multiset("items", &got, &want)
    }
}

/// A damaged module that a validator still takes for a valid one may hold
/// encodings that the generator does not produce.
fn c01_variant(c: &mut Ctx, bytes: &[u8]) -> Result<(), String> {
    c.nontrivial = false;
    let mut v = bytes.to_vec();
    for _ in 0..6 {
        let d = crate::mutate::module(&mut c.s, &v, bytes);
        if valid(&d) {
            v = d;
        }
    }
    // validators do not look into custom sections
    let before = crate::mutate::sections(bytes);
    if crate::mutate::sections(&v).iter().any(|s| s.id == 0 && !before.iter().any(|b| b.id == 0 && b.body == s.body)) {
        return Ok(());
    }
    let ids: Vec<u8> = crate::mutate::sections(&v).iter().map(|s| s.id).collect();
    if v == bytes || !ids.contains(&3) || !ids.contains(&10) {
        return Ok(());
    }
    c.nontrivial = true;
    c.label("valid variant");
    c.id(&v);
    c.file("variant.wasm", &v);
    let items = sut::must_parse(&v)?;
    let g = tag_section(sut::view(&items)?.0);
    let sum: u64 = g.sum(|_| true);
    if g.total as usize != v.len() || sum != v.len() as u64 {
        return Err(format!("a valid module has {} bytes; its size is given as {} and the item sizes add up to {sum}", v.len(), g.total));
    }
    Ok(())
}

/// Whether this is a valid core module.
fn valid(b: &[u8]) -> bool {
    let f = wasmparser::WasmFeatures {
        reference_types: true,
        module_linking: false,
        simd: true,
        multi_value: true,
        threads: true,
        tail_call: true,
        bulk_memory: true,
        deterministic_only: false,
        multi_memory: true,
        exceptions: true,
        memory64: false,
    };
    let mut v = wasmparser::Validator::new();
    v.wasm_features(f);
    v.validate_all(b).is_ok()
}

fn c02(c: &mut Ctx) -> Result<(), String> {
    let o = opts(c);
    let (m, bytes, exp) = module(c, &o);
    let named: usize = exp.items.iter().filter(|i| i.kind == Kind::Code && !i.name.starts_with("code[")).count();
    c.nontrivial = m.n_imp_funcs() > 0 || (named > 0 && named < m.funcs.len());
    c.label_if(m.n_imp_funcs() > 0, "imported functions");
    c.label_if(named > 0 && named < m.funcs.len(), "partly named");
    c.label_if(exp.items.iter().any(|i| i.name.starts_with("data segment")), "named data");
    let items = sut::must_parse(&bytes)?;
    let g = tag_section(sut::view(&items)?.0);
    let got = multiset(g.nodes.iter().map(|n| (n.name.clone(), n.kind, n.size)));
    let want = multiset(exp.items.iter().map(|n| (n.name.clone(), n.kind, n.size as u32)));
    diff_multiset("item names and kinds", &got, &want)?;
    // The name belongs to the right entry: sizes may coincide, so also compare
    // what the named item refers to and is referred to by.
    let want_g = exp.graph(bytes.len(), false);
    compare_edges(&identifying(&g), &identifying(&want_g), "a name is attached to the wrong entry: references")?;
    for n in &g.nodes {
        if n.kind == Kind::Code && n.generic != crate::graph::known_generic(&n.name) {
            return Err(format!("{:?} is taken as an instance of {:?}", n.name, n.generic));
        }
    }
    Ok(())
}

fn compare_edges(got: &Graph, want: &Graph, what: &str) -> Result<(), String> {
    let edges = |g: &Graph| {
        multiset(g.edges.iter().enumerate().flat_map(|(a, bs)| {
            let an = (g.nodes[a].name.clone(), g.nodes[a].size);
            bs.iter().map(|b| (an.clone(), (g.nodes[*b].name.clone(), g.nodes[*b].size))).collect::<Vec<_>>()
        }))
    };
    diff_multiset(what, &edges(got), &edges(want))
}

/// Only the references that exports, element segments and types are part of.
fn identifying(g: &Graph) -> Graph {
    let mut g = g.clone();
    for a in 0..g.n() {
        let keep = g.nodes[a].kind == Kind::Misc;
        let nodes = &g.nodes;
        g.edges[a].retain(|b| keep || nodes[*b].kind == Kind::Misc);
    }
    g
}

fn c03(c: &mut Ctx) -> Result<(), String> {
    let mut o = opts(c);
    o.unique = !c.s.chance(1, 10);
    let (m, bytes, exp) = module(c, &o);
    let want = exp.graph(bytes.len(), false);
    let mut kinds = std::collections::BTreeSet::new();
    for (a, b) in &exp.edges {
        let k = |i: &wasm::Item| i.name.split(|ch: char| !ch.is_ascii_alphabetic()).next().unwrap_or("").to_string();
        let (ka, kb) = (k(&exp.items[*a]), if exp.items[*b].kind == Kind::Code { "code".to_string() } else { k(&exp.items[*b]) });
        kinds.insert((exp.items[*a].kind, ka.len().min(7), kb));
    }
    c.nontrivial = exp.edges.len() >= 4 && kinds.len() >= 3;
    let code = |i: &usize| exp.items[*i].kind == Kind::Code;
    c.label_if(exp.edges.iter().any(|(a, b)| a == b), "self call");
    c.label_if(!exp.by_address.is_empty(), "code to data");
    c.label_if(exp.edges.iter().any(|(a, b)| code(a) && exp.items[*b].name.starts_with("import")), "code to import");
    c.label_if(m.imports.iter().any(|i| matches!(i.kind, wasm::ImportKind::Table(_))), "imported table");
    c.label_if(m.imports.iter().any(|i| matches!(i.kind, wasm::ImportKind::Global(..))), "imported global");
    c.label_if(m.start.is_some(), "start");
    c.label_if(m.imports.iter().any(|i| matches!(i.kind, wasm::ImportKind::Tag(_))), "imported tag");
    c.label_if(m.elems.iter().any(|e| e.external), "external element");
    c.label_if(m.elems.iter().any(|e| matches!(e.mode, wasm::ElemMode::Active(_))), "active element");
    let items = sut::must_parse(&bytes)?;
    let g = tag_section(sut::view(&items)?.0);
    if let Err(e) = compare_edges(&g, &want, "references") {
        if compare_edges(&g, &exp.graph(bytes.len(), true), "").is_err() {
            return Err(e);
        }
        c.known("C03", "address-lookup", || e)?;
    }
    let roots = |g: &Graph| multiset(g.roots.iter().map(|r| (g.nodes[*r].name.clone(), g.nodes[*r].size)));
    diff_multiset("entry points", &roots(&g), &roots(&want))
}
