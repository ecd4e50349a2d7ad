//! C17 functions found in DWARF, C16 crashes on object files.

use crate::dwarf::{self, Debug, Limits, Name};
use crate::graph::{known_generic, Kind};
use crate::object::{self, Container};
use crate::runner::{Check, Ctx};
use crate::source::Source;
use crate::sut;
use std::collections::BTreeMap;
use std::path::PathBuf;
use twiggy_ir as ir;
use twiggy_parser as parser;
use twiggy_traits as traits;

const TRUST: &[&str] = &[
    "object files are produced by an ELF/Mach-O/PE/COFF/wasm and DWARF writer made for this check from the specifications",
    "linked files only (debug sections need no relocation), names are UTF-8, sizes add up to less than 4 GiB, no split or supplementary debug files",
];

pub static CHECKS: &[&Check] = &[
    &Check { id: "C17", rule: "random DWARF 2-5 descriptions (units, nesting, forms, byte orders, address sizes, containers); non-trivial: at least two function definitions among other entries", assumptions: TRUST, tape: 5000, quick: 300_000, thorough: 8_000_000, run: c17, serial: false },
    &Check { id: "C16", rule: "generated object files with damage inside debug sections, headers and section tables, cut off, and byte strings behind a known magic; every report on what still parses; non-trivial: the file has debug sections and is damaged in or behind them, or is accepted", assumptions: &["run with overflow checks and debug assertions in twiggy; in the libraries that read object files arithmetic wraps, as in a released build", "an allocation of 64 GiB or more, or more than 1 GiB of one that is filled, counts as a crash; smaller ones as memory use", "time and memory proportional to the input and to the report asked for are not failures"], tape: 3000, quick: 300_000, thorough: 8_000_000, run: c16, serial: false },
];

thread_local! {
    static FILE: (super::Scratch, PathBuf) = {
        let s = super::scratch("obj").expect("scratch directory");
        let p = s.path.join("input.bin");
        (s, p)
    };
}

/// `Ok(Ok(_))` parsed, `Ok(Err(_))` rejected, `Err(_)` panicked.
pub fn parse(bytes: &[u8], mode: traits::ParseMode) -> Result<Result<ir::Items, String>, String> {
    FILE.with(|(_, p)| {
        std::fs::write(p, bytes).map_err(|e| format!("HARNESS: {e}"))?;
        sut::catch("parsing", || parser::read_and_parse(p, mode).map_err(|e| e.to_string()))
    })
}

fn mangled(s: &mut Source) -> (String, String) {
    if s.chance(1, 2) {
        let (m, d, _) = super::names::legacy(s);
        (m, d)
    } else {
        const C: &[(&str, &str)] = &[("_Z1fv", "f()"), ("_ZN1a1bIiEEvv", "void a::b<int>()"), ("_Z3fooid", "foo(int, double)"), ("_RNvC1a1f", "a[0]::f")];
        let (m, d) = s.pick(C);
        (m.to_string(), d.to_string())
    }
}

pub fn debug(s: &mut Source, units: usize, entries: usize) -> Debug {
    dwarf::generate(s, &Limits { units, entries, mangled })
}

pub fn file(s: &mut Source, d: &mut Debug) -> (Vec<u8>, Container) {
    let kind = object::pick(s, d.big);
    let secs: Vec<(&str, Vec<u8>)> = d.sections.iter().map(|(k, v)| (*k, v.clone())).collect();
    let mut feats = std::mem::take(&mut d.features);
    let b = object::write(s, kind, d.big, &secs, &mut feats);
    d.features = feats;
    (b, kind)
}

fn is_subroutine(n: &str) -> bool {
    n.strip_prefix("Subroutine[")
        .and_then(|r| r.strip_suffix(']'))
        .and_then(|r| r.split_once("]["))
        .map_or(false, |(a, b)| !a.is_empty() && !b.is_empty() && a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()))
}

fn c17(c: &mut Ctx) -> Result<(), String> {
    let (units, entries) = if c.thorough { (8, 120) } else { (4, 40) };
    let head: Vec<u32> = (0..64).map(|_| c.s.raw()).collect();
    let mut d = debug(&mut c.s, units, entries);
    let (bytes, kind) = file(&mut Source::new(&head), &mut d);
    c.label(kind.label());
    for f in &d.features {
        c.label(f);
    }
    c.label_if(d.big, "big-endian");
    c.id(&bytes);
    c.file("input.o", &bytes);
    c.sample(|| format!("{} {:?}, {} entries, functions {:?}", kind.label(), d.units.iter().map(|u| (u.version, u.addr_size, u.dwarf64)).collect::<Vec<_>>(), d.entries, d.functions.iter().take(8).map(|f| (&f.name, f.size)).collect::<Vec<_>>()));
    c.nontrivial = d.functions.len() >= 2 && d.entries >= 4;
    let items = parse(&bytes, traits::ParseMode::Dwarf)?.map_err(|e| format!("a well-formed {} file is rejected: {e}", kind.label()))?;
    let (g, _) = sut::view(&items)?;
    let mut got: BTreeMap<(String, u32), usize> = BTreeMap::new();
    for n in &g.nodes {
        if n.kind != Kind::Code {
            return Err(format!("item {:?} of {} bytes is not a function", n.name, n.size));
        }
        if n.generic != known_generic(&n.name) {
            return Err(format!("function {:?} is said to be an instantiation of {:?}", n.name, n.generic));
        }
        *got.entry((n.name.clone(), n.size)).or_insert(0) += 1;
    }
    let all = got.clone();
    let take = |k: &(String, u32), got: &mut BTreeMap<(String, u32), usize>| match got.get_mut(k) {
        Some(n) => {
            *n -= 1;
            if *n == 0 {
                got.remove(k);
            }
            true
        }
        None => false,
    };
    let show = || {
        let want: Vec<_> = d.functions.iter().map(|f| (&f.name, f.size)).collect();
        format!("\n  described: {want:?}\n  found: {all:?}")
    };
    let mut unnamed: Vec<(u32, Option<&str>)> = vec![];
    // names given by the entry itself come first, another may have the same
    let own = |f: &&dwarf::Function| matches!(f.name, Name::Own(_));
    for f in d.functions.iter().filter(own).chain(d.functions.iter().filter(|f| !own(f))) {
        match &f.name {
            Name::Own(n) => {
                if !take(&(n.clone(), f.size), &mut got) {
                    return Err(format!("function {n:?} of {} bytes is missing.{}", f.size, show()));
                }
            }
            Name::Referenced(n) => {
                if !take(&(n.clone(), f.size), &mut got) {
                    unnamed.push((f.size, Some(n)));
                }
            }
            Name::None => unnamed.push((f.size, None)),
        }
    }
    for (size, name) in unnamed {
        let k = got.keys().find(|k| k.1 == size && is_subroutine(&k.0)).cloned();
        match k {
            Some(k) => {
                take(&k, &mut got);
                if let Some(n) = name {
                    c.known("C17", "name-by-reference", || format!("function {n:?}, whose name is given by the entry it refers to, is shown as {:?}", k.0))?;
                }
            }
            None => return Err(format!("function {name:?} of {size} bytes is missing.{}", show())),
        }
    }
    if let Some((k, n)) = got.iter().next() {
        return Err(format!("{n} items {k:?} describe no function.{}", show()));
    }
    if !g.roots.is_empty() || g.edges.iter().any(|e| !e.is_empty()) {
        return Err("items from debug information have references".into());
    }
    Ok(())
}

/// Damage that fixed-size fields are sensitive to.
fn damage(s: &mut Source, d: &mut Vec<u8>, big: bool) {
    for _ in 0..1 + s.weighted(&[6, 2, 1]) {
        if d.is_empty() {
            return;
        }
        let i = s.below(d.len());
        match s.below(6) {
            0 | 1 => {
                let n = *s.pick(&[1usize, 2, 4, 4, 8]);
                let v = match s.below(5) {
                    0 => u64::MAX,
                    1 => u64::from(s.u32_any()),
                    2 => s.raw64(),
                    3 => 1 << 63 | u64::from(s.u32_any()),
                    _ => 0u64.wrapping_sub(u64::from(s.u32_any() & 0xff)),
                };
                let b = if big { v.to_be_bytes()[8 - n..].to_vec() } else { v.to_le_bytes()[..n].to_vec() };
                let n = n.min(d.len() - i);
                d[i..i + n].copy_from_slice(&b[..n]);
            }
            _ => crate::mutate::bytes(s, d),
        }
    }
}

/// Judge a failure of the code under test on a damaged object file.
fn judge(c: &mut Ctx, m: String) -> Result<(), String> {
    if m.contains("/registry/src/") {
        // wraps in a released build
        if ["goblin-", "gimli-", "object-"].iter().any(|l| m.contains(l)) && m.contains(": attempt to ") && m.ends_with(" with overflow") {
            c.label("wraps inside a library");
            return Ok(());
        }
        if std::env::var_os("TWV_SITES").is_some() {
            eprintln!("SITE {m}");
            return Ok(());
        }
        return c.known_panic("C16", m);
    }
    Err(m)
}

/// The recorded finding, tried once in every run: a Mach-O file whose thread
/// command counts more registers than the file has.
fn probe_thread(c: &mut Ctx) -> Result<(), String> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    let mut first = false;
    ONCE.call_once(|| first = true);
    if !first {
        return Ok(());
    }
    let words: [u32; 12] = [0xfeed_facf, 0x0100_0007, 3, 2, 1, 16, 0, 0, 5, 16, 4, 1000];
    let bytes: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
    match parse(&bytes, traits::ParseMode::Dwarf) {
        Ok(_) => Ok(()),
        Err(m) => judge(c, m),
    }
}

fn c16(c: &mut Ctx) -> Result<(), String> {
    probe_thread(c)?;
    let how = c.s.weighted(&[10, 5, 2, 1, 1]);
    let head: Vec<u32> = (0..64).map(|_| c.s.raw()).collect();
    let mut marks: Vec<u32> = (0..48).map(|_| c.s.raw()).collect();
    let mut d = debug(&mut c.s, 2, 12);
    let ms = &mut Source::new(&marks);
    if how == 0 {
        // damage the contents, not the file around it
        let keys: Vec<&'static str> = d.sections.keys().copied().collect();
        for _ in 0..1 + ms.below(2) {
            let k = if ms.chance(1, 2) { ".debug_info" } else { *ms.pick(&keys) };
            let big = d.big;
            damage(ms, d.sections.get_mut(k).unwrap(), big);
        }
        if ms.chance(1, 12) {
            let k = *ms.pick(&keys);
            d.sections.remove(k);
        }
    }
    let (mut bytes, kind) = file(&mut Source::new(&head), &mut d);
    match how {
        0 => {}
        1 => damage(ms, &mut bytes, d.big),
        2 => {
            let n = ms.below(bytes.len() + 1);
            bytes.truncate(n);
        }
        3 => {
            // headers
            let n = ms.below(bytes.len().min(200));
            let mut h = bytes[..n].to_vec();
            damage(ms, &mut h, d.big);
            bytes.splice(..n, h);
        }
        _ => {
            let n = 4 + ms.below(4);
            bytes.truncate(n);
            let k = c.s.below(200);
            marks.clear();
            for _ in 0..k {
                bytes.push(if c.s.chance(1, 2) { c.s.raw() as u8 } else { *c.s.pick(&[0u8, 1, 2, 4, 8, 0x40, 0x80, 0xff]) });
            }
        }
    }
    c.label(["damaged debug sections", "damaged file", "cut file", "damaged headers", "bytes"][how]);
    c.label(kind.label());
    c.id(&bytes);
    c.file("input.o", &bytes);
    c.sample(|| format!("{}, {} bytes", kind.label(), bytes.len()));
    let parsed = match parse(&bytes, traits::ParseMode::Dwarf) {
        Ok(p) => p,
        Err(m) => return judge(c, m),
    };
    match parsed {
        Err(_) => {
            c.label("rejected");
            c.nontrivial = how != 4 && bytes.len() > 64;
            Ok(())
        }
        Ok(mut items) => {
            c.label("accepted");
            c.nontrivial = true;
            let mut other = None;
            if c.s.chance(1, 4) {
                other = Some(sut::view(&items)?.0.build(0).0);
            }
            super::fuzz::all_reports(c, &mut items, other.as_mut(), false)
        }
    }
}
