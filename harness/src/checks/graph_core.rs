//! C05, C06, C20, C24: the item graph and what is computed on it.

use crate::graph::{self, Graph, GraphOpts};
use crate::runner::{Check, Ctx};
use crate::{sut, wasm};
use std::collections::BTreeMap;
use twiggy_ir as ir;

const RULE_DOM: &str = "a case is non-trivial if at least 6 items are reachable, some reachable item has two or more references from reachable items, and the dominator tree has depth 3 or more";

pub const CHECKS: &[Check] = &[
    Check {
        id: "C05",
        rule: RULE_DOM,
        assumptions: &["Dominators are decided by deleting each item in turn and recomputing reachability (no dominator algorithm is trusted).", "Item sizes add up to less than 4 GiB, as the sizes in a file do."],
        tape: 700,
        quick: 500_000,
        thorough: 20_000_000,
        run: c05,
        serial: false,
    },
    Check {
        id: "C06",
        rule: "a case is non-trivial if some item retains more than itself, some unreachable item has a size and references, and at least 6 items are reachable",
        assumptions: &["Retained sizes are decided by deleting each item in turn and recomputing reachability.", "Item sizes add up to less than 4 GiB, as the sizes in a file do."],
        tape: 700,
        quick: 500_000,
        thorough: 20_000_000,
        run: c06,
        serial: false,
    },
    Check {
        id: "C20",
        rule: "a case is non-trivial if at least 3 different kinds of analysis ran on the shared items and at least 2 of their results were emitted again at the end",
        assumptions: &["A freshly built or parsed copy is the reference."],
        tape: 900,
        quick: 80_000,
        thorough: 3_200_000,
        run: c20,
        serial: false,
    },
    Check {
        id: "C24",
        rule: "a case is non-trivial if at least 2 ranges are non-empty and both an address inside a range and one outside all of them were looked up",
        assumptions: &["Ranges do not overlap, as the static data of a module normally does not.", "The recorded finding address-lookup is modelled exactly; any other deviation is a violation."],
        tape: 200,
        quick: 400_000,
        thorough: 16_000_000,
        run: c24,
        serial: false,
    },
];

fn depth_of(d: &graph::Doms) -> usize {
    let mut best = 0;
    for v in 0..d.idom.len() {
        if !d.reach[v] {
            continue;
        }
        let (mut k, mut x) = (1, v);
        while let Some(p) = d.idom[x] {
            x = p;
            k += 1;
        }
        best = best.max(k);
    }
    best
}

/// A graph built directly, or that of a generated module.
fn subject(c: &mut Ctx) -> Result<(Graph, ir::Items, Vec<ir::Id>), String> {
    if c.s.chance(1, 6) {
        let m = wasm::generate(&mut c.s, &wasm::WasmOpts { max_funcs: 16, odd_names: false, generics: false, sparse: false, unique: false, telling_names: false, pad: false, big: false });
        let (bytes, _) = wasm::encode(&m);
        c.file("module.wasm", &bytes);
        let items = sut::must_parse(&bytes)?;
        let (g, ids) = sut::view(&items)?;
        c.label("from a module");
        c.id(&g.fingerprint());
        c.sample(|| g.describe());
        return Ok((g, items, ids));
    }
    let max_nodes = if c.s.chance(1, if c.thorough { 20 } else { 60 }) { 150 } else { 40 };
    let g = graph::generate(&mut c.s, &GraphOpts { max_nodes, large: (100_000, 100_000), ..Default::default() });
    let layout = c.s.below(4);
    c.id(&(g.fingerprint(), layout));
    c.sample(|| g.describe());
    let (items, ids) = sut::catch("building the graph", || g.build(layout))?;
    Ok((g, items, ids))
}

fn c05(c: &mut Ctx) -> Result<(), String> {
    let (g, mut items, ids) = subject(c)?;
    let d = g.dominators();
    let preds = g.preds();
    let joins = (0..g.n()).filter(|v| d.reach[*v] && preds[*v].iter().filter(|p| d.reach[**p]).count() >= 2).count();
    let reachable = d.reach.iter().filter(|r| **r).count();
    let depth = depth_of(&d);
    c.nontrivial = reachable >= 6 && joins >= 1 && depth >= 3;
    c.label_if(depth >= 8, "deep dominator tree");
    c.label_if(joins >= 5, "many joins");
    c.label_if(reachable < g.n(), "unreachable items");
    let order = c.s.below(3);
    sut::catch("computing dominators", || {
        if order == 0 {
            items.compute_dominators();
            items.compute_dominator_tree();
        } else if order == 1 {
            items.compute_dominator_tree();
            items.compute_dominators();
        } else {
            items.compute_retained_sizes();
            items.compute_dominators();
        }
    })?;
    let root = items.meta_root();
    let idx = Graph::index(&ids);
    let name = |id: &ir::Id| if *id == root { "the root".to_string() } else { idx.get(id).map_or(format!("{id:?}"), |i| format!("{i} ({:?})", g.nodes[*i].name)) };
    // parent of every item, as the tree has it
    let mut parent: BTreeMap<ir::Id, ir::Id> = BTreeMap::new();
    for (p, cs) in items.dominator_tree() {
        for ch in cs {
            if let Some(q) = parent.insert(*ch, *p) {
                return Err(format!("item {} occurs twice in the dominator tree, below {} and {}", name(ch), name(&q), name(p)));
            }
        }
    }
    let want = |v: usize| d.idom[v].map_or(root, |p| ids[p]);
    for v in 0..g.n() {
        match (d.reach[v], parent.get(&ids[v])) {
            (true, Some(p)) if *p == want(v) => {}
            (true, Some(p)) => return Err(format!("item {} is below {} in the dominator tree, its immediate dominator is {}", name(&ids[v]), name(p), name(&want(v)))),
            (true, None) => return Err(format!("reachable item {} is missing from the dominator tree", name(&ids[v]))),
            (false, Some(p)) => return Err(format!("unreachable item {} is in the dominator tree, below {}", name(&ids[v]), name(p))),
            (false, None) => {}
        }
    }
    if let Some(p) = parent.get(&root) {
        return Err(format!("the root is below {} in the dominator tree", name(p)));
    }
    if let Some((k, _)) = parent.iter().find(|(k, _)| !idx.contains_key(k)) {
        return Err(format!("the dominator tree contains an unknown item {k:?}"));
    }
    // the same relation as immediate dominators
    for (k, p) in items.immediate_dominators() {
        if *k == root {
            continue;
        }
        match idx.get(k) {
            Some(v) if d.reach[*v] && *p == want(*v) => {}
            _ => return Err(format!("the immediate dominator of {} is given as {}", name(k), name(p))),
        }
    }
    for v in 0..g.n() {
        if d.reach[v] && !items.immediate_dominators().contains_key(&ids[v]) {
            return Err(format!("no immediate dominator is given for item {}", name(&ids[v])));
        }
    }
    Ok(())
}

fn c06(c: &mut Ctx) -> Result<(), String> {
    let (g, mut items, ids) = subject(c)?;
    let d = g.dominators();
    let reachable = d.reach.iter().filter(|r| **r).count();
    let retains = (0..g.n()).any(|v| d.reach[v] && d.retained[v] > u64::from(g.nodes[v].size));
    let dead = (0..g.n()).any(|v| !d.reach[v] && g.nodes[v].size > 0 && !g.edges[v].is_empty());
    c.nontrivial = reachable >= 6 && retains && dead;
    c.label_if(retains, "retains more than itself");
    c.label_if(dead, "unreachable items with references");
    let order = c.s.below(3);
    sut::catch("computing retained sizes", || {
        if order == 1 {
            items.compute_dominator_tree();
        }
        if order == 2 {
            items.compute_predecessors();
            items.compute_dominators();
        }
        items.compute_retained_sizes();
    })?;
    for v in 0..g.n() {
        let got = u64::from(sut::catch("retained_size", || items.retained_size(ids[v]))?);
        if got != d.retained[v] {
            return Err(format!(
                "item {v} ({:?}, {} bytes, {}) retains {} bytes, its retained size is given as {got}",
                g.nodes[v].name,
                g.nodes[v].size,
                if d.reach[v] { "reachable" } else { "unreachable" },
                d.retained[v]
            ));
        }
    }
    let got = u64::from(sut::catch("retained_size", || items.retained_size(items.meta_root()))?);
    if got != d.root_retained {
        return Err(format!("the reachable items have {} bytes, the root's retained size is given as {got}", d.root_retained));
    }
    Ok(())
}

/// A random command on one input (never diff).
pub fn command(c: &mut Ctx, g: &Graph) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let item = |c: &mut Ctx| -> String {
        if g.n() == 0 || c.s.chance(1, 8) {
            return "no such item".into();
        }
        g.nodes[c.s.below(g.n())].name.clone()
    };
    let push = |a: &mut Vec<String>, xs: &[&str]| a.extend(xs.iter().map(|s| s.to_string()));
    match c.s.below(5) {
        0 => {
            push(&mut a, &["top", "x"]);
            if c.s.chance(1, 2) {
                push(&mut a, &["-n", &c.s.below(8).to_string()]);
            }
            if c.s.chance(1, 2) {
                push(&mut a, &["--retained"]);
            }
        }
        1 => {
            push(&mut a, &["dominators", "x"]);
            for _ in 0..c.s.below(3) {
                let i = item(c);
                a.push(i);
            }
            if c.s.chance(1, 3) {
                push(&mut a, &["-d", &c.s.below(5).to_string()]);
            }
            if c.s.chance(1, 3) {
                push(&mut a, &["-r", &c.s.below(9).to_string()]);
            }
        }
        2 => {
            push(&mut a, &["paths", "x"]);
            for _ in 0..c.s.below(3) {
                let i = item(c);
                a.push(i);
            }
            push(&mut a, &["-d", &c.s.below(4).to_string(), "-r", &c.s.below(5).to_string()]);
            if c.s.chance(1, 2) {
                push(&mut a, &["--descending"]);
            }
        }
        3 => {
            push(&mut a, &["monos", "x"]);
            if c.s.chance(1, 3) {
                push(&mut a, &["-m", &c.s.below(4).to_string()]);
            }
            if c.s.chance(1, 3) {
                push(&mut a, &["-n", &c.s.below(4).to_string()]);
            }
            if c.s.chance(1, 3) {
                push(&mut a, &["-a"]);
            }
        }
        _ => {
            push(&mut a, &["garbage", "x"]);
            if c.s.chance(1, 2) {
                push(&mut a, &["-n", &c.s.below(8).to_string()]);
            }
            if c.s.chance(1, 3) {
                push(&mut a, &["--show-data-segments"]);
            }
        }
    }
    let f = *c.s.pick(&["text", "json", "csv"]);
    push(&mut a, &["-f", f]);
    // item arguments may look like options
    if a.iter().skip(2).any(|x| x.starts_with('-') && g.nodes.iter().any(|n| n.name == *x)) {
        a.retain(|x| !g.nodes.iter().any(|n| n.name == *x));
    }
    a
}

fn c20(c: &mut Ctx) -> Result<(), String> {
    use twiggy_opt::CommonCliOptions;
    // two inputs, so that diff can take part
    let o = GraphOpts { max_nodes: 14, dup_names: c.s.chance(1, 3), generics: true, sparse: true, odd_names: false, large: (0, 0) };
    let from_wasm = c.s.chance(1, 4);
    let mut fresh: Vec<Box<dyn Fn() -> Result<ir::Items, String>>> = vec![];
    let mut graphs = vec![];
    for _ in 0..2 {
        if from_wasm {
            let m = wasm::generate(&mut c.s, &wasm::WasmOpts { max_funcs: 8, odd_names: false, generics: true, sparse: true, unique: false, telling_names: false, pad: false, big: false });
            let (bytes, _) = wasm::encode(&m);
            graphs.push(sut::view(&sut::must_parse(&bytes)?)?.0);
            c.file(&format!("module{}.wasm", graphs.len()), &bytes);
            fresh.push(Box::new(move || sut::must_parse(&bytes)));
        } else {
            let g = graph::generate(&mut c.s, &o);
            let layout = c.s.below(4);
            graphs.push(g.clone());
            fresh.push(Box::new(move || sut::catch("building the graph", || g.build(layout).0)));
        }
    }
    let n = c.s.range(2, if c.thorough { 12 } else { 7 });
    let mut cmds = vec![];
    for _ in 0..n {
        let which = c.s.below(2);
        if c.s.chance(1, 6) {
            let mut a = sut::argv(&["diff", "x", "y", "-f", *c.s.pick(&["text", "json", "csv"])]);
            if c.s.chance(1, 2) {
                a.extend(sut::argv(&["-n", &c.s.below(5).to_string()]));
            }
            cmds.push((0, a));
        } else {
            let a = command(c, &graphs[which]);
            cmds.push((which, a));
        }
    }
    c.id(&(graphs.iter().map(|g| g.fingerprint()).collect::<Vec<_>>(), &cmds));
    c.sample(|| format!("{} | {} | {:?}", graphs[0].describe(), graphs[1].describe(), cmds));
    let kinds: std::collections::BTreeSet<&str> = cmds.iter().map(|(_, a)| a[0].as_str()).collect();

    let mut shared = [fresh[0]()?, fresh[1]()?];
    type Held = (usize, Vec<String>, sut::Emitted, Vec<u8>);
    let mut held: Vec<Held> = vec![];
    let emit = |data: &sut::Emitted, items: &ir::Items, a: &[String]| -> Result<Vec<u8>, String> {
        let o = sut::options(a)?;
        let mut buf = sut::Sink::default();
        sut::catch(&format!("emitting {a:?}"), || data.emit(items, &mut buf, o.output_format()).map_err(|e| e.to_string()))??;
        Ok(buf.0)
    };
    for (which, a) in &cmds {
        let opts = sut::options(a)?;
        // the reference, on fresh copies
        let (mut f0, mut f1) = (fresh[0]()?, fresh[1]()?);
        let want = {
            let r = if *which == 0 { sut::run_ok(&mut f0, Some(&mut f1), a) } else { sut::run_ok(&mut f1, None, a) };
            r?
        };
        // the shared copies
        let [s0, s1] = &mut shared;
        let data = sut::catch(&format!("{a:?}"), || if *which == 0 { sut::analyze(s0, Some(s1), &opts) } else { sut::analyze(s1, None, &opts) })?
            .map_err(|e| format!("{a:?} fails on a copy used before: {e}"))?;
        let late = c.s.chance(1, 2);
        if !late {
            let got = emit(&data, &shared[*which], a)?;
            if got != want {
                return Err(differs(a, "after other analyses", &want, &got));
            }
        }
        held.push((*which, a.clone(), data, want));
        if c.s.chance(1, 3) {
            // an earlier result, again
            let k = c.s.below(held.len());
            let (w, a, d, want) = &held[k];
            let got = emit(d, &shared[*w], a)?;
            if got != *want {
                return Err(differs(a, "emitted again later", want, &got));
            }
        }
    }
    let mut again = 0;
    for (w, a, d, want) in &held {
        let got = emit(d, &shared[*w], a)?;
        again += 1;
        if got != *want {
            return Err(differs(a, "emitted after all other analyses", want, &got));
        }
    }
    c.label_if(kinds.contains("diff"), "diff");
    c.label_if(kinds.len() >= 4, "four kinds of analysis");
    c.label_if(from_wasm, "from modules");
    c.nontrivial = kinds.len() >= 3 && again >= 2;
    Ok(())
}

fn differs(a: &[String], when: &str, want: &[u8], got: &[u8]) -> String {
    format!(
        "twiggy {} gives another report {when}.\n-- on a fresh copy:\n{}\n-- here:\n{}",
        a.join(" "),
        String::from_utf8_lossy(&want[..want.len().min(1500)]),
        String::from_utf8_lossy(&got[..got.len().min(1500)])
    )
}

fn c24(c: &mut Ctx) -> Result<(), String> {
    const TOP: u64 = 1 << 32;
    let n = c.s.size(10);
    // (start, len): disjoint, ascending, and some registrations without effect
    let mut regs: Vec<(i64, usize, usize)> = vec![];
    let mut ranges: Vec<(u64, u64, usize)> = vec![];
    let mut at: u64 = match c.s.below(4) {
        0 => 0,
        1 => c.s.below(64) as u64,
        2 => u64::from(c.s.u32_any()),
        _ => TOP - 1 - c.s.below(5000) as u64,
    };
    for k in 0..n {
        match c.s.weighted(&[8, 1, 1, 1]) {
            0 => {
                let gap = *c.s.pick(&[0usize, 0, 1, 2, 7, 1000]) as u64;
                let gap = if gap == 7 { c.s.u32_any() as u64 } else { gap };
                let mut len = match c.s.below(6) {
                    0 => 1,
                    1 => 2,
                    2 | 3 => 1 + c.s.below(40) as u64,
                    4 => 1 + u64::from(c.s.u32_any()),
                    _ => u64::MAX,
                };
                let start = at + gap;
                if start >= TOP {
                    continue;
                }
                // the last one may reach the very end of the address space
                len = len.min(TOP - start);
                regs.push((start as i64, len as usize, k));
                ranges.push((start, len, k));
                at = start + len;
            }
            1 => {
                // zero length, anywhere (also where a range begins)
                let off = if ranges.is_empty() || c.s.chance(1, 2) { u64::from(c.s.u32_any()) } else { ranges[c.s.below(ranges.len())].0 };
                regs.push((off as i64, 0, k));
            }
            2 => {
                // out of range: negative or beyond the address space
                let off = match c.s.below(4) {
                    0 => -1 - i64::from(c.s.u32_any()),
                    1 => i64::MIN + c.s.below(3) as i64,
                    2 => (TOP + u64::from(c.s.u32_any())) as i64,
                    _ => i64::MAX - c.s.below(3) as i64,
                };
                let len = 1 + c.s.u32_any() as usize;
                regs.push((off, len, k));
            }
            _ => {
                // begins in the address space but reaches beyond it
                let off = TOP - 1 - c.s.below(3) as u64;
                let len = (TOP - off) as usize + 1 + c.s.below(3);
                if ranges.iter().all(|r| r.0 + r.1 <= off) {
                    regs.push((off as i64, len, k));
                    at = at.max(TOP);
                }
            }
        }
    }
    c.s.shuffle(&mut regs);
    let mut b = ir::ItemsBuilder::new(1);
    let ids: Vec<ir::Id> = (0..n).map(|k| ir::Id::entry(k % 3, k)).collect();
    for k in 0..n {
        b.add_item(ir::Item::new(ids[k], format!("data[{k}]"), 0, ir::Data::new(None)));
    }
    for (off, len, k) in &regs {
        sut::catch("link_data", || b.link_data(*off, *len, ids[*k]))?;
    }
    let mut probes: Vec<u64> = vec![0, 1, TOP - 1, TOP, u64::MAX];
    for (s, l, _) in &ranges {
        probes.extend([s.wrapping_sub(1), *s, s + 1, s + l / 2, s + l - 1, s + l, s + l + 1]);
    }
    for (off, len, _) in &regs {
        let o = *off as u64;
        probes.extend([o, o.wrapping_add(1), o.wrapping_add(*len as u64).wrapping_sub(1)]);
    }
    for _ in 0..4 {
        let p = c.s.u32_any();
        probes.push(u64::from(p));
        if !ranges.is_empty() {
            let r = ranges[c.s.below(ranges.len())];
            probes.push(r.0 + c.s.below(r.1.min(1 << 31) as usize) as u64);
        }
    }
    c.id(&(&regs, &probes));
    c.sample(|| format!("ranges {ranges:?}, registered in order {regs:?}"));
    let (mut inside, mut outside) = (0, 0);
    for p in probes {
        let want = ranges.iter().find(|(s, l, _)| *s <= p && p - s < *l).map(|r| ids[r.2]);
        // what the recorded finding makes of it
        let seen = ranges.iter().filter(|(s, _, _)| *s >= p).min_by_key(|r| r.0).filter(|r| p < r.0 + r.1).map(|r| ids[r.2]);
        if want.is_some() {
            inside += 1;
        } else {
            outside += 1;
        }
        let got = sut::catch("get_data", || b.get_data(p))?;
        if got != want {
            let msg = || format!("address {p:#x} resolves to {got:?}, expected {want:?}; ranges (start, length, entry) {ranges:x?}");
            if got == seen {
                c.known("C24", "address-lookup", msg)?;
            } else {
                return Err(msg());
            }
        }
    }
    c.label_if(ranges.iter().any(|r| r.0 + r.1 == TOP), "range up to the end");
    c.label_if(regs.len() > ranges.len(), "registrations without effect");
    c.nontrivial = ranges.len() >= 2 && inside > 0 && outside > 0;
    Ok(())
}
