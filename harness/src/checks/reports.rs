//! C04, C07-C10, C12-C14, C23: what the reports say.

use crate::graph::{self, Doms, Graph, GraphOpts, Kind};
use crate::report::{self, prefix, unlabel, Cmd, Fmt, Row, FORMATS};
use crate::runner::{Check, Ctx};
use crate::select::{self, Selection};
use crate::source::Source;
use crate::{sut, wasm};
use std::collections::{BTreeMap, BTreeSet};
use twiggy_ir as ir;

const REF: &str = "The reference results are computed by brute force on the item graph (read back from the parsed items when the case starts from a module).";

pub const CHECKS: &[Check] = &[
    Check {
        id: "C04",
        rule: "a case is non-trivial if some unreachable item is referenced only by unreachable items, both code and data are unreachable, and something is reachable",
        assumptions: &[REF, "Which of two equally large items comes first is left open."],
        tape: 700,
        quick: 400_000,
        thorough: 16_000_000,
        run: c04,
        serial: false,
    },
    Check {
        id: "C07",
        rule: "a case is non-trivial if at least 5 rows are expected over at least 3 levels and some siblings differ in retained size",
        assumptions: &[REF, "The order of equally large siblings, and of the subtrees of several selected items, is left open.", "Where several items have the same name, the report is compared as a whole, without a row limit."],
        tape: 800,
        quick: 300_000,
        thorough: 12_000_000,
        run: c07,
        serial: false,
    },
    Check {
        id: "C08",
        rule: "a case is non-trivial if there are at least 5 items, two of equal size, and the limit is below the number of items",
        assumptions: &[REF, "Which of two equally large items comes first is left open."],
        tape: 700,
        quick: 300_000,
        thorough: 12_000_000,
        run: c08,
        serial: false,
    },
    Check {
        id: "C09",
        rule: "a case is non-trivial if some chain of at least 3 items is shown and the graph has a cycle or a limit cuts something off",
        assumptions: &[REF, "The order of the entries below an item is left open; a limit keeps any that many of them.", "Where several items have the same name, the report is compared as a whole, without a path limit.", "Graphs are bounded so that at most 4000 rows are expected."],
        tape: 800,
        quick: 300_000,
        thorough: 12_000_000,
        run: c09,
        serial: false,
    },
    Check {
        id: "C10",
        rule: "a case is non-trivial if at least 2 generics are shown, one of them has 3 or more instantiations, and some have the same name or size",
        assumptions: &["The generic of every generated function is known by construction or from the documented rule.", "The order of equal entries is left open."],
        tape: 700,
        quick: 400_000,
        thorough: 16_000_000,
        run: c10,
        serial: false,
    },
    Check {
        id: "C12",
        rule: "a case is non-trivial if items were added, removed and resized, and at least one is unchanged",
        assumptions: &["Which of two changes of the same magnitude comes first is left open.", "That the changes add up to the difference of the file sizes is checked on WebAssembly modules, whose items cover the file."],
        tape: 900,
        quick: 200_000,
        thorough: 8_000_000,
        run: c12,
        serial: false,
    },
    Check {
        id: "C13",
        rule: "a case is non-trivial if a shown name contains a quote, a backslash, a control character, a comma or a character outside ASCII",
        assumptions: &["The readers for JSON (RFC 8259), CSV (RFC 4180) and the table layout are the harness's own and strict.", "Text tables are checked when no name contains a line break."],
        tape: 700,
        quick: 300_000,
        thorough: 12_000_000,
        run: c13,
        serial: false,
    },
    Check {
        id: "C14",
        rule: "a case is non-trivial if at least 4 rows were compared across the three formats",
        assumptions: &["Rows that only one format has (the summary rows of top and the root's row of dominators) are compared with nothing."],
        tape: 800,
        quick: 250_000,
        thorough: 10_000_000,
        run: c14,
        serial: false,
    },
    Check {
        id: "C23",
        rule: "a case is non-trivial if an argument selects at least one item and leaves out at least one",
        assumptions: &["The meaning of the generated patterns is stated in the harness, not taken from a regular expression engine.", "Arguments that begin with a dash or are empty cannot be given and are not generated."],
        tape: 800,
        quick: 300_000,
        thorough: 12_000_000,
        run: c23,
        serial: false,
    },
];

pub struct Subject {
    pub g: Graph,
    pub items: ir::Items,
    pub ids: Vec<ir::Id>,
    pub from_module: bool,
}

/// A graph built directly, or that of a generated module.
pub fn subject(c: &mut Ctx, o: &GraphOpts, modules: (usize, usize)) -> Result<Subject, String> {
    if c.s.chance(modules.0, modules.1) {
        let m = wasm::generate(
            &mut c.s,
            &wasm::WasmOpts { max_funcs: 14, odd_names: o.odd_names, generics: o.generics, sparse: o.sparse, unique: !o.dup_names, telling_names: false, pad: false, big: false },
        );
        let (bytes, _) = wasm::encode(&m);
        c.file("module.wasm", &bytes);
        let items = sut::must_parse(&bytes)?;
        let (g, ids) = sut::view(&items)?;
        c.label("from a module");
        c.id(&g.fingerprint());
        c.sample(|| g.describe());
        return Ok(Subject { g, items, ids, from_module: true });
    }
    let g = graph::generate(&mut c.s, o);
    let layout = c.s.below(4);
    c.id(&(g.fingerprint(), layout));
    c.sample(|| g.describe());
    let (items, ids) = sut::catch("building the graph", || g.build(layout))?;
    Ok(Subject { g, items, ids, from_module: false })
}

fn name_map(g: &Graph) -> Option<BTreeMap<&str, usize>> {
    let mut m = BTreeMap::new();
    for (i, n) in g.nodes.iter().enumerate() {
        if m.insert(n.name.as_str(), i).is_some() {
            return None;
        }
    }
    Some(m)
}

fn report(c: &mut Ctx, s: &mut Subject, args: &[String], cmd: Cmd, fmt: Fmt, labels: bool) -> Result<Vec<Row>, String> {
    let mut a = args.to_vec();
    a.extend(sut::argv(&["-f", fmt.arg()]));
    c.id(&a);
    c.sample(|| format!("twiggy {}", a.join(" ")));
    let out = sut::run_ok(&mut s.items, None, &a)?;
    report::read(cmd, fmt, &out, labels).map_err(|e| format!("twiggy {}: {e}", a.join(" ")))
}

/// `shown` are the first `limit` of `all` by decreasing size, in that order
/// (which of equally large ones are shown is open).
fn is_prefix<K: Ord + Clone + std::fmt::Debug>(shown: &[(K, i64)], all: &[(K, i64)], limit: usize) -> Result<(), String> {
    let want = all.len().min(limit);
    if shown.len() != want {
        return Err(format!("{} of {} entries are shown with limit {limit}", shown.len(), all.len()));
    }
    let mut count: BTreeMap<(K, i64), i64> = BTreeMap::new();
    for e in all {
        *count.entry(e.clone()).or_insert(0) += 1;
    }
    for (i, e) in shown.iter().enumerate() {
        let n = count.entry(e.clone()).or_insert(0);
        *n -= 1;
        if *n < 0 {
            return Err(format!("row {i} ({e:?}) is not one of the entries, or is shown too often"));
        }
    }
    let mut sizes: Vec<i64> = all.iter().map(|e| e.1).collect();
    sizes.sort_unstable_by(|a, b| b.cmp(a));
    for i in 0..want {
        if shown[i].1 != sizes[i] {
            return Err(format!("row {i} ({:?}) has {} bytes, the {}. largest entry has {}", shown[i].0, shown[i].1, i + 1, sizes[i]));
        }
    }
    Ok(())
}

/// An interesting limit for a list of `n` entries.
fn limit(c: &mut Ctx, n: usize) -> usize {
    match c.s.below(6) {
        0 => 0,
        1 => 1,
        2 => n,
        3 => n + 1,
        4 => n.saturating_sub(1),
        _ => c.s.below(n + 3),
    }
}

fn fmt(c: &mut Ctx) -> Fmt {
    *c.s.pick(&FORMATS)
}

fn pct(what: &str, f: Fmt, shown: Option<f64>, bytes: i64, total: u32) -> Result<(), String> {
    report::pct_is(f, shown, bytes, total).map_err(|e| format!("{what}: {e}"))
}

// ---------------------------------------------------------------- garbage

fn c04(c: &mut Ctx) -> Result<(), String> {
    let dup = c.s.chance(1, 3);
    let mut s = subject(c, &GraphOpts { dup_names: dup, large: (80_000, 1000), ..Default::default() }, (1, 4))?;
    let g = s.g.clone();
    let reach = g.reach(None);
    let dead: Vec<usize> = (0..g.n()).filter(|i| !reach[*i]).collect();
    let preds = g.preds();
    let held = dead.iter().any(|i| preds[*i].iter().any(|p| p != i));
    let data = dead.iter().filter(|i| g.nodes[**i].kind == Kind::Data).count();
    c.nontrivial = held && data > 0 && data < dead.len() && dead.len() < g.n();
    c.label_if(held, "dead items referred to by dead items");
    c.label_if(dead.iter().any(|i| g.edges[*i].contains(i)), "dead self-reference");
    let show = c.s.chance(1, 2);
    let listed: Vec<usize> = dead.iter().copied().filter(|i| show || g.nodes[*i].kind != Kind::Data).collect();
    let mut args = sut::argv(&["garbage", "x"]);
    let n = if c.s.chance(1, 5) {
        10
    } else {
        let n = limit(c, listed.len());
        args.extend(sut::argv(&["-n", &n.to_string()]));
        n
    };
    if show {
        args.push("--show-data-segments".into());
    }
    let n = if c.s.chance(1, 6) {
        args.push("-a".into());
        usize::MAX
    } else {
        n
    };
    let f = fmt(c);
    let rows = report(c, &mut s, &args, Cmd::Garbage, f, false)?;
    let what = format!("twiggy {} ({})", args.join(" "), f.arg());
    let fail = |m: String| format!("{what}: {m}");
    for r in &rows {
        pct(&what, f, r.shallow_pct, r.shallow.unwrap_or(-1), g.total)?;
    }
    let bytes = |r: &Row| r.shallow.unwrap_or(-1);
    let all: Vec<(String, i64)> = listed.iter().map(|i| (g.nodes[*i].name.clone(), i64::from(g.nodes[*i].size))).collect();
    let k = all.len().min(n);
    if rows.len() < k {
        return Err(fail(format!("{} of {} unreachable items are expected, there are {} rows", k, all.len(), rows.len())));
    }
    let shown: Vec<(String, i64)> = rows[..k].iter().map(|r| (r.name.clone(), bytes(r))).collect();
    is_prefix(&shown, &all, n).map_err(fail)?;
    let total: i64 = all.iter().map(|e| e.1).sum();
    let rest = total - shown.iter().map(|e| e.1).sum::<i64>();
    let mut want = vec![];
    if all.len() > k {
        want.push((format!("... and {} more", all.len() - k), rest));
    }
    want.push((format!("Σ [{} Total Rows]", all.len()), total));
    if !show && data > 0 {
        let sum = dead.iter().filter(|i| g.nodes[**i].kind == Kind::Data).map(|i| i64::from(g.nodes[*i].size)).sum();
        want.push((format!("{data} potential false-positive data segments"), sum));
    }
    let got: Vec<(String, i64)> = rows[k..].iter().map(|r| (r.name.clone(), bytes(r))).collect();
    if got != want {
        return Err(fail(format!("the summary rows are {got:?}, expected {want:?}")));
    }
    Ok(())
}

// ------------------------------------------------------------- dominators

/// Item arguments and what they select.
fn selection(c: &mut Ctx, g: &Graph, num: usize, den: usize) -> Selection {
    if !c.s.chance(num, den) {
        return Selection::default();
    }
    let names: Vec<String> = g.nodes.iter().map(|n| n.name.clone()).collect();
    select::generate(&mut c.s, &names, 3)
}

fn c07(c: &mut Ctx) -> Result<(), String> {
    let sparse = c.s.chance(2, 3);
    let dup_names = c.s.chance(1, 4);
    let deep = if c.s.chance(1, 2) { 3000 } else { 600 };
    let mut s = subject(c, &GraphOpts { sparse, max_nodes: 30, dup_names, large: (80_000, deep), ..Default::default() }, (1, 4))?;
    let g = s.g.clone();
    let names = name_map(&g);
    let d = g.dominators();
    let sel = selection(c, &g, 1, 2);
    let starts: Vec<usize> = if sel.none() { d.top.clone() } else { (0..g.n()).filter(|i| sel.has(&g.nodes[*i].name)).collect() };
    let mut args = sut::argv(&["dominators", "x"]);
    args.extend(sel.args());
    let mut max_depth = usize::MAX;
    if c.s.chance(1, 2) {
        max_depth = if g.n() > 100 && c.s.chance(1, 2) { *c.s.pick(&[70, 260, 599, 1100, 2999, 70_000]) } else { c.s.below(7) };
        args.extend(sut::argv(&["-d", &max_depth.to_string()]));
    }
    // how many rows there would be
    fn count(d: &Doms, v: usize, depth: usize, max: usize) -> usize {
        if depth > max {
            return 0;
        }
        1 + d.children[v].iter().map(|x| count(d, *x, depth + 1, max)).sum::<usize>()
    }
    let all: usize = starts.iter().map(|v| count(&d, *v, 1, max_depth)).sum();
    // and how long the report would be: every item of a long chain that is
    // selected brings the rest of the chain with it
    fn length(d: &Doms, v: usize, depth: usize, max: usize) -> usize {
        if depth > max {
            return 0;
        }
        100 + 4 * depth + d.children[v].iter().map(|x| length(d, *x, depth + 1, max)).sum::<usize>()
    }
    if g.n() > 100 && starts.iter().map(|v| length(&d, *v, 1, max_depth)).sum::<usize>() > 20 << 20 {
        return Ok(());
    }
    let mut max_rows = usize::MAX;
    if names.is_some() && c.s.chance(1, 2) {
        max_rows = limit(c, all);
        args.extend(sut::argv(&["-r", &max_rows.to_string()]));
    }
    let f = fmt(c);
    let mut rows = report(c, &mut s, &args, Cmd::Dominators, f, true)?;
    let what = format!("twiggy {} ({})", args.join(" "), f.arg());
    let fail = |m: String| format!("{what}: {m}");
    let serial: Vec<i64> = s.ids.iter().map(|i| i.serializable() as i64).collect();
    let mut root_id = None;
    // the summary
    let dead: i64 = (0..g.n()).filter(|i| !d.reach[*i]).map(|i| i64::from(g.nodes[i].size)).sum();
    let ndead = d.reach.iter().filter(|r| !**r).count();
    if sel.none() && dead > 0 {
        let r = rows.pop().ok_or_else(|| fail("the summary of unreachable items is missing".into()))?;
        if r.name != format!("[{ndead} Unreachable Items]") || r.retained != Some(dead) {
            return Err(fail(format!("{ndead} items of {dead} bytes are unreachable, the last row is {r:?}")));
        }
        pct(&what, f, r.retained_pct, dead, g.total)?;
    }
    // the root
    let off = usize::from(sel.none() && f != Fmt::Text);
    if off == 1 {
        if rows.is_empty() {
            return Err(fail("the row of the root is missing".into()));
        }
        let r = rows.remove(0);
        if r.name != "<meta root>" || r.shallow != Some(0) || r.retained != Some(d.root_retained as i64) || r.level.unwrap_or(0) != 0 {
            return Err(fail(format!("everything reachable has {} bytes, the row of the root is {r:?}", d.root_retained)));
        }
        pct(&what, f, r.retained_pct, d.root_retained as i64, g.total)?;
        root_id = r.id;
    }
    if rows.len() > max_rows {
        return Err(fail(format!("{} rows are shown", rows.len())));
    }
    let names = match names {
        Some(m) => m,
        None => {
            fn tree(g: &Graph, d: &Doms, v: usize, left: usize, text: bool) -> Tree {
                let n = &g.nodes[v];
                let label = if text { format!("{} {}", n.name, d.retained[v]) } else { format!("{} {} {}", n.name, d.retained[v], n.size) };
                let below = if left > 0 { d.children[v].iter().map(|x| tree(g, d, *x, left - 1, text)).collect() } else { vec![] };
                Tree(label, below)
            }
            let want: Vec<Tree> = if max_depth == 0 { vec![] } else { starts.iter().map(|v| tree(&g, &d, *v, max_depth - 1, f == Fmt::Text)).collect() };
            let mut got = vec![];
            // the retained sizes of the open levels, which must not grow
            let mut last: Vec<i64> = vec![];
            for (i, r) in rows.iter().enumerate() {
                let (level, name) = match f {
                    Fmt::Text => unlabel(Cmd::Dominators, &r.name),
                    _ => (r.level.unwrap_or(off) - off, r.name.clone()),
                };
                let retained = r.retained.unwrap_or(-1);
                got.push((level, match f {
                    Fmt::Text => format!("{name} {retained}"),
                    _ => format!("{name} {retained} {}", r.shallow.unwrap_or(-1)),
                }));
                if f != Fmt::Csv {
                    if level < last.len() {
                        if last[level] < retained && (level > 0 || sel.none() || sel.regex) {
                            return Err(fail(format!("row {i} ({name:?}) retains more than the row before it at its level")));
                        }
                        last.truncate(level);
                    }
                    last.push(retained);
                }
            }
            let deep = want.iter().any(|t| t.1.iter().any(|t| !t.1.is_empty()));
            if f == Fmt::Csv {
                let mut names: Vec<String> = got.into_iter().map(|g| g.1).collect();
                let mut all = vec![];
                flat(&want, &mut all);
                names.sort();
                all.sort();
                if names != all {
                    return Err(fail(format!("the rows are {names:?}, expected {all:?}")));
                }
            } else {
                same_forest(got, want).map_err(fail)?;
            }
            c.label("equal names");
            c.nontrivial = deep;
            return Ok(());
        }
    };
    struct Level {
        depth: usize,
        pending: BTreeSet<usize>,
        parent: Option<usize>,
    }
    let mut stack = vec![];
    if max_depth >= 1 {
        stack.push(Level { depth: 1, pending: starts.iter().copied().collect(), parent: None });
    }
    let mut deepest = 0;
    let mut uneven = false;
    for (i, r) in rows.iter().enumerate() {
        while stack.last().map_or(false, |l: &Level| l.pending.is_empty()) {
            stack.pop();
        }
        let l = match stack.last_mut() {
            Some(l) => l,
            None => return Err(fail(format!("row {i} ({:?}) is one too many", r.name))),
        };
        let pre = if f == Fmt::Text { prefix(Cmd::Dominators, l.depth - 1) } else { String::new() };
        let v = match r.name.strip_prefix(pre.as_str()).and_then(|n| names.get(n)) {
            Some(v) if l.pending.contains(v) => *v,
            _ => {
                let want: Vec<&str> = l.pending.iter().map(|v| g.nodes[*v].name.as_str()).collect();
                return Err(fail(format!("row {i} is {:?}, expected one of {want:?} at depth {}", r.name, l.depth)));
            }
        };
        if f == Fmt::Json && r.level != Some(l.depth - 1 + off) {
            return Err(fail(format!("row {i} ({:?}) is at level {:?}, expected depth {}", r.name, r.level, l.depth)));
        }
        let ordered = l.parent.is_some() || sel.none() || sel.regex;
        let most = l.pending.iter().map(|x| d.retained[*x]).max().unwrap_or(0);
        if l.pending.iter().any(|x| d.retained[*x] != most) {
            uneven = true;
        }
        if ordered && d.retained[v] != most {
            return Err(fail(format!("row {i} ({:?}, retaining {}) comes before a sibling that retains {most}", r.name, d.retained[v])));
        }
        l.pending.remove(&v);
        let (depth, parent) = (l.depth, l.parent);
        deepest = deepest.max(depth);
        if r.retained != Some(d.retained[v] as i64) {
            return Err(fail(format!("{:?} retains {} bytes, its row says {:?}", g.nodes[v].name, d.retained[v], r.retained)));
        }
        pct(&what, f, r.retained_pct, d.retained[v] as i64, g.total)?;
        if f != Fmt::Text {
            if r.shallow != Some(i64::from(g.nodes[v].size)) {
                return Err(fail(format!("{:?} has {} bytes, its row says {:?}", g.nodes[v].name, g.nodes[v].size, r.shallow)));
            }
            pct(&what, f, r.shallow_pct, i64::from(g.nodes[v].size), g.total)?;
        }
        if f == Fmt::Csv {
            if r.id != Some(serial[v]) {
                return Err(fail(format!("{:?} has id {}, its row says {:?}", g.nodes[v].name, serial[v], r.id)));
            }
            // unknown for the root's children when the root is not shown, and
            // for unreachable items
            let want = match (parent.or(d.idom[v]), d.reach[v]) {
                (Some(p), true) => Some(serial[p]),
                (None, true) => root_id,
                _ => None,
            };
            if !d.reach[v] && r.idom.is_some() && r.idom != Some(serial[v]) {
                return Err(fail(format!("{:?} is unreachable, its row says that the item of id {:?} dominates it", g.nodes[v].name, r.idom)));
            }
            if want.is_some() && r.idom != want {
                return Err(fail(format!("the immediate dominator of {:?} has id {want:?}, its row says {:?}", g.nodes[v].name, r.idom)));
            }
        }
        if depth + 1 <= max_depth {
            stack.push(Level { depth: depth + 1, pending: d.children[v].iter().copied().collect(), parent: Some(v) });
        }
    }
    if rows.len() != all.min(max_rows) {
        return Err(fail(format!("{} rows are shown, expected {}", rows.len(), all.min(max_rows))));
    }
    c.label_if(!sel.none() && starts.len() > 1, "several items selected");
    c.label_if(max_rows < all, "cut by the row limit");
    c.label_if(starts.iter().map(|v| count(&d, *v, 1, usize::MAX)).sum::<usize>() > all, "cut by the depth limit");
    c.label(match f {
        Fmt::Text => "text",
        Fmt::Json => "json",
        Fmt::Csv => "csv",
    });
    c.nontrivial = all >= 5 && deepest >= 3 && uneven;
    Ok(())
}

// -------------------------------------------------------------------- top

fn c08(c: &mut Ctx) -> Result<(), String> {
    let dup = c.s.chance(1, 3);
    let mut s = subject(c, &GraphOpts { dup_names: dup, large: (80_000, 1000), ..Default::default() }, (1, 4))?;
    let g = s.g.clone();
    let retained = c.s.chance(1, 2);
    let d = if retained { Some(g.dominators()) } else { None };
    let mut args = sut::argv(&["top", "x"]);
    let mut n = usize::MAX;
    if c.s.chance(4, 5) {
        n = limit(c, g.n());
        args.extend(sut::argv(&["-n", &n.to_string()]));
    }
    if retained {
        args.push("--retained".into());
    }
    let f = fmt(c);
    let rows = report(c, &mut s, &args, Cmd::Top { retained }, f, false)?;
    let what = format!("twiggy {} ({})", args.join(" "), f.arg());
    let fail = |m: String| format!("{what}: {m}");
    let size = |i: usize| -> i64 { d.as_ref().map_or(i64::from(g.nodes[i].size), |d| d.retained[i] as i64) };
    // an entry is its name and, where shown, its own size
    let own = retained && f != Fmt::Text;
    let all: Vec<((String, Option<i64>), i64)> = (0..g.n()).map(|i| ((g.nodes[i].name.clone(), if own { Some(i64::from(g.nodes[i].size)) } else { None }), size(i))).collect();
    let k = g.n().min(n);
    if rows.len() < k {
        return Err(fail(format!("{k} of {} items are expected, there are {} rows", g.n(), rows.len())));
    }
    let mut shown = vec![];
    for (i, r) in rows[..k].iter().enumerate() {
        let b = if retained { r.retained } else { r.shallow };
        let b = b.ok_or_else(|| fail(format!("row {i} has no size")))?;
        shown.push(((r.name.clone(), if own { r.shallow } else { None }), b));
        if retained {
            pct(&what, f, r.retained_pct, b, g.total)?;
        }
        if !retained || own {
            pct(&what, f, r.shallow_pct, r.shallow.unwrap_or(-1), g.total)?;
        }
        if !retained && (r.retained.is_some() || r.retained_pct.is_some()) {
            return Err(fail(format!("row {i} has a retained size without --retained")));
        }
    }
    is_prefix(&shown, &all, n).map_err(fail)?;
    let rest = &rows[k..];
    if f != Fmt::Text {
        if !rest.is_empty() {
            return Err(fail(format!("there are rows that are no items: {rest:?}")));
        }
    } else {
        let total: i64 = all.iter().map(|e| e.1).sum();
        let left = total - shown.iter().map(|e| e.1).sum::<i64>();
        let mut want = vec![];
        if g.n() > k {
            want.push((format!("... and {} more.", g.n() - k), left));
        }
        want.push((format!("Σ [{} Total Rows]", g.n()), total));
        if rest.len() != want.len() {
            return Err(fail(format!("the summary rows are {rest:?}, expected {want:?}")));
        }
        for (r, (name, bytes)) in rest.iter().zip(&want) {
            let b = if retained { r.retained } else { r.shallow };
            let p = if retained { r.retained_pct } else { r.shallow_pct };
            if r.name != *name {
                return Err(fail(format!("a summary row is {:?}, expected {name:?}", r.name)));
            }
            if retained {
                // retained sizes overlap, their sum means nothing
                if b.is_some() || p.is_some() {
                    return Err(fail(format!("a sum of retained sizes is shown: {r:?}")));
                }
            } else {
                if b != Some(*bytes) {
                    return Err(fail(format!("{name:?} is {bytes} bytes, the row says {b:?}")));
                }
                pct(&what, f, p, *bytes, g.total)?;
            }
        }
    }
    let distinct: BTreeSet<i64> = all.iter().map(|e| e.1).collect();
    c.label_if(distinct.len() < all.len(), "equal sizes");
    c.label_if(n < g.n(), "limited");
    c.label_if(retained, "retained");
    c.nontrivial = g.n() >= 5 && distinct.len() < all.len() && n < g.n();
    Ok(())
}

// ------------------------------------------------------------------ paths

fn c09(c: &mut Ctx) -> Result<(), String> {
    let dup_names = c.s.chance(1, 4);
    let deep = if c.s.chance(1, 2) { 1000 } else { 30 };
    let mut s = subject(c, &GraphOpts { sparse: true, max_nodes: 14, dup_names, large: (1200, deep), ..Default::default() }, (1, 4))?;
    let g = s.g.clone();
    let names = name_map(&g);
    let descending = c.s.chance(1, 2);
    let next: Vec<BTreeSet<usize>> = if descending { g.edges.clone() } else { g.preds() };
    let large = g.n() > 60;
    let sel = if large && c.s.chance(2, 3) {
        // one of the first or of the last, or the widest
        let i = c.s.below(20.min(g.n()));
        let i = match c.s.below(3) {
            0 => (0..g.n()).max_by_key(|i| next[*i].len()).unwrap_or(0),
            1 => i,
            _ => g.n() - 1 - i,
        };
        Selection::exact(&g.nodes[i].name)
    } else {
        selection(c, &g, 3, 5)
    };
    let starts: BTreeSet<usize> = if !sel.none() {
        (0..g.n()).filter(|i| sel.has(&g.nodes[*i].name)).collect()
    } else if descending {
        g.roots.clone()
    } else {
        (0..g.n()).collect()
    };
    let mut args = sut::argv(&["paths", "x"]);
    args.extend(sel.args());
    if descending {
        args.push("--descending".into());
    }
    // the number of rows without a path limit; the depth is cut to bound it
    fn count(next: &[BTreeSet<usize>], v: usize, chain: &mut Vec<usize>, left: usize, acc: &mut usize) {
        *acc += 1;
        if left == 0 || *acc > 4000 {
            return;
        }
        chain.push(v);
        for x in &next[v] {
            if !chain.contains(x) {
                count(next, *x, chain, left - 1, acc);
            }
        }
        chain.pop();
    }
    let mut depth = match c.s.below(5) {
        0 => 10,
        1 => 0,
        2 => 1,
        3 => c.s.below(5),
        _ if large => *c.s.pick(&[100, 300, 700, 1199, 5000]),
        _ => c.s.below(14),
    };
    loop {
        let mut acc = 0;
        for v in &starts {
            count(&next, *v, &mut vec![], depth, &mut acc);
        }
        if acc <= 4000 || depth == 0 {
            break;
        }
        // little by little only where it matters
        depth = if depth > 20 { depth / 2 } else { depth - 1 };
    }
    if depth != 10 || c.s.chance(1, 2) {
        args.extend(sut::argv(&["-d", &depth.to_string()]));
    }
    let mut width = 10;
    if names.is_none() {
        // nothing must be cut off if it cannot be told what
        width = next.iter().map(|n| n.len()).max().unwrap_or(0).max(1);
        args.extend(sut::argv(&["-r", &width.to_string()]));
    } else if c.s.chance(1, 2) {
        width = match c.s.below(if large { 8 } else { 4 }) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ if large => *c.s.pick(&[40, 60, 200, 260, 1100, 70_000]),
            _ => c.s.below(20),
        };
        args.extend(sut::argv(&["-r", &width.to_string()]));
    }
    let f = fmt(c);
    let cmd = Cmd::Paths { descending };
    let rows = report(c, &mut s, &args, cmd, f, true)?;
    let what = format!("twiggy {} ({})", args.join(" "), f.arg());
    let fail = |m: String| format!("{what}: {m}");
    let names = match names {
        Some(m) => m,
        None => {
            fn tree(g: &Graph, next: &[BTreeSet<usize>], v: usize, chain: &mut Vec<usize>, left: usize, sizes: bool) -> Tree {
                let n = &g.nodes[v];
                let label = if sizes || chain.is_empty() { format!("{} {}", n.name, n.size) } else { n.name.clone() };
                chain.push(v);
                let mut below = vec![];
                if left > 0 {
                    for x in &next[v] {
                        if !chain.contains(x) {
                            below.push(tree(g, next, *x, chain, left - 1, sizes));
                        }
                    }
                }
                chain.pop();
                Tree(label, below)
            }
            let want: Vec<Tree> = starts.iter().map(|v| tree(&g, &next, *v, &mut vec![], depth, f != Fmt::Text)).collect();
            let mut got = vec![];
            for r in &rows {
                let (level, name) = match f {
                    Fmt::Text => unlabel(cmd, &r.name),
                    _ => (r.level.unwrap_or(0), r.name.clone()),
                };
                got.push((level, match r.shallow {
                    Some(n) => format!("{name} {n}"),
                    None => name,
                }));
            }
            if sel.none() {
                let tops: Vec<i64> = rows.iter().zip(&got).filter(|(_, g)| g.0 == 0).filter_map(|(r, _)| r.shallow).collect();
                if f != Fmt::Csv && tops.windows(2).any(|w| w[0] < w[1]) {
                    return Err(fail(format!("the items are not in the order of their sizes: {tops:?}")));
                }
            }
            let chains = want.iter().any(|t| t.1.iter().any(|t| !t.1.is_empty()));
            if f == Fmt::Csv {
                let mut names: Vec<String> = got.into_iter().map(|g| g.1).collect();
                let mut all = vec![];
                flat(&want, &mut all);
                names.sort();
                all.sort();
                if names != all {
                    return Err(fail(format!("the rows are {names:?}, expected {all:?}")));
                }
            } else {
                same_forest(got, want).map_err(fail)?;
            }
            c.label("equal names");
            c.nontrivial = chains;
            return Ok(());
        }
    };
    struct Level {
        from: Option<usize>,
        pending: BTreeSet<usize>,
        left: usize,
    }
    let mut stack = vec![Level { from: None, left: starts.len(), pending: starts }];
    let mut deepest = 0;
    let mut cyclic = false;
    let mut cut = false;
    for (i, r) in rows.iter().enumerate() {
        while stack.last().map_or(false, |l: &Level| l.left == 0) {
            stack.pop();
        }
        let depth_here = stack.len().wrapping_sub(1);
        let chain: Vec<usize> = stack.iter().filter_map(|l| l.from).collect();
        let show = |chain: &[usize]| chain.iter().map(|v| g.nodes[*v].name.clone()).collect::<Vec<_>>();
        let l = match stack.last_mut() {
            Some(l) => l,
            None => return Err(fail(format!("row {i} ({:?}) is one too many", r.name))),
        };
        let pre = if f == Fmt::Text { prefix(cmd, depth_here) } else { String::new() };
        let v = match r.name.strip_prefix(pre.as_str()).and_then(|n| names.get(n)) {
            Some(v) if l.pending.contains(v) => *v,
            _ => {
                let want: Vec<&str> = l.pending.iter().map(|v| g.nodes[*v].name.as_str()).collect();
                return Err(fail(format!("row {i} is {:?}, expected one of {want:?} below {:?}", r.name, show(&chain))));
            }
        };
        if f == Fmt::Json && r.level != Some(depth_here) {
            return Err(fail(format!("row {i} ({:?}) is at level {:?}, expected {depth_here}", r.name, r.level)));
        }
        if depth_here == 0 && sel.none() {
            let most = l.pending.iter().map(|x| g.nodes[*x].size).max().unwrap_or(0);
            if g.nodes[v].size != most {
                return Err(fail(format!("{:?} ({} bytes) comes before an item of {most} bytes", r.name, g.nodes[v].size)));
            }
        }
        l.pending.remove(&v);
        l.left -= 1;
        deepest = deepest.max(depth_here);
        let size = i64::from(g.nodes[v].size);
        if f != Fmt::Text || depth_here == 0 {
            if r.shallow != Some(size) {
                return Err(fail(format!("{:?} has {size} bytes, its row says {:?}", g.nodes[v].name, r.shallow)));
            }
            pct(&what, f, r.shallow_pct, size, g.total)?;
        } else if r.shallow.is_some() || r.shallow_pct.is_some() {
            return Err(fail(format!("row {i} ({:?}) shows a size below the first level", r.name)));
        }
        let pending: BTreeSet<usize> = next[v].iter().copied().filter(|x| *x != v && !chain.contains(x)).collect();
        if pending.len() < next[v].len() {
            cyclic = true;
        }
        if let Some(j) = &r.joined {
            let mut want: Vec<&str> = pending.iter().map(|x| g.nodes[*x].name.as_str()).collect();
            let ok = if want.is_empty() {
                j.is_empty()
            } else {
                j.strip_suffix(g.nodes[v].name.as_str()).map_or(false, |t| is_chain(t, &mut want))
            };
            if !ok {
                return Err(fail(format!("row {i}: the path is {j:?}, expected {want:?} and then {:?}", g.nodes[v].name)));
            }
        }
        let left = if depth_here < depth { pending.len().min(width) } else { 0 };
        if left < pending.len() {
            cut = true;
        }
        stack.push(Level { from: Some(v), pending, left });
    }
    if let Some(l) = stack.iter().find(|l| l.left > 0) {
        let below = l.from.map_or("at the top".to_string(), |v| format!("below {:?}", g.nodes[v].name));
        return Err(fail(format!("{} more entries are expected {below}", l.left)));
    }
    c.label_if(cyclic, "a reference back into the chain");
    c.label_if(cut, "cut by a limit");
    c.label_if(deepest >= 5, "five levels");
    c.label(if descending { "descending" } else { "ascending" });
    c.nontrivial = deepest >= 2 && (cyclic || cut);
    Ok(())
}

/// A forest in a form that does not depend on the order of siblings: of each
/// tree the label and what is below it.
struct Tree(String, Vec<Tree>);

fn canonical(forest: &[Tree]) -> Vec<String> {
    let mut v: Vec<String> = forest.iter().map(|t| format!("{:?}{{{}}}", t.0, canonical(&t.1).join(" "))).collect();
    v.sort();
    v
}

/// The forest with the given labels and levels.
fn grow(rows: &[(usize, String)], at: &mut usize, level: usize) -> Result<Vec<Tree>, String> {
    let mut v = vec![];
    while let Some((l, label)) = rows.get(*at) {
        if *l < level {
            break;
        }
        if *l > level {
            return Err(format!("row {at} ({label}) is at level {l}, expected at most {level}"));
        }
        *at += 1;
        let below = grow(rows, at, level + 1)?;
        v.push(Tree(label.clone(), below));
    }
    Ok(v)
}

/// Compare reported rows (level and label) with the expected trees.
fn same_forest(rows: Vec<(usize, String)>, want: Vec<Tree>) -> Result<(), String> {
    let got = canonical(&grow(&rows, &mut 0, 0)?);
    let want = canonical(&want);
    if got != want {
        return Err(format!("the rows are {got:#?}, expected {want:#?}"));
    }
    Ok(())
}

/// The rows of a forest without their levels.
fn flat(forest: &[Tree], v: &mut Vec<String>) {
    for t in forest {
        v.push(t.0.clone());
        flat(&t.1, v);
    }
}

/// `text` is made of all of `names` in some order, each followed by an arrow.
fn is_chain(text: &str, names: &mut Vec<&str>) -> bool {
    if names.is_empty() {
        return text.is_empty();
    }
    for i in 0..names.len() {
        if let Some(t) = text.strip_prefix(names[i]).and_then(|t| t.strip_prefix(" -> ")) {
            let n = names.remove(i);
            if is_chain(t, names) {
                names.insert(i, n);
                return true;
            }
            names.insert(i, n);
        }
    }
    false
}

// ------------------------------------------------------------------ monos

struct MonosOpts {
    generics: usize,
    monos: usize,
    only: bool,
}

fn monos_args(c: &mut Ctx, ngen: usize, nmono: usize) -> (Vec<String>, MonosOpts) {
    let mut a = vec![];
    let mut o = MonosOpts { generics: 10, monos: 10, only: false };
    if c.s.chance(1, 2) {
        o.generics = limit(c, ngen);
        a.extend(sut::argv(&[if c.s.chance(1, 2) { "-m" } else { "--max-generics" }, &o.generics.to_string()]));
    }
    if c.s.chance(1, 2) {
        o.monos = limit(c, nmono);
        a.extend(sut::argv(&[if c.s.chance(1, 2) { "-n" } else { "--max-monos" }, &o.monos.to_string()]));
    }
    if c.s.chance(1, 5) {
        o.only = true;
        a.push(if c.s.chance(1, 2) { "-g" } else { "--only-generics" }.into());
    }
    if c.s.chance(1, 6) {
        o.generics = usize::MAX;
        o.monos = usize::MAX;
        a.push(if c.s.chance(1, 2) { "-a" } else { "--all" }.into());
    }
    if c.s.chance(1, 6) {
        o.generics = usize::MAX;
        a.push("--all-generics".into());
    }
    if c.s.chance(1, 6) {
        o.monos = usize::MAX;
        a.push("--all-monos".into());
    }
    (a, o)
}

fn c10(c: &mut Ctx) -> Result<(), String> {
    let dup = c.s.chance(1, 2);
    let mut s = subject(c, &GraphOpts { generics: true, dup_names: dup, max_nodes: 30, large: (80_000, 1000), ..Default::default() }, (1, 4))?;
    let g = s.g.clone();
    if !s.from_module {
        // what the items say themselves is C11's business
        for (n, id) in g.nodes.iter().zip(&s.ids) {
            let got = s.items[*id].monomorphization_of().map(|x| x.to_string());
            if got != n.generic {
                return Err(format!("{:?} is an instantiation of {:?}, it is given as one of {got:?}", n.name, n.generic));
            }
        }
    }
    let mut groups: BTreeMap<String, Vec<(String, i64)>> = BTreeMap::new();
    for n in &g.nodes {
        if let Some(x) = &n.generic {
            groups.entry(x.clone()).or_default().push((n.name.clone(), i64::from(n.size)));
        }
    }
    let mut args = sut::argv(&["monos", "x"]);
    if c.s.chance(1, 4) {
        let names: Vec<String> = groups.keys().cloned().collect();
        let sel = select::generate(&mut c.s, &names, 3);
        groups.retain(|k, _| sel.has(k));
        args.extend(sel.args());
    }
    let most = groups.values().map(|v| v.len()).max().unwrap_or(0);
    let (more, o) = monos_args(c, groups.len(), most);
    args.extend(more);
    let f = fmt(c);
    let rows = report(c, &mut s, &args, Cmd::Monos, f, false)?;
    let what = format!("twiggy {} ({})", args.join(" "), f.arg());
    let fail = |m: String| format!("{what}: {m}");

    // (total, bloat, rows that belong to it)
    let stat = |v: &[(String, i64)]| -> (i64, i64, usize) {
        let total: i64 = v.iter().map(|e| e.1).sum();
        let n = v.len() as i64;
        let largest = v.iter().map(|e| e.1).max().unwrap_or(0);
        let bloat = (total - largest).min(total / n * (n - 1));
        let shown = if o.only { 0 } else { v.len().min(o.monos) + usize::from(v.len() > o.monos) };
        (total, bloat, shown)
    };
    let k = groups.len().min(o.generics);
    let mut bloats: Vec<i64> = groups.values().map(|v| stat(v).1).collect();
    bloats.sort_unstable_by(|a, b| b.cmp(a));
    let mut at = 0;
    let mut seen = BTreeSet::new();
    for i in 0..k {
        let r = rows.get(at).ok_or_else(|| fail(format!("{k} of {} generics are expected, there are {i}", groups.len())))?;
        at += 1;
        let v = groups.get(&r.name).ok_or_else(|| fail(format!("{:?} is not a generic function of this binary", r.name)))?;
        if r.level != Some(0) || !seen.insert(r.name.clone()) {
            return Err(fail(format!("generic {:?} is shown twice or as an instantiation", r.name)));
        }
        let (total, bloat, shown) = stat(v);
        if r.shallow != Some(total) || r.bloat != Some(bloat) {
            return Err(fail(format!("{:?} has instantiations {v:?}: total {total}, bloat {bloat}; its row says {:?} and {:?}", r.name, r.shallow, r.bloat)));
        }
        if bloat != bloats[i] {
            return Err(fail(format!("generic {i} ({:?}) has bloat {bloat}, the {}. largest is {}", r.name, i + 1, bloats[i])));
        }
        pct(&what, f, r.shallow_pct, total, g.total)?;
        pct(&what, f, r.bloat_pct, bloat, g.total)?;
        let insts: Vec<(String, Option<i64>)> = if f == Fmt::Csv {
            // only the names are shown
            let j = r.joined.clone().unwrap_or_default();
            let k = if o.only { 0 } else { v.len().min(o.monos) };
            let rest = if v.len() > o.monos && !o.only { Some(format!("... and {} more.", v.len() - k)) } else { None };
            csv_names(&j, v, k, rest).map_err(|e| fail(format!("{:?}: {e}", r.name)))?;
            continue;
        } else {
            let mut x = vec![];
            while x.len() < shown {
                let r = rows.get(at).ok_or_else(|| fail("instantiations are missing".into()))?;
                at += 1;
                if r.level != Some(1) || r.bloat.is_some() || r.bloat_pct.is_some() {
                    return Err(fail(format!("expected an instantiation, found {r:?}")));
                }
                pct(&what, f, r.shallow_pct, r.shallow.unwrap_or(-1), g.total)?;
                x.push((r.name.clone(), r.shallow));
            }
            x
        };
        let n = if o.only { 0 } else { v.len().min(o.monos) };
        let shown: Vec<(String, i64)> = insts[..n].iter().map(|(a, b)| (a.clone(), b.unwrap_or(-1))).collect();
        is_prefix(&shown, v, n).map_err(|e| fail(format!("instantiations of {:?}: {e}", r.name)))?;
        if let Some(e) = insts.get(n) {
            let left = total - shown.iter().map(|e| e.1).sum::<i64>();
            if *e != (format!("... and {} more.", v.len() - n), Some(left)) {
                return Err(fail(format!("{} instantiations of {:?} with {left} bytes are left, the row says {e:?}", v.len() - n, r.name)));
            }
        }
    }
    let sums = |names: &mut dyn Iterator<Item = &String>| {
        let mut t = (0usize, 0i64, 0i64);
        for n in names {
            let (total, bloat, shown) = stat(&groups[n]);
            t = (t.0 + 1 + shown, t.1 + total, t.2 + bloat);
        }
        t
    };
    let mut want = vec![];
    if groups.len() > k {
        let t = sums(&mut groups.keys().filter(|n| !seen.contains(*n)));
        want.push((format!("... and {} more.", t.0), t.1, t.2));
    }
    let t = sums(&mut groups.keys());
    want.push((format!("Σ [{} Total Rows]", t.0), t.1, t.2));
    let got: Vec<(String, i64, i64)> = rows[at..].iter().map(|r| (r.name.clone(), r.shallow.unwrap_or(-1), r.bloat.unwrap_or(-1))).collect();
    if got != want {
        return Err(fail(format!("the summary rows are {got:?}, expected {want:?}")));
    }
    for r in &rows[at..] {
        pct(&what, f, r.shallow_pct, r.shallow.unwrap_or(-1), g.total)?;
        pct(&what, f, r.bloat_pct, r.bloat.unwrap_or(-1), g.total)?;
    }
    let equal = groups.values().any(|v| {
        let a: BTreeSet<i64> = v.iter().map(|e| e.1).collect();
        let b: BTreeSet<&String> = v.iter().map(|e| &e.0).collect();
        a.len() < v.len() || b.len() < v.len()
    });
    c.label_if(groups.values().any(|v| v.iter().map(|e| &e.0).collect::<BTreeSet<_>>().len() < v.len()), "equal instantiation names");
    c.label_if(groups.len() > k, "generics cut off");
    c.label_if(most > o.monos, "instantiations cut off");
    c.nontrivial = k >= 2 && most >= 3 && equal;
    Ok(())
}

/// The names joined with ", " are the first `k` of `v` by size, in that order,
/// and then the remainder row.
fn csv_names(joined: &str, v: &[(String, i64)], k: usize, rest: Option<String>) -> Result<(), String> {
    let mut text = joined;
    if let Some(r) = &rest {
        text = text.strip_suffix(r.as_str()).ok_or_else(|| format!("{joined:?} does not end with {r:?}"))?;
        if k > 0 {
            text = text.strip_suffix(", ").ok_or_else(|| format!("{joined:?} is not a list"))?;
        }
    }
    // usually those of equal size are in order of their names
    let mut sorted: Vec<&(String, i64)> = v.iter().collect();
    sorted.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
    if text == sorted.iter().take(k).map(|e| e.0.as_str()).collect::<Vec<_>>().join(", ") {
        return Ok(());
    }
    // take names off the front, largest first; of equal sizes any
    let mut left: Vec<(String, i64)> = v.to_vec();
    left.sort_by(|a, b| b.1.cmp(&a.1).then(b.0.len().cmp(&a.0.len())));
    fn go(text: &str, left: &mut Vec<(String, i64)>, k: usize) -> bool {
        if k == 0 {
            return text.is_empty();
        }
        let size = left[0].1;
        let mut i = 0;
        let mut tried: BTreeSet<String> = BTreeSet::new();
        while i < left.len() && left[i].1 == size {
            let n = left[i].0.clone();
            if tried.insert(n.clone()) {
                if let Some(t) = text.strip_prefix(n.as_str()) {
                    let t = if k == 1 { Some(t) } else { t.strip_prefix(", ") };
                    if let Some(t) = t {
                        let e = left.remove(i);
                        if go(t, left, k - 1) {
                            return true;
                        }
                        left.insert(i, e);
                    }
                }
            }
            i += 1;
        }
        false
    }
    // as deep as there are names
    let found = std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, || go(text, &mut left, k)).expect("start thread");
        h.join().expect("the search for names does not panic")
    });
    if found {
        Ok(())
    } else {
        Err(format!("the instantiations are listed as {joined:?}, expected the {k} largest of {v:?} and {rest:?}"))
    }
}

// ------------------------------------------------------------------- diff

/// A new version of the items: drop, resize, add, rename.
fn newer(s: &mut Source, g: &Graph) -> Graph {
    let mut h = Graph { unique: g.unique, ..Default::default() };
    for (i, n) in g.nodes.iter().enumerate() {
        let mut n = n.clone();
        match s.below(6) {
            0 => continue,
            1 => n.size = n.size.saturating_add(s.below(40) as u32).min(80_000_000),
            2 => n.size = n.size.saturating_sub(s.below(40) as u32),
            3 if s.chance(1, 2) => n.name = format!("renamed_{i}"),
            _ => {}
        }
        h.nodes.push(n);
    }
    for i in 0..s.below(4) {
        let size = s.below(200) as u32;
        h.nodes.push(graph::Node { name: format!("added_{}", if s.chance(1, 4) { 0 } else { i }), size, kind: Kind::Code, generic: None });
    }
    h.edges = vec![BTreeSet::new(); h.n()];
    if s.chance(1, 2) {
        let mut p: Vec<usize> = (0..h.n()).collect();
        s.shuffle(&mut p);
        h.nodes = p.iter().map(|i| h.nodes[*i].clone()).collect();
    }
    h
}

/// Two versions of a binary.
fn versions(c: &mut Ctx) -> Result<[Subject; 2], String> {
    let dup = c.s.chance(1, 3);
    if c.s.chance(1, 3) {
        let o = wasm::WasmOpts { max_funcs: 10, odd_names: false, generics: true, sparse: true, unique: !dup, telling_names: false, pad: false, big: false };
        let one = |c: &mut Ctx| -> Result<Subject, String> {
            let m = wasm::generate(&mut c.s, &o);
            let (bytes, _) = wasm::encode(&m);
            c.file("module.wasm", &bytes);
            let items = sut::must_parse(&bytes)?;
            let (g, ids) = sut::view(&items)?;
            c.id(&g.fingerprint());
            c.sample(|| g.describe());
            Ok(Subject { g, items, ids, from_module: true })
        };
        return Ok([one(c)?, one(c)?]);
    }
    let g = graph::generate(&mut c.s, &GraphOpts { dup_names: dup, max_nodes: 20, large: (80_000, 1000), ..Default::default() });
    // large ones would use up the choices
    let mut h = if g.n() > 60 {
        let tape = c.s.stretch(6 * g.n() + 100);
        newer(&mut Source::new(&tape), &g)
    } else {
        newer(&mut c.s, &g)
    };
    h.total = (h.sum(|_| true) as u32).saturating_add(c.s.below(50) as u32).max(1);
    c.id(&(g.fingerprint(), h.fingerprint()));
    c.sample(|| format!("{} | {}", g.describe(), h.describe()));
    let (a, b) = (g.build(1), h.build(1));
    Ok([Subject { g, items: a.0, ids: a.1, from_module: false }, Subject { g: h, items: b.0, ids: b.1, from_module: false }])
}

fn run_diff(c: &mut Ctx, a: &mut ir::Items, b: &mut ir::Items, args: &[String], f: Fmt) -> Result<Vec<Row>, String> {
    let mut x = args.to_vec();
    x.extend(sut::argv(&["-f", f.arg()]));
    c.id(&x);
    c.sample(|| format!("twiggy {}", x.join(" ")));
    let out = sut::run_ok(a, Some(b), &x)?;
    report::read(Cmd::Diff, f, &out, false)
}

fn deltas(a: &Graph, b: &Graph) -> BTreeMap<String, i64> {
    let mut m: BTreeMap<String, i64> = BTreeMap::new();
    for n in &a.nodes {
        *m.entry(n.name.clone()).or_insert(0) -= i64::from(n.size);
    }
    for n in &b.nodes {
        *m.entry(n.name.clone()).or_insert(0) += i64::from(n.size);
    }
    m
}

fn c12(c: &mut Ctx) -> Result<(), String> {
    let [mut a, mut b] = versions(c)?;
    let all = deltas(&a.g, &b.g);
    let mut changed: Vec<(String, i64)> = all.iter().filter(|(_, d)| **d != 0).map(|(n, d)| (n.clone(), *d)).collect();
    let has = |g: &Graph, n: &str| g.nodes.iter().any(|x| x.name == n);
    let added = changed.iter().any(|(n, _)| !has(&a.g, n));
    let removed = changed.iter().any(|(n, _)| !has(&b.g, n));
    let resized = changed.iter().any(|(n, _)| has(&a.g, n) && has(&b.g, n));
    c.nontrivial = added && removed && resized && changed.len() < all.len();
    c.label_if(!a.g.unique || !b.g.unique, "equal names");
    let mut args = sut::argv(&["diff", "x", "y"]);
    let mut sel = Selection::default();
    if c.s.chance(1, 3) {
        let names: Vec<String> = all.keys().cloned().collect();
        sel = select::generate(&mut c.s, &names, 3);
        args.extend(sel.args());
        changed.retain(|(n, _)| sel.has(n));
    }
    let mut n = 20;
    if c.s.chance(3, 4) {
        n = limit(c, changed.len());
        args.extend(sut::argv(&["-n", &n.to_string()]));
    }
    if c.s.chance(1, 6) {
        n = usize::MAX;
        args.push("-a".into());
    }
    c.label_if(n < changed.len(), "limited");
    let f = fmt(c);
    let rows = run_diff(c, &mut a.items, &mut b.items, &args, f)?;
    let what = format!("twiggy {} ({})", args.join(" "), f.arg());
    let fail = |m: String| format!("{what}: {m}");
    let k = changed.len().min(n);
    let bytes = |r: &Row| r.shallow.unwrap_or(i64::MIN);
    if rows.len() < k {
        return Err(fail(format!("{k} of {} changes are expected, there are {} rows", changed.len(), rows.len())));
    }
    let shown: Vec<((String, i64), i64)> = rows[..k].iter().map(|r| ((r.name.clone(), bytes(r)), bytes(r).abs())).collect();
    let want: Vec<((String, i64), i64)> = changed.iter().map(|(n, d)| ((n.clone(), *d), d.abs())).collect();
    is_prefix(&shown, &want, n).map_err(fail)?;
    let listed: i64 = rows[..k].iter().map(bytes).sum();
    let sum: i64 = changed.iter().map(|e| e.1).sum();
    let total = if sel.none() { i64::from(b.g.total) - i64::from(a.g.total) } else { sum };
    let mut want = vec![];
    if changed.len() > k {
        want.push((format!("... and {} more.", changed.len() - k), sum - listed));
    }
    want.push((format!("Σ [{} Total Rows]", changed.len()), total));
    let got: Vec<(String, i64)> = rows[k..].iter().map(|r| (r.name.clone(), bytes(r))).collect();
    if got != want {
        return Err(fail(format!("the summary rows are {got:?}, expected {want:?}")));
    }
    if a.from_module && sel.none() && sum != total {
        return Err(fail(format!("the changes add up to {sum}, the files differ by {total} bytes")));
    }
    // swapping the files
    let back = run_diff(c, &mut b.items, &mut a.items, &args, f)?;
    if back.len() != rows.len() {
        return Err(fail(format!("{} rows, but {} with the files swapped", rows.len(), back.len())));
    }
    let mag = |r: &[Row]| r.iter().map(|r| -bytes(r)).collect::<Vec<_>>();
    let fwd: Vec<i64> = rows.iter().map(bytes).collect();
    if changed.len() <= n {
        let mut x: Vec<(String, i64)> = rows.iter().map(|r| (r.name.clone(), bytes(r))).collect();
        let mut y: Vec<(String, i64)> = back.iter().map(|r| (r.name.clone(), -bytes(r))).collect();
        x.sort();
        y.sort();
        if x != y {
            return Err(fail(format!("swapping the files gives {y:?} (negated) instead of {x:?}")));
        }
    } else if mag(&back).last() != fwd.last() {
        return Err(fail(format!("the total is {:?}, with the files swapped {:?}", fwd.last(), back.last())));
    }
    // a file and itself
    let args = sut::argv(&["diff", "x", "x"]);
    let mut same = sut::catch("building the graph", || a.g.build(1).0)?;
    let mut first = sut::catch("building the graph", || a.g.build(1).0)?;
    let rows = run_diff(c, &mut first, &mut same, &args, f)?;
    if rows.len() != 1 || rows[0].name != "Σ [0 Total Rows]" || rows[0].shallow != Some(0) {
        return Err(format!("a file and itself differ: {rows:?}"));
    }
    Ok(())
}

// ---------------------------------------------------- names and formats

fn odd(n: &str) -> bool {
    n.chars().any(|c| c == '"' || c == '\\' || c == ',' || c.is_control() || !c.is_ascii())
}

fn breaks(n: &str) -> bool {
    n.contains('\n')
}

fn multiset<'a>(it: impl Iterator<Item = &'a str>) -> Vec<&'a str> {
    let mut v: Vec<&str> = it.collect();
    v.sort_unstable();
    v
}

fn names_are(what: &str, got: Vec<&str>, want: Vec<&str>) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let missing: Vec<&&str> = want.iter().filter(|n| !got.contains(n)).take(4).collect();
    let extra: Vec<&&str> = got.iter().filter(|n| !want.contains(n)).take(4).collect();
    Err(format!("{what}: the names read back are not the item names ({} for {}); missing {missing:?}, unexpected {extra:?}", got.len(), want.len()))
}

fn c13(c: &mut Ctx) -> Result<(), String> {
    let mut s = subject(c, &GraphOpts { odd_names: true, sparse: true, generics: true, max_nodes: 16, ..Default::default() }, (1, 3))?;
    let g = s.g.clone();
    let total_odd = g.nodes.iter().filter(|n| odd(&n.name)).count();
    c.nontrivial = total_odd > 0;
    c.label_if(g.nodes.iter().any(|n| n.name.contains('"') || n.name.contains('\\')), "quote or backslash");
    c.label_if(g.nodes.iter().any(|n| n.name.chars().any(|c| c.is_control())), "control character");
    c.label_if(g.nodes.iter().any(|n| !n.name.is_ascii()), "outside ASCII");
    let text_ok = !g.nodes.iter().any(|n| breaks(&n.name));
    let reach = g.reach(None);
    let f = loop {
        let f = fmt(c);
        if f != Fmt::Text || text_ok {
            break f;
        }
        if c.s.exhausted() {
            break Fmt::Json;
        }
    };
    let all = multiset(g.nodes.iter().map(|n| n.name.as_str()));
    let which = c.s.below(6);
    let what = |n: &str| format!("twiggy {n} ({})", f.arg());
    match which {
        0 => {
            let retained = c.s.chance(1, 2);
            let mut a = sut::argv(&["top", "x"]);
            if retained {
                a.push("--retained".into());
            }
            let mut rows = report(c, &mut s, &a, Cmd::Top { retained }, f, true)?;
            if f == Fmt::Text {
                rows.pop();
            }
            names_are(&what("top"), multiset(rows.iter().map(|r| r.name.as_str())), all)?;
        }
        1 => {
            let a = sut::argv(&["garbage", "x", "-a", "--show-data-segments"]);
            let mut rows = report(c, &mut s, &a, Cmd::Garbage, f, true)?;
            rows.pop();
            let want = multiset((0..g.n()).filter(|i| !reach[*i]).map(|i| g.nodes[i].name.as_str()));
            names_are(&what("garbage"), multiset(rows.iter().map(|r| r.name.as_str())), want)?;
        }
        2 => {
            let a = sut::argv(&["dominators", "x"]);
            let rows = report(c, &mut s, &a, Cmd::Dominators, f, true)?;
            let mut want: Vec<String> = vec![];
            let d = g.dominators();
            for i in (0..g.n()).filter(|i| reach[*i]) {
                let mut level = 0;
                let mut v = i;
                while let Some(p) = d.idom[v] {
                    level += 1;
                    v = p;
                }
                want.push(if f == Fmt::Text { prefix(Cmd::Dominators, level) } else { String::new() } + &g.nodes[i].name);
            }
            if f != Fmt::Text {
                want.push("<meta root>".into());
            }
            let dead = (0..g.n()).filter(|i| !reach[*i]).count();
            if (0..g.n()).any(|i| !reach[i] && g.nodes[i].size > 0) {
                want.push(format!("[{dead} Unreachable Items]"));
            }
            names_are(&what("dominators"), multiset(rows.iter().map(|r| r.name.as_str())), multiset(want.iter().map(|s| s.as_str())))?;
        }
        3 => {
            let descending = c.s.chance(1, 2);
            let mut a = sut::argv(&["paths", "x", "-d", "1", "-r", "1000"]);
            if descending {
                a.push("--descending".into());
            }
            let cmd = Cmd::Paths { descending };
            let rows = report(c, &mut s, &a, cmd, f, true)?;
            let next: Vec<BTreeSet<usize>> = if descending { g.edges.clone() } else { g.preds() };
            let mut want: Vec<String> = vec![];
            let below = if f == Fmt::Text { prefix(cmd, 1) } else { String::new() };
            for i in (0..g.n()).filter(|i| !descending || g.roots.contains(i)) {
                want.push(g.nodes[i].name.clone());
                want.extend(next[i].iter().filter(|x| **x != i).map(|x| format!("{below}{}", g.nodes[*x].name)));
            }
            names_are(&what("paths"), multiset(rows.iter().map(|r| r.name.as_str())), multiset(want.iter().map(|s| s.as_str())))?;
        }
        4 => {
            let a = sut::argv(&["monos", "x", "-a"]);
            let mut rows = report(c, &mut s, &a, Cmd::Monos, f, true)?;
            rows.pop();
            let mut groups: BTreeMap<&str, Vec<(String, i64)>> = BTreeMap::new();
            let (seen, _) = sut::view(&s.items)?;
            for n in &seen.nodes {
                if let Some(x) = &n.generic {
                    groups.entry(x).or_default().push((n.name.clone(), i64::from(n.size)));
                }
            }
            let mut want: Vec<String> = groups.keys().map(|s| s.to_string()).collect();
            if f == Fmt::Csv {
                for r in &rows {
                    if let Some(v) = groups.get(r.name.as_str()) {
                        csv_names(r.joined.as_deref().unwrap_or(""), v, v.len(), None).map_err(|e| format!("{}: {e}", what("monos")))?;
                    }
                }
            } else {
                let below = if f == Fmt::Text { prefix(Cmd::Monos, 1) } else { String::new() };
                want.extend(groups.values().flatten().map(|(n, _)| format!("{below}{n}")));
            }
            names_are(&what("monos"), multiset(rows.iter().map(|r| r.name.as_str())), multiset(want.iter().map(|s| s.as_str())))?;
        }
        _ => {
            let mut empty = Graph { total: 1, ..Default::default() }.build(0).0;
            let args = sut::argv(&["diff", "x", "y", "-a"]);
            let mut rows = if c.s.chance(1, 2) { run_diff(c, &mut s.items, &mut empty, &args, f)? } else { run_diff(c, &mut empty, &mut s.items, &args, f)? };
            rows.pop();
            let mut want: Vec<&str> = deltas(&Graph::default(), &g).iter().filter(|(_, d)| **d != 0).map(|(n, _)| g.nodes.iter().find(|x| x.name == *n).map_or("", |x| x.name.as_str())).collect();
            want.sort_unstable();
            names_are(&what("diff"), multiset(rows.iter().map(|r| r.name.as_str())), want)?;
        }
    }
    c.label(["top", "garbage", "dominators", "paths", "monos", "diff"][which]);
    c.label(match f {
        Fmt::Text => "text",
        Fmt::Json => "json",
        Fmt::Csv => "csv",
    });
    Ok(())
}

fn c14(c: &mut Ctx) -> Result<(), String> {
    let dup = c.s.chance(1, 4);
    let mut s = subject(c, &GraphOpts { sparse: true, generics: true, dup_names: dup, max_nodes: 16, ..Default::default() }, (1, 4))?;
    let g = s.g.clone();
    let mut other = None;
    let mut a = super::graph_core::command(c, &g);
    if c.s.chance(1, 6) {
        let h = graph::generate(&mut c.s, &GraphOpts { dup_names: dup, max_nodes: 16, ..Default::default() });
        c.id(&h.fingerprint());
        a = sut::argv(&["diff", "x", "y", "-n", &c.s.below(20).to_string()]);
        other = Some(h.build(1).0);
    }
    if let Some(i) = a.iter().position(|x| x == "-f") {
        a.drain(i..i + 2);
    }
    let retained = a.iter().any(|x| x == "--retained");
    let descending = a.iter().any(|x| x == "--descending");
    let cmd = match a[0].as_str() {
        "top" => Cmd::Top { retained },
        "dominators" => Cmd::Dominators,
        "paths" => Cmd::Paths { descending },
        "monos" => Cmd::Monos,
        "garbage" => Cmd::Garbage,
        _ => Cmd::Diff,
    };
    let get = |c: &mut Ctx, s: &mut Subject, other: &mut Option<ir::Items>, f: Fmt| match other {
        Some(o) => {
            let mut x = a.clone();
            x.extend(sut::argv(&["-f", f.arg()]));
            c.id(&x);
            let out = sut::run_ok(&mut s.items, Some(o), &x)?;
            report::read(cmd, f, &out, true)
        }
        None => report(c, s, &a, cmd, f, true),
    };
    let mut text = get(c, &mut s, &mut other, Fmt::Text)?;
    let json = get(c, &mut s, &mut other, Fmt::Json)?;
    let mut csv = get(c, &mut s, &mut other, Fmt::Csv)?;
    let what = format!("twiggy {}", a.join(" "));
    let fail = |m: String| format!("{what}: {m}");
    let mut json_text: Vec<Row> = json.clone();
    match cmd {
        Cmd::Top { .. } => {
            let extra: Vec<Row> = text.split_off(json.len().min(text.len()));
            if !extra.iter().all(|r| r.name.starts_with("... and ") || r.name.starts_with("Σ [")) {
                return Err(fail(format!("rows of the text form are missing in JSON: {extra:?}")));
            }
        }
        Cmd::Dominators => {
            if json_text.first().map_or(false, |r| r.name == "<meta root>") {
                json_text.remove(0);
                for r in &mut json_text {
                    r.level = r.level.map(|l| l.saturating_sub(1));
                }
            }
        }
        _ => {}
    }
    // text against JSON
    if text.len() != json_text.len() {
        return Err(fail(format!("{} rows in text, {} in JSON", text.len(), json_text.len())));
    }
    for (i, (t, j)) in text.iter().zip(&json_text).enumerate() {
        let want = prefix(cmd, j.level.unwrap_or(0)) + &j.name;
        if t.name != want {
            return Err(fail(format!("row {i} is {:?} in text and {:?} (level {:?}) in JSON", t.name, j.name, j.level)));
        }
        let deep = matches!(cmd, Cmd::Paths { .. }) && j.level != Some(0);
        let pairs = [("size", t.shallow, t.shallow_pct, j.shallow, j.shallow_pct), ("retained size", t.retained, t.retained_pct, j.retained, j.retained_pct), ("bloat", t.bloat, t.bloat_pct, j.bloat, j.bloat_pct)];
        for (k, tb, tp, jb, jp) in pairs {
            if tb.is_some() && tb != jb {
                return Err(fail(format!("row {i} ({:?}): {k} {tb:?} in text, {jb:?} in JSON", j.name)));
            }
            if let (Some(tp), Some(jp)) = (tp, jp) {
                if (tp - jp).abs() > 0.005 + 1e-6 {
                    return Err(fail(format!("row {i} ({:?}): {k} {tp}% in text, {jp}% in JSON", j.name)));
                }
            } else if tp.is_some() != jp.is_some() && tb.is_some() {
                return Err(fail(format!("row {i} ({:?}): a percentage of the {k} is missing", j.name)));
            }
        }
        // what text must show
        let shown = match cmd {
            Cmd::Top { retained: true } | Cmd::Dominators => t.retained.is_some(),
            Cmd::Paths { .. } if deep => true,
            _ => t.shallow.is_some(),
        };
        if !shown {
            return Err(fail(format!("row {i} ({:?}) has no size in text", j.name)));
        }
    }
    // CSV against JSON
    let mut flat: Vec<Row> = vec![];
    if cmd == Cmd::Monos {
        for r in &json {
            if r.level == Some(0) {
                flat.push(Row { joined: Some(String::new()), ..r.clone() });
            } else if let Some(p) = flat.last_mut() {
                let j = p.joined.get_or_insert_with(String::new);
                if !j.is_empty() {
                    j.push_str(", ");
                }
                j.push_str(&r.name);
            }
        }
    } else {
        flat = json.clone();
    }
    if let Cmd::Dominators = cmd {
        // the summary has an own size in CSV only
        if let (Some(c), Some(j)) = (csv.last_mut(), flat.last()) {
            if j.shallow.is_none() && c.id.is_none() {
                if c.shallow != j.retained {
                    return Err(fail("the sizes of the summary differ in CSV".to_string()));
                }
                c.shallow = None;
                c.shallow_pct = None;
            }
        }
    }
    if flat.len() != csv.len() {
        return Err(fail(format!("{} rows in JSON, {} in CSV", flat.len(), csv.len())));
    }
    for (i, (v, j)) in csv.iter().zip(&flat).enumerate() {
        if v.name != j.name || v.shallow != j.shallow || v.retained != j.retained || v.bloat != j.bloat {
            return Err(fail(format!("row {i} is {v:?} in CSV and {j:?} in JSON")));
        }
        if cmd == Cmd::Monos && v.joined != j.joined {
            return Err(fail(format!("row {i}: instantiations {:?} in CSV, {:?} in JSON", v.joined, j.joined)));
        }
        for (x, y) in [(v.shallow_pct, j.shallow_pct), (v.retained_pct, j.retained_pct), (v.bloat_pct, j.bloat_pct)] {
            let same = match (x, y) {
                (Some(x), Some(y)) => (x - y).abs() <= 1e-9 * y.abs().max(1.0),
                (None, None) => true,
                _ => false,
            };
            if !same {
                return Err(fail(format!("row {i} ({:?}): {x:?}% in CSV, {y:?}% in JSON", v.name)));
            }
        }
    }
    if cmd != Cmd::Diff {
        for r in &json {
            for (b, p) in [(r.shallow, r.shallow_pct), (r.retained, r.retained_pct), (r.bloat, r.bloat_pct)] {
                if let Some(b) = b {
                    pct(&what, Fmt::Json, p, b, g.total)?;
                }
            }
        }
    }
    c.label(match cmd {
        Cmd::Top { .. } => "top",
        Cmd::Dominators => "dominators",
        Cmd::Paths { .. } => "paths",
        Cmd::Monos => "monos",
        Cmd::Garbage => "garbage",
        Cmd::Diff => "diff",
    });
    c.nontrivial = json.len() >= 4;
    Ok(())
}

// -------------------------------------------------------------- arguments

fn c23(c: &mut Ctx) -> Result<(), String> {
    let which = c.s.below(4);
    let dup = c.s.chance(1, 2);
    let odd_names = c.s.chance(1, 3);
    let o = GraphOpts { sparse: true, generics: which == 2, dup_names: dup, odd_names, max_nodes: 14, large: (0, 0) };
    let (mut s, mut b) = if which == 3 {
        let [a, b] = versions(c)?;
        (a, Some(b))
    } else {
        (subject(c, &o, (1, 4))?, None)
    };
    let (g, _) = sut::view(&s.items)?;
    // what can be selected
    let pool: Vec<String> = match which {
        2 => g.nodes.iter().filter_map(|n| n.generic.clone()).collect::<BTreeSet<_>>().into_iter().collect(),
        3 => deltas(&g, &b.as_ref().unwrap().g).into_keys().collect(),
        _ => g.nodes.iter().map(|n| n.name.clone()).collect(),
    };
    let mut offered = pool.clone();
    if which == 2 && c.s.chance(1, 2) {
        // names of functions are not names of generics
        offered.extend(g.nodes.iter().map(|n| n.name.clone()));
    }
    let sel = select::generate(&mut c.s, &offered, 4);
    let chosen = pool.iter().filter(|n| sel.has(n)).count();
    c.nontrivial = chosen > 0 && chosen < pool.len();
    c.label_if(sel.regex, "--regex");
    c.label_if(chosen == 0, "nothing selected");
    c.label_if(sel.pats.len() > 1, "several arguments");
    let deep = c.s.chance(1, 2);
    let base = match which {
        0 => {
            let mut a = sut::argv(&["paths", "x", "-d", if deep { "1" } else { "0" }]);
            if c.s.chance(1, 2) {
                a.push("--descending".into());
            }
            a
        }
        1 => sut::argv(&["dominators", "x", "-d", if deep { "2" } else { "1" }]),
        2 => sut::argv(&["monos", "x", "-a"]),
        _ => sut::argv(&["diff", "x", "y", "-a"]),
    };
    let cmd = [Cmd::Paths { descending: false }, Cmd::Dominators, Cmd::Monos, Cmd::Diff][which];
    let mut run = |c: &mut Ctx, a: &[String]| -> Result<Result<Vec<u8>, String>, String> {
        c.id(&a);
        c.sample(|| format!("twiggy {}", a.join(" ")));
        match &mut b {
            Some(b) => sut::run(&mut s.items, Some(&mut b.items), a),
            None => sut::run(&mut s.items, None, a),
        }
    };
    // invalid patterns
    if c.s.chance(1, 4) {
        const BAD: &[&str] = &["(", "*", "a)", "[", "a{2,1}", "\\", "(?P<x", "x**[", "+", "[z-a]", "(?<", "\\u{110000}", "(?i", "?"];
        let mut bad = c.s.pick(BAD).to_string();
        if bad == "x**[" {
            bad = "[^".into();
        }
        let mut a = base.clone();
        a.extend(sut::argv(&["-f", "json", "--regex"]));
        let mut pats: Vec<String> = sel.pats.iter().map(|p| p.text()).collect();
        let at = c.s.below(pats.len() + 1);
        pats.insert(at, bad.clone());
        if sel.regex || pats.len() == 1 {
            a.extend(pats);
        } else {
            a.push(bad.clone());
        }
        c.label("invalid pattern");
        if let Ok(out) = run(c, &a)? {
            return Err(format!("twiggy {}: the invalid pattern {bad:?} is no error: {}", a.join(" "), String::from_utf8_lossy(&out)));
        }
        // as a name it is fine
        let mut a = base.clone();
        a.extend(sut::argv(&["-f", "json", &bad]));
        let out = run(c, &a)?.map_err(|e| format!("twiggy {}: the name {bad:?} is an error: {e}", a.join(" ")))?;
        let rows = report::read(cmd, Fmt::Json, &out, false)?;
        let plain = rows.iter().filter(|r| !r.name.starts_with("Σ [")).count();
        if plain > 0 && !pool.contains(&bad) {
            return Err(format!("twiggy {}: there is no such name, but the report is {rows:?}", a.join(" ")));
        }
    }
    let mut a = base.clone();
    a.extend(sut::argv(&["-f", "json"]));
    a.extend(sel.args());
    let out = run(c, &a)?.map_err(|e| format!("twiggy {}: unexpected error: {e}", a.join(" ")))?;
    let rows = report::read(cmd, Fmt::Json, &out, false)?;
    let what = format!("twiggy {}", a.join(" "));
    let fail = |m: String| format!("{what}: {m}");
    match which {
        0 | 1 => {
            let mut got: Vec<(&str, i64)> = rows.iter().filter(|r| r.level == Some(0)).map(|r| (r.name.as_str(), r.shallow.unwrap_or(-1))).collect();
            let mut want: Vec<(&str, i64)> = g.nodes.iter().filter(|n| sel.has(&n.name)).map(|n| (n.name.as_str(), i64::from(n.size))).collect();
            got.sort_unstable();
            want.sort_unstable();
            if got != want {
                return Err(fail(format!("selects {got:?}, expected {want:?}")));
            }
        }
        2 => {
            let mut got: Vec<&str> = rows.iter().filter(|r| r.level == Some(0)).map(|r| r.name.as_str()).collect();
            if got.pop().map_or(true, |n| !n.starts_with("Σ [")) {
                return Err(fail("the total row is missing".into()));
            }
            got.sort_unstable();
            let want: Vec<&str> = pool.iter().map(|s| s.as_str()).filter(|n| sel.has(n)).collect();
            if got != want {
                return Err(fail(format!("selects {got:?}, expected {want:?}")));
            }
            // with all their instantiations
            let insts = rows.iter().filter(|r| r.level == Some(1)).count();
            let want = g.nodes.iter().filter(|n| n.generic.as_ref().map_or(false, |x| sel.has(x))).count();
            if insts != want {
                return Err(fail(format!("shows {insts} instantiations, expected {want}")));
            }
        }
        _ => {
            let all = deltas(&g, &b.as_ref().unwrap().g);
            let want: BTreeMap<&str, i64> = all.iter().filter(|(n, d)| **d != 0 && sel.has(n)).map(|(n, d)| (n.as_str(), *d)).collect();
            let n = rows.len().saturating_sub(1);
            let got: BTreeMap<&str, i64> = rows[..n].iter().map(|r| (r.name.as_str(), r.shallow.unwrap_or(i64::MIN))).collect();
            if got != want || n != want.len() {
                return Err(fail(format!("selects {got:?}, expected {want:?}")));
            }
        }
    }
    c.label(["paths", "dominators", "monos", "diff"][which]);
    Ok(())
}
