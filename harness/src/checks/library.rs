//! C25, C26: the item graph as a container, and reports on faulty destinations.

use crate::graph::{self, GraphOpts, Kind};
use crate::runner::{Check, Ctx};
use crate::{sut, wasm};
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use twiggy_ir as ir;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C25",
        rule: "a case is non-trivial if it has at least 4 items, an item that was added before one with a smaller id, an edge that was added twice, and two items of one name",
        assumptions: &["Ids are unique within a graph, and edges are added between items that were added, as the builder's documentation asks for."],
        tape: 500,
        quick: 300_000,
        thorough: 12_000_000,
        run: c25,
        serial: false,
    },
    Check {
        id: "C26",
        rule: "a case is non-trivial if the report has more than 60 bytes and the destination fails after the first and before the last byte, or takes the report in at least 5 pieces",
        assumptions: &["A destination that failed keeps failing, or works again; both are tried.", "What a destination has received before it failed is not specified."],
        tape: 700,
        quick: 200_000,
        thorough: 8_000_000,
        run: c26,
        serial: false,
    },
];

fn number(c: &mut Ctx) -> usize {
    const MAX: usize = u32::MAX as usize - 1;
    match c.s.below(6) {
        0 | 1 => c.s.below(4),
        2 => MAX - c.s.below(3),
        3 => (c.s.u32_any() as usize).min(MAX),
        4 => 1 << c.s.below(32),
        _ => c.s.below(40),
    }
}

fn c25(c: &mut Ctx) -> Result<(), String> {
    // now and then many items, around one of them
    let many = c.s.chance(1, 300);
    let (from, to) = (many && c.s.chance(1, 2), many && c.s.chance(1, 2));
    let n = if many { c.s.range(500, 2500) } else { c.s.size(12) };
    // keys: section and entry, or a section as a whole
    let mut keys: Vec<(usize, Option<usize>)> = vec![];
    for i in 0..n {
        let k = match many {
            true => (i % 7, Some(i)),
            false => (number(c), if c.s.chance(1, 4) { None } else { Some(number(c)) }),
        };
        if many || !keys.contains(&k) {
            keys.push(k);
        }
    }
    let n = keys.len();
    let make = |k: &(usize, Option<usize>)| sut::catch(&format!("the id of {k:?}"), || match k.1 {
        Some(i) => ir::Id::entry(k.0, i),
        None => ir::Id::section(k.0),
    });
    let ids: Vec<ir::Id> = keys.iter().map(|k| make(k)).collect::<Result<_, _>>()?;
    let root = ir::Id::root();
    for i in 0..n {
        if make(&keys[i])? != ids[i] {
            return Err(format!("the id of {:?} is not always the same", keys[i]));
        }
        for j in 0..i {
            if ids[i] == ids[j] || ids[i].serializable() == ids[j].serializable() {
                return Err(format!("{:?} and {:?} have the same id", keys[i], keys[j]));
            }
        }
        if ids[i] == root || ids[i].serializable() == root.serializable() {
            return Err(format!("{:?} has the id of the meta root", keys[i]));
        }
    }
    let total = c.s.u32_any();
    let mut left = u32::MAX;
    let mut items = vec![];
    let mut roots = BTreeSet::new();
    for i in 0..n {
        let name = match c.s.below(4) {
            0 => "same".to_string(),
            1 => graph::odd_name(&mut c.s),
            2 => format!("item{i}"),
            _ => "a".repeat(c.s.below(4)),
        };
        let size = if c.s.chance(1, 8) { c.s.u32_any() } else { c.s.below(100) as u32 }.min(left);
        left -= size;
        let kind = *c.s.pick(&[Kind::Code, Kind::Data, Kind::Debug, Kind::Misc]);
        if c.s.chance(1, 3) {
            roots.insert(i);
        }
        items.push((name, size, kind));
    }
    c.id(&(&keys, &items, total));
    c.sample(|| format!("{keys:?}: {items:?}, roots {roots:?}"));
    let mut b = ir::ItemsBuilder::new(total);
    let mut edges: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut added: Vec<usize> = vec![];
    let mut sum = 0u32;
    let mut twice = false;
    let link = |c: &mut Ctx, b: &mut ir::ItemsBuilder, edges: &mut Vec<BTreeSet<usize>>, added: &[usize]| -> Result<bool, String> {
        let (mut x, mut y) = (*c.s.pick(added), *c.s.pick(added));
        match (many, c.s.below(3)) {
            (true, 0) => x = added[0],
            (true, 1) => y = added[0],
            _ => {}
        }
        sut::catch("add_edge", || b.add_edge(ids[x], ids[y]))?;
        Ok(!edges[x].insert(y))
    };
    for i in 0..n {
        let (name, size, kind) = &items[i];
        let item = match kind {
            Kind::Code => ir::Item::new(ids[i], name.as_str(), *size, ir::Code::new(name)),
            Kind::Data => ir::Item::new(ids[i], name.as_str(), *size, ir::Data::new(None)),
            Kind::Debug => ir::Item::new(ids[i], name.as_str(), *size, ir::DebugInfo::new()),
            Kind::Misc => ir::Item::new(ids[i], name.as_str(), *size, ir::Misc::new()),
        };
        let got = sut::catch("adding an item", || if roots.contains(&i) { b.add_root(item) } else { b.add_item(item) })?;
        if got != ids[i] {
            return Err(format!("the item {:?} was added under another id", keys[i]));
        }
        sum += size;
        added.push(i);
        if b.size_added() != sum {
            return Err(format!("items of {sum} bytes were added, {} are said to be", b.size_added()));
        }
        for _ in 0..if many { c.s.below(2) } else { c.s.below(4) } {
            twice |= link(c, &mut b, &mut edges, &added)?;
        }
    }
    if n > 0 {
        for _ in 0..c.s.below(2 * n) {
            twice |= link(c, &mut b, &mut edges, &added)?;
        }
    }
    if many {
        for i in 0..n {
            for (x, y) in [(0, i), (i, 0)].iter().zip([from, to]).filter(|e| e.1).map(|e| *e.0) {
                sut::catch("add_edge", || b.add_edge(ids[x], ids[y]))?;
                edges[x].insert(y);
            }
        }
    }
    let mut it = sut::catch("finishing the graph", || b.finish())?;
    let index: BTreeMap<ir::Id, usize> = ids.iter().copied().zip(0..).collect();
    let show = |i: &ir::Id| if *i == root { "the meta root".to_string() } else { index.get(i).map_or(format!("{i:?}"), |i| format!("{:?}", keys[*i])) };
    if it.size() != total {
        return Err(format!("the size is {}, {total} was given", it.size()));
    }
    if it.meta_root() != root {
        return Err("the meta root is not the root id".into());
    }
    let mut seen = BTreeSet::new();
    for x in it.iter() {
        if !seen.insert(x.id()) {
            return Err(format!("{} is listed twice", show(&x.id())));
        }
        if x.id() == root {
            if x.size() != 0 {
                return Err(format!("the meta root has {} bytes", x.size()));
            }
            continue;
        }
        let i = match index.get(&x.id()) {
            Some(i) => *i,
            None => return Err(format!("{:?} was never added", x.id())),
        };
        let (name, size, kind) = &items[i];
        if x.name() != name || x.size() != *size || sut::kind_of(x) != *kind || x.kind().is_data() != (*kind == Kind::Data) {
            return Err(format!("{:?} was added as {:?}, and is now {:?} of {} bytes, {:?}", keys[i], items[i], x.name(), x.size(), x.kind()));
        }
        if &it[x.id()] != x {
            return Err(format!("indexing with the id of {:?} gives another item", keys[i]));
        }
    }
    if seen.len() != n + 1 {
        return Err(format!("{n} items were added, {} are listed with the meta root", seen.len()));
    }
    sut::catch("compute_predecessors", || it.compute_predecessors())?;
    let mut preds: Vec<BTreeSet<ir::Id>> = vec![BTreeSet::new(); n];
    for (a, bs) in edges.iter().enumerate() {
        for b in bs {
            preds[*b].insert(ids[a]);
        }
    }
    for r in &roots {
        preds[*r].insert(root);
    }
    let same = |what: String, got: Vec<ir::Id>, want: BTreeSet<ir::Id>| -> Result<(), String> {
        let set: BTreeSet<ir::Id> = got.iter().copied().collect();
        if set != want || set.len() != got.len() {
            let f = |v: Vec<ir::Id>| v.iter().map(|i| show(i)).collect::<Vec<_>>().join(", ");
            return Err(format!("{what} are {}, expected {}", f(got), f(want.into_iter().collect())));
        }
        Ok(())
    };
    for i in 0..n {
        same(format!("the neighbors of {:?}", keys[i]), it.neighbors(ids[i]).collect(), edges[i].iter().map(|x| ids[*x]).collect())?;
        same(format!("the predecessors of {:?}", keys[i]), it.predecessors(ids[i]).collect(), preds[i].clone())?;
    }
    same("the roots".into(), it.neighbors(root).collect(), roots.iter().map(|x| ids[*x]).collect())?;
    same("the predecessors of the meta root".into(), it.predecessors(root).collect(), BTreeSet::new())?;
    let absent = "no item is called this".to_string();
    for name in items.iter().map(|x| &x.0).chain([&absent]) {
        let got = it.get_item_by_name(name).map(|x| (x.name().to_string(), x.id()));
        match got {
            Some((n, id)) if n != *name || !index.contains_key(&id) => return Err(format!("looking up {name:?} finds {n:?}")),
            None if name != &absent => return Err(format!("looking up {name:?} finds nothing")),
            Some(_) if name == &absent => return Err(format!("looking up {name:?} finds something")),
            _ => {}
        }
    }
    let names: BTreeSet<&String> = items.iter().map(|x| &x.0).collect();
    c.label_if(many, "many items");
    c.label_if(twice, "an edge added twice");
    c.label_if(names.len() < n, "equal names");
    c.label_if(keys.iter().any(|k| k.0 > 1 << 31 || k.1.map_or(false, |i| i > 1 << 31)), "large numbers");
    c.nontrivial = n >= 4 && twice && names.len() < n && keys.windows(2).any(|w| w[0] > w[1]);
    Ok(())
}

/// A destination with faults.
struct Faulty {
    got: Vec<u8>,
    /// Bytes taken by each write in turn, over and over; 0 stands for an interruption.
    pieces: Vec<usize>,
    at: usize,
    /// Number of bytes after which it fails.
    fails_at: Option<usize>,
    /// Whether it works again after one failure.
    recovers: bool,
    failures: usize,
    writes: usize,
    /// Whether it fails by accepting no bytes.
    takes_nothing: bool,
    kind: io::ErrorKind,
}

impl io::Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let room = match self.fails_at {
            Some(k) if self.failures == 0 || !self.recovers => {
                if self.got.len() >= k {
                    self.failures += 1;
                    return if self.takes_nothing { Ok(0) } else { Err(io::Error::new(self.kind, "the destination is full")) };
                }
                k - self.got.len()
            }
            _ => usize::MAX,
        };
        let piece = self.pieces[self.at % self.pieces.len()];
        self.at += 1;
        if piece == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(piece).min(room);
        self.got.extend_from_slice(&b[..n]);
        self.writes += 1;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c26(c: &mut Ctx) -> Result<(), String> {
    use twiggy_opt::CommonCliOptions;
    let o = GraphOpts { max_nodes: 12, dup_names: c.s.chance(1, 3), generics: true, sparse: true, odd_names: c.s.chance(1, 4), large: (0, 0) };
    let load = |c: &mut Ctx| -> Result<(ir::Items, graph::Graph), String> {
        if c.s.chance(1, 6) {
            let m = wasm::generate(&mut c.s, &wasm::WasmOpts { max_funcs: 6, generics: true, sparse: true, unique: false, pad: false, ..Default::default() });
            let items = sut::must_parse(&wasm::encode(&m).0)?;
            let g = sut::view(&items)?.0;
            Ok((items, g))
        } else {
            let g = graph::generate(&mut c.s, &o);
            let layout = c.s.below(4);
            Ok((sut::catch("building the graph", || g.build(layout).0)?, g))
        }
    };
    let (mut items, g) = load(c)?;
    let mut other = None;
    let args = if c.s.chance(1, 6) {
        other = Some(load(c)?.0);
        sut::argv(&["diff", "x", "y", "-f", *c.s.pick(&["text", "json", "csv"])])
    } else {
        super::graph_core::command(c, &g)
    };
    let opts = sut::options(&args)?;
    let f = opts.output_format();
    let what = format!("twiggy {}", args.join(" "));
    let data = match sut::catch(&what, || sut::analyze(&mut items, other.as_mut(), &opts))? {
        Ok(d) => d,
        Err(e) => return Err(format!("{what} fails: {e}")),
    };
    let emit = |d: &mut dyn io::Write| -> Result<Result<(), String>, String> { sut::catch(&what, || data.emit(&items, d, f).map_err(|e| e.to_string())) };
    let mut want = sut::Sink::default();
    emit(&mut want)?.map_err(|e| format!("{what}: {e}"))?;
    let want = want.0;
    c.id(&(g.fingerprint(), &args));
    c.sample(|| format!("{what} ({} bytes) on {}", want.len(), g.describe()));

    // a destination that takes its time
    let mut pieces: Vec<usize> = (0..c.s.range(1, 5)).map(|_| *c.s.pick(&[0, 1, 1, 2, 3, 7, 100])).collect();
    pieces.push(c.s.range(1, 9));
    let slow = |fails_at: Option<usize>, recovers: bool, pieces: Vec<usize>| Faulty { got: vec![], pieces, at: 0, fails_at, recovers, failures: 0, writes: 0, takes_nothing: false, kind: io::ErrorKind::Other };
    let mut d = slow(None, false, pieces.clone());
    match emit(&mut d)? {
        Err(e) => return Err(format!("{what}: writing in pieces of {pieces:?} bytes (0: interrupted) fails: {e}")),
        Ok(()) if d.got != want => {
            return Err(format!("{what}: writing in pieces of {pieces:?} bytes (0: interrupted) gives another report:\n{:?}\ninstead of\n{:?}", String::from_utf8_lossy(&d.got), String::from_utf8_lossy(&want)))
        }
        _ => {}
    }
    let in_pieces = d.writes >= 5;
    // and some that fail somewhere
    let mut inside = false;
    for _ in 0..4 {
        if want.is_empty() {
            break;
        }
        let k = match c.s.below(5) {
            0 => want.len() - 1,
            1 => want.len() - 1 - c.s.below(want.len().min(6)),
            2 => c.s.below(want.len().min(4)),
            _ => c.s.below(want.len()),
        };
        inside |= k > 0 && k < want.len() - 1;
        let recovers = c.s.chance(1, 3);
        let whole = c.s.chance(1, 2);
        let mut d = slow(Some(k), recovers, if whole { vec![usize::MAX] } else { pieces.clone() });
        d.takes_nothing = c.s.chance(1, 4);
        d.kind = *c.s.pick(&[
            io::ErrorKind::Other,
            io::ErrorKind::BrokenPipe,
            io::ErrorKind::WouldBlock,
            io::ErrorKind::TimedOut,
            io::ErrorKind::UnexpectedEof,
            io::ErrorKind::WriteZero,
            io::ErrorKind::PermissionDenied,
            io::ErrorKind::ConnectionReset,
        ]);
        c.label(match (k, recovers) {
            (0, _) => "fails at once",
            (k, _) if k + 1 == want.len() => "fails at the last byte",
            (_, true) => "fails once",
            _ => "fails",
        });
        if let Ok(()) = emit(&mut d)? {
            if d.failures > 0 || d.got != want {
                return Err(format!("{what}: the destination {} after {k} of {} bytes, but success is reported; it received\n{:?}\ninstead of\n{:?}", if recovers { "fails once" } else { "fails" }, want.len(), String::from_utf8_lossy(&d.got), String::from_utf8_lossy(&want)));
            }
        }
    }
    c.nontrivial = want.len() > 60 && (inside || in_pieces);
    Ok(())
}
