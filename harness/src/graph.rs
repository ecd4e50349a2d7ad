//! A plain item graph, reference algorithms on it (all brute force), a random
//! graph generator, and the construction of the real `Items` from it.

use crate::source::Source;
use std::collections::{BTreeMap, BTreeSet};
use twiggy_ir as ir;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Code,
    Data,
    Debug,
    Misc,
}

#[derive(Clone, Debug)]
pub struct Node {
    /// The name as reported.
    pub name: String,
    pub size: u32,
    pub kind: Kind,
    /// The generic this is an instance of, if it is known to the generator.
    pub generic: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Graph {
    pub nodes: Vec<Node>,
    pub edges: Vec<BTreeSet<usize>>,
    pub roots: BTreeSet<usize>,
    /// File size.
    pub total: u32,
    /// Whether all names are distinct.
    pub unique: bool,
    /// The nodes from here on form trees: each refers only to its children and
    /// to itself or nodes above it, and only its parent (the node given here)
    /// refers to it from outside of its subtree.
    pub bulk: Vec<usize>,
}

impl Graph {
    pub fn n(&self) -> usize {
        self.nodes.len()
    }

    /// Items reachable from the roots without passing through `without`.
    pub fn reach(&self, without: Option<usize>) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        let mut work: Vec<usize> = self.roots.iter().copied().collect();
        while let Some(x) = work.pop() {
            if seen[x] || Some(x) == without {
                continue;
            }
            seen[x] = true;
            work.extend(self.edges[x].iter().copied());
        }
        seen
    }

    pub fn preds(&self) -> Vec<BTreeSet<usize>> {
        let mut p = vec![BTreeSet::new(); self.n()];
        for (a, bs) in self.edges.iter().enumerate() {
            for b in bs {
                p[*b].insert(a);
            }
        }
        p
    }

    pub fn sum(&self, sel: impl Fn(usize) -> bool) -> u64 {
        (0..self.n()).filter(|i| sel(*i)).map(|i| u64::from(self.nodes[i].size)).sum()
    }

    /// Dominators by node removal: for each reachable node the set of strict
    /// dominators, its immediate dominator (None = the meta root), and the
    /// retained size of every node.
    pub fn dominators(&self) -> Doms {
        let n = self.n();
        let base = n - self.bulk.len();
        let mut reach = self.reach(None);
        // What hangs below the nodes of the base, which have no way back.
        let mut weight: Vec<u64> = self.nodes.iter().map(|n| u64::from(n.size)).collect();
        for v in (base..n).rev() {
            weight[self.bulk[v - base]] += weight[v];
        }
        reach.truncate(base);
        let mut doms: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); base];
        let mut retained = vec![0u64; n];
        let sub = self.base();
        let whole = &reach;
        for v in 0..base {
            if !reach[v] {
                retained[v] = u64::from(self.nodes[v].size);
                continue;
            }
            let r = sub.reach(Some(v));
            for w in 0..base {
                if whole[w] && !r[w] {
                    retained[v] += weight[w];
                    if w != v {
                        doms[w].insert(v);
                    }
                }
            }
        }
        let mut idom: Vec<Option<usize>> = vec![None; n];
        for v in 0..base {
            if reach[v] {
                // The closest strict dominator is the one with most dominators.
                idom[v] = doms[v].iter().copied().max_by_key(|d| doms[*d].len());
            }
        }
        for v in base..n {
            let p = self.bulk[v - base];
            let r = reach[p];
            reach.push(r);
            retained[v] = if r { weight[v] } else { u64::from(self.nodes[v].size) };
            idom[v] = if r { Some(p) } else { None };
        }
        let mut children: Vec<Vec<usize>> = vec![vec![]; n];
        let mut top = vec![];
        for v in 0..n {
            if reach[v] {
                match idom[v] {
                    Some(d) => children[d].push(v),
                    None => top.push(v),
                }
            }
        }
        let root_retained = self.sum(|i| reach[i]);
        Doms { reach, idom, children, top, retained, root_retained }
    }

    /// Only the nodes before the bulk.
    fn base(&self) -> std::borrow::Cow<'_, Graph> {
        if self.bulk.is_empty() {
            return std::borrow::Cow::Borrowed(self);
        }
        let base = self.n() - self.bulk.len();
        let mut g = Graph { roots: self.roots.clone(), total: self.total, unique: self.unique, ..Default::default() };
        g.nodes = self.nodes[..base].to_vec();
        g.edges = self.edges[..base].iter().map(|e| e.range(..base).copied().collect()).collect();
        std::borrow::Cow::Owned(g)
    }

    /// Hang trees of `n` nodes in all below one node.
    fn grow(&mut self, s: &mut Source, n: usize, deep: usize) {
        let base = self.n();
        if base == 0 || n == 0 {
            return;
        }
        let at = s.below(base);
        let kind = *s.pick(&[Kind::Code, Kind::Data, Kind::Misc, Kind::Debug]);
        let shape = s.below(5);
        let back = s.chance(1, 3);
        let sizes = s.range(1, 4) as u32;
        let generic = if kind == Kind::Code && s.chance(1, 2) { Some(if s.chance(1, 3) { s.range(100, 3000) } else { s.range(1, 3) }) } else { None };
        for i in 0..n {
            let parent = match shape {
                // a chain, as deep as allowed, then another one
                0 if i % deep > 0 => base + i - 1,
                0 | 1 => at,
                // trees of small width
                2 if i > 0 => base + (i - 1) / 3,
                3 if i > 0 => base + (i - 1) / 40,
                // wide, and two deep
                4 if i > n / 2 => base + i - n / 2 - 1,
                _ => at,
            };
            let name = match generic {
                Some(k) => format!("many{}::of<u{i}>", i % k),
                None => format!("many{i}"),
            };
            let generic = if kind == Kind::Code { known_generic(&name) } else { None };
            self.nodes.push(Node { name, size: (i as u32 * 7 + 3) % sizes, kind, generic });
            self.edges.push(BTreeSet::new());
            self.edges[parent].insert(base + i);
            if back {
                self.edges[base + i].insert(if i % 2 == 0 { parent } else { base + i });
            }
            self.bulk.push(parent);
        }
    }

    pub fn describe(&self) -> String {
        let mut s = format!("{} items, {} edges, roots {:?}; ", self.n(), self.edges.iter().map(|e| e.len()).sum::<usize>(), self.roots);
        for (i, n) in self.nodes.iter().enumerate().take(12) {
            s.push_str(&format!("{}:{:?}/{}->{:?} ", i, n.name, n.size, self.edges[i].iter().collect::<Vec<_>>()));
        }
        s
    }

    pub fn fingerprint(&self) -> String {
        format!("{:?}{:?}{:?}{}", self.nodes.iter().map(|n| (&n.name, n.size, n.kind)).collect::<Vec<_>>(), self.edges, self.roots, self.total)
    }

    /// Build the real item graph. Node i gets a distinct id.
    pub fn build(&self, layout: usize) -> (ir::Items, Vec<ir::Id>) {
        let mut b = ir::ItemsBuilder::new(self.total);
        let mut ids = vec![];
        for (i, n) in self.nodes.iter().enumerate() {
            let id = match layout {
                0 => ir::Id::entry(i / 7, i % 7),
                1 => ir::Id::entry(0, i),
                2 => ir::Id::entry(self.n() - i, i),
                _ => {
                    if i % 3 == 0 {
                        ir::Id::section(i)
                    } else {
                        ir::Id::entry(i / 3 * 3, i)
                    }
                }
            };
            let item = match n.kind {
                Kind::Code => ir::Item::new(id, n.name.as_str(), n.size, ir::Code::new(&n.name)),
                Kind::Data => ir::Item::new(id, n.name.as_str(), n.size, ir::Data::new(None)),
                Kind::Debug => ir::Item::new(id, n.name.as_str(), n.size, ir::DebugInfo::new()),
                Kind::Misc => ir::Item::new(id, n.name.as_str(), n.size, ir::Misc::new()),
            };
            let got = if self.roots.contains(&i) { b.add_root(item) } else { b.add_item(item) };
            assert_eq!(got, id);
            ids.push(id);
        }
        for (a, bs) in self.edges.iter().enumerate() {
            for t in bs {
                b.add_edge(ids[a], ids[*t]);
            }
        }
        (b.finish(), ids)
    }

    /// Name of each id, for reading the real structures back.
    pub fn index(ids: &[ir::Id]) -> BTreeMap<ir::Id, usize> {
        ids.iter().enumerate().map(|(i, id)| (*id, i)).collect()
    }
}

pub struct Doms {
    pub reach: Vec<bool>,
    pub idom: Vec<Option<usize>>,
    pub children: Vec<Vec<usize>>,
    pub top: Vec<usize>,
    pub retained: Vec<u64>,
    pub root_retained: u64,
}

#[derive(Clone, Copy)]
pub struct GraphOpts {
    pub max_nodes: usize,
    /// Allow several items of one name.
    pub dup_names: bool,
    /// Allow names that need escapes in some format.
    pub odd_names: bool,
    /// Make code items instances of generics often.
    pub generics: bool,
    /// Keep the number of edges small (for path enumeration).
    pub sparse: bool,
    /// Rarely, this many more items, and how deep their references may go.
    pub large: (usize, usize),
}

impl Default for GraphOpts {
    fn default() -> Self {
        GraphOpts { max_nodes: 40, dup_names: false, odd_names: false, generics: false, sparse: false, large: (0, 0) }
    }
}

const ODD: &[&str] = &[
    "\"", "\\", "\n", "\r", "\t", "\u{0}", "\u{1}", "\u{1f}", "\u{7f}", ",", ";", "'", "\u{e9}", "\u{4e2d}", "\u{1f600}", "\u{2028}", "</", "{}", "[", "]",
    "%", " ", "┊", " ┊ ", "│", "\u{feff}", "\\n", "\\u0041", "a", "Z", "0", "\u{301}", "\\\"", "#",
];

pub fn odd_name(s: &mut Source) -> String {
    let n = s.range(1, 6);
    (0..n)
        .map(|_| match s.below(8) {
            // Any control character, those of Latin-1 included.
            0 => char::from(s.below(0x20) as u8).to_string(),
            1 => char::from(s.range(0x7f, 0xff) as u8).to_string(),
            // Any character at all.
            2 => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}').to_string(),
            _ => s.pick(ODD).to_string(),
        })
        .collect()
}

/// An odd name, made unique by a number somewhere in it.
pub fn odd_around(s: &mut Source, i: impl std::fmt::Display) -> String {
    match s.below(4) {
        0 => format!("{i}{}", odd_name(s)),
        1 => format!("{}{i}{}", odd_name(s), odd_name(s)),
        _ => format!("{}{i}", odd_name(s)),
    }
}

fn base_name(s: &mut Source, i: usize, kind: Kind) -> (String, Option<String>) {
    const WORDS: &[&str] = &["f", "func", "alloc", "std::vec::push", "x.y", "core::fmt", "a b", "main", "<T as Tr>::go", "operator()", "x*y", "a|b", "[q]", "$s", "n+1", "é"];
    let w = *s.pick(WORDS);
    let _ = kind;
    (format!("{w}_{i}"), None)
}

/// A name that differs from the given one in very little.
pub fn alike_name(s: &mut Source, name: &str) -> String {
    let c: Vec<char> = name.chars().collect();
    let letters: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphanumeric()).collect();
    let flip = |x: char| if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
    if letters.is_empty() {
        return format!("{name}x");
    }
    let at = *s.pick(&letters);
    match s.below(7) {
        0 => c.iter().map(|x| flip(*x)).collect(),
        1 => c.iter().enumerate().map(|(i, x)| if i == at { flip(*x) } else { *x }).collect(),
        // a number with another zero
        2 => c.iter().enumerate().flat_map(|(i, x)| if i == at { vec!['0', *x] } else { vec![*x] }).collect(),
        // the beginning of the other
        3 => format!("{name}x"),
        4 => c[..at].iter().collect::<String>().trim_end().to_string(),
        // as long as the other
        5 => c.iter().enumerate().map(|(i, x)| if i == at { 'y' } else { *x }).collect(),
        // the end of the other
        _ => format!("x{name}"),
    }
}

/// A random item graph.
pub fn generate(s: &mut Source, o: &GraphOpts) -> Graph {
    let n = match s.weighted(&[1, 3, 3]) {
        0 => s.below(o.max_nodes.min(4) + 1),
        1 => s.below(o.max_nodes.min(12) + 1),
        _ => s.below(o.max_nodes + 1),
    };
    let shape = s.below(9);
    let size_mode = s.below(5);
    let huge = n > 0 && s.chance(1, 12);
    let huge = if huge { Some((s.below(n), s.range(1 << 29, 0xf000_0000) as u32)) } else { None };
    let mut g = Graph { unique: true, ..Default::default() };
    let ngen = s.range(1, 6);
    let alike = s.chance(1, 5);
    for i in 0..n {
        let size = match size_mode {
            0 => s.below(100) as u32,
            1 => *s.pick(&[0u32, 1, 1, 2, 5, 5, 5, 100]),
            2 => s.below(3) as u32,
            // large, and next to each other
            3 if huge.is_none() && n < 100 => (1 << 24) + s.below(9) as u32,
            _ if huge.is_some() => s.below(0x0f00_0000 / n) as u32,
            _ => s.below(70_000_000.min(4_000_000_000 / n)) as u32,
        };
        let size = match huge {
            Some((j, size)) if j == i => size,
            _ => size,
        };
        let kind = match s.below(8) {
            0..=3 => Kind::Code,
            4 | 5 => Kind::Data,
            6 => Kind::Misc,
            _ => Kind::Debug,
        };
        let (mut name, mut generic) = base_name(s, i, kind);
        if kind == Kind::Code && (o.generics && s.chance(3, 4) || s.chance(1, 12)) {
            let mut gname = format!("g{}::run", s.below(ngen));
            if o.odd_names && s.chance(1, 3) {
                gname += &odd_name(s).replace('<', "");
            }
            let t = if o.odd_names && s.chance(1, 3) { odd_name(s) } else { "u".into() };
            name = match s.below(3) {
                0 => format!("{gname}<{t}{i}>"),
                1 => format!("{gname}::h{:016x}", 0x1234_5678_9abc_0000u64 + i as u64),
                _ => format!("{gname}<Vec<T{i}>, U>::call(int)"),
            };
            generic = Some(gname);
        }
        if o.odd_names && kind != Kind::Code && s.chance(1, 3) {
            name = odd_around(s, i);
        } else if o.odd_names && s.chance(1, 6) {
            name = format!("q{}", odd_around(s, i));
            // '<' ... '>' and "::h" are not in the odd alphabet as a pair.
            generic = None;
        }
        if o.dup_names && i > 0 && s.chance(1, 4) {
            let j = s.below(i);
            name = g.nodes[j].name.clone();
            generic = if kind == Kind::Code { known_generic(&name) } else { None };
            g.unique = false;
        }
        if s.chance(1, 2000) {
            let much = *s.pick(&[100, 300, 3000]);
            name = format!("long{i}{}", "-x".repeat(much));
            generic = None;
        }
        let mut size = size;
        if alike && i > 0 && s.chance(1, 2) {
            let j = s.below(i);
            let other = alike_name(s, &g.nodes[j].name);
            if !other.is_empty() && !other.starts_with('_') && g.nodes.iter().all(|n| n.name != other) {
                name = other;
                generic = None;
                if s.chance(1, 2) && huge.map_or(true, |h| h.0 != j && h.0 != i) {
                    size = g.nodes[j].size;
                }
            }
        }
        if kind == Kind::Code && generic.is_none() {
            generic = known_generic(&name);
        }
        g.nodes.push(Node { name, size, kind, generic });
    }
    g.edges = vec![BTreeSet::new(); n];
    let add = |g: &mut Graph, a: usize, b: usize| {
        g.edges[a].insert(b);
    };
    if n > 0 {
        match shape {
            0 => {
                // random sparse
                let m = s.below(if o.sparse { n + 2 } else { 2 * n + 2 });
                for _ in 0..m {
                    let (a, b) = (s.below(n), s.below(n));
                    add(&mut g, a, b);
                }
            }
            1 => {
                // chain with random back and cross edges
                for i in 1..n {
                    add(&mut g, i - 1, i);
                }
                for _ in 0..s.below(n / 3 + 2) {
                    let (a, b) = (s.below(n), s.below(n));
                    add(&mut g, a, b);
                }
            }
            2 => {
                // tree plus a few extra edges
                for i in 1..n {
                    let p = s.below(i);
                    add(&mut g, p, i);
                }
                for _ in 0..s.below(n / 4 + 2) {
                    let (a, b) = (s.below(n), s.below(n));
                    add(&mut g, a, b);
                }
            }
            3 => {
                // cycle(s)
                let k = s.range(1, n);
                for i in 0..n {
                    let j = if (i + 1) % k == 0 || i + 1 == n { (i / k) * k } else { i + 1 };
                    add(&mut g, i, j);
                }
                for _ in 0..s.below(4) {
                    let (a, b) = (s.below(n), s.below(n));
                    add(&mut g, a, b);
                }
            }
            4 => {
                // diamond ladder: i -> i+1, i+2
                for i in 0..n {
                    if i + 1 < n {
                        add(&mut g, i, i + 1);
                    }
                    if i + 2 < n && (!o.sparse || i % 4 == 0) {
                        add(&mut g, i, i + 2);
                    }
                }
                for _ in 0..s.below(3) {
                    let (a, b) = (s.below(n), s.below(n));
                    add(&mut g, a, b);
                }
            }
            5 if !o.sparse => {
                // dense
                let d = s.range(1, 6);
                for a in 0..n {
                    for b in 0..n {
                        if s.below(8) < d {
                            add(&mut g, a, b);
                        }
                    }
                }
            }
            6 => {
                // irreducible: two entries into a loop, hung under a chain
                let h = n / 2;
                for i in 1..h {
                    add(&mut g, i - 1, i);
                }
                for i in h..n {
                    let j = if i + 1 < n { i + 1 } else { h };
                    add(&mut g, i, j);
                    if !o.sparse || i % 3 == 0 {
                        add(&mut g, j, i);
                    }
                }
                for _ in 0..s.range(1, 3) {
                    let a = s.below(h.max(1));
                    let b = s.below(n);
                    add(&mut g, a, b);
                }
            }
            7 => {
                // star with shared leaves
                for i in 1..n {
                    if s.chance(2, 3) {
                        add(&mut g, 0, i);
                    }
                    let p = s.below(n);
                    add(&mut g, i, p);
                }
            }
            _ => {
                // several components
                let k = s.range(1, 5).min(n);
                for i in k..n {
                    let p = i - k;
                    add(&mut g, p, i);
                    if s.chance(1, 4) {
                        add(&mut g, i, p);
                    }
                }
            }
        }
        // self references
        if s.chance(1, 3) {
            for _ in 0..s.range(1, 2) {
                let a = s.below(n);
                add(&mut g, a, a);
            }
        }
        match s.weighted(&[4, 3, 2, 1]) {
            0 => {
                g.roots.insert(0);
                for _ in 0..s.below(3) {
                    let r = s.below(n);
                    g.roots.insert(r);
                }
            }
            1 => {
                for i in 0..n {
                    if s.chance(1, 5) {
                        g.roots.insert(i);
                    }
                }
            }
            2 => {
                for i in 0..n {
                    if s.chance(2, 3) {
                        g.roots.insert(i);
                    }
                }
            }
            _ => {}
        }
    }
    if o.large.0 > 0 && s.chance(1, 500) {
        let n = match s.weighted(&[12, 4, 1]) {
            0 => s.range(100, 1500),
            1 => s.range(1500, 4000),
            _ => s.range(2000, 100_000),
        };
        g.grow(s, n.min(o.large.0), o.large.1.max(1));
    }
    let sum: u64 = g.sum(|_| true);
    g.total = match s.below(3) {
        0 | 1 => (sum as u32).max(1),
        _ => sum as u32 + 1 + s.below(1000) as u32,
    };
    g
}

/// The generic a (plain, unmangled) name is an instance of; the reference
/// statement of the documented rule.
pub fn known_generic(name: &str) -> Option<String> {
    // Rust: path::h<16 digits>, perhaps with an LLVM suffix
    let c: Vec<char> = name.chars().collect();
    for i in (0..c.len().saturating_sub(18)).rev() {
        if c[i..i + 3] == [':', ':', 'h'] && c[i + 3..i + 19].iter().all(|c| c.is_ascii_hexdigit()) {
            let rest: String = c[i + 19..].iter().collect();
            if (rest.is_empty() || rest.starts_with('.')) && !rest.contains("::") {
                return Some(c[..i].iter().collect());
            }
        }
    }
    let open = name.find('<')?;
    let close = name.rfind('>')?;
    if open == 0 || close < open {
        return None;
    }
    Some(name[..open].to_string())
}
