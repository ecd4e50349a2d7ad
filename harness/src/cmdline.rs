//! Command lines: what is asked for, and the many ways to write it down.

use crate::report::Fmt;
use crate::select;
use crate::source::Source;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verb {
    Top,
    Dominators,
    Paths,
    Monos,
    Diff,
    Garbage,
}

/// The options a command line sets.
#[derive(Clone, Debug)]
pub struct Spec {
    pub cmd: Verb,
    pub items: Vec<String>,
    pub mode: Option<&'static str>,
    pub fmt: Option<Fmt>,
    pub nums: BTreeMap<&'static str, u32>,
    pub flags: BTreeSet<&'static str>,
}

pub struct Opt {
    pub key: &'static str,
    pub short: Option<char>,
    pub long: Option<&'static str>,
    pub default: u32,
}

const fn o(key: &'static str, short: Option<char>, long: Option<&'static str>, default: u32) -> Opt {
    Opt { key, short, long, default }
}

/// The numeric options of a command, with their documented defaults.
pub fn numbers(cmd: Verb) -> &'static [Opt] {
    const TOP: &[Opt] = &[o("items", Some('n'), None, u32::MAX)];
    const DOMS: &[Opt] = &[o("depth", Some('d'), None, u32::MAX), o("rows", Some('r'), None, u32::MAX)];
    const PATHS: &[Opt] = &[o("depth", Some('d'), None, 10), o("paths", Some('r'), None, 10)];
    const MONOS: &[Opt] = &[o("generics", Some('m'), Some("max-generics"), 10), o("monos", Some('n'), Some("max-monos"), 10)];
    const DIFF: &[Opt] = &[o("items", Some('n'), None, 20)];
    const GARBAGE: &[Opt] = &[o("items", Some('n'), None, 10)];
    match cmd {
        Verb::Top => TOP,
        Verb::Dominators => DOMS,
        Verb::Paths => PATHS,
        Verb::Monos => MONOS,
        Verb::Diff => DIFF,
        Verb::Garbage => GARBAGE,
    }
}

pub fn flags(cmd: Verb) -> &'static [Opt] {
    const TOP: &[Opt] = &[o("retained", None, Some("retained"), 0), o("retaining-paths", Some('r'), Some("retaining-paths"), 0)];
    const DOMS: &[Opt] = &[o("regex", None, Some("regex"), 0)];
    const PATHS: &[Opt] = &[o("regex", None, Some("regex"), 0), o("descending", None, Some("descending"), 0)];
    const MONOS: &[Opt] = &[
        o("regex", None, Some("regex"), 0),
        o("only-generics", Some('g'), Some("only-generics"), 0),
        o("all", Some('a'), Some("all"), 0),
        o("all-generics", None, Some("all-generics"), 0),
        o("all-monos", None, Some("all-monos"), 0),
    ];
    const DIFF: &[Opt] = &[o("regex", None, Some("regex"), 0), o("all", Some('a'), Some("all"), 0)];
    const GARBAGE: &[Opt] = &[o("all", Some('a'), Some("all"), 0), o("show-data-segments", None, Some("show-data-segments"), 0)];
    match cmd {
        Verb::Top => TOP,
        Verb::Dominators => DOMS,
        Verb::Paths => PATHS,
        Verb::Monos => MONOS,
        Verb::Diff => DIFF,
        Verb::Garbage => GARBAGE,
    }
}

pub const CMDS: &[Verb] = &[Verb::Top, Verb::Dominators, Verb::Paths, Verb::Monos, Verb::Diff, Verb::Garbage];

pub fn name(cmd: Verb) -> &'static str {
    match cmd {
        Verb::Top => "top",
        Verb::Dominators => "dominators",
        Verb::Paths => "paths",
        Verb::Monos => "monos",
        Verb::Diff => "diff",
        Verb::Garbage => "garbage",
    }
}

impl Spec {
    pub fn new(cmd: Verb) -> Spec {
        Spec { cmd, items: vec![], mode: None, fmt: None, nums: BTreeMap::new(), flags: BTreeSet::new() }
    }
    /// The value of a numeric option that is in effect.
    pub fn number(&self, key: &str) -> u32 {
        let f = |x| self.flags.contains(x);
        let over = match (self.cmd, key) {
            (Verb::Monos, "generics") => f("all") || f("all-generics"),
            (Verb::Monos, "monos") => f("all") || f("all-monos"),
            (Verb::Diff, "items") | (Verb::Garbage, "items") => f("all"),
            _ => false,
        };
        if over {
            return u32::MAX;
        }
        self.nums.get(key).copied().unwrap_or_else(|| numbers(self.cmd).iter().find(|o| o.key == key).unwrap().default)
    }
    pub fn takes_items(&self) -> bool {
        !matches!(self.cmd, Verb::Top | Verb::Garbage)
    }
}

/// What a user might ask about items of the given names.
pub fn generate(s: &mut Source, cmd: Verb, names: &[String], small: bool) -> Spec {
    let mut spec = Spec::new(cmd);
    for f in flags(cmd) {
        // answered with an error
        let p = if f.key == "retaining-paths" { (1, 24) } else { (1, 4) };
        if f.key != "regex" && s.chance(p.0, p.1) {
            spec.flags.insert(f.key);
        }
    }
    for n in numbers(cmd) {
        if s.chance(1, 2) {
            let v = if small || s.chance(3, 4) { s.below(9) as u32 } else { s.u32_any() };
            // the number of rows is exponential in these
            let v = if cmd == Verb::Paths { v.min(6) } else { v };
            spec.nums.insert(n.key, v);
        }
    }
    if cmd == Verb::Paths && spec.nums.get("depth").is_none() {
        let v = s.below(5) as u32;
        spec.nums.insert("depth", v);
    }
    if spec.takes_items() && s.chance(1, 2) {
        let sel = select::generate(s, names, 3);
        spec.items = sel.pats.iter().map(|p| p.text()).collect();
        if sel.regex {
            spec.flags.insert("regex");
        }
    }
    if s.chance(2, 3) {
        spec.fmt = Some(*s.pick(&[Fmt::Text, Fmt::Json, Fmt::Csv]));
    }
    spec
}

fn number(s: &mut Source, v: u32) -> String {
    match s.below(12) {
        0 => format!("0{v}"),
        1 => format!("+{v}"),
        _ => v.to_string(),
    }
}

/// One way to write the command line, after the program's name.
pub fn render(s: &mut Source, spec: &Spec, inputs: &[OsString], out: Option<&OsStr>) -> Vec<OsString> {
    let cmd = spec.cmd;
    let mut groups: Vec<Vec<OsString>> = vec![];
    let value = |s: &mut Source, short: Option<char>, long: Option<&str>, v: OsString| -> Vec<OsString> {
        let join = |a: String, b: &OsStr| -> OsString {
            let mut x = OsString::from(a);
            x.push(b);
            x
        };
        match (short, long) {
            (Some(c), l) if l.is_none() || s.chance(1, 2) => match s.below(4) {
                0 | 1 => vec![format!("-{c}").into(), v],
                2 => vec![join(format!("-{c}"), &v)],
                _ => vec![join(format!("-{c}="), &v)],
            },
            (_, Some(l)) => match s.below(2) {
                0 => vec![format!("--{l}").into(), v],
                _ => vec![join(format!("--{l}="), &v)],
            },
            _ => unreachable!(),
        }
    };
    for (k, v) in &spec.nums {
        let o = numbers(cmd).iter().find(|o| o.key == *k).unwrap();
        let v = number(s, *v).into();
        groups.push(value(s, o.short, o.long, v));
    }
    if let Some(f) = spec.fmt {
        groups.push(value(s, Some('f'), Some("format"), f.arg().into()));
    }
    if let Some(m) = spec.mode {
        let short = if cmd == Verb::Monos { Some('d') } else { None };
        groups.push(value(s, short, Some("mode"), m.into()));
    }
    if let Some(p) = out {
        groups.push(value(s, Some('o'), None, p.to_os_string()));
    }
    let mut letters = String::new();
    for k in &spec.flags {
        let o = flags(cmd).iter().find(|o| o.key == *k).unwrap();
        match (o.short, o.long) {
            (Some(c), l) if l.is_none() || s.chance(1, 2) => letters.push(c),
            (_, Some(l)) => groups.push(vec![format!("--{l}").into()]),
            _ => unreachable!(),
        }
    }
    if !letters.is_empty() {
        if s.chance(1, 2) {
            groups.push(vec![format!("-{letters}").into()]);
        } else {
            groups.extend(letters.chars().map(|c| vec![OsString::from(format!("-{c}"))]));
        }
    }
    s.shuffle(&mut groups);
    // positional arguments keep their order
    let mut pos: Vec<OsString> = inputs.to_vec();
    pos.extend(spec.items.iter().map(OsString::from));
    let dashed = |p: &OsString| p.to_string_lossy().starts_with('-');
    let free = pos.iter().position(dashed).unwrap_or(pos.len());
    let free = if s.chance(1, 6) { s.below(free + 1) } else { free };
    let mut a: Vec<OsString> = vec![name(cmd).into()];
    let mut at = 0;
    for g in groups {
        while at < free && s.chance(1, 2) {
            a.push(pos[at].clone());
            at += 1;
        }
        a.extend(g);
    }
    while at < free {
        a.push(pos[at].clone());
        at += 1;
    }
    if at < pos.len() {
        a.push("--".into());
        a.extend(pos[at..].iter().cloned());
    }
    a
}

pub fn show(a: &[OsString]) -> String {
    let q: Vec<String> = a
        .iter()
        .map(|x| {
            let t = x.to_string_lossy().into_owned();
            if !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric() || "-_./=+".contains(c)) {
                t
            } else {
                format!("{t:?}")
            }
        })
        .collect();
    format!("twiggy {}", q.join(" "))
}
