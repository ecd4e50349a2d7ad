//! Item arguments with meanings stated here (not by a regex engine).

use crate::source::Source;

#[derive(Clone, Debug)]
pub enum Pat {
    /// A name as it is.
    Literal(String),
    /// `^name$`
    Whole(String),
    /// `text`
    Contains(String),
    /// `^text`
    Starts(String),
    /// `text$`
    Ends(String),
    /// `^(?:a|b)$`
    Either(String, String),
    /// `^a.*b$` (no line breaks in between)
    Span(String, String),
    /// `^.{n}$`
    Length(usize),
    /// `[0-9]`
    Digit,
    /// `` (the empty pattern)
    Anything,
    /// `^$`
    Empty,
}

/// Quote every pattern metacharacter.
pub fn escape(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

impl Pat {
    pub fn text(&self) -> String {
        match self {
            Pat::Literal(s) => s.clone(),
            Pat::Whole(s) => format!("^{}$", escape(s)),
            Pat::Contains(s) => escape(s),
            Pat::Starts(s) => format!("^{}", escape(s)),
            Pat::Ends(s) => format!("{}$", escape(s)),
            Pat::Either(a, b) => format!("^(?:{}|{})$", escape(a), escape(b)),
            Pat::Span(a, b) => format!("^{}.*{}$", escape(a), escape(b)),
            Pat::Length(n) => format!("^.{{{n}}}$"),
            Pat::Digit => "[0-9]".into(),
            Pat::Anything => ".*".into(),
            Pat::Empty => "^$".into(),
        }
    }

    pub fn matches(&self, name: &str) -> bool {
        match self {
            Pat::Literal(s) | Pat::Whole(s) => name == s,
            Pat::Contains(s) => name.contains(s.as_str()),
            Pat::Starts(s) => name.starts_with(s.as_str()),
            Pat::Ends(s) => name.ends_with(s.as_str()),
            Pat::Either(a, b) => name == a || name == b,
            Pat::Span(a, b) => {
                name.len() >= a.len() + b.len() && name.starts_with(a.as_str()) && name.ends_with(b.as_str()) && !name[a.len()..name.len() - b.len()].contains('\n')
            }
            Pat::Length(n) => name.chars().count() == *n && !name.contains('\n'),
            Pat::Digit => name.bytes().any(|b| b.is_ascii_digit()),
            Pat::Anything => true,
            Pat::Empty => name.is_empty(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Selection {
    pub regex: bool,
    pub pats: Vec<Pat>,
}

impl Selection {
    /// The items of this name, unless the name cannot be an argument.
    pub fn exact(name: &str) -> Selection {
        let pats = if usable(name) { vec![Pat::Literal(name.into())] } else { vec![] };
        Selection { regex: false, pats }
    }
    pub fn none(&self) -> bool {
        self.pats.is_empty()
    }
    pub fn has(&self, name: &str) -> bool {
        self.pats.iter().any(|p| p.matches(name))
    }
    pub fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        if self.regex {
            a.push("--regex".into());
        }
        a.extend(self.pats.iter().map(|p| p.text()));
        a
    }
}

/// Whether an argument can be given on the command line as it is.
fn usable(s: &str) -> bool {
    !s.is_empty() && !s.starts_with('-')
}

fn part(s: &mut Source, name: &str) -> String {
    let c: Vec<char> = name.chars().collect();
    if c.is_empty() {
        return "x".into();
    }
    let a = s.below(c.len());
    let b = s.range(a + 1, c.len());
    c[a..b].iter().collect()
}

/// Up to `max` distinct arguments about the given names.
pub fn generate(s: &mut Source, names: &[String], max: usize) -> Selection {
    let regex = s.chance(1, 2);
    let k = s.range(1, max);
    let mut sel = Selection { regex, pats: vec![] };
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..k {
        let name = |s: &mut Source| -> String {
            if names.is_empty() || s.chance(1, 7) {
                match s.below(4) {
                    0 => "no such item".into(),
                    1 if !names.is_empty() => format!("{}x", s.pick(names)),
                    2 if !names.is_empty() => {
                        let n = s.pick(names).clone();
                        part(s, &n)
                    }
                    _ => "<meta root>".into(),
                }
            } else {
                s.pick(names).clone()
            }
        };
        let p = if !regex {
            Pat::Literal(name(s))
        } else {
            match s.below(12) {
                0..=3 => Pat::Whole(name(s)),
                4 | 5 => {
                    let n = name(s);
                    Pat::Contains(part(s, &n))
                }
                6 => {
                    let n = name(s);
                    let k = n.chars().count().min(s.range(1, 6));
                    Pat::Starts(n.chars().take(k).collect())
                }
                7 => {
                    let n = name(s);
                    let c = n.chars().count();
                    let k = c.min(s.range(1, 4));
                    Pat::Ends(n.chars().skip(c - k).collect())
                }
                8 => Pat::Either(name(s), name(s)),
                9 => {
                    let (a, b) = (name(s), name(s));
                    Pat::Span(a.chars().take(1).collect(), b.chars().rev().take(1).collect())
                }
                10 => match s.below(3) {
                    0 => Pat::Length(name(s).chars().count()),
                    1 => Pat::Digit,
                    _ => Pat::Empty,
                },
                _ => Pat::Anything,
            }
        };
        let t = p.text();
        if usable(&t) && seen.insert(t) {
            sel.pats.push(p);
        }
    }
    if sel.pats.is_empty() {
        sel.regex = false;
        sel.pats.push(Pat::Literal("no such item".into()));
    }
    sel
}
