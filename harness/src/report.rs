//! Reads the reports of every command in every format into rows.

use crate::csvp::Csv;
use crate::json::{self, J};
use crate::table;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Text,
    Json,
    Csv,
}

pub const FORMATS: [Fmt; 3] = [Fmt::Text, Fmt::Json, Fmt::Csv];

impl Fmt {
    pub fn arg(self) -> &'static str {
        match self {
            Fmt::Text => "text",
            Fmt::Json => "json",
            Fmt::Csv => "csv",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cmd {
    Top { retained: bool },
    Dominators,
    Paths { descending: bool },
    Monos,
    Garbage,
    Diff,
}

/// One line of a report. Which cells exist depends on command and format.
#[derive(Clone, Debug, Default)]
pub struct Row {
    /// Nesting; unknown in flat formats.
    pub level: Option<usize>,
    /// In text, the whole label.
    pub name: String,
    pub shallow: Option<i64>,
    pub shallow_pct: Option<f64>,
    pub retained: Option<i64>,
    pub retained_pct: Option<f64>,
    pub bloat: Option<i64>,
    pub bloat_pct: Option<f64>,
    pub id: Option<i64>,
    pub idom: Option<i64>,
    /// CSV: joined names.
    pub joined: Option<String>,
}

/// What the text form puts in front of a name at a nesting level (0 is the top).
pub fn prefix(cmd: Cmd, level: usize) -> String {
    match cmd {
        Cmd::Dominators if level > 0 => "    ".repeat(level - 1) + "  ⤷ ",
        Cmd::Paths { descending } if level > 0 => "    ".repeat(level - 1) + if descending { "  ↳ " } else { "  ⬑ " },
        Cmd::Monos if level > 0 => "    ".into(),
        _ => String::new(),
    }
}

/// Split a text label into level and name; for names that do not start with
/// spaces or arrows.
pub fn unlabel(cmd: Cmd, label: &str) -> (usize, String) {
    let arrow = match cmd {
        Cmd::Dominators => "  ⤷ ",
        Cmd::Paths { descending: true } => "  ↳ ",
        Cmd::Paths { .. } => "  ⬑ ",
        Cmd::Monos => {
            return match label.strip_prefix("    ") {
                Some(n) => (1, n.to_string()),
                None => (0, label.to_string()),
            }
        }
        _ => return (0, label.to_string()),
    };
    let mut rest = label;
    let mut level = 1;
    while let Some(r) = rest.strip_prefix("    ") {
        rest = r;
        level += 1;
    }
    match rest.strip_prefix(arrow) {
        Some(n) => (level, n.to_string()),
        None => (0, label.to_string()),
    }
}

pub fn csv_header(cmd: Cmd) -> &'static [&'static str] {
    match cmd {
        Cmd::Top { .. } => &["Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent"],
        Cmd::Dominators => &["Id", "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent", "ImmediateDominator"],
        Cmd::Paths { .. } => &["Name", "ShallowSize", "ShallowSizePercent", "Path"],
        Cmd::Monos => &["Generic", "ApproximateMonomorphizationBloatBytes", "ApproximateMonomorphizationBloatPercent", "TotalSize", "TotalSizePercent", "Monomorphizations"],
        Cmd::Garbage => &["Name", "Bytes", "SizePercent"],
        Cmd::Diff => &["DeltaBytes", "Item"],
    }
}

pub fn text_header(cmd: Cmd) -> &'static [&'static str] {
    match cmd {
        Cmd::Top { retained: false } => &["Shallow Bytes", "Shallow %", "Item"],
        Cmd::Top { retained: true } => &["Retained Bytes", "Retained %", "Item"],
        Cmd::Dominators => &["Retained Bytes", "Retained %", "Dominator Tree"],
        Cmd::Paths { .. } => &["Shallow Bytes", "Shallow %", "Retaining Paths"],
        Cmd::Monos => &["Apprx. Bloat Bytes", "Apprx. Bloat %", "Bytes", "%", "Monomorphizations"],
        Cmd::Garbage => &["Bytes", "Size %", "Garbage Item"],
        Cmd::Diff => &["Delta Bytes", "Item"],
    }
}

/// Read a report. With `labels` the names of text rows are the whole labels,
/// otherwise they are split into level and name.
pub fn read(cmd: Cmd, fmt: Fmt, bytes: &[u8], labels: bool) -> Result<Vec<Row>, String> {
    let r = match fmt {
        Fmt::Text => text(cmd, bytes, labels),
        Fmt::Json => json_(cmd, bytes),
        Fmt::Csv => csv(cmd, bytes),
    };
    r.map_err(|e| format!("{e}\n-- {} output:\n{}", fmt.arg(), String::from_utf8_lossy(&bytes[..bytes.len().min(2000)])))
}

fn text(cmd: Cmd, bytes: &[u8], labels: bool) -> Result<Vec<Row>, String> {
    let t = table::parse(bytes, text_header(cmd))?;
    let mut rows = vec![];
    for i in 0..t.rows.len() {
        let int = |c: usize| -> Result<Option<i64>, String> {
            match t.rows[i][c].as_str() {
                "" | "..." => Ok(None),
                _ => t.int(i, c).map(Some),
            }
        };
        let pct = |c: usize| -> Result<Option<f64>, String> {
            match t.rows[i][c].as_str() {
                "" | "..." => Ok(None),
                _ => t.pct(i, c).map(Some),
            }
        };
        let mut r = Row::default();
        let label = t.last(i);
        if labels {
            r.name = label.to_string();
        } else {
            let (l, n) = unlabel(cmd, label);
            r.level = Some(l);
            r.name = n;
        }
        match cmd {
            Cmd::Top { retained: true } | Cmd::Dominators => {
                r.retained = int(0)?;
                r.retained_pct = pct(1)?;
            }
            Cmd::Top { .. } | Cmd::Garbage | Cmd::Paths { .. } => {
                r.shallow = int(0)?;
                r.shallow_pct = pct(1)?;
            }
            Cmd::Monos => {
                r.bloat = int(0)?;
                r.bloat_pct = pct(1)?;
                r.shallow = int(2)?;
                r.shallow_pct = pct(3)?;
            }
            Cmd::Diff => {
                let s = &t.rows[i][0];
                if !s.starts_with('+') && !s.starts_with('-') {
                    return Err(format!("diff row {i} has no sign: {s:?}"));
                }
                r.shallow = int(0)?;
            }
        }
        rows.push(r);
    }
    Ok(rows)
}

fn csv(cmd: Cmd, bytes: &[u8]) -> Result<Vec<Row>, String> {
    let t = Csv::read(bytes, csv_header(cmd))?;
    let mut rows = vec![];
    for i in 0..t.rows.len() {
        let int = |c: &str| -> Result<Option<i64>, String> {
            if t.col(i, c).is_empty() {
                Ok(None)
            } else {
                t.int(i, c).map(Some)
            }
        };
        let num = |c: &str| -> Result<Option<f64>, String> {
            if t.col(i, c).is_empty() {
                Ok(None)
            } else {
                t.num(i, c).map(Some)
            }
        };
        let mut r = Row::default();
        match cmd {
            Cmd::Top { .. } | Cmd::Dominators => {
                r.name = t.col(i, "Name").into();
                r.shallow = int("ShallowSize")?;
                r.shallow_pct = num("ShallowSizePercent")?;
                r.retained = int("RetainedSize")?;
                r.retained_pct = num("RetainedSizePercent")?;
                if cmd == Cmd::Dominators {
                    // unsigned 64-bit numbers
                    let id = |c: &str| -> Result<Option<i64>, String> {
                        match t.col(i, c) {
                            "" => Ok(None),
                            s => s.parse::<u64>().map(|x| Some(x as i64)).map_err(|e| format!("CSV row {i} column {c}: {s:?}: {e}")),
                        }
                    };
                    r.id = id("Id")?;
                    r.idom = id("ImmediateDominator")?;
                }
            }
            Cmd::Paths { .. } => {
                r.name = t.col(i, "Name").into();
                r.shallow = int("ShallowSize")?;
                r.shallow_pct = num("ShallowSizePercent")?;
                r.joined = Some(t.col(i, "Path").into());
            }
            Cmd::Monos => {
                r.name = t.col(i, "Generic").into();
                r.bloat = int("ApproximateMonomorphizationBloatBytes")?;
                r.bloat_pct = num("ApproximateMonomorphizationBloatPercent")?;
                r.shallow = int("TotalSize")?;
                r.shallow_pct = num("TotalSizePercent")?;
                r.joined = Some(t.col(i, "Monomorphizations").into());
                r.level = Some(0);
            }
            Cmd::Garbage => {
                r.name = t.col(i, "Name").into();
                r.shallow = int("Bytes")?;
                r.shallow_pct = num("SizePercent")?;
            }
            Cmd::Diff => {
                r.name = t.col(i, "Item").into();
                let s = t.col(i, "DeltaBytes");
                if !s.starts_with('+') && !s.starts_with('-') {
                    return Err(format!("diff row {i} has no sign: {s:?}"));
                }
                r.shallow = int("DeltaBytes")?;
            }
        }
        rows.push(r);
    }
    Ok(rows)
}

fn json_(cmd: Cmd, bytes: &[u8]) -> Result<Vec<Row>, String> {
    let j = json::parse(bytes)?;
    let mut rows = vec![];
    match cmd {
        Cmd::Top { retained } => {
            for o in j.arr()? {
                let mut r = Row { level: Some(0), name: o.str_("name")?, shallow: Some(o.int("shallow_size")?), shallow_pct: Some(o.num("shallow_size_percent")?), ..Default::default() };
                if retained {
                    r.retained = Some(o.int("retained_size")?);
                    r.retained_pct = Some(o.num("retained_size_percent")?);
                }
                rows.push(r);
            }
        }
        Cmd::Garbage => {
            for o in j.arr()? {
                rows.push(Row { level: Some(0), name: o.str_("name")?, shallow: Some(o.int("bytes")?), shallow_pct: Some(o.num("size_percent")?), ..Default::default() });
            }
        }
        Cmd::Diff => {
            for o in j.arr()? {
                rows.push(Row { level: Some(0), name: o.str_("name")?, shallow: Some(o.int("delta_bytes")?), ..Default::default() });
            }
        }
        Cmd::Monos => {
            for o in j.arr()? {
                rows.push(Row {
                    level: Some(0),
                    name: o.str_("generic")?,
                    bloat: Some(o.int("approximate_monomorphization_bloat_bytes")?),
                    bloat_pct: Some(o.num("approximate_monomorphization_bloat_percent")?),
                    shallow: Some(o.int("total_size")?),
                    shallow_pct: Some(o.num("total_size_percent")?),
                    ..Default::default()
                });
                for i in o.get("monomorphizations").ok_or("no monomorphizations")?.arr()? {
                    rows.push(Row { level: Some(1), name: i.str_("name")?, shallow: Some(i.int("shallow_size")?), shallow_pct: Some(i.num("shallow_size_percent")?), ..Default::default() });
                }
            }
        }
        Cmd::Paths { .. } => walk(j.arr()?, 0, "callers", true, &mut rows)?,
        Cmd::Dominators => {
            walk(j.get("items").ok_or("no items")?.arr()?, 0, "children", false, &mut rows)?;
            if let Some(s) = j.get("summary") {
                for o in s.arr()? {
                    rows.push(Row { level: Some(0), name: o.str_("name")?, retained: Some(o.int("retained_size")?), retained_pct: Some(o.num("retained_size_percent")?), ..Default::default() });
                }
            }
        }
    }
    Ok(rows)
}

fn walk(a: &[J], level: usize, below: &str, required: bool, rows: &mut Vec<Row>) -> Result<(), String> {
    for o in a {
        let mut r = Row { level: Some(level), name: o.str_("name")?, shallow: Some(o.int("shallow_size")?), shallow_pct: Some(o.num("shallow_size_percent")?), ..Default::default() };
        if !required {
            r.retained = Some(o.int("retained_size")?);
            r.retained_pct = Some(o.num("retained_size_percent")?);
        }
        rows.push(r);
        match o.get(below) {
            Some(x) => walk(x.arr()?, level + 1, below, required, rows)?,
            None if required => return Err(format!("a path entry has no {below:?}")),
            None => {}
        }
    }
    Ok(())
}

/// Whether a shown percentage is that of `bytes` in `total`.
pub fn pct_is(fmt: Fmt, shown: Option<f64>, bytes: i64, total: u32) -> Result<(), String> {
    let want = bytes as f64 / f64::from(total) * 100.0;
    let got = match shown {
        Some(x) => x,
        None => return Err("a percentage is missing".into()),
    };
    let tol = if fmt == Fmt::Text { 0.005 + 1e-6 + want.abs() * 1e-9 } else { 1e-9 * want.abs().max(1.0) };
    if (got - want).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{bytes} bytes of {total} are {want}%, the {} report says {got}%", fmt.arg()))
    }
}
