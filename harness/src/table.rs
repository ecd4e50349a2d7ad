//! Reader and layout checker for the text tables.

pub struct Table {
    pub header: Vec<String>,
    /// Cells; all but the last are trimmed of padding.
    pub rows: Vec<Vec<String>>,
}

fn width(s: &str) -> usize {
    s.chars().count()
}

/// Read a table and check its layout: a header, a rule, and rows that have the
/// header's columns, all columns but the last padded to a common width
/// (numbers right-aligned, the header left-aligned).
/// Names must not contain line breaks.
pub fn parse(bytes: &[u8], header: &[&str]) -> Result<Table, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("text is not UTF-8: {e}"))?;
    if !s.ends_with('\n') {
        return Err("text table does not end with a newline".into());
    }
    let mut lines: Vec<&str> = s.split('\n').collect();
    lines.pop();
    if lines.len() < 2 {
        return Err("text table has no header".into());
    }
    let n = header.len();
    let head = split(lines[0], " │ ", n).ok_or_else(|| format!("bad header line {:?}", lines[0]))?;
    for (i, h) in header.iter().enumerate() {
        if head[i].trim_end() != *h {
            return Err(format!("header column {i} is {:?}, expected {h:?}", head[i].trim_end()));
        }
    }
    let widths: Vec<usize> = head[..n - 1].iter().map(|h| width(h)).collect();
    // The rule: "─" + "─"*w0 + "─┼─" + ...
    let rule: Vec<&str> = lines[1].split('┼').collect();
    if rule.len() != n || lines[1].chars().any(|c| c != '─' && c != '┼') {
        return Err(format!("bad rule line {:?}", lines[1]));
    }
    for i in 0..n - 1 {
        if width(rule[i]) != widths[i] + 2 {
            return Err(format!("rule segment {i} has width {}, column has {}", width(rule[i]), widths[i]));
        }
    }
    let mut rows = vec![];
    for (ln, l) in lines[2..].iter().enumerate() {
        let cells = split(l, " ┊ ", n).ok_or_else(|| format!("row {ln} {l:?} does not have {n} columns"))?;
        let mut out = vec![];
        for i in 0..n - 1 {
            if width(&cells[i]) != widths[i] {
                return Err(format!("row {ln} {l:?}: column {i} has width {}, expected {}", width(&cells[i]), widths[i]));
            }
            let t = cells[i].trim();
            if !t.is_empty() && !cells[i].ends_with(t) {
                return Err(format!("row {ln} {l:?}: column {i} is not right-aligned"));
            }
            out.push(t.to_string());
        }
        out.push(cells[n - 1].clone());
        rows.push(out);
    }
    // No column is wider than its widest cell.
    for i in 0..n - 1 {
        let w = rows.iter().map(|r| width(&r[i])).chain(std::iter::once(width(header[i]))).max().unwrap();
        if w != widths[i] {
            return Err(format!("column {i} has width {} but its widest cell has {w}", widths[i]));
        }
    }
    Ok(Table { header: header.iter().map(|s| s.to_string()).collect(), rows })
}

fn split(l: &str, sep: &str, n: usize) -> Option<Vec<String>> {
    let l = l.strip_prefix(' ')?;
    let v: Vec<String> = l.splitn(n, sep).map(|s| s.to_string()).collect();
    if v.len() == n {
        Some(v)
    } else {
        None
    }
}

impl Table {
    pub fn int(&self, row: usize, col: usize) -> Result<i64, String> {
        let s = &self.rows[row][col];
        s.parse().map_err(|e| format!("text row {row} column {col}: {s:?}: {e}"))
    }
    pub fn pct(&self, row: usize, col: usize) -> Result<f64, String> {
        let s = &self.rows[row][col];
        let t = s.strip_suffix('%').ok_or_else(|| format!("text row {row} column {col}: {s:?} is not a percentage"))?;
        if t.rsplit_once('.').map_or(true, |(_, d)| d.len() != 2) {
            return Err(format!("text row {row} column {col}: {s:?} does not have two decimals"));
        }
        t.parse().map_err(|e| format!("text row {row} column {col}: {s:?}: {e}"))
    }
    pub fn last(&self, row: usize) -> &str {
        self.rows[row].last().unwrap()
    }
}
