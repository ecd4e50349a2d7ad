//! A strict RFC 4180 CSV reader (independent of the code under test).

/// All records, header included. Every record must have the same width.
pub fn parse(bytes: &[u8]) -> Result<Vec<Vec<String>>, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("CSV is not UTF-8: {e}"))?;
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut recs: Vec<Vec<String>> = vec![];
    while i < c.len() {
        let mut rec = vec![];
        loop {
            let mut f = String::new();
            if i < c.len() && c[i] == '"' {
                i += 1;
                loop {
                    if i >= c.len() {
                        return Err("unterminated quoted CSV field".into());
                    }
                    if c[i] == '"' {
                        if i + 1 < c.len() && c[i + 1] == '"' {
                            f.push('"');
                            i += 2;
                            continue;
                        }
                        i += 1;
                        break;
                    }
                    f.push(c[i]);
                    i += 1;
                }
                if i < c.len() && !matches!(c[i], ',' | '\n' | '\r') {
                    return Err(format!("text after closing quote in CSV record {}", recs.len()));
                }
            } else {
                while i < c.len() && !matches!(c[i], ',' | '\n' | '\r') {
                    if c[i] == '"' {
                        return Err(format!("bare quote in CSV record {}", recs.len()));
                    }
                    f.push(c[i]);
                    i += 1;
                }
            }
            rec.push(f);
            if i >= c.len() {
                return Err("CSV output does not end with a newline".into());
            }
            if c[i] == ',' {
                i += 1;
                continue;
            }
            if c[i] == '\r' {
                i += 1;
                if i >= c.len() || c[i] != '\n' {
                    return Err("bare carriage return in CSV".into());
                }
            }
            i += 1;
            break;
        }
        if let Some(h) = recs.first() {
            if h.len() != rec.len() {
                return Err(format!("CSV record {} has {} fields, the header has {}", recs.len(), rec.len(), h.len()));
            }
        }
        recs.push(rec);
    }
    Ok(recs)
}

pub struct Csv {
    pub header: Vec<String>,
    pub rows: Vec<Vec<String>>,
}

impl Csv {
    /// `header` is what the header must be; empty output means no records.
    pub fn read(bytes: &[u8], header: &[&str]) -> Result<Csv, String> {
        let mut recs = parse(bytes)?;
        if recs.is_empty() {
            return Ok(Csv { header: header.iter().map(|s| s.to_string()).collect(), rows: vec![] });
        }
        let h = recs.remove(0);
        if h != header {
            return Err(format!("CSV header is {h:?}, expected {header:?}"));
        }
        Ok(Csv { header: h, rows: recs })
    }
    pub fn col(&self, row: usize, name: &str) -> &str {
        let i = self.header.iter().position(|h| h == name).expect("column");
        &self.rows[row][i]
    }
    pub fn int(&self, row: usize, name: &str) -> Result<i64, String> {
        let s = self.col(row, name);
        s.parse().map_err(|e| format!("CSV row {row} column {name}: {s:?}: {e}"))
    }
    pub fn num(&self, row: usize, name: &str) -> Result<f64, String> {
        let s = self.col(row, name);
        s.parse().map_err(|e| format!("CSV row {row} column {name}: {s:?}: {e}"))
    }
}
