//! A strict RFC 8259 JSON reader (independent of the code under test).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// The number's source text.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str_(&self, k: &str) -> Result<String, String> {
        match self.get(k) {
            Some(J::Str(s)) => Ok(s.clone()),
            o => Err(format!("field {k}: expected string, found {o:?}")),
        }
    }
    pub fn num(&self, k: &str) -> Result<f64, String> {
        match self.get(k) {
            Some(J::Num(s)) => s.parse::<f64>().map_err(|e| format!("field {k}: {s}: {e}")),
            o => Err(format!("field {k}: expected number, found {o:?}")),
        }
    }
    pub fn int(&self, k: &str) -> Result<i64, String> {
        match self.get(k) {
            Some(J::Num(s)) => s.parse::<i64>().map_err(|e| format!("field {k}: {s}: {e}")),
            o => Err(format!("field {k}: expected integer, found {o:?}")),
        }
    }
    pub fn arr(&self) -> Result<&[J], String> {
        match self {
            J::Arr(v) => Ok(v),
            o => Err(format!("expected array, found {o:?}")),
        }
    }
    pub fn keys(&self) -> Vec<&str> {
        match self {
            J::Obj(v) => v.iter().map(|(k, _)| k.as_str()).collect(),
            _ => vec![],
        }
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

/// Parse one JSON document covering all of `text` (which must be UTF-8).
pub fn parse(bytes: &[u8]) -> Result<J, String> {
    std::str::from_utf8(bytes).map_err(|e| format!("JSON is not UTF-8: {e}"))?;
    let mut p = P { s: bytes, i: 0 };
    let v = p.value(0)?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing characters after JSON document at byte {}", p.i));
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("invalid JSON at byte {}: {m}", self.i))
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 20000 {
            return self.err("too deep for the checker");
        }
        self.ws();
        match self.peek() {
            None => self.err("unexpected end"),
            Some(b'{') => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(b':') {
                        return self.err("expected ':'");
                    }
                    self.i += 1;
                    let x = self.value(depth + 1)?;
                    if v.iter().any(|(n, _)| *n == k) {
                        return self.err("duplicate key in object");
                    }
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.err("expected ',' or '}'"),
                    }
                }
            }
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("expected ',' or ']'"),
                    }
                }
            }
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'n') => self.lit("null", J::Null),
            _ => self.number(),
        }
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn digits(&mut self) -> usize {
        let st = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        self.i - st
    }
    fn number(&mut self) -> Result<J, String> {
        let st = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        let z = self.peek() == Some(b'0');
        let n = self.digits();
        if n == 0 || (z && n > 1) {
            return self.err("bad number");
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            if self.digits() == 0 {
                return self.err("bad fraction");
            }
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if self.digits() == 0 {
                return self.err("bad exponent");
            }
        }
        Ok(J::Num(String::from_utf8(self.s[st..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut v = 0;
        for _ in 0..4 {
            let d = match self.peek() {
                Some(c) if (c as char).is_ascii_hexdigit() => (c as char).to_digit(16).unwrap(),
                _ => return self.err("bad \\u escape"),
            };
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != Some(b'"') {
            return self.err("expected string");
        }
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            match self.peek() {
                None => return self.err("unterminated string"),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(out).map_err(|e| e.to_string());
                }
                Some(c) if c < 0x20 => return self.err("raw control character in string"),
                Some(b'\\') => {
                    self.i += 1;
                    let c = match self.peek() {
                        Some(c) => c,
                        None => return self.err("unterminated escape"),
                    };
                    self.i += 1;
                    let ch = match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            let cp = if (0xd800..0xdc00).contains(&a) {
                                if !self.s[self.i..].starts_with(b"\\u") {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("bad surrogate pair");
                                }
                                0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                            } else {
                                a
                            };
                            match char::from_u32(cp) {
                                Some(c) => c,
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("unknown escape"),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                Some(c) => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
