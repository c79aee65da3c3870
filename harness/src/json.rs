//! Minimal JSON value, parser and (ASCII only) printer.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_owned())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::Bool(s)
    }
}
impl From<i64> for J {
    fn from(s: i64) -> J {
        J::Num(s)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::Num(s as i64)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::Arr(v.into_iter().map(Into::into).collect())
    }
}

/// `obj([("k", v.into()), ...])`
pub fn obj<const N: usize>(fields: [(&str, J); N]) -> J {
    J::Obj(fields.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}

impl J {
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(fields) => fields.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, key: &str) -> &J {
        self.get(key)
            .unwrap_or_else(|| panic!("harness: missing field {key} in {self}"))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: not a string: {self}"),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("harness: not a number: {self}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => panic!("harness: not an array: {self}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("harness: not a bool: {self}"),
        }
    }
    /// The object with the given field added (or replaced).
    pub fn with(mut self, key: &str, value: impl Into<J>) -> J {
        let value = value.into();
        if let J::Obj(fields) = &mut self {
            fields.retain(|(k, _)| k != key);
            fields.push((key.to_owned(), value));
        }
        self
    }
    pub fn parse(s: &str) -> J {
        let mut p = P { s: s.as_bytes(), i: 0 };
        let v = p.value();
        p.ws();
        assert!(p.i == p.s.len(), "harness: trailing JSON");
        v
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) {
        assert_eq!(self.s[self.i], c, "harness: JSON at {}", self.i);
        self.i += 1;
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                let mut fields = Vec::new();
                self.ws();
                if self.s[self.i] == b'}' {
                    self.i += 1;
                    return J::Obj(fields);
                }
                loop {
                    self.ws();
                    let k = self.string();
                    self.ws();
                    self.eat(b':');
                    fields.push((k, self.value()));
                    self.ws();
                    self.i += 1;
                    match self.s[self.i - 1] {
                        b',' => {}
                        b'}' => return J::Obj(fields),
                        _ => panic!("harness: JSON object at {}", self.i),
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut items = Vec::new();
                self.ws();
                if self.s[self.i] == b']' {
                    self.i += 1;
                    return J::Arr(items);
                }
                loop {
                    items.push(self.value());
                    self.ws();
                    self.i += 1;
                    match self.s[self.i - 1] {
                        b',' => {}
                        b']' => return J::Arr(items),
                        _ => panic!("harness: JSON array at {}", self.i),
                    }
                }
            }
            b'"' => J::Str(self.string()),
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            _ => {
                let start = self.i;
                while self.i < self.s.len()
                    && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit())
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[start..self.i]).unwrap();
                J::Num(t.parse().unwrap_or_else(|_| panic!("harness: JSON number at {start}")))
            }
        }
    }
    fn hex4(&mut self) -> u32 {
        let h = std::str::from_utf8(&self.s[self.i..self.i + 4]).unwrap();
        self.i += 4;
        u32::from_str_radix(h, 16).unwrap()
    }
    fn string(&mut self) -> String {
        self.eat(b'"');
        let mut out = Vec::new();
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).unwrap(),
                b'\\' => {
                    let e = self.s[self.i];
                    self.i += 1;
                    let ch = match e {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'u' => {
                            let hi = self.hex4();
                            let code = if (0xd800..0xdc00).contains(&hi) {
                                self.eat(b'\\');
                                self.eat(b'u');
                                let lo = self.hex4();
                                0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00)
                            } else {
                                hi
                            };
                            char::from_u32(code).unwrap()
                        }
                        c => c as char,
                    };
                    out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                c => out.push(c),
            }
        }
    }
}

fn write_str(f: &mut std::fmt::Formatter<'_>, s: &str) -> std::fmt::Result {
    f.write_char('"')?;
    for c in s.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            ' '..='~' => f.write_char(c)?,
            c => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    write!(f, "\\u{u:04x}")?;
                }
            }
        }
    }
    f.write_char('"')
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            J::Bool(b) => write!(f, "{b}"),
            J::Num(n) => write!(f, "{n}"),
            J::Str(s) => write_str(f, s),
            J::Arr(v) => {
                f.write_char('[')?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    write!(f, "{x}")?;
                }
                f.write_char(']')
            }
            J::Obj(v) => {
                f.write_char('{')?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    write_str(f, k)?;
                    write!(f, ":{x}")?;
                }
                f.write_char('}')
            }
        }
    }
}
