//! JSON with number texts and duplicate members preserved, and without a recursion limit.
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn n(x: impl std::fmt::Display) -> J {
        J::Num(x.to_string())
    }
    pub fn obj(m: Vec<(&str, J)>) -> J {
        J::Obj(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn find(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn get(&self, k: &str) -> &J {
        self.find(k).unwrap_or_else(|| panic!("harness: no member {k} in {self:?}"))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            x => panic!("harness: not a string: {x:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(s) => s,
            x => panic!("harness: not an array: {x:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Num(s) => s.parse().unwrap(),
            x => panic!("harness: not a number: {x:?}"),
        }
    }
    pub fn print(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => out.push_str(n),
            J::Str(s) => quote(s, out, false),
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',')
                    }
                    x.print(out);
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',')
                    }
                    quote(k, out, false);
                    out.push(':');
                    x.print(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.print(&mut s);
        s
    }
    /// the same document with the members of every object sorted
    pub fn sorted(&self) -> J {
        match self {
            J::Arr(a) => J::Arr(a.iter().map(|x| x.sorted()).collect()),
            J::Obj(m) => {
                let mut m: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.sorted())).collect();
                m.sort_by(|a, b| a.0.cmp(&b.0));
                J::Obj(m)
            }
            x => x.clone(),
        }
    }
}

pub fn quote(s: &str, out: &mut String, escape_all: bool) {
    out.push('"');
    for c in s.chars() {
        if escape_all || (c as u32) < 0x20 || c as u32 == 0x7f {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        } else if c == '"' || c == '\\' {
            out.push('\\');
            out.push(c);
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

pub struct Parser<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(t: &str) -> Result<J, String> {
    let mut p = Parser { b: t.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}

impl Parser<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, t: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(a));
                        }
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut m = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return Err(format!("no colon at {}", self.i));
                    }
                    self.i += 1;
                    let v = self.value()?;
                    m.push((k, v));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(m));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let s = self.i;
                while matches!(self.peek(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1
                }
                Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
            }
            c => Err(format!("bad character {c} at {}", self.i)),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let s = self.b.get(self.i..self.i + 4).ok_or("short escape")?;
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(s).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return Err(format!("no string at {}", self.i));
        }
        self.i += 1;
        let mut out = Vec::new();
        loop {
            let c = *self.b.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    let ch = match e {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                self.i += 2;
                                let l = self.hex4()?;
                                u = 0x10000 + ((u - 0xd800) << 10) + (l.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            char::from_u32(u).ok_or("bad escape")?
                        }
                        b'"' | b'\\' | b'/' => e as char,
                        _ => return Err("bad escape".into()),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                c if c < 0x20 => return Err("raw control character".into()),
                c => out.push(c),
            }
        }
    }
}
