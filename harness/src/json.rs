//! Minimal JSON value, used for cases, replay files, known findings and evidence.
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn n(x: impl TryInto<i64>) -> J {
        J::Num(x.try_into().unwrap_or(i64::MAX) as f64)
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str_(&self, k: &str) -> String {
        match self.get(k) {
            Some(J::Str(s)) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn int(&self, k: &str) -> i64 {
        match self.get(k) {
            Some(J::Num(n)) => *n as i64,
            Some(J::Bool(b)) => *b as i64,
            _ => 0,
        }
    }
    pub fn arr(&self, k: &str) -> Vec<J> {
        match self.get(k) {
            Some(J::Arr(v)) => v.clone(),
            _ => vec![],
        }
    }
    pub fn as_str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn as_int(&self) -> i64 {
        match self {
            J::Num(n) => *n as i64,
            _ => 0,
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.w(&mut o);
        o
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => {
                if n.fract() == 0.0 && n.abs() < 9e15 {
                    let _ = write!(o, "{}", *n as i64);
                } else {
                    let _ = write!(o, "{n}");
                }
            }
            J::Str(s) => wstr(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b: Vec<char> = s.chars().collect();
        let mut p = P { b, i: 0 };
        let v = p.val()?;
        p.ws();
        if p.i != p.b.len() {
            return Err("trailing data".into());
        }
        Ok(v)
    }
}

fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct P {
    b: Vec<char>,
    i: usize,
}
impl P {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], ' ' | '\n' | '\r' | '\t') {
            self.i += 1;
        }
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        for c in l.chars() {
            if self.b.get(self.i) != Some(&c) {
                return Err(format!("bad literal at {}", self.i));
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        match self.b.get(self.i) {
            None => Err("eof".into()),
            Some('n') => self.lit("null", J::Null),
            Some('t') => self.lit("true", J::Bool(true)),
            Some('f') => self.lit("false", J::Bool(false)),
            Some('"') => Ok(J::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.val()?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(',') => self.i += 1,
                        Some(']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err("array".into()),
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&':') {
                        return Err("colon".into());
                    }
                    self.i += 1;
                    let x = self.val()?;
                    v.push((k, x));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(',') => self.i += 1,
                        Some('}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err("object".into()),
                    }
                }
            }
            Some(_) => {
                let st = self.i;
                while self.i < self.b.len() && "+-.eE0123456789".contains(self.b[self.i]) {
                    self.i += 1;
                }
                let t: String = self.b[st..self.i].iter().collect();
                t.parse().map(J::Num).map_err(|_| format!("bad token at {st}"))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.b.get(self.i) != Some(&'"') {
            return Err("string".into());
        }
        self.i += 1;
        let mut o = String::new();
        loop {
            let c = *self.b.get(self.i).ok_or("eof in string")?;
            self.i += 1;
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = *self.b.get(self.i).ok_or("eof")?;
                    self.i += 1;
                    match e {
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        'b' => o.push('\u{8}'),
                        'f' => o.push('\u{c}'),
                        'u' => {
                            let mut x = self.hex4()?;
                            if (0xd800..0xdc00).contains(&x)
                                && self.b.get(self.i) == Some(&'\\')
                                && self.b.get(self.i + 1) == Some(&'u')
                            {
                                self.i += 2;
                                let y = self.hex4()?;
                                x = 0x10000 + ((x - 0xd800) << 10) + (y.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            o.push(char::from_u32(x).unwrap_or('\u{fffd}'));
                        }
                        c => o.push(c),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let t: String = self.b.get(self.i..self.i + 4).ok_or("eof")?.iter().collect();
        self.i += 4;
        u32::from_str_radix(&t, 16).map_err(|e| e.to_string())
    }
}
