//! A CSS Syntax Level 3 tokenizer and a parser that reduces a stylesheet to what it means:
//! whitespace is kept only where it separates compound selectors or stands next to `+` or `-`.

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Ws(String),
    Comment(String),
    Ident(String),
    Func(String),
    At(String),
    Hash(String),
    Str(String),
    Url(String),
    Bad,
    Num(String, String), // number as written, unit (decoded)
    Delim(char),
    P(char), // ( ) [ ] { } : ; ,
}

pub struct Lexed {
    pub t: Vec<T>,
    /// Byte offset of each token's start, and the end of the text.
    pub at: Vec<usize>,
}

struct L<'a> {
    s: &'a [char],
    i: usize,
}
fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || !c.is_ascii()
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-'
}
fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}')
}
fn nl(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{c}')
}

impl L<'_> {
    fn at(&self, k: usize) -> char {
        self.s.get(self.i + k).copied().unwrap_or('\0')
    }
    fn eof(&self) -> bool {
        self.i >= self.s.len()
    }
    fn valid_escape(&self, k: usize) -> bool {
        self.at(k) == '\\' && self.i + k + 1 < self.s.len() && !nl(self.at(k + 1))
    }
    fn starts_ident(&self, k: usize) -> bool {
        match self.at(k) {
            '-' => name_start(self.at(k + 1)) || self.at(k + 1) == '-' || self.valid_escape(k + 1),
            '\\' => self.valid_escape(k),
            c => self.i + k < self.s.len() && name_start(c),
        }
    }
    fn starts_number(&self) -> bool {
        let k = if matches!(self.at(0), '+' | '-') { 1 } else { 0 };
        self.at(k).is_ascii_digit() || (self.at(k) == '.' && self.at(k + 1).is_ascii_digit())
    }
    /// After the backslash.
    fn escape(&mut self) -> char {
        let c = self.at(0);
        self.i += 1;
        if !c.is_ascii_hexdigit() {
            return c;
        }
        let mut v = c.to_digit(16).unwrap();
        let mut n = 1;
        while n < 6 && self.at(0).is_ascii_hexdigit() {
            v = v * 16 + self.at(0).to_digit(16).unwrap();
            self.i += 1;
            n += 1;
        }
        if !self.eof() && ws(self.at(0)) {
            if self.at(0) == '\r' && self.at(1) == '\n' {
                self.i += 1;
            }
            self.i += 1;
        }
        if v == 0 { '\u{fffd}' } else { char::from_u32(v).unwrap_or('\u{fffd}') }
    }
    /// Decoded; an escaped character that would be punctuation stays marked by its code.
    fn name(&mut self) -> String {
        let mut o = String::new();
        loop {
            if !self.eof() && name_char(self.at(0)) {
                o.push(self.at(0));
                self.i += 1;
            } else if self.valid_escape(0) {
                self.i += 1;
                let c = self.escape();
                o.push(c);
            } else {
                return o;
            }
        }
    }
    fn number(&mut self) -> String {
        let a = self.i;
        if matches!(self.at(0), '+' | '-') {
            self.i += 1;
        }
        while self.at(0).is_ascii_digit() {
            self.i += 1;
        }
        if self.at(0) == '.' && self.at(1).is_ascii_digit() {
            self.i += 1;
            while self.at(0).is_ascii_digit() {
                self.i += 1;
            }
        }
        if matches!(self.at(0), 'e' | 'E') {
            let k = if matches!(self.at(1), '+' | '-') { 2 } else { 1 };
            if self.at(k).is_ascii_digit() {
                self.i += k;
                while self.at(0).is_ascii_digit() {
                    self.i += 1;
                }
            }
        }
        self.s[a..self.i].iter().collect()
    }
    fn string(&mut self) -> T {
        let q = self.at(0);
        self.i += 1;
        let mut o = String::new();
        loop {
            if self.eof() {
                return T::Bad;
            }
            let c = self.at(0);
            if c == q {
                self.i += 1;
                return T::Str(o);
            }
            if nl(c) {
                return T::Bad;
            }
            self.i += 1;
            if c == '\\' {
                if self.eof() {
                    return T::Bad;
                }
                if nl(self.at(0)) {
                    if self.at(0) == '\r' && self.at(1) == '\n' {
                        self.i += 1;
                    }
                    self.i += 1;
                } else {
                    let c = self.escape();
                    o.push(c);
                }
            } else {
                o.push(c);
            }
        }
    }
    fn url(&mut self) -> T {
        while !self.eof() && ws(self.at(0)) {
            self.i += 1;
        }
        let mut o = String::new();
        loop {
            if self.eof() {
                return T::Bad;
            }
            let c = self.at(0);
            if c == ')' {
                self.i += 1;
                return T::Url(o);
            }
            if ws(c) {
                while !self.eof() && ws(self.at(0)) {
                    self.i += 1;
                }
                if self.at(0) == ')' {
                    self.i += 1;
                    return T::Url(o);
                }
                return T::Bad;
            }
            if matches!(c, '"' | '\'' | '(') || c.is_control() {
                return T::Bad;
            }
            self.i += 1;
            if c == '\\' {
                if self.eof() || nl(self.at(0)) {
                    return T::Bad;
                }
                let c = self.escape();
                o.push(c);
            } else {
                o.push(c);
            }
        }
    }
    fn ident_like(&mut self) -> T {
        let n = self.name();
        if self.at(0) == '(' {
            self.i += 1;
            if n.eq_ignore_ascii_case("url") {
                let mut k = 0;
                while ws(self.at(k)) {
                    k += 1;
                }
                if !matches!(self.at(k), '"' | '\'') {
                    return self.url();
                }
            }
            return T::Func(n);
        }
        T::Ident(n)
    }
    fn next(&mut self) -> T {
        let c = self.at(0);
        if c == '/' && self.at(1) == '*' {
            let a = self.i + 2;
            self.i = a;
            while !self.eof() && !(self.at(0) == '*' && self.at(1) == '/') {
                self.i += 1;
            }
            if self.eof() {
                return T::Bad;
            }
            let t = self.s[a..self.i].iter().collect();
            self.i += 2;
            return T::Comment(t);
        }
        if ws(c) {
            let a = self.i;
            while !self.eof() && ws(self.at(0)) {
                self.i += 1;
            }
            return T::Ws(self.s[a..self.i].iter().collect());
        }
        if matches!(c, '"' | '\'') {
            return self.string();
        }
        if c == '#' && (name_char(self.at(1)) && self.i + 1 < self.s.len() || self.valid_escape(1)) {
            self.i += 1;
            return T::Hash(self.name());
        }
        if matches!(c, '(' | ')' | '[' | ']' | '{' | '}' | ':' | ';' | ',') {
            self.i += 1;
            return T::P(c);
        }
        if matches!(c, '+' | '-' | '.' | '0'..='9') && self.starts_number() {
            let n = self.number();
            if self.starts_ident(0) {
                return T::Num(n, self.name());
            }
            if self.at(0) == '%' {
                self.i += 1;
                return T::Num(n, "%".into());
            }
            return T::Num(n, String::new());
        }
        if c == '@' && self.starts_ident(1) {
            self.i += 1;
            return T::At(self.name());
        }
        if self.starts_ident(0) {
            return self.ident_like();
        }
        self.i += 1;
        T::Delim(c)
    }
}

pub fn lex(src: &str) -> Lexed {
    let s: Vec<char> = src.chars().collect();
    let mut offs: Vec<usize> = src.char_indices().map(|x| x.0).collect();
    offs.push(src.len());
    let mut l = L { s: &s, i: 0 };
    let (mut t, mut at) = (vec![], vec![]);
    while !l.eof() {
        at.push(offs[l.i]);
        t.push(l.next());
    }
    at.push(src.len());
    Lexed { t, at }
}

// ---------------------------------------------------------------- meaning

#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    At { name: String, prelude: Vec<String>, block: Option<Vec<Item>> },
    Rule { selector: Vec<String>, block: Vec<Item> },
    Decl { name: String, value: Vec<String> },
}

fn show(t: &T) -> String {
    match t {
        T::Ws(_) => " ".into(),
        T::Comment(c) => format!("/*{c}*/"),
        T::Ident(x) => format!("ident:{x}"),
        T::Func(x) => format!("function:{x}("),
        T::At(x) => format!("@{x}"),
        T::Hash(x) => format!("#{x}"),
        T::Str(x) => format!("string:{x}"),
        T::Url(x) => format!("url:{x}"),
        T::Bad => "bad".into(),
        T::Num(a, b) => format!("number:{a}|{b}"),
        T::Delim(c) => format!("delim:{c}"),
        T::P(c) => c.to_string(),
    }
}

/// Values and at-rule preludes: whitespace only counts next to `+` and `-`.
fn value(t: &[T]) -> Vec<String> {
    let mut o = vec![];
    for (i, x) in t.iter().enumerate() {
        match x {
            T::Ws(_) => {}
            T::Delim(c @ ('+' | '-')) => {
                let b = i > 0 && matches!(t[i - 1], T::Ws(_));
                let a = matches!(t.get(i + 1), Some(T::Ws(_)));
                o.push(format!("{}{c}{}", if b { "_" } else { "" }, if a { "_" } else { "" }));
            }
            x => o.push(show(x)),
        }
    }
    o
}

/// Selectors: whitespace is the descendant combinator, unless next to another combinator, a
/// comma or the inside of a parenthesis or bracket.
fn selector(t: &[T]) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let combinator = |x: &T| matches!(x, T::Delim('>' | '+' | '~') | T::P(','));
    let mut stack: Vec<char> = vec![];
    let mut i = 0;
    while i < t.len() {
        let x = &t[i];
        match x {
            T::Ws(_) => {
                let p = i.checked_sub(1).map(|k| &t[k]);
                let n = t.get(i + 1);
                let free = p.is_none()
                    || n.is_none()
                    || stack.last() == Some(&'[')
                    || p.is_some_and(|p| combinator(p) || matches!(p, T::P('(') | T::Func(_)))
                    || n.is_some_and(|n| combinator(n) || matches!(n, T::P(')')));
                if !free {
                    o.push(" ".into());
                }
            }
            T::Func(f) if f.to_ascii_lowercase().starts_with("nth-") => {
                // An+B: the text without whitespace, up to `of`.
                o.push(show(x));
                stack.push('(');
                let mut text = String::new();
                while i + 1 < t.len() {
                    match &t[i + 1] {
                        T::P(')') => break,
                        T::Ident(w) if w == "of" => break,
                        T::Ws(_) => {}
                        T::Ident(w) => text.push_str(w),
                        T::Num(a, b) => text.push_str(&format!("{a}{b}")),
                        T::Delim(c) => text.push(*c),
                        y => text.push_str(&show(y)),
                    }
                    i += 1;
                }
                o.push(format!("an+b:{text}"));
                if i + 2 < t.len() && matches!(&t[i + 1], T::Ident(_)) {
                    o.push("of".into());
                    i += 1;
                    if matches!(t[i + 1], T::Ws(_)) {
                        i += 1;
                    }
                }
            }
            x => {
                match x {
                    T::Func(_) | T::P('(') => stack.push('('),
                    T::P('[') => stack.push('['),
                    T::P(')' | ']') => {
                        stack.pop();
                    }
                    _ => {}
                }
                o.push(show(x));
            }
        }
        i += 1;
    }
    o
}

/// Comments go; whitespace on both sides of one is one whitespace.
pub fn significant(t: &[T]) -> Vec<T> {
    let mut o: Vec<T> = vec![];
    for x in t {
        match x {
            T::Comment(_) => {}
            T::Ws(_) if matches!(o.last(), Some(T::Ws(_))) => {}
            x => o.push(x.clone()),
        }
    }
    o
}

fn trim(mut t: &[T]) -> &[T] {
    while let [T::Ws(_), r @ ..] = t {
        t = r;
    }
    while let [r @ .., T::Ws(_)] = t {
        t = r;
    }
    t
}

struct P<'a> {
    t: &'a [T],
    i: usize,
}
impl P<'_> {
    /// Up to `{`, `;` or `}` outside parentheses and brackets.
    fn run(&mut self) -> Result<&[T], String> {
        let a = self.i;
        let mut stack = vec![];
        while let Some(x) = self.t.get(self.i) {
            match x {
                T::Bad => return Err("bad token".into()),
                T::Func(_) | T::P('(') => stack.push(')'),
                T::P('[') => stack.push(']'),
                T::P(c @ (')' | ']')) => {
                    if stack.pop() != Some(*c) {
                        return Err(format!("unbalanced {c}"));
                    }
                }
                T::P('{' | ';' | '}') if stack.is_empty() => break,
                _ => {}
            }
            self.i += 1;
        }
        if !stack.is_empty() {
            return Err("unclosed parenthesis".into());
        }
        Ok(&self.t[a..self.i])
    }
    fn items(&mut self, top: bool, depth: usize) -> Result<Vec<Item>, String> {
        let mut o = vec![];
        if depth > 200 {
            return Err("too deep".into());
        }
        loop {
            match self.t.get(self.i) {
                None => return if top { Ok(o) } else { Err("unclosed block".into()) },
                Some(T::P('}')) if !top => {
                    self.i += 1;
                    return Ok(o);
                }
                Some(T::P('}')) => return Err("unexpected }".into()),
                Some(T::Ws(_)) => self.i += 1,
                Some(T::P(';')) if !top => self.i += 1,
                Some(T::At(n)) => {
                    let name = n.clone();
                    self.i += 1;
                    let prelude = value(trim(self.run()?));
                    let block = match self.t.get(self.i) {
                        Some(T::P('{')) => {
                            self.i += 1;
                            Some(self.items(false, depth + 1)?)
                        }
                        Some(T::P(';')) => {
                            self.i += 1;
                            None
                        }
                        _ => None,
                    };
                    o.push(Item::At { name, prelude, block });
                }
                Some(_) => {
                    let r = self.run()?.to_vec();
                    if self.t.get(self.i) == Some(&T::P('{')) {
                        self.i += 1;
                        let selector = selector(trim(&r));
                        let block = self.items(false, depth + 1)?;
                        o.push(Item::Rule { selector, block });
                    } else {
                        if top {
                            return Err("a declaration outside rules".into());
                        }
                        let r = trim(&r);
                        let Some(T::Ident(name)) = r.first() else { return Err(format!("declaration starts with {:?}", r.first())) };
                        let r = trim(&r[1..]);
                        if r.first() != Some(&T::P(':')) {
                            return Err("declaration without colon".into());
                        }
                        o.push(Item::Decl { name: name.clone(), value: value(trim(&r[1..])) });
                    }
                }
            }
        }
    }
}

pub fn parse(src: &str) -> Result<Vec<Item>, String> {
    let t = significant(&lex(src).t);
    P { t: &t, i: 0 }.items(true, 0)
}

pub fn diff(a: &[Item], b: &[Item]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        if x == y {
            continue;
        }
        return Some(match (x, y) {
            (Item::At { name, prelude, block: Some(p) }, Item::At { name: n2, prelude: p2, block: Some(q) })
                if name == n2 && prelude == p2 =>
            {
                diff(p, q).unwrap_or_default()
            }
            (Item::Rule { selector, block: p }, Item::Rule { selector: s2, block: q }) if selector == s2 => diff(p, q).unwrap_or_default(),
            (Item::Rule { selector, .. }, Item::Rule { selector: s2, .. }) => format!("selector {selector:?} became {s2:?}"),
            (x, y) => format!("{x:?} became {y:?}"),
        });
    }
    (a.len() != b.len()).then(|| format!("{} items became {}: {:?}", a.len(), b.len(), a.get(b.len()).or(b.get(a.len()))))
}
