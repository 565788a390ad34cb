//! A tokenizer for the HTML of the checked domain, and the comparison of two documents.

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Start { name: String, attrs: Vec<(String, Option<String>)>, slash: bool },
    End(String),
    Text(String),
    Comment(String),
    /// `<!doctype ..>` and the markers of conditional comments.
    Mark(String),
}

pub struct Lexed {
    pub t: Vec<T>,
    /// Byte offsets of the tokens and of the end.
    pub at: Vec<usize>,
}

pub fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C')
}

pub const RAW: &[&str] = &["script", "style", "textarea", "title"];
/// Tags that may be left out: HTML lets authors omit them, or ignores them.
const END_OPTIONAL: &[&str] = &[
    "area", "base", "body", "col", "colgroup", "dd", "dt", "head", "hr", "html", "img", "input", "li", "link", "meta", "option", "param",
    "tbody", "td", "tfoot", "th", "thead", "tr", "basefont", "isindex",
];
const START_OPTIONAL: &[&str] = &["html", "head", "body", "tbody"];

pub fn lex(s: &str) -> Result<Lexed, String> {
    let b = s.as_bytes();
    let mut t = vec![];
    let mut at = vec![];
    let mut i = 0;
    let mut text = String::new();
    let mut text_at = 0;
    macro_rules! flush {
        () => {
            if !text.is_empty() {
                t.push(T::Text(std::mem::take(&mut text)));
                at.push(text_at);
            }
        };
    }
    while i < b.len() {
        let r = &s[i..];
        let low = |n: usize| r.get(..n).map(|x| x.to_ascii_lowercase()).unwrap_or_default();
        if r.starts_with("<!--") {
            flush!();
            at.push(i);
            if r.starts_with("<!--<![") {
                let e = r.find("]-->").ok_or("a conditional comment's end is not closed")? + 4;
                t.push(T::Mark(collapse(&r[..e])));
                i += e;
            } else if r.starts_with("<!--[") {
                let mut e = r.find("]>").ok_or("a condition is not closed")? + 2;
                for x in ["<!-->", "-->"] {
                    if r[e..].starts_with(x) {
                        e += x.len();
                        break;
                    }
                }
                t.push(T::Mark(collapse(&r[..e])));
                i += e;
            } else {
                let e = r[4..].find("-->").ok_or("a comment is not closed")?;
                t.push(T::Comment(r[4..4 + e].into()));
                i += e + 7;
            }
        } else if low(9) == "<![endif]" {
            flush!();
            at.push(i);
            let e = if r[9..].starts_with("-->") { 12 } else { r.find('>').ok_or("endif")? + 1 };
            t.push(T::Mark(r[..e].into()));
            i += e;
        } else if r.starts_with("<!") {
            flush!();
            at.push(i);
            let e = r.find('>').ok_or("a declaration is not closed")? + 1;
            t.push(T::Mark(collapse(&r[..e])));
            i += e;
        } else if b[i] == b'<' && b.get(i + 1).is_some_and(|c| c.is_ascii_alphabetic()) {
            flush!();
            at.push(i);
            let (x, e) = start_tag(r)?;
            i += e;
            let T::Start { name, .. } = &x else { unreachable!() };
            let raw = RAW.iter().find(|n| *n == name).copied();
            t.push(x);
            if let Some(n) = raw {
                let low = s[i..].to_ascii_lowercase();
                let close = format!("</{n}");
                let mut k = 0;
                let e = loop {
                    let e = low[k..].find(&close).ok_or_else(|| format!("{n} is not closed"))? + k;
                    let after = low[e + close.len()..].trim_start_matches(ws);
                    if after.starts_with('>') {
                        break e;
                    }
                    k = e + 1;
                };
                if e > 0 {
                    t.push(T::Text(s[i..i + e].into()));
                    at.push(i);
                }
                i += e;
            }
        } else if r.starts_with("</") && b.get(i + 2).is_some_and(|c| c.is_ascii_alphabetic()) {
            flush!();
            at.push(i);
            let e = r.find('>').ok_or("an end tag is not closed")?;
            let n = r[2..e].trim_end_matches(ws);
            if !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
                return Err(format!("end tag {n:?}"));
            }
            t.push(T::End(n.to_ascii_lowercase()));
            i += e + 1;
        } else {
            if text.is_empty() {
                text_at = i;
            }
            let c = r.chars().next().unwrap();
            text.push(c);
            i += c.len_utf8();
        }
    }
    flush!();
    at.push(b.len());
    Ok(Lexed { t, at })
}

fn start_tag(r: &str) -> Result<(T, usize), String> {
    let c: Vec<(usize, char)> = r.char_indices().collect();
    let g = |i: usize| c.get(i).map(|x| x.1);
    let mut i = 1;
    let mut name = String::new();
    while let Some(x) = g(i).filter(|x| !ws(*x) && !matches!(x, '/' | '>')) {
        name.push(x.to_ascii_lowercase());
        i += 1;
    }
    let mut attrs = vec![];
    let mut slash = false;
    loop {
        while g(i).is_some_and(ws) {
            i += 1;
        }
        match g(i) {
            None => return Err("a tag is not closed".into()),
            Some('>') => {
                return Ok((T::Start { name, attrs, slash }, c[i].0 + 1));
            }
            Some('/') => {
                slash = true;
                i += 1;
                continue;
            }
            _ => {}
        }
        slash = false;
        let mut n = String::new();
        while let Some(x) = g(i).filter(|x| !ws(*x) && !matches!(x, '/' | '>' | '=')) {
            n.push(x.to_ascii_lowercase());
            i += 1;
        }
        if n.is_empty() || n.contains(['"', '\'', '<']) {
            return Err(format!("attribute {n:?}"));
        }
        let mut k = i;
        while g(k).is_some_and(ws) {
            k += 1;
        }
        if g(k) != Some('=') {
            attrs.push((n, None));
            if g(i) == Some('=') {
                return Err("attribute without a name".into());
            }
            continue;
        }
        i = k + 1;
        while g(i).is_some_and(ws) {
            i += 1;
        }
        let mut v = String::new();
        match g(i) {
            Some(q @ ('"' | '\'')) => {
                i += 1;
                loop {
                    match g(i) {
                        None => return Err("a value is not closed".into()),
                        Some(x) if x == q => break,
                        Some(x) => v.push(x),
                    }
                    i += 1;
                }
                i += 1;
            }
            _ => {
                while let Some(x) = g(i).filter(|x| !ws(*x) && *x != '>') {
                    v.push(x);
                    i += 1;
                }
            }
        }
        attrs.push((n, Some(v)));
    }
}

pub fn collapse(s: &str) -> String {
    let mut o = String::new();
    let mut w = false;
    for c in s.chars() {
        if ws(c) {
            w = true;
        } else {
            if w {
                o.push(' ');
            }
            w = false;
            o.push(c);
        }
    }
    if w {
        o.push(' ');
    }
    o
}

fn droppable(t: &T) -> bool {
    match t {
        T::Start { name, attrs, slash } => !slash && attrs.is_empty() && START_OPTIONAL.contains(&name.as_str()),
        T::End(n) => END_OPTIONAL.contains(&n.as_str()),
        T::Comment(_) => true,
        _ => false,
    }
}

/// Droppable tags and comments left out, texts joined and the document trimmed.
fn norm(t: &[T], keep_space: bool) -> Vec<T> {
    let mut o: Vec<T> = vec![];
    for x in t {
        match x {
            _ if droppable(x) => {}
            T::Text(s) => {
                if let Some(T::Text(p)) = o.last_mut() {
                    p.push_str(s);
                } else {
                    o.push(x.clone());
                }
            }
            T::Start { name, attrs, slash } => {
                let d = match name.as_str() {
                    "script" => "text/javascript",
                    "style" => "text/css",
                    _ => "",
                };
                let attrs = attrs.iter().filter(|(n, v)| d.is_empty() || n != "type" || v.as_deref() != Some(d)).cloned().collect();
                o.push(T::Start { name: name.clone(), attrs, slash: *slash });
            }
            _ => o.push(x.clone()),
        }
    }
    if let Some(T::Text(x)) = o.first_mut() {
        *x = x.trim_start_matches(ws).into();
    }
    if let Some(T::Text(x)) = o.last_mut() {
        *x = x.trim_end_matches(ws).into();
    }
    if !keep_space {
        for x in o.iter_mut() {
            if let T::Text(s) = x {
                *s = collapse(s);
            }
        }
    }
    o.retain(|x| !matches!(x, T::Text(s) if s.is_empty()));
    o
}

/// What the second document lost, gained or changed.
pub fn diff(a: &[T], b: &[T], keep_space: bool) -> Option<String> {
    let (na, nb) = (norm(a, keep_space), norm(b, keep_space));
    for i in 0..na.len().max(nb.len()) {
        let (x, y) = (na.get(i), nb.get(i));
        if x != y {
            let f = |x: Option<&T>| x.map_or("the end of the document".to_string(), |x| format!("{x:?}"));
            return Some(format!("{} became {}", f(x), f(y)));
        }
    }
    // Nothing droppable appears either.
    let tags = |t: &[T]| -> Vec<T> { t.iter().filter(|x| droppable(x) && !matches!(x, T::Comment(_))).cloned().collect() };
    let mut it = tags(a).into_iter();
    for y in tags(b) {
        if !it.any(|x| x == y) {
            return Some(format!("{y:?} appeared"));
        }
    }
    None
}
