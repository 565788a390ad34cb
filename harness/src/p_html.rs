//! HTML: the minified document against the source, through an independent tokenizer.
use crate::engine::{Obs, Prop, Src, Verdict};
use crate::html::{self, T};
use crate::json::J;
use crate::{stretch, sut_try, util};

fn clip(s: &str) -> String {
    let t: String = s.chars().take(900).collect();
    format!("{t:?}")
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Copy)]
struct Opt {
    /// pre and textarea elements.
    pre: bool,
    conditional: bool,
}

struct G<'a> {
    s: &'a mut Src,
    o: String,
    opt: Opt,
    depth: usize,
    in_cond: bool,
}

const LOOKS: &[&str] = &[
    "</li>", "<body>", "<html>", "<head>", "<tbody>", "</td>", "</option>", "</html>", "<!-- no comment -->", "<!--x-->", "  ", "\n", "\t ",
    "width=\"3\"", "type=\"text/css\"", " type=\"text/javascript\" ", "<script type=\"text/javascript\">", "<style type=\"text/css\">", "//",
    "/* x */", "-->", "<!--", "<pre>", "<textarea>", "<div  class=a>", "&nbsp;", "\u{a0}", "\u{a0} \u{a0}", "<!--[if IE]>", "<![endif]-->",
    "<title>", "</script>", "</style >", "<script>", "=", "/>",
];

/// Elements whose end tag stays.
const ELEMENTS: &[&str] = &[
    "div", "span", "p", "a", "b", "i", "h1", "section", "label", "button", "x-y", "article", "bodyx", "scripts", "preview", "em", "legend",
    "fieldset", "form", "output", "datalist", "figure", "figcaption", "caption", "dfn", "dialog", "details", "summary", "header", "footer", "nav",
    "main", "aside", "address", "blockquote", "q", "cite", "code", "kbd", "samp", "var", "sub", "sup", "small", "strong", "mark", "u", "s", "del",
    "ins", "abbr", "time", "data", "ruby", "bdi", "bdo", "ol", "ul", "dl", "menu", "map", "object", "video", "audio", "canvas", "picture", "svg",
    "path", "g", "table", "h2", "h6", "hgroup", "progress", "meter", "template", "slot", "noscript", "search", "link-x", "li-x", "td-x", "tbodyx",
    "colgroup", "optgroup", "rp", "rt", "rtc", "thead", "tfoot", "tr", "td", "th", "li", "dt", "dd", "option", "font", "center", "tt", "selectx", "optionx", "l", "x", "tr2", "htmlx", "headx", "math", "mi", "text",
];

/// Text outside tags: no `<` that could open anything.
fn words(s: &mut Src) -> String {
    let n = s.len(3, 14);
    let mut o = String::new();
    for i in 0..n {
        if i > 0 || s.chance(1, 3) {
            o.push_str(&space(s, true));
        }
        match s.weighted(&[40, 10, 8, 6, 6, 4]) {
            0 => {
                for _ in 0..s.range(1, 6) {
                    o.push((b'a' + s.below(26) as u8) as char);
                }
            }
            1 => o.push_str(s.pick::<&str>(&["&amp;", "&nbsp;", "&#160;", "&lt;li&gt;", "\u{a0}", "\u{a0}\u{a0}", "a\u{a0}", "\u{3000}", "\u{2003}x", "\u{b}", "\u{85}"])),
            2 => o.push_str(s.pick::<&str>(&[">", "'", "\"", "it's", "\"a", "= \"b\"", "a=\"b\"", "width=\"10\"", "-->", "--", "//", "/>", "]", "[x]", "*/"])),
            3 => o.push_str(s.pick::<&str>(&["a < b", "<3", "x<= y", "< ", "<\u{a0}", "<>"])),
            4 => o.push(util::odd(s)),
            _ => o.push_str(&util::any_text(s, 3, 8).replace('<', "(")),
        }
    }
    if s.chance(1, 3) {
        o.push_str(&space(s, true));
    }
    if o.ends_with('<') {
        o.push(' ');
    }
    o
}

fn space(s: &mut Src, some: bool) -> String {
    let n = s.len(1, 6) + some as usize;
    (0..n).map(|_| *s.pick(&[' ', '\n', ' ', '\t', '\r', '\x0C'])).collect()
}

fn comment_text(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.len(2, 8) {
        match s.weighted(&[6, 4, 4, 2]) {
            0 => o.push_str(" word "),
            1 => o.push_str(s.pick(LOOKS)),
            2 => o.push_str(s.pick::<&str>(&["build", "<li>", "</li>", "<script>", "</script>", "<pre>", "it's", "\"", "[", "!", "--", "-", ">", "\n", "\r\n", "endbuild:js", "]>", "[endif]", " see [endif]", "[if IE]", "if IE]>", "endif", "[else]", "<![endif]"])),
            _ => o.push_str(&util::any_text(s, 3, 8)),
        }
    }
    while o.contains("-->") || o.contains("--!>") {
        o = o.replace("-->", "-").replace("--!>", "-");
    }
    let t = o.replace("<!--", " ");
    if t.trim_start().starts_with('[') || t.trim().starts_with('[') || o.trim_start().starts_with("<![") || t.trim_start().starts_with("<![") {
        o = format!("x{o}");
    }
    if o.starts_with('>') || o.starts_with("->") || o.ends_with("<!-") || o.ends_with("--!") {
        o = format!("x{o}x");
    }
    o
}

impl G<'_> {
    /// Whitespace between two pieces of content.
    fn gap(&mut self) {
        if self.s.chance(1, 2) {
            let x = space(self.s, true);
            self.o.push_str(&x);
        }
    }

    fn comment(&mut self) {
        if self.in_cond {
            return;
        }
        let t = comment_text(self.s);
        self.o.push_str(&format!("<!--{t}-->"));
    }

    fn maybe_comment(&mut self) {
        self.gap();
        if self.s.chance(1, 6) {
            self.comment();
            self.gap();
        }
    }

    fn value(&mut self, q: char) -> String {
        let mut o = String::new();
        for _ in 0..self.s.len(2, 6) {
            match self.s.weighted(&[8, 4, 2, 1]) {
                0 => o.push_str(self.s.pick::<&str>(&["a", "b-c", "x y", "12", "text/css", "text/javascript", "foo.js", "color: red;", "module", "10%", "1.5", "_a"])),
                1 => o.push_str(self.s.pick(LOOKS)),
                2 => o.push_str(&space(self.s, true)),
                _ => o.push_str(&util::any_text(self.s, 3, 8)),
            }
        }
        let o = o.replace(q, if q == '"' { "'" } else { "\"" });
        if self.in_cond { o.replace("--", "-").replace("<!", "") } else { o }
    }

    fn attr(&mut self, extra: &[&str]) {
        let names = [
            "class", "id", "width", "height", "data-width", "type", "title", "href", "style", "aria-label", "v-on:click", "@click", "data-2", "x", "xheight",
            "disabled", "WIDTH", "Type", "onclick", "d.e", "type2", "src", "type-x", "datatype", "width2", "é",
        ];
        let n = if !extra.is_empty() && self.s.chance(1, 2) { self.s.pick(extra) } else { *self.s.pick(&names) };
        self.o.push_str(n);
        if n.contains('=') {
            return;
        }
        let eq = |g: &mut Self| {
            if g.s.chance(1, 12) {
                let x = space(g.s, true);
                g.o.push_str(&x);
            }
            g.o.push('=');
            if g.s.chance(1, 12) {
                let x = space(g.s, true);
                g.o.push_str(&x);
            }
        };
        match self.s.weighted(&[10, 4, 3, 3]) {
            k @ (0 | 1) => {
                let q = if k == 0 { '"' } else { '\'' };
                eq(self);
                let v = match self.s.weighted(&[3, 3, 1]) {
                    0 => self.value(q),
                    1 => self.s.pick::<&str>(&["10", "text/css", "text/javascript", "a", "a b", "", "3.5em", "-1", "100%", "module", "TEXT/CSS"]).to_string(),
                    _ => util::any_text(self.s, 4, 10).replace(q, ""),
                };
                let v = if self.in_cond { v.replace("--", "-").replace("<!", "") } else { v };
                self.o.push_str(&format!("{q}{v}{q}"));
            }
            2 => {
                eq(self);
                let v = self.s.pick::<&str>(&["10", "a", "x/y.z", "text/css", "text/javascript", "a-b", "#f", "50%", "http://x.y/z"]).to_string();
                self.o.push_str(&v);
            }
            _ => {}
        }
    }

    fn name(&mut self, name: &str) {
        match self.s.below(20) {
            19 => self.o.push_str(&name.to_ascii_uppercase()),
            18 => {
                for c in name.chars() {
                    let c = if self.s.chance(1, 2) { c.to_ascii_uppercase() } else { c };
                    self.o.push(c);
                }
            }
            _ => self.o.push_str(name),
        }
    }

    fn open(&mut self, name: &str, extra: &[&str]) {
        self.o.push('<');
        self.name(name);
        let n = match self.s.weighted(&[4, 3, 2, 1]) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => self.s.len(3, 6),
        };
        for _ in 0..n {
            let x = space(self.s, true);
            self.o.push_str(&x);
            self.attr(extra);
        }
        if self.s.chance(1, 6) {
            let x = space(self.s, true);
            self.o.push_str(&x);
        }
    }

    fn end(&mut self, name: &str) {
        self.o.push_str("</");
        self.name(name);
        if self.s.chance(1, 14) {
            let x = space(self.s, true);
            self.o.push_str(&x);
        }
        self.o.push('>');
    }

    fn void(&mut self) {
        let n = *self.s.pick(&["br", "img", "input", "hr", "meta", "link", "wbr", "source", "area", "base", "col", "embed", "track", "param", "basefont"]);
        self.open(n, &["src", "href", "width", "height", "content"]);
        if self.s.chance(1, 4) {
            let last = self.o.chars().last().unwrap();
            if !html::ws(last) && last != '"' && last != '\'' {
                self.o.push(' ');
            }
            self.o.push('/');
        }
        self.o.push('>');
    }

    fn raw(&mut self, name: &str) {
        let extra: &[&str] = match name {
            "script" => &["type", "src", "async", "type=\"text/javascript\"", "type=\"text/css\"", "type='text/javascript'"],
            "style" => &["type", "media", "type=\"text/css\"", "type=\"text/javascript\""],
            _ => &[],
        };
        self.open(name, extra);
        self.o.push('>');
        let mut t = String::new();
        for _ in 0..self.s.len(2, 6) {
            match self.s.weighted(&[4, 3, 3]) {
                0 => {
                    let w = match name {
                        "script" => self.s.pick::<&str>(&["var a = 1;", "f(\"x  y\");", "/* c */", "if (a < b && c > d) {}", "x = 'it';", "a = \"</li>\";", "b = '<!-- x -->';"]),
                        "style" => self.s.pick::<&str>(&[".a { color: red; }", "a > b{}", "/* x */", "@media x{a{b:c}}", "p::before{content:\"  \"}"]),
                        _ => self.s.pick::<&str>(&["A title", "a  b", "it's", "\"q\"", "</li>", "<body>", "<!-- not a comment -->", "&lt;", "a\u{a0}b"]),
                    };
                    t.push_str(w);
                }
                1 => t.push_str(&space(self.s, true)),
                _ => t.push_str(self.s.pick(LOOKS)),
            }
        }
        // Nothing that ends the element or turns it into something else.
        let low = t.to_ascii_lowercase();
        if ["</script", "</style", "</title", "</textarea", "<!--"].iter().any(|x| low.contains(x) && (*x != "<!--" || name == "script")) {
            t = t.replace('<', "(");
        }
        if name == "script" || name == "style" {
            t = t.replace("//", "/");
        }
        if self.in_cond {
            t = t.replace("--", "-").replace("<![", "");
        }
        self.o.push_str(&t);
        self.end(name);
    }

    fn list(&mut self, outer: &str, items: &[&str], close: bool) {
        self.open(outer, &[]);
        self.o.push('>');
        self.maybe_comment();
        for _ in 0..self.s.len(2, 5) {
            let it = *self.s.pick(items);
            self.open(it, &["width", "height"]);
            self.o.push('>');
            self.flow(2);
            if close || self.s.chance(3, 4) {
                self.end(it);
            }
            self.maybe_comment();
        }
        self.end(outer);
    }

    fn element(&mut self) {
        self.depth += 1;
        match self.s.weighted(&[10, 4, 3, 2, 2, 2, 3, 3]) {
            0 => {
                let n = *self.s.pick(ELEMENTS);
                // Elements whose names look like pre only in documents that may have one.
                let n = if n == "preview" && !self.opt.pre { "div" } else { n };
                self.open(n, &["width", "height", "class"]);
                self.o.push('>');
                self.flow(3);
                self.end(n);
            }
            1 => self.void(),
            2 => self.list("ul", &["li"], false),
            3 => self.list("dl", &["dt", "dd"], false),
            4 => {
                self.open("table", &["width"]);
                self.o.push('>');
                self.maybe_comment();
                let body = self.s.pick(&["tbody", "thead", "tfoot", ""]).to_string();
                if !body.is_empty() {
                    if body == "tbody" && self.s.chance(1, 2) {
                        self.o.push_str("<tbody>");
                    } else {
                        self.open(&body, &[]);
                        self.o.push('>');
                    }
                }
                for _ in 0..self.s.len(1, 3) {
                    self.maybe_comment();
                    self.list("tr", &["td", "th"], false);
                }
                if !body.is_empty() {
                    self.end(&body);
                }
                self.end("table");
            }
            5 => self.list("select", &["option"], false),
            6 => {
                let n = *self.s.pick(&["script", "style"]);
                self.raw(n);
            }
            _ if self.opt.pre => {
                if self.s.chance(1, 3) {
                    self.raw("textarea");
                } else {
                    self.open("pre", &[]);
                    self.o.push('>');
                    let x = space(self.s, false);
                    self.o.push_str(&x);
                    self.flow(3);
                    self.end("pre");
                }
            }
            _ => {
                self.open("p", &[]);
                self.o.push('>');
                self.flow(2);
                self.end("p");
            }
        }
        self.depth -= 1;
    }

    fn conditional(&mut self) {
        if self.in_cond {
            return;
        }
        let cond = self.s.pick::<&str>(&["if IE", "if lte IE 8", "if !IE", "if  (gt IE 5)&(lt IE 7)", "if\nIE"]).to_string();
        let kind = self.s.below(4);
        match kind {
            0 => self.o.push_str(&format!("<!--[{cond}]>")),
            1 => self.o.push_str(&format!("<!--[{cond}]><!-->")),
            2 => self.o.push_str(&format!("<!--[{cond}]>-->")),
            _ => self.o.push_str(&format!("<![{cond}]>")),
        }
        self.in_cond = kind == 0;
        self.depth += 1;
        self.flow(3);
        self.depth -= 1;
        if self.in_cond {
            // Nothing in it ends it early.
            let at = self.o.rfind("<!--[").unwrap();
            let body = self.o[at + 4..].replace("-->", "-");
            self.o.truncate(at + 4);
            self.o.push_str(&body);
        }
        self.in_cond = false;
        match kind {
            0 => self.o.push_str("<![endif]-->"),
            1 | 2 => self.o.push_str("<!--<![endif]-->"),
            _ => self.o.push_str("<![endif]>"),
        }
    }

    fn flow(&mut self, n: usize) {
        for _ in 0..self.s.len(n, n * 3) {
            self.gap();
            let w: &[u32] = if self.depth > 5 { &[6, 1, 0, 0] } else { &[8, 3, 6, if self.opt.conditional { 1 } else { 0 }] };
            match self.s.weighted(w) {
                0 => {
                    let t = words(self.s);
                    let t = if self.in_cond { t.replace("--", "-") } else { t };
                    self.o.push_str(&t);
                }
                1 => self.comment(),
                2 => self.element(),
                _ => self.conditional(),
            }
        }
        self.gap();
    }

    fn doc(&mut self) {
        match self.s.weighted(&[400, 2, 2]) {
            1 => {
                // A large document.
                for _ in 0..self.s.range(5, 200) {
                    self.flow(5);
                    if self.o.len() > 12_000 {
                        break;
                    }
                }
                return;
            }
            2 => {
                // Elements in each other.
                let n = self.s.range(2, 80);
                let mut open = vec![];
                for _ in 0..n {
                    let e = *self.s.pick(&["div", "b", "section", "em"]);
                    self.open(e, &[]);
                    self.o.push('>');
                    self.gap();
                    open.push(e);
                }
                self.flow(3);
                while let Some(e) = open.pop() {
                    self.end(e);
                    self.gap();
                }
                return;
            }
            _ => {}
        }
        if self.s.chance(1, 2) {
            self.gap();
            self.flow(5);
            return;
        }
        self.gap();
        if self.s.chance(1, 2) {
            let d = self.s.pick::<&str>(&["<!DOCTYPE html>", "<!doctype html>", "<!DOCTYPE  html\n PUBLIC \"-//W3C//DTD HTML 4.01//EN\">"]).to_string();
            self.o.push_str(&d);
        }
        self.maybe_comment();
        let tag = |g: &mut Self, n: &str| {
            if g.s.chance(1, 2) {
                g.o.push_str(&format!("<{n}>"));
            } else {
                g.open(n, &["class"]);
                g.o.push('>');
            }
        };
        tag(self, "html");
        self.maybe_comment();
        tag(self, "head");
        for _ in 0..self.s.len(2, 5) {
            self.maybe_comment();
            match self.s.below(4) {
                0 => self.raw("title"),
                1 => self.raw("style"),
                2 => self.raw("script"),
                _ => self.void(),
            }
        }
        self.maybe_comment();
        self.end("head");
        self.maybe_comment();
        tag(self, "body");
        self.flow(5);
        self.end("body");
        self.maybe_comment();
        self.end("html");
        self.maybe_comment();
    }
}

fn document(s: &mut Src, opt: Opt) -> String {
    let mut g = G { s, o: String::new(), opt, depth: 0, in_cond: false };
    g.doc();
    let mut o = g.o;
    if s.chance(1, 100) {
        o.push_str(&stretch::html(s));
    }
    o
}

pub fn any_document(s: &mut Src) -> String {
    let opt = Opt { pre: s.chance(1, 3), conditional: s.chance(1, 2) };
    document(s, opt)
}

// ---------------------------------------------------------------- properties

fn lexed(c: &str) -> Result<html::Lexed, Verdict> {
    html::lex(c).map_err(|e| {
        if std::env::var("VP_SHOW_BAD").is_ok() {
            eprintln!("BAD {e}\n{c}");
        }
        Verdict::Discard("the generated document is outside the domain")
    })
}

fn keeps_space(t: &[T]) -> bool {
    t.iter().any(|x| matches!(x, T::Start { name, .. } if name == "pre" || name == "textarea"))
}

/// The document outside its tags and raw texts has no whitespace run.
fn tight(c: &str, out: &html::Lexed) -> Option<String> {
    let mut raw = false;
    for (i, x) in out.t.iter().enumerate() {
        match x {
            T::Text(t) if !raw => {
                let b: Vec<char> = t.chars().collect();
                if let Some(k) = (0..b.len()).find(|k| html::ws(b[*k]) && (b[*k] != ' ' || b.get(k + 1).is_some_and(|c| html::ws(*c)))) {
                    return Some(format!("whitespace {:?} in {t:?} (text at byte {})", &b[k..(k + 2).min(b.len())], out.at[i]));
                }
            }
            T::End(n) if html::RAW.contains(&n.as_str()) => {}
            T::Start { .. } | T::End(_) => {
                // Outside quotes.
                let src = &c[out.at[i]..out.at[i + 1]];
                let mut q = None;
                let mut prev = ' ';
                for ch in src.chars() {
                    match q {
                        Some(x) if x == ch => q = None,
                        Some(_) => {}
                        None if ch == '"' || ch == '\'' => q = Some(ch),
                        None if html::ws(ch) && (ch != ' ' || html::ws(prev)) => return Some(format!("whitespace in the tag {src:?}")),
                        None => {}
                    }
                    prev = ch;
                }
            }
            _ => {}
        }
        raw = matches!(x, T::Start { name, .. } if html::RAW.contains(&name.as_str()));
    }
    None
}

macro_rules! both {
    ($c:expr) => {{
        let a = match lexed($c) {
            Ok(a) => a,
            Err(v) => return v,
        };
        let out = sut_try!("html::minify", vp_api::html_str($c));
        let b = match html::lex(&out) {
            Ok(b) => b,
            Err(e) => return Verdict::Fail(format!("html::minify({}) is {}, which is broken: {e}", clip($c), clip(&out))),
        };
        (a, out, b)
    }};
}

fn src_json(c: &str) -> J {
    J::obj(vec![("source", J::s(c))])
}

pub struct C13;
impl Prop for C13 {
    type Case = String;
    const ID: &'static str = "C13";
    const RULE: &'static str = "Documents from a grammar of nested elements, lists, tables, void elements, script/style/title elements and comments, with whitespace anywhere and values and texts that look like tags, comments and attributes; source and output go through an independent tokenizer. Non-trivial: the output differs from the source, which has at least 3 tags.";
    const CASES: (u64, u64) = (16_000, 3_000_000);
    fn gen(s: &mut Src) -> String {
        document(s, Opt { pre: false, conditional: false })
    }
    fn check(c: &String, o: &mut Obs) -> Verdict {
        let (a, out, b) = both!(c);
        o.nontrivial = *c != out && a.t.iter().filter(|x| matches!(x, T::Start { .. } | T::End(_))).count() >= 3;
        o.label_if(c.contains("<!--"), "comments");
        o.label_if(c.contains("<script") || c.contains("<style"), "scripts and styles");
        o.label_if(c.contains("width="), "width");
        o.label_if(c.contains('\u{a0}'), "non-breaking space");
        let fail = |m: String| Verdict::Fail(format!("html::minify({}) is {}: {m}", clip(c), clip(&out)));
        let keep = keeps_space(&a.t);
        if let Some(d) = html::diff(&a.t, &b.t, keep) {
            return fail(d);
        }
        if !c.to_ascii_lowercase().contains("<pre") && !c.to_ascii_lowercase().contains("<textarea") {
            if let Some(d) = tight(&out, &b) {
                return fail(d);
            }
        }
        Verdict::Ok
    }
    fn to_json(c: &String) -> J {
        src_json(c)
    }
    fn from_json(j: &J) -> String {
        j.str_("source")
    }
    fn assumptions() -> Vec<String> {
        vec!["The harness's tokenizer follows the HTML standard on the generated grammar.".into()]
    }
}

pub struct C14;
impl Prop for C14 {
    type Case = String;
    const ID: &'static str = "C14";
    const RULE: &'static str = "Documents as for C13 with pre and textarea elements and conditional comments of every form. Non-trivial: the document has pre, textarea or a conditional comment, and something to remove.";
    const CASES: (u64, u64) = (16_000, 3_000_000);
    fn gen(s: &mut Src) -> String {
        let pre = !s.chance(1, 3);
        document(s, Opt { pre, conditional: true })
    }
    fn check(c: &String, o: &mut Obs) -> Verdict {
        let (a, out, b) = both!(c);
        let keep = keeps_space(&a.t);
        let cond = a.t.iter().any(|x| matches!(x, T::Mark(m) if m.contains('[')));
        let comments = a.t.iter().filter(|x| matches!(x, T::Comment(_))).count();
        o.nontrivial = *c != out && (keep || cond);
        o.label_if(keep, "pre or textarea");
        o.label_if(cond, "conditional comments");
        o.label_if(comments > 0, "comments");
        let fail = |m: String| Verdict::Fail(format!("html::minify({}) is {}: {m}", clip(c), clip(&out)));
        if let Some(T::Comment(x)) = b.t.iter().find(|x| matches!(x, T::Comment(_))) {
            return fail(format!("the comment <!--{x}--> is still there"));
        }
        if let Some(d) = html::diff(&a.t, &b.t, keep) {
            return fail(d);
        }
        Verdict::Ok
    }
    fn to_json(c: &String) -> J {
        src_json(c)
    }
    fn from_json(j: &J) -> String {
        j.str_("source")
    }
}
