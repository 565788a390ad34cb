//! Random well-formed stylesheets.
use crate::engine::Src;
use crate::{stretch, util};

#[derive(Clone, Copy)]
pub struct Opt {
    /// Comments between tokens.
    pub comments: bool,
    /// Licence comments between rules and declarations.
    pub licences: bool,
}
impl Default for Opt {
    fn default() -> Opt {
        Opt { comments: true, licences: true }
    }
}

pub struct G<'a> {
    s: &'a mut Src,
    o: Opt,
    pub out: String,
    budget: usize,
    large: bool,
    nest: usize,
}

fn white(s: &mut Src) -> &'static str {
    s.pick::<&str>(&[" ", "\n", "\t", "  ", "\n    ", "\r\n", "\r", "\u{c}", "\n\n", "\t "])
}
pub fn comment_body(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.len(2, 12) {
        match s.weighted(&[10, 6, 2, 2]) {
            0 => o.push_str(s.pick::<&str>(&[" ", "a", "c", "*", "/", "{", "}", ";", "\"", "'", "\n", "(", ")", "[", "]", ":", ",", "\\", "!", "@", "\t", "  "])),
            1 => o.push_str(s.pick::<&str>(&["just a comment", "a{b:c}", "// x", "/ *", "don't", "@media", "calc(", "url(", "\r\n", "é", "**"])),
            2 => o.push(util::any_char(s)),
            _ => o.push_str(util::dict_string(s)),
        }
    }
    while o.contains("*/") {
        o = o.replace("*/", "*");
    }
    if o.ends_with('*') && s.chance(1, 2) {
        o.push(' ');
    }
    o
}

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, o: Opt) -> G<'a> {
        // Now and then a large one.
        let large = s.chance(1, 250);
        let budget = if large { s.range(100, 3000) } else { util::size(s, 30, 400) };
        G { s, o, out: String::new(), budget, nest: 0, large }
    }
    fn p(&mut self, x: &str) {
        self.out.push_str(x);
    }
    fn comment(&mut self) {
        let mut b = comment_body(self.s);
        if b.starts_with('!') || b.starts_with('*') {
            b.insert(0, ' ');
        }
        self.out.push_str("/*");
        self.out.push_str(&b);
        self.out.push_str("*/");
    }
    /// Whitespace and comments, or nothing.
    fn opt(&mut self) {
        match self.s.weighted(&[10, 8, 2]) {
            0 => {}
            1 => {
                let w = white(self.s);
                self.p(w);
            }
            _ => {
                for _ in 0..1 + self.s.below(3) {
                    if self.o.comments && self.s.chance(1, 2) {
                        self.comment();
                    } else {
                        let w = white(self.s);
                        self.p(w);
                    }
                }
            }
        }
    }
    /// At least one whitespace character.
    fn req(&mut self) {
        if self.s.chance(1, 6) {
            self.opt();
        }
        let w = white(self.s);
        self.p(w);
        if self.s.chance(1, 6) {
            self.opt();
        }
    }
    /// Between rules, or between declarations.
    fn between(&mut self) {
        self.opt();
        while self.o.licences && self.s.chance(1, 14) {
            let mut b = comment_body(self.s);
            let open = if self.s.chance(1, 3) { "/**" } else { "/*!" };
            if open == "/**" && b.starts_with('/') {
                b.insert(0, ' ');
            }
            self.out.push_str(open);
            self.out.push_str(&b);
            self.out.push_str("*/");
            self.opt();
        }
    }

    // ------------------------------------------------------------ small parts
    fn name(&mut self, first: bool) -> String {
        let mut o = String::new();
        let n = 1 + self.s.len(2, 20);
        for i in 0..n {
            match self.s.weighted(&[20, 4, 2, 2, 1, 1]) {
                0 => o.push(*self.s.pick(&['a', 'b', 'x', 'e', 'p', 'A', 'Z', 'i', 'c', 'f'])),
                1 if i > 0 || !first => o.push(*self.s.pick(&['-', '0', '1', '9', '_'])),
                1 => o.push('_'),
                2 => o.push_str(self.s.pick::<&str>(&["-a", "--a", "_"])),
                3 => {
                    let mut c = *self.s.pick(&['é', 'ü', '中', '😀', '?']);
                    if c == '?' {
                        c = util::lookalike(self.s);
                    }
                    o.push(c)
                }
                4 => {
                    // An escaped character that is no hexadecimal digit.
                    let c = *self.s.pick(&[':', '.', '/', '[', ']', '@', '#', '!', ' ', '{', '}', '(', ')', '"', '\'', ';', ',', '*', '+', '>', '~', '\\', 'g', 'é', '$', '=', '%', '|', '^', '\t']);
                    o.push('\\');
                    o.push(c);
                }
                _ => {
                    let h = self.s.pick::<&str>(&["31", "41", "00003A", "2c", "1F600", "a", "7b", "000041", "20"]);
                    o.push('\\');
                    o.push_str(h);
                    o.push_str(self.s.pick::<&str>(&[" ", " ", "\t", "\n", "\r\n", "\u{c}"]));
                }
            }
        }
        o
    }
    fn ident(&mut self) -> String {
        match self.s.weighted(&[10, 5, 4, 1]) {
            0 => self.s.pick::<&str>(&["a", "b", "foo", "bar-baz", "x1", "_p", "-q", "block", "none", "red", "auto", "item", "main"]).to_string(),
            1 => self.name(true),
            2 => self.s.pick::<&str>(&["calc", "and", "or", "not", "media", "important", "url", "min", "var", "e", "e3", "px", "u", "import", "from", "to"]).to_string(),
            _ => {
                let d = util::dict_string(self.s);
                let t: String = d.chars().filter(|c| c.is_ascii_alphabetic()).collect();
                if t.is_empty() { "z".into() } else { t }
            }
        }
    }
    fn string(&mut self) {
        let q = *self.s.pick(&['"', '\'']);
        self.out.push(q);
        for _ in 0..self.s.len(4, 40) {
            match self.s.weighted(&[14, 6, 3, 2, 2]) {
                0 => {
                    let c = *self.s.pick(&['a', ' ', 'b', '{', '}', ';', ':', '/', '*', ',', '(', ')', '[', ']', '>', '+', '=', '!', '\t', '@', '#']);
                    self.out.push(c);
                }
                1 => {
                    let x = self.s.pick::<&str>(&["  ", "/*", "*/", "//", "/*c*/", "  ;  ", "a  b", " , ", "calc( 1", "é", "url(", "/*! x */"]);
                    self.out.push_str(x);
                }
                2 => {
                    let c = *self.s.pick(&['\\', '"', '\'', 'a', '0', '\n', 'g']);
                    self.out.push('\\');
                    self.out.push(c);
                }
                3 => self.out.push(if q == '"' { '\'' } else { '"' }),
                _ => {
                    let c = util::any_char(self.s);
                    if c != q && c != '\\' && !matches!(c, '\n' | '\r' | '\u{c}') {
                        self.out.push(c);
                    }
                }
            }
        }
        self.out.push(q);
    }
    fn number(&mut self) -> String {
        let sign = self.s.pick::<&str>(&["", "", "", "-", "+"]);
        let n = self.s.pick::<&str>(&["0", "1", "12", "1.5", ".5", "100", "0.25", "1e3", "2E-1", "00"]);
        format!("{sign}{n}")
    }
    fn dimension(&mut self) -> String {
        let n = self.number();
        let u = self.s.pick::<&str>(&["px", "%", "", "em", "rem", "vh", "s", "ms", "deg", "fr", "dppx", "x"]);
        format!("{n}{u}")
    }

    // ------------------------------------------------------------ selectors
    fn attribute(&mut self) {
        self.p("[");
        self.opt();
        let n = self.ident();
        self.p(&n);
        self.opt();
        if self.s.chance(2, 3) {
            let op = self.s.pick::<&str>(&["=", "~=", "|=", "^=", "$=", "*="]).to_string();
            self.p(&op);
            self.opt();
            let ident = self.s.chance(1, 3);
            if ident {
                let v = self.ident();
                self.p(&v);
            } else {
                self.string();
            }
            if self.s.chance(1, 5) {
                if ident {
                    self.req();
                } else {
                    self.opt();
                }
                let f = self.s.pick::<&str>(&["i", "s", "I"]).to_string();
                self.p(&f);
            }
            self.opt();
        }
        self.p("]");
    }
    fn pseudo(&mut self, depth: usize) {
        match self.s.weighted(&[10, 5, 5, 4]) {
            0 => {
                let x = self.s.pick::<&str>(&[":hover", ":first-child", ":root", ":not-a", ":focus-within", ":target"]).to_string();
                self.p(&x);
            }
            1 => {
                let x = self.s.pick::<&str>(&["::before", "::after", "::-webkit-scrollbar", "::part(a)", "::slotted(a)", "::selection", "::highlight(x)"]).to_string();
                self.p(&x);
            }
            2 if depth < 3 => {
                let x = self.s.pick::<&str>(&[":not(", ":is(", ":where(", ":has(", ":host(", ":-webkit-any("]).to_string();
                self.p(&x);
                self.opt();
                if x == ":has(" && self.s.chance(1, 2) {
                    let c = self.s.pick::<&str>(&[">", "+", "~"]).to_string();
                    self.p(&c);
                    self.opt();
                }
                self.selector_list(depth + 1);
                self.opt();
                self.p(")");
            }
            _ => {
                let x = self.s.pick::<&str>(&[":nth-child(", ":nth-last-of-type(", ":nth-of-type(", ":lang(", ":dir("]).to_string();
                self.p(&x);
                self.opt();
                if x.starts_with(":nth") {
                    match self.s.below(6) {
                        0 => self.p("2n"),
                        1 => self.p("odd"),
                        2 => {
                            self.p("2n");
                            self.opt();
                            self.p("+");
                            self.opt();
                            self.p("1");
                        }
                        3 => self.p("-n+3"),
                        4 => self.p("2n-1"),
                        _ => self.p("5"),
                    }
                    if x == ":nth-child(" && depth < 2 && self.s.chance(1, 4) {
                        self.req();
                        self.p("of");
                        self.req();
                        self.selector_list(depth + 1);
                    }
                } else {
                    let x = self.s.pick::<&str>(&["en", "rtl", "fr-FR"]).to_string();
                    self.p(&x);
                }
                self.opt();
                self.p(")");
            }
        }
    }
    fn compound(&mut self, depth: usize) {
        let start = self.out.len();
        match self.s.weighted(&[8, 4, 3, 1]) {
            0 => {}
            1 => {
                let n = self.ident();
                self.p(&n);
            }
            2 => self.p("*"),
            _ => {
                let n = self.s.pick::<&str>(&["svg|a", "*|a", "svg|*", "*|*"]).to_string();
                self.p(&n);
            }
        }
        let k = self.s.len(1, 5);
        for i in 0..k.max((self.out.len() == start) as usize) {
            if self.o.comments && (i > 0 || self.out.len() > start) && self.s.chance(1, 30) {
                self.comment();
            }
            match self.s.weighted(&[8, 4, 4, 4]) {
                0 => {
                    self.p(".");
                    let n = self.ident();
                    self.p(&n);
                }
                1 => {
                    self.p("#");
                    let n = if self.s.chance(1, 4) { self.name(false) } else { self.ident() };
                    self.p(&n);
                }
                2 => self.attribute(),
                _ => self.pseudo(depth),
            }
        }
    }
    fn complex(&mut self, depth: usize) {
        self.compound(depth);
        for _ in 0..self.s.len(1, 6) {
            match self.s.weighted(&[6, 2, 1, 1]) {
                0 => self.req(),
                k => {
                    self.opt();
                    let c = [">", "+", "~"][k - 1];
                    self.p(c);
                    self.opt();
                }
            }
            self.compound(depth);
        }
    }
    fn selector_list(&mut self, depth: usize) {
        self.complex(depth);
        for _ in 0..self.s.len(0, 3) {
            self.opt();
            self.p(",");
            self.opt();
            self.complex(depth);
        }
    }

    // ------------------------------------------------------------ values
    /// A sum or product inside a math function.
    fn math(&mut self, depth: usize) {
        self.math_atom(depth);
        for _ in 0..self.s.len(1, 4) {
            if self.s.chance(2, 3) {
                self.req();
                let o = self.s.pick::<&str>(&["+", "-"]).to_string();
                self.p(&o);
                self.req();
            } else {
                // `/` and `*` stay apart from a comment.
                self.req();
                let o = self.s.pick::<&str>(&["*", "/"]).to_string();
                self.p(&o);
                self.req();
            }
            self.math_atom(depth);
        }
    }
    fn math_atom(&mut self, depth: usize) {
        match self.s.weighted(&[10, 3, 3, if depth < 3 { 3 } else { 0 }]) {
            0 => {
                let d = self.dimension();
                self.p(&d);
            }
            1 => {
                self.p("var(");
                self.opt();
                self.p("--v");
                self.opt();
                if self.s.chance(1, 3) {
                    self.p(",");
                    self.opt();
                    let d = self.dimension();
                    self.p(&d);
                }
                self.p(")");
            }
            2 => {
                self.p("(");
                self.opt();
                if depth < 3 {
                    self.math(depth + 1);
                } else {
                    self.p("1px");
                }
                self.opt();
                self.p(")");
            }
            _ => self.math_fn(depth + 1),
        }
    }
    fn math_fn(&mut self, depth: usize) {
        let f = self.s.pick::<&str>(&["calc(", "calc(", "min(", "max(", "clamp(", "-webkit-calc(", "CALC(", "round("]).to_string();
        self.p(&f);
        self.opt();
        let n = if f.to_ascii_lowercase().ends_with("calc(") { 1 } else { 1 + self.s.below(3) };
        for i in 0..n {
            if i > 0 {
                self.opt();
                self.p(",");
                self.opt();
            }
            self.math(depth);
        }
        self.opt();
        self.p(")");
    }
    fn url(&mut self) {
        let u = self.s.pick::<&str>(&["url(", "url(", "URL("]).to_string();
        self.p(&u);
        if self.s.chance(1, 2) {
            self.opt_ws();
            self.string();
            self.opt_ws();
        } else {
            self.opt_ws();
            let x = self.s.pick::<&str>(&[
                "a.png", "//x.y/z.png", "data:image/webp;base64,c//S4KP//ZZ/19Uj/UA==", "a+b", "a=b,c", "../x?y=1&z=2#f", "a\\ b", "a\\)b", "é", "http://x/",
                "data:image/svg+xml,%3Csvg~$^|", "a>b", "", "a\\22 b", "a[1].png", "x]y", "{", "a}b", "x/*y", "*/", "/*z*/", "a;b", "a\\\"b", "a;base64,+/=", "#a", "a\\\\",
            ]).to_string();
            self.p(&x);
            self.opt_ws();
        }
        self.p(")");
    }
    fn opt_ws(&mut self) {
        if self.s.chance(1, 3) {
            let w = white(self.s);
            self.p(w);
        }
    }
    fn component(&mut self, depth: usize) {
        match self.s.weighted(&[10, 10, 3, 4, 3, 4, 2, 1, 1]) {
            0 => {
                let n = self.ident();
                self.p(&n);
            }
            1 => {
                let d = self.dimension();
                self.p(&d);
            }
            2 => {
                let h = self.s.pick::<&str>(&["#fff", "#0a042f", "#ABCDEF80", "#123"]).to_string();
                self.p(&h);
            }
            3 => self.string(),
            4 => self.url(),
            5 => self.math_fn(depth),
            6 if depth < 3 => {
                let f = self.s.pick::<&str>(&["rgb(", "rgba(", "var(", "translate(", "linear-gradient(", "attr(", "minmax(", "image-set(", "format(", "local("]).to_string();
                self.p(&f);
                self.opt();
                if f == "var(" {
                    self.p("--x");
                    self.opt();
                    if self.s.chance(1, 2) {
                        self.p(",");
                        self.opt();
                        self.value(depth + 1);
                    }
                } else {
                    self.value(depth + 1);
                }
                self.opt();
                self.p(")");
            }
            7 => {
                let u = self.s.pick::<&str>(&["U+26", "U+0025-00FF", "u+4??", "progid:X.Y(a='#1', b=2)", "alpha(opacity=50)"]).to_string();
                self.p(&u);
            }
            _ => {
                self.p("[");
                self.opt();
                let n = self.ident();
                self.p(&n);
                if self.s.chance(1, 2) {
                    self.req();
                    let n = self.ident();
                    self.p(&n);
                }
                self.opt();
                self.p("]");
            }
        }
    }
    fn value(&mut self, depth: usize) {
        self.component(depth);
        for _ in 0..self.s.len(1, 6) {
            match self.s.weighted(&[8, 4, 2]) {
                0 => self.req(),
                1 => {
                    self.opt();
                    self.p(",");
                    self.opt();
                }
                _ => {
                    self.req();
                    self.p("/");
                    self.req();
                }
            }
            self.component(depth);
        }
    }
    fn declaration(&mut self) {
        let custom = self.s.chance(1, 6);
        if custom {
            self.p("--");
            let n = self.ident();
            self.p(&n);
        } else if self.s.chance(1, 4) {
            let n = self.ident();
            self.p(&n);
        } else {
            let n = self.s.pick::<&str>(&["color", "margin", "font", "grid-template-areas", "-webkit-box", "width", "*zoom", "src"]).to_string();
            self.p(n.trim_start_matches('*'));
        }
        self.opt();
        self.p(":");
        self.opt();
        if custom && self.s.chance(1, 4) {
            // Anything that is balanced; here arithmetic outside a function.
            self.math(1);
        } else {
            self.value(0);
        }
        if self.s.chance(1, 6) {
            self.opt();
            self.p("!");
            self.opt();
            let i = self.s.pick::<&str>(&["important", "IMPORTANT"]).to_string();
            self.p(&i);
        }
    }
    fn declarations(&mut self) {
        self.between();
        let n = self.s.len(2, 8);
        for i in 0..n {
            if self.nest < 3 && self.budget > 0 && self.s.chance(1, 16) {
                self.nest += 1;
                self.nested();
                self.nest -= 1;
                self.between();
                continue;
            }
            self.declaration();
            self.opt();
            if i + 1 < n || self.s.chance(2, 3) {
                self.p(";");
                if self.s.chance(1, 20) {
                    self.opt();
                    self.p(";");
                }
                self.between();
            }
        }
    }
    /// A rule inside a rule.
    fn nested(&mut self) {
        self.budget = self.budget.saturating_sub(1);
        match self.s.weighted(&[6, 2, 2, 1]) {
            0 => {
                self.p("&");
                if self.s.chance(1, 2) {
                    self.pseudo(2);
                } else {
                    match self.s.below(3) {
                        0 => self.req(),
                        1 => {
                            self.opt();
                            self.p("+");
                            self.opt();
                        }
                        _ => {}
                    }
                    self.p(".x");
                }
            }
            1 => {
                let c = self.s.pick::<&str>(&[">", "+", "~"]).to_string();
                self.p(&c);
                self.opt();
                self.complex(1);
            }
            2 => self.complex(1),
            _ => {
                self.p("@media");
                self.req();
                self.media_query();
            }
        }
        self.opt();
        self.block_of_decls();
    }

    // ------------------------------------------------------------ rules
    fn rule(&mut self) {
        self.selector_list(0);
        self.opt();
        self.p("{");
        self.declarations();
        self.p("}");
    }
    fn media_condition(&mut self, depth: usize) {
        match self.s.weighted(&[10, 4, 4, 2]) {
            0 => {
                self.p("(");
                self.opt();
                let f = self.s.pick::<&str>(&["max-width", "min-width", "display", "hover", "--x", "orientation"]).to_string();
                self.p(&f);
                self.opt();
                if self.s.chance(5, 6) {
                    self.p(":");
                    self.opt();
                    if self.s.chance(1, 4) {
                        self.math_fn(1);
                    } else {
                        self.component(2);
                    }
                    self.opt();
                }
                self.p(")");
            }
            1 => {
                self.p("(");
                self.opt();
                self.p("width");
                self.opt();
                let o = self.s.pick::<&str>(&[">", "<", ">=", "<=", "="]).to_string();
                self.p(&o);
                self.opt();
                let d = self.dimension();
                self.p(&d);
                self.opt();
                self.p(")");
            }
            2 if depth < 3 => {
                self.p("(");
                self.opt();
                self.media_condition(depth + 1);
                let op = self.s.pick::<&str>(&["and", "or"]).to_string();
                for _ in 0..self.s.below(3) {
                    self.req();
                    self.p(&op);
                    self.req();
                    self.media_condition(depth + 1);
                }
                self.opt();
                self.p(")");
            }
            _ => {
                self.p("(");
                self.opt();
                self.p("not");
                self.req();
                self.p("(");
                self.p("a");
                self.opt();
                self.p(":");
                self.opt();
                self.p("b");
                self.p(")");
                self.opt();
                self.p(")");
            }
        }
    }
    fn media_query(&mut self) {
        match self.s.below(4) {
            0 => self.media_condition(0),
            1 => {
                let m = self.s.pick::<&str>(&["screen", "print", "all"]).to_string();
                self.p(&m);
            }
            2 => {
                let m = self.s.pick::<&str>(&["only", "not"]).to_string();
                self.p(&m);
                self.req();
                self.p("screen");
                for _ in 0..1 + self.s.below(2) {
                    self.req();
                    self.p("and");
                    self.req();
                    self.media_condition(0);
                }
            }
            _ => {
                self.p("not");
                self.req();
                self.media_condition(0);
            }
        }
    }
    fn block_of_rules(&mut self, depth: usize) {
        self.p("{");
        self.between();
        for _ in 0..self.s.len(1, 3) {
            if self.budget == 0 {
                break;
            }
            self.item(depth + 1);
            self.between();
        }
        self.p("}");
    }
    fn block_of_decls(&mut self) {
        self.p("{");
        self.declarations();
        self.p("}");
    }
    fn at_rule(&mut self, depth: usize) {
        match self.s.weighted(&[8, 4, 3, 3, 3, 3, 2, 2, 2, 2, 2]) {
            0 => {
                self.p("@media");
                self.req();
                self.media_query();
                for _ in 0..self.s.len(0, 2) {
                    self.opt();
                    self.p(",");
                    self.opt();
                    self.media_query();
                }
                self.opt();
                self.block_of_rules(depth);
            }
            1 => {
                self.p("@supports");
                self.req();
                if self.s.chance(1, 3) {
                    self.p("not");
                    self.req();
                }
                self.media_condition(0);
                self.opt();
                self.block_of_rules(depth);
            }
            2 => {
                self.p("@container");
                self.req();
                if self.s.chance(1, 2) {
                    self.p("side-bar");
                    self.req();
                }
                self.media_condition(0);
                self.opt();
                self.block_of_rules(depth);
            }
            3 => {
                let k = self.s.pick::<&str>(&["@keyframes", "@-webkit-keyframes"]).to_string();
                self.p(&k);
                self.req();
                let n = self.ident();
                self.p(&n);
                self.opt();
                self.p("{");
                self.between();
                for _ in 0..self.s.len(2, 4) {
                    let k = self.s.pick::<&str>(&["from", "to", "0%", "33.3%", "100%"]).to_string();
                    self.p(&k);
                    if self.s.chance(1, 3) {
                        self.opt();
                        self.p(",");
                        self.opt();
                        self.p("50%");
                    }
                    self.opt();
                    self.block_of_decls();
                    self.between();
                }
                self.p("}");
            }
            4 => {
                let k = self.s.pick::<&str>(&["@font-face", "@page", "@view-transition"]).to_string();
                self.p(&k);
                self.opt();
                self.block_of_decls();
            }
            5 => {
                self.p("@page");
                self.req();
                if self.s.chance(1, 2) {
                    self.p("toc");
                }
                self.p(":first");
                self.opt();
                self.block_of_decls();
            }
            6 => {
                self.p("@layer");
                self.req();
                self.p("base");
                if self.s.chance(1, 2) {
                    self.p(".inner");
                }
                self.opt();
                if self.s.chance(1, 2) {
                    self.p(",");
                    self.opt();
                    self.p("other");
                    self.opt();
                    self.p(";");
                } else {
                    self.block_of_rules(depth);
                }
            }
            7 => {
                let k = self.s.pick::<&str>(&["@counter-style", "@property", "@font-palette-values", "@position-try"]).to_string();
                self.p(&k);
                self.req();
                self.p("--name");
                self.opt();
                self.block_of_decls();
            }
            8 => {
                self.p("@starting-style");
                self.opt();
                self.block_of_rules(depth);
            }
            9 => {
                self.p("@unknown");
                self.req();
                let n = self.ident();
                self.p(&n);
                self.req();
                self.string();
                self.opt();
                self.p(";");
            }
            _ => {
                self.p("@layer");
                self.opt();
                self.block_of_rules(depth);
            }
        }
    }
    fn item(&mut self, depth: usize) {
        self.budget = self.budget.saturating_sub(1 + if self.large { 0 } else { self.out.len() / 4000 });
        if depth < 4 && self.s.chance(1, 4) {
            self.at_rule(depth);
        } else if depth == 0 && self.s.chance(1, 400) {
            // Blocks in each other.
            let n = self.s.range(2, 60);
            for _ in 0..n {
                let x = *self.s.pick(&["@media print{", "@layer a{", "@supports (a:b) {", "a {", "& > b{"]);
                self.p(x);
            }
            self.p("a{c:d");
            for _ in 0..=n {
                self.opt();
                self.p("}");
            }
        } else {
            self.rule();
        }
    }
    pub fn sheet(&mut self) {
        if self.s.chance(1, 20) {
            self.p("@charset \"utf-8\";");
        }
        self.between();
        while self.s.chance(1, 10) {
            match self.s.below(3) {
                0 => {
                    self.p("@import");
                    self.req();
                    self.string();
                }
                1 => {
                    self.p("@import");
                    self.req();
                    self.url();
                    if self.s.chance(1, 2) {
                        self.req();
                        self.media_query();
                    }
                }
                _ => {
                    self.p("@namespace");
                    self.req();
                    if self.s.chance(1, 2) {
                        self.p("svg");
                        self.req();
                    }
                    self.url();
                }
            }
            self.opt();
            self.p(";");
            self.between();
        }
        let n = if self.large { 3000 } else { 1 + self.s.len(1, 12) };
        for _ in 0..n {
            if self.budget == 0 || self.s.exhausted() {
                break;
            }
            self.item(0);
            self.between();
        }
    }
}

pub fn sheet(s: &mut Src, o: Opt) -> String {
    let mut g = G::new(s, o);
    g.sheet();
    let mut t = g.out;
    if s.chance(1, 150) {
        let big = stretch::css(s);
        if s.chance(1, 2) && !t.contains("@charset") && !t.contains("@import") && !t.contains("@namespace") {
            t.insert_str(0, &big);
        } else if crate::css::parse(&t).is_ok() {
            t.push_str(&big);
        }
    }
    t
}
