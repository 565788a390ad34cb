//! Random JavaScript programs as token lists with explicit semicolons, and random layouts
//! (whitespace, line breaks, comments) of such lists.
use crate::engine::Src;
use crate::{dict, stretch, util};
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Word,
    Num,
    Punct,
    Str,
    Tmpl,
    Re,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub k: K,
    /// A line break may stand before this token.
    pub nl: bool,
}

#[derive(Clone)]
pub struct Opt {
    /// Strings in expression position only, from a small pool.
    pub agg: bool,
    /// With `agg`, strings as names of properties too.
    pub names: bool,
    /// `^`, `~` and the like, which the tokenizer keeps as part of names.
    pub odd_ops: bool,
    pub regex: bool,
    /// `1 .x`, `1..x`
    pub num_member: bool,
    /// Comments inside the substitutions of template literals.
    pub tpl_comments: bool,
    /// Top-level declaration to put first, e.g. an existing array.
    pub max: usize,
}
impl Default for Opt {
    fn default() -> Opt {
        Opt { agg: false, names: true, odd_ops: true, regex: true, num_member: true, tpl_comments: true, max: 260 }
    }
}

pub const RESERVED: &[&str] = &[
    "arguments", "async", "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else",
    "enum", "eval", "export", "extends", "false", "finally", "for", "function", "if", "implements", "import", "in", "instanceof",
    "interface", "let", "new", "null", "package", "private", "protected", "public", "return", "static", "super", "switch", "this",
    "throw", "true", "try", "typeof", "undefined", "var", "void", "while", "with", "yield", "constructor", "prototype", "__proto__",
    "of", "get", "set",
];
const POOL: &[&str] = &[
    "a", "b", "c", "x", "i", "foo", "bar", "$", "_", "data", "el", "r_aa", "r_ba", "r_ca", "r_da", "R", "nan", "inf", "infinity", "NaN", "Infinity", "e5",
    "x1", "inx", "index", "newx", "returned", "vary", "é", "λx", "$el", "_p", "of1", "as", "from", "target", "meta", "string", "dotted",
    "elsewhere", "iff", "forEach", "thisArg", "nullable", "trueish", "typeofx", "casex", "doX", "letter", "constant", "inf1",
    "superlongidentifiernamethatgoesonandonandonforaverylongtimeindeed",
];
const PROPS: &[&str] = &[
    "length", "x", "default", "return", "in", "case", "typeof", "delete", "class", "new", "this", "null", "catch", "private", "static",
    "get", "set", "async", "of", "let", "var", "b", "test", "instanceof", "do", "else", "throw", "for", "nan", "inf", "丰", "Ĵ", "Įa", "ģ", "ķx",
];

pub fn strings_pool(s: &mut Src) -> Vec<String> {
    let n = 1 + s.len(4, 90);
    (0..n).map(|_| string_lit(s, true)).collect()
}

/// A string literal with its quotes.
pub fn string_lit(s: &mut Src, agg: bool) -> String {
    let q = if s.chance(1, 3) { '\'' } else { '"' };
    let n = if agg { util::size(s, 9, 200) } else { util::size(s, 5, 600) };
    let mut o = String::new();
    o.push(q);
    for _ in 0..n {
        match s.weighted(&[60, 8, 8, 5, 4, 3, 3, 3, 2, 4]) {
            0 => {
                let c = util::ascii(s);
                if c != q && c != '\\' {
                    o.push(c);
                }
            }
            1 => {
                o.push('\\');
                o.push(*s.pick(&['"', '\'', '\\', 'n', 't', '/', 'b', '`', '$', 'z']));
            }
            2 => o.push(if q == '"' { '\'' } else { '"' }),
            3 => o.push_str("  "),
            4 => {
                let c = util::odd(s);
                o.push(c)
            }
            5 => o.push_str(s.pick(&["//", "/*", "*/", "${", "`", "<!--", "-->", "</script>", ";", "{", "}"])),
            6 => o.push_str(&format!("\\u{:04x}", s.draw(0xd800))),
            7 => o.push_str(&format!("\\x{:02x}", s.draw(256))),
            8 => o.push_str(s.pick(&["\\\n", "\\\r\n", "\\\r", "\\\u{2028}", "\\\u{2029}", "\\u{61}", "\\\u{e9}", "\\ "])),
            _ => {
                for c in util::dict_string(s).chars() {
                    if c != q && c != '\\' && c != '\n' && c != '\r' {
                        o.push(c);
                    }
                }
            }
        }
    }
    o.push(q);
    o
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub t: Vec<Tok>,
    pub o: Opt,
    depth: usize,
    declared: HashSet<String>,
    uniq: usize,
    pub pool: Vec<String>,
    func: bool,
    gen: bool,
    asy: bool,
    in_loop: bool,
    in_switch: bool,
    class: usize,
    private: Vec<String>,
    labels: Vec<(String, bool)>,
    script: bool,
    params: bool,
    static_block: bool,
}

pub fn program(s: &mut Src, o: Opt) -> Vec<Tok> {
    let pool = if o.agg { strings_pool(s) } else { vec![] };
    program_with(s, o, pool)
}

pub fn program_with(s: &mut Src, o: Opt, pool: Vec<String>) -> Vec<Tok> {
    let script = s.chance(1, 10);
    let mut g = G {
        s,
        t: vec![],
        o,
        depth: 0,
        declared: HashSet::new(),
        uniq: 0,
        pool,
        func: false,
        gen: false,
        asy: false,
        in_loop: false,
        in_switch: false,
        class: 0,
        private: vec![],
        labels: vec![],
        script,
        params: false,
        static_block: false,
    };
    if g.o.agg {
        while g.s.chance(1, 9) {
            g.directive();
        }
    } else if g.s.chance(1, 12) {
        let q = g.s.pick(&["\"use strict\"", "'use strict'", "\"use asm\""]).to_string();
        if !script {
            g.push(&q, K::Str);
            g.p(";");
        }
    }
    let n = if g.s.chance(1, 250) {
        // A large one.
        g.o.max *= g.s.range(2, 30);
        1000
    } else {
        1 + g.s.len(4, 60)
    };
    for _ in 0..n {
        g.top();
        if g.full() {
            break;
        }
    }
    if g.s.chance(1, 150) {
        let big = stretch::js(g.s, g.o.regex);
        let end = g.t.last().is_none_or(|t| t.s == ";" || t.s == "}");
        if !end {
            g.p(";");
        }
        g.t.extend(big);
    }
    g.t
}

const LOW: u8 = 2; // assignment
impl G<'_> {
    fn full(&self) -> bool {
        self.t.len() > self.o.max || self.s.exhausted()
    }
    fn push(&mut self, s: &str, k: K) {
        self.t.push(Tok { s: s.into(), k, nl: true });
    }
    fn p(&mut self, s: &str) {
        self.push(s, K::Punct)
    }
    fn w(&mut self, s: &str) {
        self.push(s, K::Word)
    }
    /// The token pushed next must stay on the line of the one before.
    fn tight(&mut self, at: usize) {
        if let Some(t) = self.t.get_mut(at) {
            t.nl = false;
        }
    }
    fn ident(&mut self) -> String {
        match self.s.weighted(&[60, 25, 10, 5]) {
            // Names that aggregation would create.
            0 if self.o.agg && self.s.chance(1, 6) => format!("r_{}a", (b'a' + self.s.below(6) as u8) as char),
            0 => self.s.pick(&POOL[..18]).to_string(),
            1 => self.s.pick(POOL).to_string(),
            2 => {
                let d = dict::get();
                if d.idents.is_empty() {
                    return "q".into();
                }
                let w = self.s.pick(&d.idents).clone();
                if RESERVED.contains(&w.as_str()) {
                    format!("{w}_")
                } else {
                    w
                }
            }
            _ => {
                let n = 1 + util::size(self.s, 4, 300);
                let mut o = String::new();
                for i in 0..n {
                    let mut c = *self.s.pick(&['a', 'Z', '_', '$', '0', '9', 'e', 'n', 'f', 'é', 'ñ', '中', 'x', '?']);
                    if c == '?' {
                        c = util::lookalike(self.s);
                    }
                    o.push(if i == 0 && c.is_ascii_digit() { 'v' } else { c });
                }
                if RESERVED.contains(&o.as_str()) {
                    o.push('_');
                }
                o
            }
        }
    }
    /// A name declared nowhere else in the program.
    fn fresh(&mut self) -> String {
        let mut n = self.ident();
        while !self.declared.insert(n.clone()) {
            self.uniq += 1;
            n = format!("{n}{}", self.uniq);
        }
        n
    }
    fn prop(&mut self) -> String {
        if self.s.chance(1, 3) {
            self.s.pick(PROPS).to_string()
        } else {
            self.ident()
        }
    }
    fn number(&mut self) -> String {
        let d = |s: &mut Src, n: usize| -> String { (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect() };
        let int = |s: &mut Src| -> String {
            if s.chance(1, 4) {
                "0".into()
            } else {
                let n = s.len(1, 30);
                format!("{}{}", 1 + s.below(9), d(s, n))
            }
        };
        let s = &mut *self.s;
        match s.weighted(&[40, 12, 8, 5, 6, 4, 4, 4, 4, 3]) {
            0 => int(s),
            1 => {
                let n = 1 + s.below(4);
                format!("{}.{}", int(s), d(s, n))
            }
            2 => {
                let n = 1 + s.below(4);
                format!(".{}", d(s, n))
            }
            3 => format!("{}.", int(s)),
            4 => {
                let n = 1 + s.below(2);
                let m = s.pick(&["", ".5", "."]).to_string();
                let e = s.pick(&["e", "E", "e-", "e+", "E+", "E-"]).to_string();
                format!("{}{m}{e}{}", int(s), d(s, n))
            }
            5 => format!("0{}{:X}", s.pick(&['x', 'X']), s.draw(1 << 40)),
            6 => format!("0{}{:o}", s.pick(&['o', 'O']), s.draw(1 << 20)),
            7 => format!("0{}{:b}", s.pick(&['b', 'B']), s.draw(1 << 10)),
            8 => format!("{}_{}", 1 + s.below(9), d(s, 3)),
            _ => {
                if s.chance(1, 2) {
                    format!("{}n", int(s))
                } else if self.script && self.class == 0 {
                    s.pick(&["010", "0777", "09", "00", "08.5", "0123456"]).to_string()
                } else {
                    "18446744073709551616".into()
                }
            }
        }
    }
    fn regex_ok(&self) -> bool {
        if !self.o.regex {
            return false;
        }
        let n = self.t.len();
        let Some(l) = self.t.last() else { return true };
        let dotted = n > 1 && (self.t[n - 2].s == "." || self.t[n - 2].s == "?.");
        match l.k {
            K::Punct => {
                matches!(
                    l.s.as_str(),
                    "(" | "[" | "," | ";" | ":" | "?" | "!" | "{" | "&" | "|" | "&&" | "||" | "??" | "=" | "+" | "-" | "*" | "/" | "%"
                        | "**" | "<" | ">" | "<=" | ">=" | "==" | "!=" | "===" | "!==" | "=>" | "+=" | "-=" | "*=" | "/=" | "%=" | "<<"
                        | "^" | "~" | "^=" | "..." | ">>" | ">>>" | "<<=" | ">>=" | ">>>=" | "**=" | "&&=" | "||=" | "??=" | "&=" | "|="
                )
            }
            K::Word => {
                !dotted
                    && matches!(
                        l.s.as_str(),
                        "return" | "typeof" | "case" | "in" | "instanceof" | "do" | "else" | "new" | "throw" | "default"
                    )
            }
            _ => false,
        }
    }
    fn regex(&mut self) -> String {
        let s = &mut *self.s;
        let flags = match s.weighted(&[40, 40, 12, 8]) {
            0 => String::new(),
            1 => s.pick(&["g", "i", "gi", "ig"]).to_string(),
            2 => s.pick(&["m", "s", "y", "gm", "mg", "gim", "sy", "d"]).to_string(),
            _ => s.pick(&["u", "gu", "iu", "ug"]).to_string(),
        };
        let uni = flags.contains('u');
        let mut o = String::from("/");
        let n = 1 + s.len(4, 60);
        for i in 0..n {
            match s.weighted(&[40, 12, 10, 8, 6, 6, 5, 4]) {
                0 => {
                    let c = util::ascii(s);
                    if c.is_ascii_alphanumeric() || " \"'`;:,<>!=&%#@_~-".contains(c) {
                        o.push(c);
                    } else {
                        o.push('a');
                    }
                }
                1 => o.push_str(s.pick(&["\\/", "\\\\", "\\d", "\\[", "\\]", "\\(", "\\.", "\\*", "\\$", "\\n", "\\s", "\\{", "\\}"])),
                2 => o.push_str(s.pick(&["[abc]", "[/]", "[^/\"]", "[\\]/]", "[a-z']", "[`/*]", "[ \\\\]", "[[/]", "[\"]", "[//]", "[^\\]\\\\]"])),
                3 => o.push_str(s.pick(&["(?:a|b)", "(a)", "(?=x)", "(?!y)", "(?<=z)", "(?<n>q)".get(..if i == 0 { 7 } else { 0 }).unwrap_or("")])),
                4 => o.push_str("  "),
                5 => o.push_str(s.pick(&["a+", "b*", "c?", "d{2}", "e{1,3}", "f*?", ".*", ".", "^", "$", "|x"])),
                6 => {
                    let c = util::odd(s);
                    if c != '\u{2028}' && c != '\u{2029}' && !uni {
                        o.push(c);
                    }
                }
                _ => {
                    for c in util::dict_string(s).chars() {
                        if c.is_ascii_alphanumeric() || " \"'`;,".contains(c) {
                            o.push(c);
                        }
                    }
                }
            }
        }
        if uni {
            // In unicode mode only a plain pattern is surely valid.
            o = format!("/{}", s.pick(&["a  b", "\\u{61}", "[/\"]", "x'", "\\/", "\\p{L}"]));
        }
        if o == "/" {
            o.push('x');
        }
        o.push('/');
        o + &flags
    }

    // -------------------------------------------------------------- expressions

    /// An expression whose outermost operator binds at least as tightly as `p`.
    pub fn expr(&mut self, p: u8) {
        self.depth += 1;
        if self.depth > 14 || self.full() {
            self.atom();
        } else {
            self.expr_inner(p);
        }
        self.depth -= 1;
    }
    fn expr_inner(&mut self, p: u8) {
        // 0 atom, 1 member/call, 2 unary, 3 update, 4 binary, 5 conditional, 6 assignment,
        // 7 arrow, 8 sequence in parens, 9 new, 10 yield/await, 11 nullish
        let k = self.s.weighted(&[34, 20, 8, 6, 22, 5, 7, 5, 2, 3, 3, 2]);
        match k {
            0 => self.atom(),
            1 => self.chain(),
            2 if p <= 15 => self.unary(),
            3 if p <= 16 => self.update(p),
            4 => self.binary(p),
            5 if p <= 3 => {
                self.expr(4);
                self.p("?");
                self.expr(LOW);
                self.p(":");
                self.expr(LOW);
            }
            6 if p <= LOW => {
                if self.s.chance(1, 8) {
                    self.target_pattern();
                    self.p("=");
                } else {
                    self.lhs();
                    let op = *self.s.pick(&[
                        "=", "+=", "-=", "*=", "/=", "%=", "=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "&&=", "||=", "??=", "^=",
                    ]);
                    let op = if op == "^=" && !self.o.odd_ops { "=" } else { op };
                    self.p(op);
                }
                self.expr(LOW);
            }
            7 if p <= LOW => self.arrow(),
            8 => {
                self.p("(");
                self.expr(LOW);
                for _ in 0..1 + self.s.below(2) {
                    self.p(",");
                    self.expr(LOW);
                }
                self.p(")");
            }
            9 => self.new_expr(),
            10 if self.gen && !self.params && p <= LOW => {
                self.w("yield");
                let at = self.t.len();
                match self.s.below(3) {
                    0 => {}
                    1 => {
                        self.p("*");
                        self.tight(at);
                        self.expr(LOW);
                    }
                    _ => {
                        let wrap = self.regex_ok();
                        let _ = wrap;
                        self.expr(LOW);
                        self.tight(at);
                    }
                }
            }
            10 if self.asy && !self.params && p <= 15 => {
                self.w("await");
                self.expr(15);
            }
            11 if p <= 3 => {
                // Operands of ?? must not be bare && or ||.
                self.expr(6);
                self.p("??");
                self.expr(6);
            }
            _ => self.paren(),
        }
    }
    fn paren(&mut self) {
        self.p("(");
        self.expr(LOW);
        self.p(")");
    }
    fn unary(&mut self) {
        let op = *self.s.pick(&["!", "-", "+", "typeof", "void", "delete", "~", "!", "-", "+"]);
        match op {
            "~" if !self.o.odd_ops => self.paren(),
            "typeof" => {
                self.w(op);
                self.expr(15);
            }
            "void" => {
                self.w(op);
                self.expr(15);
            }
            "delete" => {
                self.w(op);
                let i = self.ident();
                self.w(&i);
                self.p(".");
                let q = self.prop();
                self.w(&q);
            }
            _ => {
                self.p(op);
                self.expr(15);
            }
        }
    }
    fn update(&mut self, p: u8) {
        let op = *self.s.pick(&["++", "--"]);
        if self.s.chance(1, 2) || p > 15 {
            self.lhs();
            let at = self.t.len();
            self.p(op);
            self.tight(at);
            if p <= 12 && self.s.chance(1, 4) {
                self.p(&op[1..]);
                if self.regex_ok() && self.s.chance(1, 2) {
                    let r = self.regex();
                    self.push(&r, K::Re);
                } else {
                    self.expr(13);
                }
            }
        } else {
            self.p(op);
            self.lhs();
        }
    }
    fn binary(&mut self, p: u8) {
        // (operator, precedence)
        const OPS: &[(&str, u8)] = &[
            ("+", 12), ("-", 12), ("*", 13), ("/", 13), ("%", 13), ("<", 10), (">", 10), ("<=", 10), (">=", 10), ("==", 9), ("!=", 9),
            ("===", 9), ("!==", 9), ("&&", 5), ("||", 4), ("&", 8), ("|", 6), ("^", 7), ("<<", 11), (">>", 11), (">>>", 11), ("in", 10),
            ("instanceof", 10), ("**", 14), ("/", 13), ("+", 12), ("-", 12),
        ];
        let (op, q) = *self.s.pick(OPS);
        if q < p || (op == "^" && !self.o.odd_ops) {
            self.paren();
            return;
        }
        if op == "**" {
            self.expr(16);
            self.p(op);
            self.expr(15);
            return;
        }
        self.expr(q);
        if op.starts_with('i') {
            self.w(op);
        } else {
            self.p(op);
        }
        // `<!--` would open a comment in scripts.
        if op == "<" && self.s.chance(1, 6) {
            self.p("!");
            self.p("--");
            self.lhs();
            return;
        }
        self.expr(q + 1);
    }
    /// An assignable simple target.
    fn lhs(&mut self) {
        let i = self.ident();
        self.w(&i);
        match self.s.weighted(&[5, 3, 2]) {
            0 => {}
            1 => {
                self.p(".");
                let q = self.prop();
                self.w(&q);
            }
            _ => {
                self.p("[");
                self.expr(LOW);
                self.p("]");
            }
        }
    }
    fn target_pattern(&mut self) {
        self.p("[");
        let n = self.s.below(3);
        for _ in 0..n {
            if self.s.chance(1, 4) {
                self.p(",");
            }
            self.lhs();
            if self.s.chance(1, 3) {
                self.p("=");
                self.expr(LOW);
            }
            self.p(",");
        }
        self.p("]");
    }
    fn chain(&mut self) {
        // Base
        match self.s.weighted(&[10, 3, 2, 1, 1, 1]) {
            0 => {
                let i = self.ident();
                self.w(&i);
            }
            1 => self.w("this"),
            2 => self.paren(),
            3 => self.string(),
            4 if self.o.num_member => {
                match self.s.below(3) {
                    0 => {
                        let n = self.s.below(100).to_string();
                        self.push(&n, K::Num);
                        self.p(".");
                    }
                    1 => {
                        let n = format!("{}.", self.s.below(100));
                        self.push(&n, K::Num);
                        self.p(".");
                    }
                    _ => {
                        let n = format!("{}.{}", self.s.below(100), self.s.below(10));
                        self.push(&n, K::Num);
                        self.p(".");
                    }
                }
                // A keyword which is a name there, then divisions.
                if self.s.chance(1, 4) {
                    let k = ["in", "typeof", "return", "delete", "void", "new", "of", "case", "else"];
                    let k = k[self.s.below(k.len())];
                    self.w(k);
                    for _ in 0..1 + self.s.below(2) {
                        self.p("/");
                        let n = self.s.below(10).to_string();
                        self.push(&n, K::Num);
                    }
                    return;
                }
                let q = self.prop();
                self.w(&q);
            }
            5 if self.regex_ok() => {
                let r = self.regex();
                self.push(&r, K::Re);
                self.p(".");
                self.w("test");
            }
            _ => self.template(),
        }
        let n = 1 + self.s.below(3);
        for _ in 0..n {
            match self.s.weighted(&[5, 2, 4, 1, 1]) {
                0 => {
                    self.p(".");
                    if self.private.last().is_some() && self.s.chance(1, 3) {
                        let q = self.private.last().unwrap().clone();
                        self.w(&q);
                    } else {
                        let q = self.prop();
                        self.w(&q);
                    }
                }
                1 => {
                    self.p("[");
                    self.expr(LOW);
                    self.p("]");
                }
                2 => self.args(),
                3 => {
                    self.p("?.");
                    match self.s.below(3) {
                        0 => {
                            let q = self.prop();
                            self.w(&q);
                        }
                        1 => {
                            self.p("[");
                            self.expr(LOW);
                            self.p("]");
                        }
                        _ => self.args(),
                    }
                }
                _ => {
                    // A tagged template must not follow an optional chain.
                    if !self.t.iter().rev().take(40).any(|t| t.s == "?.") {
                        self.template();
                    }
                }
            }
        }
    }
    fn args(&mut self) {
        self.p("(");
        let n = self.s.below(4);
        for i in 0..n {
            if self.s.chance(1, 10) {
                self.p("...");
            }
            // No regular expression after a dot.
            self.expr(LOW);
            if i + 1 < n || self.s.chance(1, 12) {
                self.p(",");
            }
        }
        self.p(")");
    }
    fn new_expr(&mut self) {
        self.w("new");
        if self.s.chance(1, 6) {
            self.paren();
        } else {
            let i = self.ident();
            self.w(&i);
            if self.s.chance(1, 4) {
                self.p(".");
                let q = self.prop();
                self.w(&q);
            }
        }
        self.args();
    }
    fn string(&mut self) {
        let l = if self.pool.is_empty() { string_lit(self.s, false) } else { self.s.pick(&self.pool).clone() };
        self.push(&l, K::Str);
    }
    fn template(&mut self) {
        let mut o = String::from("`");
        let n = self.s.len(3, 20);
        for _ in 0..n {
            match self.s.weighted(&[40, 8, 6, 6, 20]) {
                0 => {
                    let c = util::any_char(self.s);
                    if c != '`' && c != '\\' && c != '$' && !(c == '{' && o.ends_with('$')) {
                        o.push(c);
                    }
                }
                1 => o.push_str(self.s.pick(&["\\`", "\\\\", "\\$", "\\n", "\\{", "\\u{61}", "\\\n", "\\\r\n", "\\\r", "\\\u{2028}"])),
                2 => {
                    let x = *self.s.pick(&["$", "$ {", "{", "}", "$}", "$$"]);
                    if x == "{" && o.ends_with('$') {
                        // That would start a substitution.
                        o.push(' ');
                    }
                    o.push_str(x);
                }
                3 => o.push_str(self.s.pick(&["//", "/*", "  ", "\n", "\"", "'", "\r\n"])),
                _ if self.depth < 8 && !self.full() => {
                    o.push_str("${");
                    // The content as a token list of its own, in a plain layout.
                    let keep = std::mem::take(&mut self.t);
                    self.depth += 3;
                    self.expr(LOW);
                    self.depth -= 3;
                    let inner = std::mem::replace(&mut self.t, keep);
                    let sp = self.s.below(if self.o.tpl_comments { 4 } else { 3 });
                    if sp == 3 {
                        let l = layout(self.s, &inner, false);
                        o.push_str(&render(&inner, &l));
                        if l.gaps.last().is_some_and(|g| g.contains("//")) {
                            o.push('\n');
                        }
                    } else {
                        o.push_str(&plain(&inner, sp));
                    }
                    o.push('}');
                }
                _ => o.push('x'),
            }
        }
        o.push('`');
        self.push(&o, K::Tmpl);
    }
    fn atom(&mut self) {
        let deep = self.depth > 12 || self.full();
        let k = self.s.weighted(&[26, 12, 14, 6, if deep { 0 } else { 8 }, 7, 7, if deep { 0 } else { 4 }, if deep { 0 } else { 2 }, 5, 2]);
        match k {
            0 => {
                let i = self.ident();
                self.w(&i);
            }
            1 => {
                let n = self.number();
                self.push(&n, K::Num);
            }
            2 => self.string(),
            3 => {
                let w = *self.s.pick(&["this", "null", "true", "false", "undefined"]);
                self.w(w);
            }
            4 => self.template(),
            5 => {
                self.p("[");
                let n = self.s.below(4);
                for i in 0..n {
                    if self.s.chance(1, 12) {
                        self.p("...");
                    } else if self.s.chance(1, 12) {
                        self.p(",");
                    }
                    self.expr(LOW);
                    if i + 1 < n || self.s.chance(1, 8) {
                        self.p(",");
                    }
                }
                self.p("]");
            }
            6 => self.object(),
            7 => self.func_expr(),
            8 => self.class(true),
            9 if self.regex_ok() => {
                let r = self.regex();
                self.push(&r, K::Re);
            }
            10 if self.func && self.s.chance(1, 3) => {
                self.w("new");
                self.p(".");
                self.w("target");
            }
            10 if !self.script && self.s.chance(1, 2) => {
                self.w("import");
                self.p(".");
                self.w("meta");
            }
            _ => {
                let i = self.ident();
                self.w(&i);
            }
        }
    }
    fn key(&mut self, class: bool) {
        match self.s.weighted(&[8, 2, 2, 2]) {
            1 if !self.o.agg || self.o.names || class => {
                let l = if self.o.agg { self.s.pick(&self.pool).clone() } else { string_lit(self.s, false) };
                let inner = &l[1..l.len() - 1];
                if inner == "__proto__" || inner == "constructor" || inner == "prototype" || l.contains('\\') {
                    self.push("\"k\"", K::Str);
                } else {
                    self.push(&l, K::Str);
                }
            }
            2 => {
                let n = self.number();
                let ok = !(self.script && n.starts_with('0') && n.len() > 1);
                self.push(if ok { &n } else { "1" }, K::Num);
            }
            3 => {
                self.p("[");
                self.expr(LOW);
                self.p("]");
            }
            _ => {
                let mut q = self.prop();
                if class && (q == "constructor" || q == "prototype") {
                    q.push('_');
                }
                self.w(&q);
            }
        }
    }
    fn object(&mut self) {
        self.p("{");
        let n = self.s.below(5);
        for i in 0..n {
            match self.s.weighted(&[10, 3, 2, 2, 1]) {
                0 => {
                    self.key(false);
                    self.p(":");
                    self.expr(LOW);
                }
                1 => {
                    let i = self.ident();
                    self.w(&i);
                }
                2 => {
                    self.method(false);
                }
                3 => {
                    let g = self.s.chance(1, 2);
                    self.w(if g { "get" } else { "set" });
                    self.key(false);
                    self.p("(");
                    if !g {
                        let f = self.fresh();
                        self.w(&f);
                    }
                    self.p(")");
                    self.body(true, false, false);
                }
                _ => {
                    self.p("...");
                    self.expr(LOW);
                }
            }
            if i + 1 < n || self.s.chance(1, 6) {
                self.p(",");
            }
        }
        self.p("}");
    }
    fn method(&mut self, class: bool) {
        let (mut a, mut g) = (false, false);
        if self.s.chance(1, 4) {
            a = true;
            self.w("async");
        }
        let at = self.t.len();
        if self.s.chance(1, 4) {
            g = true;
            self.p("*");
        }
        self.key(class);
        if a {
            self.tight(at);
        }
        self.fn_params();
        self.body(true, g, a);
    }
    fn fn_params(&mut self) {
        let keep = self.params;
        self.params = true;
        self.p("(");
        let n = self.s.below(4);
        for i in 0..n {
            if i + 1 == n && self.s.chance(1, 8) {
                self.p("...");
                let f = self.fresh();
                self.w(&f);
                break;
            }
            self.binding();
            if self.s.chance(1, 6) {
                self.p("=");
                self.expr(LOW);
            }
            if i + 1 < n {
                self.p(",");
            }
        }
        self.p(")");
        self.params = keep;
    }
    fn binding(&mut self) {
        if self.s.chance(4, 5) || self.depth > 10 {
            let f = self.fresh();
            self.w(&f);
            return;
        }
        self.depth += 2;
        if self.s.chance(1, 2) {
            self.p("[");
            for _ in 0..self.s.below(3) {
                self.binding();
                if self.s.chance(1, 4) {
                    self.p("=");
                    self.expr(LOW);
                }
                self.p(",");
            }
            self.p("]");
        } else {
            self.p("{");
            for _ in 0..self.s.below(3) {
                if self.s.chance(1, 2) {
                    let q = self.prop();
                    self.w(&q);
                    self.p(":");
                    self.binding();
                } else {
                    let f = self.fresh();
                    self.w(&f);
                }
                if self.s.chance(1, 4) {
                    self.p("=");
                    self.expr(LOW);
                }
                self.p(",");
            }
            self.p("}");
        }
        self.depth -= 2;
    }
    fn body(&mut self, func: bool, gen: bool, asy: bool) {
        let k = (self.func, self.gen, self.asy, self.in_loop, self.in_switch, self.params, self.static_block);
        let labels = std::mem::take(&mut self.labels);
        if func {
            self.func = true;
            self.gen = gen;
        } else {
            self.gen = false;
        }
        self.asy = asy;
        self.in_loop = false;
        self.in_switch = false;
        self.params = false;
        self.static_block = false;
        self.block_with(self.o.agg && func);
        (self.func, self.gen, self.asy, self.in_loop, self.in_switch, self.params, self.static_block) = k;
        self.labels = labels;
    }
    fn func_expr(&mut self) {
        let a = self.s.chance(1, 5);
        if a {
            self.w("async");
        }
        let at = self.t.len();
        self.w("function");
        if a {
            self.tight(at);
        }
        let g = self.s.chance(1, 5);
        if g {
            self.p("*");
        }
        if self.s.chance(1, 2) {
            let f = self.fresh();
            self.w(&f);
        }
        self.fn_params();
        self.body(true, g, a);
    }
    fn arrow(&mut self) {
        let a = self.s.chance(1, 5);
        if a {
            self.w("async");
        }
        let at = self.t.len();
        if self.s.chance(1, 2) {
            let f = self.fresh();
            self.w(&f);
        } else {
            self.fn_params();
        }
        if a {
            self.tight(at);
        }
        let at = self.t.len();
        self.p("=>");
        self.tight(at);
        if self.s.chance(1, 3) {
            self.body(false, false, a);
        } else {
            let k = (self.asy, self.gen, self.params);
            self.asy = a;
            self.gen = false;
            self.params = false;
            let at = self.t.len();
            self.expr(LOW);
            self.wrap_if(at, |f| f == "{");
            (self.asy, self.gen, self.params) = k;
        }
    }
    /// Parenthesises the expression generated from `at` when its first token says so.
    fn wrap_if(&mut self, at: usize, f: impl Fn(&str) -> bool) {
        if self.t.get(at).is_some_and(|t| f(&t.s)) {
            self.t.insert(at, Tok { s: "(".into(), k: K::Punct, nl: true });
            self.p(")");
        }
    }
    fn class(&mut self, expr: bool) {
        self.w("class");
        if !expr || self.s.chance(1, 2) {
            let f = self.fresh();
            self.w(&f);
        }
        self.class += 1;
        if self.s.chance(1, 3) {
            self.w("extends");
            let i = self.ident();
            self.w(&i);
        }
        self.p("{");
        let private = if self.s.chance(1, 3) {
            self.uniq += 1;
            Some(format!("#p{}", self.uniq))
        } else {
            None
        };
        if let Some(x) = &private {
            self.private.push(x.clone());
            if self.s.chance(1, 3) {
                self.w("static");
            }
            self.w(x);
            if self.s.chance(1, 2) {
                self.p("=");
                self.field_value();
            }
            self.p(";");
        }
        for _ in 0..self.s.below(4) {
            if self.s.chance(1, 4) {
                self.w("static");
            }
            match self.s.weighted(&[6, 3, 2, 1, 1]) {
                0 => self.method(true),
                1 => {
                    let mut q = self.ident();
                    if q == "constructor" || q == "prototype" {
                        q.push('_');
                    }
                    self.w(&q);
                    if self.s.chance(2, 3) {
                        self.p("=");
                        self.field_value();
                    }
                    self.p(";");
                }
                2 => {
                    let g = self.s.chance(1, 2);
                    self.w(if g { "get" } else { "set" });
                    self.key(true);
                    self.p("(");
                    if !g {
                        let f = self.fresh();
                        self.w(&f);
                    }
                    self.p(")");
                    self.body(true, false, false);
                }
                3 => {
                    if self.t.last().is_some_and(|t| t.s == "static") {
                        self.t.pop();
                    }
                    self.w("static");
                    let k = (self.asy, self.gen, self.func);
                    self.body(true, false, false);
                    (self.asy, self.gen, self.func) = k;
                    // `return` is not allowed there: see `statement`.
                }
                _ => {
                    if self.t.last().is_some_and(|t| t.s == "static") {
                        self.t.pop();
                    }
                    self.p(";");
                }
            }
        }
        if private.is_some() {
            self.private.pop();
        }
        self.p("}");
        self.class -= 1;
    }
    fn field_value(&mut self) {
        let k = (self.asy, self.gen, self.func);
        (self.asy, self.gen, self.func) = (false, false, false);
        self.expr(LOW);
        (self.asy, self.gen, self.func) = k;
    }

    // -------------------------------------------------------------- statements

    fn directive(&mut self) {
        let q = self.s.pick(&self.pool).clone();
        if !q.contains("use strict") {
            self.push(&q, K::Str);
            self.p(";");
        }
    }
    fn block(&mut self) {
        self.block_with(false);
    }
    fn block_with(&mut self, directive: bool) {
        self.p("{");
        if directive && self.s.chance(1, 6) {
            self.directive();
        }
        let n = self.s.below(4);
        self.depth += 2;
        for _ in 0..n {
            if self.full() {
                break;
            }
            self.statement(true);
        }
        self.depth -= 2;
        self.p("}");
    }
    fn declaration(&mut self, kw: &str, init_required: bool) {
        self.w(kw);
        let n = 1 + self.s.len(1, 5);
        for i in 0..n {
            let at = self.t.len();
            self.binding();
            let pattern = self.t.len() > at + 1;
            if pattern || init_required || self.s.chance(2, 3) {
                self.p("=");
                self.expr(LOW);
            }
            if i + 1 < n {
                self.p(",");
            }
        }
        self.p(";");
    }
    /// Brackets, calls, objects, functions or template literals in each other.
    fn deep(&mut self) {
        let n = self.s.range(2, 70);
        self.w("x");
        self.p("=");
        let kind = self.s.below(6);
        if kind == 5 {
            let mut o = String::from("a  /b");
            for _ in 0..n {
                let (x, y) = *self.s.pick(&[("", ""), ("", ""), (" ", " "), ("}", "{"), ("\"", "'"), ("'", ""), ("//", "/*"), ("a  ", "\n")]);
                o = format!("`{x}${{{o}}}{y}`");
            }
            self.push(&o, K::Tmpl);
            self.p(";");
            return;
        }
        let mut close = vec![];
        for _ in 0..n {
            match if kind == 4 { self.s.below(4) } else { kind } {
                0 => {
                    self.p("(");
                    close.push(")");
                }
                1 => {
                    self.p("[");
                    close.push("]");
                }
                2 => {
                    self.w("f");
                    self.p("(");
                    close.push(")");
                }
                _ => {
                    self.p("{");
                    self.w("a");
                    self.p(":");
                    close.push("}");
                }
            }
        }
        self.expr(LOW);
        while let Some(c) = close.pop() {
            self.p(c);
        }
        self.p(";");
    }
    fn expr_statement(&mut self) {
        if self.depth < 4 && self.s.chance(1, 700) {
            return self.deep();
        }
        let at = self.t.len();
        self.expr(LOW);
        // A lone string at the start of a body would be a directive.
        let agg = self.o.agg;
        let lone = self.t.len() == at + 1 && self.t[at].k == K::Str && agg;
        if lone {
            self.wrap_if(at, |_| true);
        } else {
            self.wrap_if(at, |f| matches!(f, "{" | "function" | "class" | "async" | "let"));
        }
        self.p(";");
    }
    fn sub_statement(&mut self) {
        if self.s.chance(1, 2) {
            self.block();
        } else if self.s.chance(1, 10) {
            self.p(";");
        } else {
            self.statement(false);
        }
    }
    fn statement(&mut self, decl_ok: bool) {
        if self.depth > 12 {
            self.expr_statement();
            return;
        }
        self.depth += 1;
        self.statement_inner(decl_ok);
        self.depth -= 1;
    }
    fn looped(&mut self) {
        let k = self.in_loop;
        self.in_loop = true;
        self.sub_statement();
        self.in_loop = k;
    }
    fn statement_inner(&mut self, decl_ok: bool) {
        match self.s.weighted(&[24, 18, 8, 6, 5, 3, 3, 5, 3, 3, 3, 2, 3, 2, 5, 3, 1, 1]) {
            0 => self.expr_statement(),
            1 => {
                let kw = if decl_ok { *self.s.pick(&["var", "let", "const"]) } else { "var" };
                self.declaration(kw, kw == "const");
            }
            2 => {
                self.w("if");
                self.p("(");
                self.expr(LOW);
                self.p(")");
                if self.s.chance(1, 2) {
                    // A block: no dangling else.
                    self.block();
                    if self.s.chance(2, 3) {
                        self.w("else");
                        self.sub_statement();
                    }
                } else {
                    self.sub_statement();
                }
            }
            3 => {
                self.w("for");
                self.p("(");
                match self.s.below(3) {
                    0 => {}
                    1 => {
                        let kw = *self.s.pick(&["var", "let"]);
                        self.w(kw);
                        let f = self.fresh();
                        self.w(&f);
                        self.p("=");
                        self.paren();
                    }
                    _ => self.paren(),
                }
                self.p(";");
                if self.s.chance(2, 3) {
                    self.expr(LOW);
                }
                self.p(";");
                if self.s.chance(2, 3) {
                    self.expr(LOW);
                }
                self.p(")");
                self.looped();
            }
            4 => {
                self.w("for");
                let of = self.s.chance(1, 2);
                if of && self.asy && self.s.chance(1, 3) {
                    self.w("await");
                }
                self.p("(");
                if self.s.chance(2, 3) {
                    let kw = *self.s.pick(&["var", "let", "const"]);
                    self.w(kw);
                    self.binding();
                } else {
                    self.lhs();
                }
                self.w(if of { "of" } else { "in" });
                self.expr(LOW);
                self.p(")");
                self.looped();
            }
            5 => {
                self.w("while");
                self.p("(");
                self.expr(LOW);
                self.p(")");
                self.looped();
            }
            6 => {
                self.w("do");
                self.looped();
                self.w("while");
                self.p("(");
                self.expr(LOW);
                self.p(")");
                self.p(";");
            }
            7 if self.func && !self.static_block => {
                self.w("return");
                let at = self.t.len();
                if self.s.chance(4, 5) {
                    self.expr(LOW);
                }
                self.p(";");
                self.tight(at);
            }
            8 => {
                self.w("switch");
                self.p("(");
                self.expr(LOW);
                self.p(")");
                self.p("{");
                let k = self.in_switch;
                self.in_switch = true;
                let n = self.s.below(4);
                let d = self.s.below(6);
                for i in 0..n {
                    if i == d {
                        self.w("default");
                        self.p(":");
                    } else {
                        self.w("case");
                        self.expr(LOW);
                        self.p(":");
                    }
                    for _ in 0..self.s.below(3) {
                        self.statement(false);
                    }
                    if self.s.chance(1, 2) {
                        self.w("break");
                        let at = self.t.len();
                        self.p(";");
                        self.tight(at);
                    }
                }
                self.in_switch = k;
                self.p("}");
            }
            9 => {
                self.w("throw");
                let at = self.t.len();
                self.expr(LOW);
                self.p(";");
                self.tight(at);
            }
            10 => {
                self.w("try");
                self.block();
                let c = self.s.chance(3, 4);
                if c {
                    self.w("catch");
                    if self.s.chance(3, 4) {
                        self.p("(");
                        self.binding();
                        self.p(")");
                    }
                    self.block();
                }
                if !c || self.s.chance(1, 3) {
                    self.w("finally");
                    self.block();
                }
            }
            11 => {
                self.uniq += 1;
                let l = format!("l{}", self.uniq);
                self.w(&l);
                self.p(":");
                if self.s.chance(1, 2) {
                    self.labels.push((l, true));
                    self.w("while");
                    self.p("(");
                    self.expr(LOW);
                    self.p(")");
                    self.looped();
                } else {
                    self.labels.push((l, false));
                    self.block();
                }
                self.labels.pop();
            }
            12 if decl_ok => {
                // Function declaration
                let at0 = self.t.len();
                self.func_expr();
                // It needs a name.
                let mut at = at0;
                while self.t[at].s != "function" {
                    at += 1;
                }
                if self.t[at + 1].s == "*" {
                    at += 1;
                }
                if self.t[at + 1].s == "(" {
                    let f = self.fresh();
                    self.t.insert(at + 1, Tok { s: f, k: K::Word, nl: true });
                }
            }
            13 if decl_ok => self.class(false),
            14 => {
                let word = if self.in_loop && self.s.chance(1, 2) { "continue" } else { "break" };
                if !(self.in_loop || (self.in_switch && word == "break")) {
                    let l: Vec<String> = self.labels.iter().map(|l| l.0.clone()).collect();
                    if !l.is_empty() {
                        self.w("break");
                        let at = self.t.len();
                        let x = self.s.pick(&l).clone();
                        self.w(&x);
                        self.tight(at);
                        self.p(";");
                        return;
                    }
                    self.expr_statement();
                    return;
                }
                self.w(word);
                let at = self.t.len();
                let l: Vec<String> = self.labels.iter().filter(|l| l.1 || word == "break").map(|l| l.0.clone()).collect();
                if !l.is_empty() && self.s.chance(1, 2) {
                    let x = self.s.pick(&l).clone();
                    self.w(&x);
                }
                self.p(";");
                self.tight(at);
            }
            15 => self.block(),
            16 => {
                self.w("debugger");
                self.p(";");
            }
            17 if self.script && self.class == 0 && !self.func => {
                self.w("with");
                self.p("(");
                self.expr(LOW);
                self.p(")");
                self.block();
            }
            _ => self.p(";"),
        }
    }
    fn module_name(&mut self) {
        if self.o.agg {
            let l = self.s.pick(&self.pool).clone();
            self.push(&l, K::Str);
            return;
        }
        let m = *self.s.pick(&["\"m\"", "'./a.js'", "\"x  y\"", "\"a/b\""]);
        self.push(m, K::Str);
    }
    fn top(&mut self) {
        if self.script || !self.s.chance(1, 12) {
            self.statement(true);
            return;
        }
        match self.s.below(9) {
            0 => {
                self.w("import");
                self.module_name();
                self.p(";");
            }
            1 => {
                self.w("import");
                let f = self.fresh();
                self.w(&f);
                if self.s.chance(1, 3) {
                    self.p(",");
                    self.p("*");
                    self.w("as");
                    let f = self.fresh();
                    self.w(&f);
                }
                self.w("from");
                self.module_name();
                self.p(";");
            }
            2 => {
                self.w("import");
                self.p("{");
                for _ in 0..self.s.below(3) {
                    let q = self.prop();
                    self.w(&q);
                    self.w("as");
                    let f = self.fresh();
                    self.w(&f);
                    self.p(",");
                }
                self.p("}");
                self.w("from");
                self.module_name();
                self.p(";");
            }
            3 => {
                self.w("import");
                self.p("*");
                self.w("as");
                let f = self.fresh();
                self.w(&f);
                self.w("from");
                self.module_name();
                self.p(";");
            }
            4 => {
                self.w("export");
                self.p("*");
                self.w("from");
                self.module_name();
                self.p(";");
            }
            5 => {
                self.w("export");
                let kw = *self.s.pick(&["var", "let", "const"]);
                self.declaration(kw, kw == "const");
            }
            6 if self.declared.insert("default".into()) => {
                self.w("export");
                self.w("default");
                let at = self.t.len();
                self.expr(LOW);
                self.wrap_if(at, |f| matches!(f, "function" | "class" | "async"));
                self.p(";");
            }
            7 => {
                self.w("export");
                self.p("{");
                for _ in 0..self.s.below(3) {
                    let q = self.prop();
                    self.w(&q);
                    self.w("as");
                    let f = self.fresh();
                    self.w(&f);
                    self.p(",");
                }
                self.p("}");
                self.w("from");
                self.module_name();
                self.p(";");
            }
            _ => {
                self.w("import");
                self.p("(");
                self.module_name();
                self.p(")");
                self.p(";");
            }
        }
    }
}

// ------------------------------------------------------------------ layouts

fn identish(c: char) -> bool {
    c == '_' || c == '$' || c == '#' || c == '\\' || c.is_alphanumeric() || !c.is_ascii()
}

/// Do `a` and `b` need something between them to stay the tokens they are?
pub fn need_sep(a: &Tok, b: &Tok) -> bool {
    let l = a.s.chars().last().unwrap_or(' ');
    let f = b.s.chars().next().unwrap_or(' ');
    if matches!(a.k, K::Word | K::Num | K::Re) && (matches!(b.k, K::Word | K::Num) || identish(f)) {
        return true;
    }
    if a.k == K::Num && f == '.' && a.s.chars().all(|c| c.is_ascii_digit() || c == '_') {
        return true;
    }
    if a.k == K::Punct {
        if l == '/' && f == '/' {
            return true;
        }
        if (l == '+' && f == '+') || (l == '-' && f == '-') {
            return true;
        }
        if l == '.' && f == '.' {
            return true;
        }
        if l == '<' && f == '!' {
            return true;
        }
        if a.s == "?" && f == '.' {
            return true;
        }
    }
    false
}

/// Tokens with nothing but the separators they need (`sp` 0), or a space everywhere (1),
/// or a line break where one is allowed (2).
pub fn plain(t: &[Tok], sp: usize) -> String {
    let mut o = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            if sp == 2 && x.nl {
                o.push('\n');
            } else if sp >= 1 || need_sep(&t[i - 1], x) {
                o.push(' ');
            }
        }
        o.push_str(&x.s);
    }
    o
}

#[derive(Clone, Default, Debug)]
pub struct Layout {
    /// What stands before each token, and after the last one.
    pub gaps: Vec<String>,
    pub licences: usize,
    pub comments: usize,
}

fn comment_text(s: &mut Src, multi: bool) -> String {
    let n = util::size(s, 8, 500);
    let mut o = String::new();
    for _ in 0..n {
        match s.weighted(&[50, 12, 6, 8]) {
            0 => o.push(util::ascii(s)),
            1 => o.push_str(s.pick(&["'", "\"", "`", "/*", "//", "${", "*", "@license", "var x;", "/a/", "\\", "<!--", "!", " ", "*!"])),
            2 => {
                let c = util::odd(s);
                if c != '\u{2028}' && c != '\u{2029}' {
                    o.push(c);
                }
            }
            _ => {
                if multi {
                    o.push('\n');
                } else {
                    o.push_str(util::dict_string(s).trim_matches(|c| c == '\n' || c == '\r'));
                }
            }
        }
    }
    if !multi {
        o.retain(|c| c != '\n' && c != '\r');
    }
    o
}
/// A comment body that does not end the comment early.
fn block_body(s: &mut Src, multi: bool) -> String {
    let t = if s.chance(1, 1500) { stretch::comment(s) } else { comment_text(s, multi) };
    let mut t = t.replace("*/", "* /");
    if t.ends_with('*') && s.chance(1, 2) {
        t.push(' ');
    }
    t
}

pub fn gap(s: &mut Src, nl: bool, must: bool, after_slash: bool, lic: bool, l: &mut Layout) -> String {
    let mut o = String::new();
    if s.chance(1, 3) {
        let n = if s.chance(1, 4) { 1 + s.below(4) } else { 1 };
        for _ in 0..n {
            match s.weighted(&[50, 15, 16, 12, 8, if lic { 5 } else { 0 }]) {
                0 => o.push(' '),
                1 => o.push('\t'),
                2 => {
                    if nl {
                        o.push_str(s.pick(&["\n", "\r\n", "\n\n", "\r"]));
                    } else {
                        o.push(' ');
                    }
                }
                3 => {
                    if o.is_empty() && after_slash {
                        o.push(' ');
                    }
                    let mut b = block_body(s, nl);
                    if b.starts_with('!') {
                        b.insert(0, ' ');
                    }
                    o.push_str(&format!("/*{b}*/"));
                    l.comments += 1;
                }
                4 => {
                    if o.is_empty() && after_slash {
                        o.push(' ');
                    }
                    if nl {
                        let b = comment_text(s, false);
                        o.push_str(&format!("//{b}\n"));
                    } else {
                        o.push_str("/* */");
                    }
                    l.comments += 1;
                }
                _ => {
                    if o.is_empty() && after_slash {
                        o.push(' ');
                    }
                    let b = block_body(s, nl);
                    o.push_str(&format!("/*!{b}*/"));
                    l.licences += 1;
                }
            }
        }
    }
    if must && o.is_empty() {
        o.push(' ');
    }
    o
}

/// A random layout of `t`. With `lic` false no licence comment is put in.
pub fn layout(s: &mut Src, t: &[Tok], lic: bool) -> Layout {
    let mut l = Layout::default();
    let dense = s.weighted(&[6, 3, 2]);
    for i in 0..=t.len() {
        let (nl, must, slash) = if i == 0 {
            (true, false, false)
        } else if i == t.len() {
            (true, false, t[i - 1].s.ends_with('/'))
        } else {
            let (a, b) = (t[i - 1].s.as_str(), t[i].s.as_str());
            // `a+++b`, `a<!b`: not written where the layouts of one program are compared.
            let free = lic
                && (matches!((a, b), ("++", "+") | ("--", "-")) || a.ends_with('<') && b == "!" && t.get(i + 1).is_some_and(|x| x.s != "--"));
            (t[i].nl, !free && need_sep(&t[i - 1], &t[i]), a.ends_with('/'))
        };
        let g = match dense {
            1 => {
                if must {
                    " ".to_string()
                } else {
                    String::new()
                }
            }
            2 if s.chance(1, 2) => {
                if nl && s.chance(1, 3) {
                    "\n    ".into()
                } else {
                    " ".into()
                }
            }
            _ => gap(s, nl, must, slash, lic, &mut l),
        };
        l.gaps.push(g);
    }
    if s.chance(1, 20) {
        let b = comment_text(s, false);
        let last = l.gaps.last_mut().unwrap();
        if t.last().is_some_and(|t| t.s.ends_with('/')) {
            last.push(' ');
        }
        last.push_str(&format!("//{b}"));
        l.comments += 1;
    }
    l
}

pub fn render(t: &[Tok], l: &Layout) -> String {
    let mut o = String::new();
    for (i, x) in t.iter().enumerate() {
        o.push_str(&l.gaps[i]);
        o.push_str(&x.s);
    }
    if let Some(g) = l.gaps.get(t.len()) {
        o.push_str(g);
    }
    o
}

/// Licence comments for one gap (mostly none).
pub fn licences(s: &mut Src, nl: bool) -> String {
    let mut o = String::new();
    if s.chance(1, 30) {
        for _ in 0..=s.below(2) {
            let b = block_body(s, nl);
            o.push_str(&format!("/*!{b}*/"));
        }
    }
    o
}
pub fn word(w: &str) -> Tok {
    Tok { s: w.into(), k: K::Word, nl: true }
}
pub fn punct(w: &str) -> Tok {
    Tok { s: w.into(), k: K::Punct, nl: true }
}
pub fn lit(w: &str) -> Tok {
    Tok { s: w.into(), k: K::Str, nl: true }
}
/// A few statements that use the strings of the pool.
pub fn program_part(s: &mut Src, pool: Vec<String>) -> Vec<Tok> {
    let mut t = vec![];
    for _ in 0..1 + s.below(4) {
        t.push(word("f"));
        t.push(punct("("));
        let n = s.below(4);
        for i in 0..n {
            t.push(lit(&s.pick(&pool).clone()));
            if i + 1 < n {
                t.push(punct(","));
            }
        }
        t.push(punct(")"));
        t.push(punct(";"));
    }
    t
}
