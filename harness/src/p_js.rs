//! JavaScript: the minified text against the source, through an independent parser.
use crate::engine::{Obs, Prop, Src, Verdict};
use crate::js_gen::{self, Opt};
use crate::json::J;
use crate::{node, sut_try};

pub fn ask_eq(a: &str, b: &str) -> J {
    node::ask(&J::obj(vec![("op", J::s("eq")), ("a", J::s(a)), ("b", J::s(b))]))
}

fn clip(s: &str) -> String {
    let t: String = s.chars().take(600).collect();
    format!("{t:?}")
}

/// Is it a program at all? Asked before a refusal counts.
pub fn valid_js(c: &str) -> bool {
    ask_eq(c, c).get("bad").is_none()
}

pub struct C07;
impl Prop for C07 {
    type Case = String;
    const ID: &'static str = "C07";
    const RULE: &'static str = "Programs from a token-level grammar of ECMAScript 2023 (declarations, functions, classes, modules, control flow, every operator, templates, regular expressions, all number and string forms) with explicit semicolons, rendered in a random layout with comments; source and output are parsed by acorn and their trees compared without positions. Non-trivial: the output differs from the source and the tree has at least 6 node types.";
    const CASES: (u64, u64) = (120_000, 12_000_000);
    fn gen(s: &mut Src) -> String {
        let t = js_gen::program(s, Opt::default());
        let l = js_gen::layout(s, &t, true);
        js_gen::render(&t, &l)
    }
    fn check(c: &String, o: &mut Obs) -> Verdict {
        let out = match sut_try!("js::minify", vp_api::js_str(c)) {
            Ok(x) => x,
            Err(_) if !valid_js(c) => return Verdict::Discard("the source does not parse"),
            Err(e) => return Verdict::Fail(format!("js::minify({}) refused a valid program: {e}", clip(c))),
        };
        let r = ask_eq(c, &out);
        if r.get("bad").is_some() {
            if std::env::var("VP_SHOW_BAD").is_ok() {
                eprintln!("BAD {}\n{}", r.str_("bad"), c);
            }
            return Verdict::Discard("the source does not parse");
        }
        o.nontrivial = out != *c && r.int("kinds") >= 6;
        o.label_if(c.contains('`'), "template");
        o.label_if(c.contains("/*") || c.contains("//"), "comment-like text");
        o.label_if(c.len() > 2000, "over 2000 bytes");
        o.label_if(!c.is_ascii(), "non-ASCII");
        if let Some(J::Str(m)) = r.get("msg") {
            return Verdict::Fail(format!("js::minify({}) gave {}: {m}", clip(c), clip(&out)));
        }
        Verdict::Ok
    }
    fn to_json(c: &String) -> J {
        J::obj(vec![("source", J::s(c.clone()))])
    }
    fn from_json(j: &J) -> String {
        j.str_("source")
    }
    fn assumptions() -> Vec<String> {
        vec!["acorn 8.19.0 (vendored) parses ECMAScript correctly.".into()]
    }
}

// ------------------------------------------------------------------ C08: layout

#[derive(Clone)]
pub struct TwoLayouts {
    toks: Vec<String>,
    a: Vec<String>,
    b: Vec<String>,
}
impl TwoLayouts {
    fn source(&self, gaps: &[String]) -> String {
        let mut o = String::new();
        for (i, t) in self.toks.iter().enumerate() {
            o.push_str(gaps.get(i).map_or("", |g| g.as_str()));
            o.push_str(t);
        }
        o.push_str(gaps.get(self.toks.len()).map_or("", |g| g.as_str()));
        o
    }
}
fn strings(j: &J, k: &str) -> Vec<String> {
    j.arr(k).iter().map(|x| x.as_str().to_string()).collect()
}
fn jstrings(v: &[String]) -> J {
    J::Arr(v.iter().map(|x| J::s(x.clone())).collect())
}

pub struct C08;
impl Prop for C08 {
    type Case = TwoLayouts;
    const ID: &'static str = "C08";
    const RULE: &'static str = "Token lists of the C07 grammar (without ^ and ~, which the tokenizer keeps as part of names, and without member access on number literals) in two random layouts: different whitespace, line breaks and ordinary comments, the same licence comments in the same places. Non-trivial: the two sources differ, have an ordinary or a licence comment, and at least 8 tokens.";
    const CASES: (u64, u64) = (100_000, 8_000_000);
    fn gen(s: &mut Src) -> TwoLayouts {
        let t = js_gen::program(s, Opt { odd_ops: false, num_member: false, tpl_comments: false, ..Opt::default() });
        let n = t.len();
        // Licences first, then two layouts around them.
        let lic: Vec<String> = (0..=n).map(|i| js_gen::licences(s, i == 0 || i == n || t[i].nl)).collect();
        let one = |s: &mut Src| -> Vec<String> {
            let l = js_gen::layout(s, &t, false);
            let mut out = vec![];
            for (i, g) in l.gaps.iter().enumerate() {
                if lic[i].is_empty() {
                    out.push(g.clone());
                    continue;
                }
                let slash = i > 0 && t[i - 1].s.ends_with('/');
                let line = g.rfind("//").is_some() && i == n;
                let before = line || slash || s.chance(1, 2);
                let mut o = String::new();
                if before && !line {
                    if slash && g.is_empty() {
                        o.push(' ');
                    }
                    o.push_str(g);
                    o.push_str(&lic[i]);
                } else {
                    if slash {
                        o.push(' ');
                    }
                    o.push_str(&lic[i]);
                    o.push_str(g);
                }
                out.push(o);
            }
            out
        };
        let a = one(s);
        let b = one(s);
        TwoLayouts { toks: t.into_iter().map(|t| t.s).collect(), a, b }
    }
    fn check(c: &TwoLayouts, o: &mut Obs) -> Verdict {
        let sa = c.source(&c.a);
        let sb = c.source(&c.b);
        let mut out = vec![];
        for x in [&sa, &sb] {
            match sut_try!("js::minify", vp_api::js_str(x)) {
                Ok(m) => {
                    if m.len() > x.len() {
                        return Verdict::Fail(format!("js::minify({}) is longer than its input: {}", clip(x), clip(&m)));
                    }
                    out.push(m)
                }
                Err(_) if !valid_js(x) => return Verdict::Discard("the source does not parse"),
                Err(e) => return Verdict::Fail(format!("js::minify({}) refused a valid program: {e}", clip(x))),
            }
        }
        let r = ask_eq(&sa, &out[0]);
        if r.get("bad").is_some() {
            return Verdict::Discard("the source does not parse");
        }
        let comments = r.int("other_a") > 0;
        let lics = r.arr("lic_a");
        o.nontrivial = sa != sb && c.toks.len() >= 8 && (comments || !lics.is_empty());
        o.label_if(comments, "ordinary comments");
        o.label_if(!lics.is_empty(), "licence comments");
        o.label_if(sa.contains("//"), "line comment or //");
        if out[0] != out[1] {
            return Verdict::Fail(format!("{} and {} differ in layout only, but minify to {} and {}", clip(&sa), clip(&sb), clip(&out[0]), clip(&out[1])));
        }
        if let Some(J::Str(m)) = r.get("msg") {
            if m.contains("does not parse") {
                return Verdict::Fail(format!("js::minify({}) gave {}: {m}", clip(&sa), clip(&out[0])));
            }
        }
        if !r.arr("other_b").is_empty() {
            return Verdict::Fail(format!("js::minify({}) gave {}: the comment {:?} is still there", clip(&sa), clip(&out[0]), r.arr("other_b")[0].as_str()));
        }
        let texts = |k: &str| r.arr(k).iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>();
        if texts("lic_a") != texts("lic_b") {
            return Verdict::Fail(format!("js::minify({}) gave {}: licences {:?} became {:?}", clip(&sa), clip(&out[0]), texts("lic_a"), texts("lic_b")));
        }
        Verdict::Ok
    }
    fn to_json(c: &TwoLayouts) -> J {
        J::obj(vec![("tokens", jstrings(&c.toks)), ("a", jstrings(&c.a)), ("b", jstrings(&c.b))])
    }
    fn from_json(j: &J) -> TwoLayouts {
        TwoLayouts { toks: strings(j, "tokens"), a: strings(j, "a"), b: strings(j, "b") }
    }
    fn assumptions() -> Vec<String> {
        vec!["acorn 8.19.0 (vendored) finds the comments of a program.".into()]
    }
}

// ------------------------------------------------------------------ C09, C10: aggregation

#[derive(Clone)]
pub struct Agg {
    pub source: String,
    /// Clean before (true) or after the aggregation.
    pub clean_first: bool,
    pub sep: bool,
    /// Array name; empty for variables.
    pub array: String,
    /// 0: no filter; otherwise strings whose place hashes to 0 modulo this are refused.
    pub refuse: u64,
}

fn refused(offset: usize, m: u64) -> bool {
    m > 0 && crate::engine::hash(&(offset as u64).to_le_bytes()) % m == 0
}

/// A program of string-heavy expressions, with declarations put in at top level.
pub fn agg_program(s: &mut Src, names: bool, decls: impl Fn(&mut Src, &[String]) -> Vec<Vec<js_gen::Tok>>) -> String {
    let pool = js_gen::strings_pool(s);
    let d = decls(s, &pool);
    let mut parts = vec![];
    if s.chance(1, 400) {
        parts.push(crate::stretch::js_strings(s));
    }
    for x in d {
        if s.chance(1, 2) {
            parts.push(js_gen::program_part(s, pool.clone()));
        }
        parts.push(x);
    }
    let t = js_gen::program_with(s, Opt { agg: true, names, ..Opt::default() }, pool);
    // Directives first.
    let mut k = 0;
    while k + 1 < t.len() && t[k].k == js_gen::K::Str && t[k + 1].s == ";" {
        k += 2;
    }
    let mut all: Vec<js_gen::Tok> = t[..k].to_vec();
    let first = s.chance(2, 3);
    if !first {
        all.extend_from_slice(&t[k..]);
    }
    for p in parts {
        all.extend(p);
    }
    if first {
        all.extend_from_slice(&t[k..]);
    }
    let l = js_gen::layout(s, &all, true);
    js_gen::render(&all, &l)
}

/// Runs the aggregation; also the offsets (in UTF-16 units) of the strings the filter refuses.
pub fn run_agg(c: &Agg) -> Result<(String, Vec<usize>), String> {
    use vp_api::js::{self, ReservedChar, Token};
    let src: &str = &c.source;
    let base = src.as_ptr() as usize;
    let mut kept = vec![];
    let out = crate::engine::sut(|| -> Result<String, String> {
        let mut t = js::simple_minify(src).map_err(|e| format!("js::simple_minify refused a valid program: {e}"))?;
        if c.refuse > 0 {
            for x in t.iter() {
                if let Some(x) = x.get_string() {
                    let off = x.as_ptr() as usize - base;
                    if refused(off, c.refuse) {
                        kept.push(src[..off].encode_utf16().count());
                    }
                }
            }
        }
        if c.clean_first {
            t = t.apply(js::clean_tokens);
        }
        let sep = c.sep.then_some(Token::Char(ReservedChar::Backline));
        if c.array.is_empty() {
            t = vp_api::vars(t, sep);
        } else {
            let m = c.refuse;
            let f = move |t: &js::Tokens<'_>, pos: usize| -> bool {
                let x = t[pos].get_string().expect("the filter is asked about a token that is no string");
                !refused(x.as_ptr() as usize - base, m)
            };
            t = vp_api::array(t, &c.array, sep, if m > 0 { Some(&f) } else { None });
        }
        if !c.clean_first {
            t = t.apply(js::clean_tokens);
        }
        Ok(t.to_string())
    })
    .map_err(|m| format!("aggregation {m}"))??;
    Ok((out, kept))
}

fn check_agg(c: &Agg, o: &mut Obs) -> Verdict {
    let (out, kept) = match run_agg(c) {
        Ok(x) => x,
        Err(m) => return Verdict::Fail(format!("{m} on {}", clip(&c.source))),
    };
    let r = node::ask(&J::obj(vec![
        ("op", J::s("agg")),
        ("a", J::s(c.source.clone())),
        ("b", J::s(out.clone())),
        ("array", J::s(c.array.clone())),
        ("keep", J::Arr(kept.iter().map(|x| J::n(*x as i64)).collect())),
    ]));
    if r.get("bad").is_some() {
        if std::env::var("VP_SHOW_BAD").is_ok() {
            eprintln!("BAD {}\n{}", r.str_("bad"), c.source);
        }
        return Verdict::Discard("the source does not parse");
    }
    if let Some(J::Str(m)) = r.get("msg") {
        return Verdict::Fail(format!("{} aggregated ({}) is {}: {m}", clip(&c.source), if c.array.is_empty() { "variables" } else { &c.array }, clip(&out)));
    }
    o.nontrivial = r.int("replaced") > 0;
    o.label_if(r.int("replaced") > 0, "a string was replaced");
    o.label_if(r.int("created") > 1, "several created");
    o.label_if(r.int("created") == 0 && r.int("replaced") > 0, "only existing ones used");
    o.label_if(c.refuse > 0, "filter");
    o.label_if(!c.clean_first, "aggregated before cleaning");
    Verdict::Ok
}

fn agg_json(c: &Agg) -> J {
    J::obj(vec![
        ("source", J::s(c.source.clone())),
        ("clean_first", J::n(c.clean_first as i64)),
        ("separation", J::n(c.sep as i64)),
        ("array", J::s(c.array.clone())),
        ("refuse", J::n(c.refuse as i64)),
    ])
}
fn agg_from(j: &J) -> Agg {
    Agg {
        source: j.str_("source"),
        clean_first: j.int("clean_first") != 0,
        sep: j.int("separation") != 0,
        array: j.str_("array"),
        refuse: j.int("refuse") as u64,
    }
}

pub struct C09;
impl Prop for C09 {
    type Case = Agg;
    const ID: &'static str = "C09";
    const RULE: &'static str = "Programs of the C07 grammar whose string literals come from a small pool (repeats are common; they stand as expressions, directives, class member names or module names), with existing r_ variables at top level (some of them assigned again, shadowed, declared twice or only assigned), aggregated into variables before or after cleaning, with and without a separation token; acorn parses both and the trees are walked in step. Non-trivial: at least one literal was replaced.";
    const CASES: (u64, u64) = (70_000, 6_000_000);
    fn gen(s: &mut Src) -> Agg {
        let source = agg_program(s, true, |s, pool| {
            let mut v = vec![];
            let n = s.len(1, 6);
            for i in 0..n {
                let kw = *s.pick(&["var", "let", "const", "var"]);
                let name = match s.below(5) {
                    4 => format!("r_{}a", (b'b' + i as u8) as char),
                    0 => format!("r_{}", (b'0' + i as u8) as char),
                    1 => format!("r_b{}", (b'0' + i as u8) as char),
                    2 => format!("r_a{}", (b'b' + i as u8) as char),
                    _ => format!("r_a{}{}", (b'b' + i as u8) as char, i),
                };
                let lit = if s.chance(1, 4) { js_gen::string_lit(s, true) } else { s.pick(pool).clone() };
                // Declared twice, or not declared but only assigned, maybe.
                let first = match s.below(16) {
                    0 => Some(vec![js_gen::word(&name), js_gen::punct("="), js_gen::lit(&lit), js_gen::punct(";")]),
                    1 => Some(vec![js_gen::word("x"), js_gen::punct(","), js_gen::word(&name), js_gen::punct("="), js_gen::lit(&lit), js_gen::punct(";")]),
                    2 => {
                        let mut t = vec![js_gen::word("if"), js_gen::punct("(")];
                        t.extend([js_gen::word("x"), js_gen::punct(")"), js_gen::word("y"), js_gen::punct(",")]);
                        t.extend([js_gen::word(&name), js_gen::punct("="), js_gen::lit(&lit), js_gen::punct(";")]);
                        Some(t)
                    }
                    _ => None,
                };
                if let Some(t) = first {
                    v.push(t);
                    if s.chance(1, 2) {
                        continue;
                    }
                }
                let shape: &[&str] = match s.below(5) {
                    0 | 1 => &["=", "L", ";"],
                    2 => &["=", "L", "+", "L", ";"],
                    3 => &["=", "L", ",", "other_=", "L", ";"],
                    _ => &["=", "L", ".", "length", ";"],
                };
                let mut t = vec![js_gen::word(kw), js_gen::word(&name)];
                for x in shape {
                    match *x {
                        "L" => t.push(js_gen::lit(&lit)),
                        "length" => t.push(js_gen::word(x)),
                        "other_=" => {
                            t.push(js_gen::word(&format!("oth{i}")));
                            t.push(js_gen::punct("="));
                        }
                        _ => t.push(js_gen::punct(x)),
                    }
                }
                v.push(t);
                if s.chance(1, 8) {
                    // Something else with that name: assigned, shadowed, a property, read.
                    let w: &[&str] = match s.below(12) {
                        0 => &["N", "=", "x", ";"],
                        1 => &["N", "+=", "L", ";"],
                        2 => &["N", "++", ";"],
                        3 => &["function", "sh_", "(", "N", ")", "{", "x", "(", "L", ")", ";", "}", ";"],
                        4 => &["function", "sh_", "(", ")", "{", "var", "N", ";", "x", "(", "L", ")", ";", "}", ";"],
                        5 => &["x", "(", "N", "=>", "L", ")", ";"],
                        6 => &["try", "{", "}", "catch", "(", "N", ")", "{", "x", "(", "L", ")", ";", "}", ";"],
                        7 => &["{", "let", "N", "=", "x", ";", "x", "(", "L", ")", ";", "}", ";"],
                        8 => &["[", "N", "]", "=", "x", ";"],
                        9 => &["for", "(", "N", "in", "x", ")", ";"],
                        10 => &["x", ".", "N", "=", "N", ";"],
                        _ => &["x", "(", "N", ",", "L", ")", ";"],
                    };
                    let t = w.iter().map(|x| match *x {
                        "N" => js_gen::word(&name),
                        "L" => js_gen::lit(&lit),
                        "sh_" => js_gen::word(&format!("sh{i}")),
                        x if x.starts_with(|c: char| c.is_ascii_lowercase()) => js_gen::word(x),
                        x => js_gen::punct(x),
                    });
                    v.push(t.collect());
                }
            }
            v
        });
        Agg { source, clean_first: s.chance(1, 2), sep: s.chance(1, 3), array: String::new(), refuse: 0 }
    }
    fn check(c: &Agg, o: &mut Obs) -> Verdict {
        check_agg(c, o)
    }
    fn to_json(c: &Agg) -> J {
        agg_json(c)
    }
    fn from_json(j: &J) -> Agg {
        agg_from(j)
    }
    fn assumptions() -> Vec<String> {
        vec!["acorn 8.19.0 (vendored) parses ECMAScript correctly.".into()]
    }
}

pub struct C10;
impl Prop for C10 {
    type Case = Agg;
    const ID: &'static str = "C10";
    const RULE: &'static str = "Programs as for C09, some with an existing array literal (var, let or const, first or later in its declaration, at top level or in a block, after some strings or none, with repeats, a trailing comma, and elements that are no strings), aggregated into an array before or after cleaning, with and without a separation token, with and without a filter that refuses a pseudo-random set of places. Non-trivial: at least one literal was replaced.";
    const CASES: (u64, u64) = (70_000, 6_000_000);
    fn gen(s: &mut Src) -> Agg {
        let array = s.pick(&["A", "R", "arr", "$r", "searchIndexStrings", "r_arr"]).to_string();
        let name = format!("{array}_");
        let source = agg_program(s, false, |s, pool| {
            if s.chance(1, 2) {
                return vec![];
            }
            let kw = *s.pick(&["var", "let", "const", "var"]);
            let mut t = vec![];
            let text = |s: &mut Src, t: &mut Vec<js_gen::Tok>| t.push(js_gen::lit(&s.pick(pool).clone()));
            // The array is local to a function or to a block.
            let inner = match s.below(12) {
                0 => Some(("(function(){", "}());")),
                1 => Some(("{", "};")),
                2 => Some(("function inner0(){", "};")),
                _ => None,
            };
            if let Some((start, _)) = inner {
                t.push(js_gen::punct(start));
            }
            t.push(js_gen::word(kw));
            if s.chance(1, 4) {
                t.push(js_gen::word("oth1"));
                match s.below(4) {
                    0 => {}
                    1 => {
                        t.push(js_gen::punct("="));
                        text(s, &mut t);
                    }
                    2 => {
                        t.push(js_gen::punct("=[1,"));
                        text(s, &mut t);
                        t.push(js_gen::punct("]"));
                    }
                    _ => {
                        t.push(js_gen::punct("=function(){var a"));
                        t.push(js_gen::punct("="));
                        text(s, &mut t);
                        t.push(js_gen::punct(",b;}"));
                    }
                }
                if kw == "const" && t.last().is_some_and(|t| t.s == "oth1") {
                    t.push(js_gen::punct("="));
                    t.push(js_gen::punct("0"));
                }
                t.push(js_gen::punct(","));
            }
            t.extend([js_gen::word(&name), js_gen::punct("="), js_gen::punct("[")]);
            let n = s.len(2, 12);
            for i in 0..n {
                let lit = if s.chance(1, 3) { js_gen::string_lit(s, true) } else { s.pick(pool).clone() };
                match s.below(16) {
                    0 => t.push(js_gen::punct(*s.pick(&["12", "x", "{}", "", "`t`", "[]", "/r/g", "f(1,2)"]))),
                    1 => {
                        t.push(js_gen::lit(&lit));
                        t.push(js_gen::punct("+"));
                        text(s, &mut t);
                    }
                    2 => {
                        t.push(js_gen::punct("["));
                        t.push(js_gen::lit(&lit));
                        t.push(js_gen::punct(","));
                        text(s, &mut t);
                        t.push(js_gen::punct("]"));
                    }
                    3 if s.chance(1, 6) => t.push(js_gen::punct("...x")),
                    _ => t.push(js_gen::lit(&lit)),
                }
                if i + 1 < n || s.chance(1, 6) {
                    t.push(js_gen::punct(","));
                }
            }
            t.push(js_gen::punct("]"));
            if s.chance(1, 4) {
                t.push(js_gen::punct(","));
                t.push(js_gen::word("oth0"));
                t.push(js_gen::punct("="));
                text(s, &mut t);
            }
            t.push(js_gen::punct(";"));
            if let Some((_, end)) = inner {
                if s.chance(1, 2) {
                    t.push(js_gen::punct("f("));
                    text(s, &mut t);
                    t.push(js_gen::punct(","));
                    text(s, &mut t);
                    t.push(js_gen::punct(");"));
                }
                t.push(js_gen::punct(end));
            }
            if s.chance(1, 6) {
                // Strings before the array.
                let mut u = vec![js_gen::punct("f(")];
                text(s, &mut u);
                u.push(js_gen::punct(","));
                text(s, &mut u);
                u.push(js_gen::punct(");"));
                return vec![u, t];
            }
            return vec![t];
        });
        let refuse = if s.chance(1, 3) { *s.pick(&[2, 1, 3, 5]) } else { 0 };
        Agg { source, clean_first: s.chance(1, 2), sep: s.chance(1, 3), array: name, refuse }
    }
    fn check(c: &Agg, o: &mut Obs) -> Verdict {
        check_agg(c, o)
    }
    fn to_json(c: &Agg) -> J {
        agg_json(c)
    }
    fn from_json(j: &J) -> Agg {
        agg_from(j)
    }
    fn assumptions() -> Vec<String> {
        vec!["acorn 8.19.0 (vendored) parses ECMAScript correctly.".into()]
    }
}
