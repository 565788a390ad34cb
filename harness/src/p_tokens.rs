//! JavaScript token lists: selective cleaning, replacement, variable lookup.
use crate::engine::{hash, Obs, Prop, Src, Verdict};
use crate::js_gen::{self, Opt};
use crate::json::J;
use crate::{sut_try, util};
use std::cell::{Cell, RefCell};
use vp_api::js::{Keyword, ReservedChar, Token, Tokens};

fn clip(s: &str) -> String {
    let t: String = s.chars().take(600).collect();
    format!("{t:?}")
}
fn list(v: &[Token<'_>]) -> String {
    let t = format!("{v:?}");
    t.chars().take(900).collect()
}

const PIECES: &[&str] = &[
    ";", " ", "\n", "}", "{", "a", "+", "-", "/", "1", ".", "/*c*/", "/*!l*/", "//c\n", "\t", "\r", "\"s\"", "'t'", "`u`", "var ",
    "return ", "/re/g", "(", ")", "[", "]", "=", "==", ",", "2.5", ";;", ";}", "; }", ";/**/}", "+ +", "- -", "+ ++", "1 .a", "/ /b/",
    "let x = 1;", "for(;;);", "while(a);", "!", "?", ":", "&&", "||", "<", ">=", "%", "^", "~", "\u{b}", "\u{c}", "\u{a0}", "é", "\\",
    "\"use strict\"", "...", "..", "0 .b", "const ", "if(a)", "else", "do", "function f()", "/**/", "\n\n", "  ",
];

/// A source text: pieces in any order, or a program.
pub fn soup(s: &mut Src) -> String {
    if s.chance(1, 5) {
        let t = js_gen::program(s, Opt::default());
        let l = js_gen::layout(s, &t, true);
        return js_gen::render(&t, &l);
    }
    let n = util::size(s, 14, 400);
    let mut o = String::new();
    for _ in 0..n {
        match s.weighted(&[30, 2, 2]) {
            0 => o.push_str(s.pick::<&str>(PIECES)),
            1 => o.push(util::any_char(s)),
            _ => o.push_str(util::dict_string(s)),
        }
    }
    o
}

fn is_char(t: &Token<'_>, c: ReservedChar) -> bool {
    matches!(t, Token::Char(x) if *x == c)
}
fn is_white(t: &Token<'_>) -> bool {
    use ReservedChar::*;
    matches!(t, Token::Char(Space | Tab | Backline))
}
fn is_comment(t: &Token<'_>) -> bool {
    matches!(t, Token::Comment(_))
}

// ------------------------------------------------------------------ C11

#[derive(Clone)]
pub struct Clean {
    source: String,
    /// Which callback.
    mode: usize,
    m: u64,
}
const MODES: usize = 12;

fn answer(t: &Token<'_>, mode: usize, m: u64) -> bool {
    use ReservedChar::*;
    match mode {
        0 => true,
        1 => false,
        2 => !is_char(t, Backline),
        3 => !is_char(t, Space),
        4 => !is_comment(t),
        5 => !is_char(t, SemiColon),
        6 => !(is_char(t, Space) || is_char(t, SemiColon)),
        7 => !is_char(t, Tab),
        8 => is_white(t),
        9 => is_comment(t),
        10 => is_comment(t) || is_char(t, SemiColon),
        _ => hash(t.to_string().as_bytes()) % m.max(1) != 0,
    }
}

/// May a space stand between these two so that they stay what they are?
fn may_separate(a: &Token<'_>, b: &Token<'_>) -> bool {
    let (a, b) = (a.to_string(), b.to_string());
    let (Some(l), Some(f)) = (a.chars().last(), b.chars().next()) else { return false };
    let word = |c: char| c == '_' || c == '$' || c.is_alphanumeric() || !c.is_ascii();
    (l == f && matches!(l, '+' | '-'))
        || (l == '<' && f == '!')
        || (l == '/' && matches!(f, '/' | '*'))
        || (f == '.' && (l.is_ascii_digit() || a.rsplit(['^', '~']).next().is_some_and(|x| x.starts_with(|c: char| c.is_ascii_digit()))))
        || (word(l) && word(f))
}

/// Is `out` what cleaning `t` may give, where `keep` tells which removable tokens stay?
fn check_clean(t: &[Token<'_>], out: &[Token<'_>], keep: &dyn Fn(&Token<'_>) -> bool, at_end: bool) -> Result<bool, String> {
    let mut want = vec![];
    for x in t {
        let removable = is_white(x) || is_comment(x);
        if !removable || keep(x) {
            want.push(x);
        }
    }
    // Every length of `out` that the tokens so far may account for (more than one where
    // semicolons follow each other).
    let something = |j: usize| out[..j].iter().any(|y| !is_white(y) && !is_comment(y));
    let mut at = vec![0];
    for (i, x) in want.iter().enumerate() {
        let mut then = vec![];
        let mut why = String::new();
        for j in at {
            if out.get(j) == Some(*x) {
                then.push(j + 1);
            }
            if is_char(x, ReservedChar::SemiColon) && !keep(x) {
                let next = out[j..].iter().find(|y| !is_white(y) && !is_comment(y));
                if !something(j) || next.is_some_and(|y| is_char(y, ReservedChar::CloseCurlyBrace)) || (at_end && next.is_none()) {
                    then.push(j);
                }
            }
            if out.get(j).is_some_and(|y| is_char(y, ReservedChar::Space)) && out.get(j + 1) == Some(*x) && j > 0 && may_separate(&out[j - 1], x) {
                then.push(j + 2);
            }
            why = format!("token {x:?} (before {:?}) was expected at position {j}, where {:?} stands", want.get(i + 1), out.get(j));
        }
        if then.is_empty() {
            return Err(why);
        }
        then.sort();
        then.dedup();
        at = then;
    }
    let j = *at.last().unwrap();
    if j < out.len() {
        return Err(format!("{:?} at position {j} was not expected", out[j]));
    }
    let removed = want.len() > out.len();
    Ok(removed)
}

fn owned<'a>(v: &[Token<'a>]) -> Tokens<'a> {
    Tokens(v.to_vec())
}

pub struct C11;
impl Prop for C11 {
    type Case = Clean;
    const ID: &'static str = "C11";
    const RULE: &'static str = "Token lists of programs and of random sequences of JS fragments, cleaned by clean_tokens and by clean_tokens_except with one of 12 families of callbacks (by kind, or by a hash of the token); the output is aligned with the input, and the per-token predicates are compared with the rules for every token and successor. Non-trivial: something was removed, and something removable was kept.";
    const CASES: (u64, u64) = (400_000, 40_000_000);
    fn gen(s: &mut Src) -> Clean {
        let source = soup(s);
        Clean { source, mode: s.below(MODES), m: 1 + s.draw(6) }
    }
    fn check(c: &Clean, o: &mut Obs) -> Verdict {
        let toks = match sut_try!("js::simple_minify", vp_api::js::simple_minify(&c.source)) {
            Ok(t) => t,
            Err(_) => return Verdict::Discard("refused"),
        };
        let t: Vec<Token<'_>> = toks.0;
        let out = sut_try!("js::clean_tokens", vp_api::js::clean_tokens(owned(&t))).0;
        let what = format!("clean_tokens of {}", clip(&c.source));
        if let Err(m) = check_clean(&t, &out, &|_| false, false) {
            return Verdict::Fail(format!("{what}: {m}: {} became {}", list(&t), list(&out)));
        }
        let (mode, m) = (c.mode, c.m);
        let f = move |x: &Token<'_>| answer(x, mode, m);
        let ex = sut_try!("js::clean_tokens_except", vp_api::clean_except(owned(&t), &f)).0;
        let what = format!("clean_tokens_except (callback {mode}/{m}) of {}", clip(&c.source));
        match check_clean(&t, &ex, &|x| !answer(x, mode, m), true) {
            Err(m) => return Verdict::Fail(format!("{what}: {m}: {} became {}", list(&t), list(&ex))),
            Ok(n) => o.label_if(n, "a semicolon was removed"),
        }
        let mut removed = false;
        let mut kept = false;
        for (i, x) in t.iter().enumerate() {
            for next in [t.get(i + 1), None, Some(&Token::Char(ReservedChar::CloseCurlyBrace)), Some(&Token::Char(ReservedChar::SemiColon))] {
                let useless = is_white(x)
                    || is_comment(x)
                    || (is_char(x, ReservedChar::SemiColon) && next.is_some_and(|n| is_char(n, ReservedChar::CloseCurlyBrace)));
                let got = sut_try!("js::clean_token", vp_api::js::clean_token(x, &next));
                if got == useless {
                    return Verdict::Fail(format!("clean_token({x:?}, {next:?}) is {got}"));
                }
                let want = !useless || !answer(x, mode, m);
                let got = sut_try!("js::clean_token_except", vp_api::clean_token_except(x, &next, &f));
                if got != want {
                    return Verdict::Fail(format!("clean_token_except({x:?}, {next:?}) is {got} where the callback answers {}", answer(x, mode, m)));
                }
            }
            let r = is_white(x) || is_comment(x) || is_char(x, ReservedChar::SemiColon);
            removed |= r && answer(x, mode, m);
            kept |= r && !answer(x, mode, m);
        }
        o.nontrivial = removed && (kept || mode == 0) && t.len() > 3;
        o.label_if(kept, "the callback kept something");
        o.label_if(out.len() < ex.len(), "more is left by the except variant");
        Verdict::Ok
    }
    fn to_json(c: &Clean) -> J {
        J::obj(vec![("source", J::s(c.source.clone())), ("mode", J::n(c.mode as i64)), ("m", J::n(c.m as i64))])
    }
    fn from_json(j: &J) -> Clean {
        Clean { source: j.str_("source"), mode: j.int("mode") as usize, m: j.int("m") as u64 }
    }
    fn assumptions() -> Vec<String> {
        vec!["The callback is pure.".into()]
    }
}

// ------------------------------------------------------------------ C12

#[derive(Clone)]
pub struct Lookup {
    /// Anything, whose tokens are replaced.
    source: String,
    m: u64,
    before: String,
    /// keyword, gap, name, gap; then `=`, gap, value (empty without initialiser); the rest.
    parts: Vec<String>,
    after: String,
    is_value: bool,
}

fn replace<'a>(t: Tokens<'a>, f: &dyn Fn(&Token<'a>) -> Option<Token<'static>>) -> Tokens<'a> {
    vp_api::js::replace_tokens_with(t, |x: &Token<'a>| f(x))
}
fn replace_one<'a>(t: Token<'a>, f: &dyn Fn(&Token<'a>) -> Option<Token<'static>>) -> Token<'a> {
    vp_api::js::replace_token_with(t, &|x: &Token<'a>| f(x))
}
fn tokens(s: &str) -> Option<Vec<Token<'_>>> {
    vp_api::js::simple_minify(s).ok().map(|t| t.0)
}

pub struct C12;
impl Prop for C12 {
    type Case = Lookup;
    const ID: &'static str = "C12";
    const RULE: &'static str = "Replacement: token lists of programs and fragments, and a callback that replaces the tokens whose text hashes to 0 modulo m and records its calls. Lookup: let and var declarations with and without initialiser of every kind, with whitespace, comments and licences between their tokens, amid other text, on the raw and on the cleaned list. Non-trivial: something was replaced and something was not.";
    const CASES: (u64, u64) = (400_000, 40_000_000);
    fn gen(s: &mut Src) -> Lookup {
        let source = soup(s);
        let m = 1 + s.draw(5);
        let before = match s.below(4) {
            0 => String::new(),
            1 => "f();\n".into(),
            2 => "var z;let w = 1, v = \"x\"; // c\n".into(),
            _ => {
                let n = s.below(6);
                let mut o = String::new();
                for _ in 0..n {
                    o.push_str(s.pick::<&str>(&["a;", "{b}", "/*c*/", "\n", " ", "if(a){}", "/*!l*/", "x=/re/;", "\"s\";", "let q;", "var q=1;", "for("]));
                }
                o
            }
        };
        let kw = s.pick::<&str>(&["var", "let"]).to_string();
        let gap = |s: &mut Src, must: bool| -> String {
            let mut o = String::new();
            for _ in 0..s.below(3) {
                o.push_str(s.pick::<&str>(&[" ", "\t", "\n", "/*c*/", "/* = \"x\" */", "/*!l*/", "//c\n", "\r\n", "//=1;\n"]));
            }
            if must && o.is_empty() {
                o.push(' ');
            }
            o
        };
        let name = match s.below(4) {
            0 => s.pick::<&str>(&["x", "y", "r_aa", "$", "_", "varx", "lets", "é", "r_", "async1", "A"]).to_string(),
            1 => {
                let n = 1 + s.below(8);
                (0..n).map(|i| *s.pick(if i == 0 { &['a', 'b', '_', '$', 'Z'] } else { &['a', '1', '_', '0', 'Z'] })).collect()
            }
            2 => "v".repeat(1 + s.below(40)),
            _ => format!("name{}", s.below(100)),
        };
        let g1 = gap(s, true);
        let mut g2 = gap(s, false);
        let (mut eq, mut g3, mut val) = (String::new(), String::new(), String::new());
        let mut is_value = false;
        let mut rest = String::new();
        if s.chance(3, 4) {
            eq = "=".into();
            g3 = gap(s, false);
            is_value = s.chance(2, 3);
            val = if is_value {
                s.pick::<&str>(&[
                    "1", "0", "12.5", ".5", "0x1f", "1e3", "07", "10n", "\"a\"", "'b'", "''", "`t`", "`a${b}`", "/re/", "/[/]/g", "name", "$x", "_", "é",
                    "r_aa", "9007199254740993", "\"a;b\"", "\"=\"", "async1", "NaN", "undefined", "inf",
                ])
            } else {
                s.pick::<&str>(&["[", "{", "(", "-", "!", "+", "function", "new", "this", "typeof", "null", "true"])
            }
            .to_string();
            rest = if is_value {
                s.pick::<&str>(&[";", ",", "+1;", ".b;", "[0];", "(a);", "\n", " \n", "?c:d;", " ", " in z;", ")", "/2;", "-1,"]).to_string()
            } else {
                match val.as_str() {
                    "[" => "\"a\",b];",
                    "{" => "a:\"a\"};",
                    "(" => "\"a\");",
                    "-" => "1;",
                    "!" => "a;",
                    "+" => "\"1\";",
                    "function" => " f(){return\"a\"};",
                    "new" => " A(1);",
                    "this" => ".a;",
                    "typeof" => " a;",
                    _ => ";",
                }
                .to_string()
            };
            if eq == "=" && val.starts_with('/') && s.chance(1, 2) {
                g3.push(' ');
            }
        } else {
            // After a line break the statement is over.
            rest.push_str(s.pick::<&str>(&[";", ",", "\n", " in z)", " of z)", "\nfoo = 1;", ")", "}", "\n\"a\";", ", w = \"b\";", ";x=\"c\";", "\n/re/;"]));
            if rest == "\n" {
                rest.push_str("q;");
            }
            if g2.ends_with("//") {
                g2.push('\n');
            }
        }
        let after = match s.below(3) {
            0 => String::new(),
            1 => "q = \"v\"; var u = 3;".into(),
            _ => soup(s),
        };
        // Not the first name of its declaration.
        let g1 = match s.chance(1, 4) {
            true => {
                let g = gap(s, false);
                format!("{g1}{}{}", s.pick::<&str>(&["p,", "p=1,", "p = q ,", "p=\"s\"\n,", "p=[],", "p=(1),", "p=/re/,"]), g)
            }
            false => g1,
        };
        Lookup { source, m, before, parts: vec![kw, g1, name, g2, eq, g3, val, rest], after, is_value }
    }
    fn check(c: &Lookup, o: &mut Obs) -> Verdict {
        // Replacement.
        let Some(t) = sut_try!("js::simple_minify", tokens(&c.source)) else { return Verdict::Discard("refused") };
        let calls: RefCell<Vec<String>> = RefCell::new(vec![]);
        let m = c.m;
        let new = |x: &Token<'_>, n: usize| -> Option<Token<'static>> {
            let h = hash(x.to_string().as_bytes());
            (h % m == 0).then(|| match (h / 64 + n as u64) % 5 {
                0 => Token::Other("REPLACED"),
                1 => Token::Number(n),
                2 => Token::Keyword(Keyword::Null),
                3 => Token::Char(ReservedChar::SemiColon),
                _ => Token::String("\"new\""),
            })
        };
        let out = {
            let n = Cell::new(0);
            let f = |x: &Token<'_>| -> Option<Token<'static>> {
                calls.borrow_mut().push(format!("{x:?}"));
                n.set(n.get() + 1);
                new(x, n.get() - 1)
            };
            sut_try!("js::replace_tokens_with", replace(owned(&t), &f)).0
        };
        let calls = calls.into_inner();
        if out.len() != t.len() {
            return Verdict::Fail(format!("replace_tokens_with of {} gave {} tokens for {}", clip(&c.source), out.len(), t.len()));
        }
        let want: Vec<String> = t.iter().map(|x| format!("{x:?}")).collect();
        if calls != want {
            return Verdict::Fail(format!("replace_tokens_with of {} called back {} times for {} tokens, or not in order", clip(&c.source), calls.len(), want.len()));
        }
        let mut replaced = 0;
        for (i, x) in t.iter().enumerate() {
            let n = new(x, i);
            replaced += n.is_some() as usize;
            let w = n.unwrap_or_else(|| x.clone());
            if out[i] != w {
                return Verdict::Fail(format!("replace_tokens_with of {}: token {i} became {:?}, not {w:?}", clip(&c.source), out[i]));
            }
            let one = sut_try!("js::replace_token_with", replace_one(x.clone(), &|y| new(y, i)));
            if one != w {
                return Verdict::Fail(format!("replace_token_with({x:?}) is {one:?}, not {w:?}"));
            }
        }
        o.nontrivial = replaced > 0 && replaced < t.len();
        // Lookup.
        let head: Vec<String> = (0..c.parts.len()).map(|k| format!("{}{}", c.before, c.parts[..k].concat())).collect();
        let src = format!("{}{}{}", c.before, c.parts.concat(), c.after);
        for clean in [false, true] {
            let get = |s: &str| -> Option<usize> {
                let t = vp_api::js::simple_minify(s).ok()?;
                let t = if clean { vp_api::js::clean_tokens(t) } else { t };
                Some(t.len())
            };
            let all = match vp_api::js::simple_minify(&src) {
                Ok(t) => t,
                Err(_) => return Verdict::Discard("refused"),
            };
            let all = if clean { sut_try!("js::clean_tokens", vp_api::js::clean_tokens(all)) } else { all };
            let (Some(k), Some(n), Some(v)) = (get(&head[0]), get(&head[2]), get(&head[6])) else { return Verdict::Discard("refused") };
            // The pieces must be the tokens they are meant to be.
            let kw = all.get(k).is_some_and(|t| t.to_string() == c.parts[0] && t.is_keyword());
            let name = all.get(n).is_some_and(|t| t.to_string() == c.parts[2]);
            let eq = c.parts[4].is_empty() || all.get(v).is_some_and(|t| c.parts[6].starts_with(&t.to_string()));
            if !kw || !name || !eq {
                return Verdict::Discard("the declaration does not tokenize as meant");
            }
            let want = Some((n, c.is_value.then_some(v)));
            let first = !c.parts[1].contains(',');
            let at = |i: usize| vp_api::js::get_variable_name_and_value_positions(&all, i);
            // The keyword's declaration, and the name's.
            let mut asked = vec![];
            if first {
                asked.push((k, want));
            }
            if all[n].is_other() {
                asked.push((n, want));
            }
            // Elsewhere, nothing is declared.
            let mut before: Option<&Token<'_>> = None;
            for (i, x) in all.iter().enumerate() {
                let declares = before.is_some_and(|b| matches!(b, Token::Keyword(Keyword::Let | Keyword::Var)) || is_char(b, ReservedChar::Comma));
                let may = matches!(x, Token::Keyword(Keyword::Let | Keyword::Var)) || (matches!(x, Token::Other(_)) && declares);
                if !may {
                    asked.push((i, None));
                }
                if !is_white(x) && !is_comment(x) && !matches!(x, Token::License(_)) {
                    before = Some(x);
                }
            }
            asked.push((all.len(), None));
            asked.push((usize::MAX, None));
            for (i, want) in asked {
                let got = sut_try!("get_variable_name_and_value_positions", at(i));
                if got != want {
                    return Verdict::Fail(format!(
                        "get_variable_name_and_value_positions at token {i} of {} ({}cleaned) is {got:?}, not {want:?}: {}",
                        clip(&src),
                        if clean { "" } else { "not " },
                        list(&all)
                    ));
                }
            }
            o.label_if(!first, "a later name of a declaration");
        }
        o.label_if(c.is_value, "initialiser with a value");
        o.label_if(c.parts[4].is_empty(), "no initialiser");
        o.label_if(c.parts[1].contains('/') || c.parts[3].contains('/') || c.parts[5].contains('/'), "comments in the declaration");
        Verdict::Ok
    }
    fn to_json(c: &Lookup) -> J {
        J::obj(vec![
            ("source", J::s(c.source.clone())),
            ("m", J::n(c.m as i64)),
            ("before", J::s(c.before.clone())),
            ("parts", J::Arr(c.parts.iter().map(|x| J::s(x.clone())).collect())),
            ("after", J::s(c.after.clone())),
            ("is_value", J::n(c.is_value as i64)),
        ])
    }
    fn from_json(j: &J) -> Lookup {
        Lookup {
            source: j.str_("source"),
            m: j.int("m").max(1) as u64,
            before: j.str_("before"),
            parts: j.arr("parts").iter().map(|x| x.as_str().to_string()).collect(),
            after: j.str_("after"),
            is_value: j.int("is_value") != 0,
        }
    }
}

