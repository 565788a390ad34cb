//! JavaScript token lists: what the tokenizer makes of a program, and the variants of functions.
use crate::engine::{hash, Obs, Prop, Src, Verdict};
use crate::js_gen::{self, Opt};
use crate::json::J;
use crate::{node, p_js, p_tokens, sut_try, util};
use vp_api::js::{Condition, Keyword, Operation, ReservedChar, Token, Tokens};

pub fn clip(s: &str) -> String {
    let t: String = s.chars().take(600).collect();
    format!("{t:?}")
}
fn list(v: &[Token<'_>]) -> String {
    let t = format!("{v:?}");
    t.chars().take(900).collect()
}

// ------------------------------------------------------------------ C21

fn word_char(c: char) -> bool {
    c == '_' || c == '$' || c.is_alphanumeric()
}

/// What the tokens say stands where: (start, end, kind), byte offsets. Kinds as of the oracle.
fn account(src: &str, t: &[Token<'_>]) -> Result<Vec<(usize, usize, char)>, String> {
    let mut at = 0;
    let mut items = vec![];
    // Between a word and the token before it.
    let mut after_word = false;
    for (i, x) in t.iter().enumerate() {
        let rest = &src[at..];
        let err = || Err(format!("token {i}, {x:?}, stands for {:?}", rest.chars().take(40).collect::<String>()));
        let mut word = false;
        let (kind, text) = match x {
            Token::Comment(c) => {
                if rest.starts_with("/*") {
                    ('c', format!("/*{c}*/"))
                } else {
                    ('c', format!("//{c}"))
                }
            }
            Token::License(c) => ('c', format!("/*!{c}*/")),
            Token::String(s) => ('s', s.to_string()),
            Token::Regex { regex, is_global, is_interactive } => {
                // The flags may stand in any order.
                let two = ["ig", "gi"].into_iter().find(|f| *is_global && *is_interactive && rest.starts_with(&format!("/{regex}/{f}")));
                match two {
                    Some(f) => ('r', format!("/{regex}/{f}")),
                    None => ('r', x.to_string()),
                }
            }
            Token::Char(ReservedChar::Backline) if rest.starts_with('\r') => (' ', "\r".to_string()),
            Token::CreatedVar(_) | Token::CreatedVarDecl(_) => return err(),
            _ => {
                let s = x.to_string();
                word = s.starts_with(word_char);
                (' ', s)
            }
        };
        if text.is_empty() || !rest.starts_with(&text) {
            return err();
        }
        if after_word && word {
            return Err(format!("the word before token {i}, {x:?}, is cut"));
        }
        after_word = kind == ' ' && text.ends_with(word_char);
        if kind != ' ' {
            items.push((at, at + text.len(), kind));
        }
        at += text.len();
        // The line break belongs to the comment.
        if kind == 'c' && text.starts_with("//") {
            let next = t.get(i + 1);
            let is_break = |x: Option<&Token<'_>>| x.is_some_and(|x| matches!(x, Token::Char(ReservedChar::Backline)));
            let breaks = src[at..].chars().take_while(|c| matches!(c, '\r' | '\n')).count();
            let said = t[i + 1..].iter().take_while(|x| is_break(Some(x))).count();
            if breaks == said + 1 {
                at += 1;
            }
            if breaks == 0 && next.is_some() {
                return Err(format!("token {i}, {x:?}, ends before the line does"));
            }
        }
    }
    if at != src.len() {
        return Err(format!("no token stands for {:?}", src[at..].chars().take(40).collect::<String>()));
    }
    Ok(items)
}

pub struct C21;
impl Prop for C21 {
    type Case = String;
    const ID: &'static str = "C21";
    const RULE: &'static str = "Programs of the C07 grammar in random layouts with comments; the token list of js::simple_minify is laid over the source, and the places of its strings, regular expressions and comments are compared with acorn's. Non-trivial: the source has a string, template or regular expression, a comment, and at least 20 tokens.";
    const CASES: (u64, u64) = (100_000, 10_000_000);
    fn gen(s: &mut Src) -> String {
        let t = js_gen::program(s, Opt::default());
        let l = js_gen::layout(s, &t, true);
        js_gen::render(&t, &l)
    }
    fn check(c: &String, o: &mut Obs) -> Verdict {
        let t = match sut_try!("js::simple_minify", vp_api::js::simple_minify(c)) {
            Ok(t) => t.0,
            Err(_) if !p_js::valid_js(c) => return Verdict::Discard("the source does not parse"),
            Err(e) => return Verdict::Fail(format!("js::simple_minify({}) refused a valid program: {e}", clip(c))),
        };
        let r = node::ask(&J::obj(vec![("op", J::s("lex")), ("a", J::s(c.clone()))]));
        if r.get("bad").is_some() {
            return Verdict::Discard("the source does not parse");
        }
        let items = match account(c, &t) {
            Ok(i) => i,
            Err(m) => return Verdict::Fail(format!("js::simple_minify({}): {m}: {}", clip(c), list(&t))),
        };
        // Byte offset of each UTF-16 offset.
        let mut byte = Vec::with_capacity(c.len() + 1);
        for (i, ch) in c.char_indices() {
            for _ in 0..ch.len_utf16() {
                byte.push(i);
            }
        }
        byte.push(c.len());
        let mut want = vec![];
        for x in r.arr("items") {
            let (a, b) = (byte[x.int("s") as usize], byte[x.int("e") as usize]);
            want.push((a, b, x.str_("k").chars().next().unwrap_or(' ')));
        }
        o.nontrivial = t.len() >= 20 && want.iter().any(|x| x.2 == 'c') && want.iter().any(|x| x.2 != 'c');
        o.label_if(want.iter().any(|x| x.2 == 'r'), "regular expression");
        o.label_if(want.iter().any(|x| x.2 == 'c'), "comment");
        for i in 0..items.len().max(want.len()) {
            let (a, b) = (items.get(i), want.get(i));
            // The flags but g and i are a word of their own.
            let same = match (a, b) {
                (Some(a), Some(b)) if a.2 == 'r' => b.2 == 'r' && a.0 == b.0 && c[a.0..a.1].rfind('/') == c[b.0..b.1].rfind('/') && a.1 <= b.1,
                // A line comment may take the carriage return before its line feed.
                (Some(a), Some(b)) if a.2 == 'c' => b.2 == 'c' && a.0 == b.0 && c[a.0..a.1].trim_end_matches('\r') == c[b.0..b.1].trim_end_matches('\r'),
                _ => a == b,
            };
            if !same {
                let show = |x: Option<&(usize, usize, char)>| match x {
                    None => "nothing".to_string(),
                    Some((a, b, k)) => format!("{} {}", match k { 'c' => "the comment", 'r' => "the regular expression", _ => "the string" }, clip(&c[*a..*b])),
                };
                return Verdict::Fail(format!("the tokens of {} have {} where the program has {}: {}", clip(c), show(a), show(b), list(&t)));
            }
        }
        Verdict::Ok
    }
    fn to_json(c: &String) -> J {
        J::obj(vec![("source", J::s(c.clone()))])
    }
    fn from_json(j: &J) -> String {
        j.str_("source")
    }
    fn assumptions() -> Vec<String> {
        vec!["acorn 8.19.0 (vendored) finds the strings, templates, regular expressions and comments of a program correctly.".into()]
    }
}

// ------------------------------------------------------------------ C22

#[derive(Clone)]
pub struct Variants {
    source: String,
    array: String,
    sep: usize,
    clean_first: bool,
    m: u64,
}
fn separation(n: usize) -> Token<'static> {
    match n {
        0 => Token::Char(ReservedChar::Backline),
        1 => Token::Char(ReservedChar::SemiColon),
        2 => Token::Other("sep"),
        3 => Token::Char(ReservedChar::Space),
        4 => Token::License("x"),
        _ => Token::Keyword(Keyword::Var),
    }
}

/// `with` is `plain` with the separation token after what was created, if anything was.
fn separated(plain: &[Token<'_>], with: &[Token<'_>], sep: &Token<'_>) -> Result<bool, String> {
    let made = |v: &[Token<'_>]| -> Option<usize> {
        let last = v.iter().rposition(|x| matches!(x, Token::CreatedVarDecl(_)))?;
        let end = v[last..].iter().position(|x| matches!(x, Token::Char(ReservedChar::SemiColon)))?;
        Some(last + end + 1)
    };
    match (made(plain), made(with)) {
        (None, None) => {
            if plain == with {
                return Ok(false);
            }
            // Nothing to separate: at most the token itself.
            let i = (0..plain.len()).find(|i| with.get(*i) != Some(&plain[*i])).unwrap_or(plain.len());
            if with.get(i) == Some(sep) && with[i + 1..] == plain[i..] {
                return Ok(false);
            }
            Err(format!("{} and {}", list(plain), list(with)))
        }
        (Some(a), Some(b)) if a == b => {
            if with[..b] == plain[..a] && with.get(b) == Some(sep) && with[b + 1..] == plain[a..] {
                return Ok(true);
            }
            Err(format!("{} and {}", list(plain), list(with)))
        }
        _ => Err(format!("{} and {}", list(plain), list(with))),
    }
}

pub struct C22;
impl Prop for C22 {
    type Case = Variants;
    const ID: &'static str = "C22";
    const RULE: &'static str = "Token lists of string-heavy programs and of random sequences of JS fragments, aggregated by each variant of the aggregation functions (with six separation tokens, with filters that accept everything, nothing, or by a hash of the position), cleaned and replaced by identities. Non-trivial: a string was aggregated.";
    const CASES: (u64, u64) = (200_000, 20_000_000);
    fn gen(s: &mut Src) -> Variants {
        let mut array = s.pick(&["R", "arr", "r_aa", "$"]).to_string();
        let source = if s.chance(1, 3) {
            p_tokens::soup(s)
        } else {
            // The existing array of that name, sometimes.
            let name = array.clone();
            let own = s.chance(1, 3);
            p_js::agg_program(s, true, |s, pool| {
                let mut v = vec![];
                if own {
                    let mut t = vec![js_gen::word("var"), js_gen::word(&name), js_gen::punct("="), js_gen::punct("[")];
                    let n = s.below(5);
                    for i in 0..n {
                        if i > 0 {
                            t.push(js_gen::punct(","));
                        }
                        t.push(js_gen::lit(&s.pick(pool).clone()));
                    }
                    t.push(js_gen::punct("]"));
                    t.push(js_gen::punct(";"));
                    v.push(t);
                }
                if s.chance(1, 4) {
                    v.push(vec![js_gen::word("var"), js_gen::word("r_aa"), js_gen::punct("="), js_gen::lit(&s.pick(pool).clone()), js_gen::punct(";")]);
                }
                v
            })
        };
        if s.chance(1, 30) {
            array = "é".into();
        }
        Variants { source, array, sep: s.below(6), clean_first: s.chance(1, 2), m: 1 + s.draw(4) }
    }
    fn check(c: &Variants, o: &mut Obs) -> Verdict {
        use vp_api::js;
        let src = &c.source;
        let whole = sut_try!("js::minify", vp_api::js_str(src));
        let t = match (whole, sut_try!("js::simple_minify", js::simple_minify(src))) {
            (Err(a), Err(b)) if a == b => return Verdict::Discard("refused"),
            (Ok(a), Ok(t)) => {
                let b = sut_try!("js::clean_tokens", js::clean_tokens(Tokens(t.0.clone()))).to_string();
                if a != b {
                    return Verdict::Fail(format!("js::minify({}) gives {} and tokenizing and cleaning it {}", clip(src), clip(&a), clip(&b)));
                }
                t
            }
            (a, b) => return Verdict::Fail(format!("js::minify({}) gives {a:?} and js::simple_minify {:?}", clip(src), b.map(|t| list(&t.0)))),
        };
        let t: Vec<Token<'_>> = if c.clean_first { js::clean_tokens(t).0 } else { t.0 };
        let list_ = || Tokens(t.clone());
        let sep = || separation(c.sep);
        let name = c.array.as_str();
        macro_rules! fail {
            ($what:expr, $m:expr) => {
                return Verdict::Fail(format!("{} on {} ({}, array {name}): {}", $what, clip(src), if c.clean_first { "cleaned" } else { "not cleaned" }, $m))
            };
        }
        // Variables.
        let plain = sut_try!("js::aggregate_strings", vp_api::vars(list_(), None)).0;
        let with = sut_try!("js::aggregate_strings_with_separation", vp_api::vars(list_(), Some(sep()))).0;
        let mut done = match separated(&plain, &with, &sep()) {
            Ok(d) => d,
            Err(m) => fail!("aggregate_strings and aggregate_strings_with_separation", m),
        };
        done |= plain != t;
        let applied = sut_try!("Tokens::apply", list_().apply(js::aggregate_strings)).0;
        if applied != plain {
            fail!("Tokens::apply(aggregate_strings)", format!("{} and {}", list(&plain), list(&applied)));
        }
        // Arrays.
        let m = c.m;
        let some = move |_: &Tokens<'_>, p: usize| hash(&(p as u64).to_le_bytes()) % m == 0;
        let plain = sut_try!("js::aggregate_strings_into_array", vp_api::array(list_(), name, None, None)).0;
        done |= plain != t;
        let all = sut_try!("js::aggregate_strings_into_array_filter", vp_api::array(list_(), name, None, Some(&|_, _| true))).0;
        if all != plain {
            fail!("aggregate_strings_into_array and _filter that accepts everything", format!("{} and {}", list(&plain), list(&all)));
        }
        let with = sut_try!("js::aggregate_strings_into_array_with_separation", vp_api::array(list_(), name, Some(sep()), None)).0;
        if let Err(m) = separated(&plain, &with, &sep()) {
            fail!("aggregate_strings_into_array and _with_separation", m);
        }
        let all = sut_try!("js::aggregate_strings_into_array_with_separation_filter", vp_api::array(list_(), name, Some(sep()), Some(&|_, _| true))).0;
        if all != with {
            fail!("aggregate_strings_into_array_with_separation and _filter that accepts everything", format!("{} and {}", list(&with), list(&all)));
        }
        let none = sut_try!("js::aggregate_strings_into_array_filter", vp_api::array(list_(), name, None, Some(&|_, _| false))).0;
        if none != t {
            fail!("aggregate_strings_into_array_filter that refuses everything", format!("{} became {}", list(&t), list(&none)));
        }
        let none = sut_try!("js::aggregate_strings_into_array_with_separation_filter", vp_api::array(list_(), name, Some(sep()), Some(&|_, _| false))).0;
        if let Err(m) = separated(&t, &none, &sep()) {
            fail!("aggregate_strings_into_array_with_separation_filter that refuses everything", m);
        }
        let a = sut_try!("js::aggregate_strings_into_array_filter", vp_api::array(list_(), name, None, Some(&some))).0;
        let b = sut_try!("js::aggregate_strings_into_array_with_separation_filter", vp_api::array(list_(), name, Some(sep()), Some(&some))).0;
        if let Err(m) = separated(&a, &b, &sep()) {
            fail!("aggregate_strings_into_array_filter and _with_separation_filter", m);
        }
        // Replacement by nothing, cleaning of nothing.
        let same = sut_try!("js::replace_tokens_with", vp_api::replace(list_(), &|_| None)).0;
        if same != t {
            fail!("replace_tokens_with that replaces nothing", format!("{} became {}", list(&t), list(&same)));
        }
        o.nontrivial = done;
        o.label_if(a != plain && a != t, "the filter refused some strings");
        o.label_if(with.len() > plain.len(), "separated");
        Verdict::Ok
    }
    fn to_json(c: &Variants) -> J {
        J::obj(vec![
            ("source", J::s(c.source.clone())),
            ("array", J::s(c.array.clone())),
            ("separation", J::n(c.sep as i64)),
            ("clean_first", J::n(c.clean_first as i64)),
            ("m", J::n(c.m as i64)),
        ])
    }
    fn from_json(j: &J) -> Variants {
        Variants {
            source: j.str_("source"),
            array: j.str_("array"),
            sep: j.int("separation") as usize,
            clean_first: j.int("clean_first") != 0,
            m: (j.int("m") as u64).max(1),
        }
    }
    fn assumptions() -> Vec<String> {
        vec!["The filter is pure.".into()]
    }
}

// ------------------------------------------------------------------ C23

#[derive(Clone)]
pub struct Said {
    source: String,
    word: String,
    ch: char,
}
const KEYWORDS: &[&str] = &[
    "break", "case", "catch", "const", "continue", "default", "do", "else", "false", "finally", "function", "for", "if", "in", "instanceof", "let", "new",
    "null", "private", "protected", "public", "return", "switch", "this", "throw", "true", "try", "typeof", "static", "var", "while",
];
const RESERVED: &str = ",()[]{}:;.'\"!?/%*-+=\\ \t\n<>|&`";
const OPERATIONS: &[Operation] = {
    use Operation::*;
    &[Addition, AdditionEqual, Subtract, SubtractEqual, Multiply, MultiplyEqual, Divide, DivideEqual, Modulo, ModuloEqual, Equal]
};
const OPERATION_TEXTS: &[&str] = &["+", "+=", "-", "-=", "*", "*=", "/", "/=", "%", "%=", "="];
const CONDITIONS: &[Condition] = {
    use Condition::*;
    &[And, Or, DifferentThan, SuperDifferentThan, EqualTo, SuperEqualTo, SuperiorThan, SuperiorOrEqualTo, InferiorThan, InferiorOrEqualTo]
};
const CONDITION_TEXTS: &[&str] = &["&&", "||", "!=", "!==", "==", "===", ">", ">=", "<", "<="];

/// What is wrong with what the token says about itself.
fn inconsistent(t: &Token<'_>) -> Option<String> {
    // (reserved char, operation, condition, other, keyword, string, regex, declared, created, number, float, comment, licence)
    let said = [
        t.is_reserved_char(), t.is_operation(), t.is_condition(), t.is_other(), t.is_keyword(), t.is_string(), t.is_regex(),
        t.is_created_var_decl(), t.is_created_var(), t.is_number(), t.is_floating_number(), t.is_comment(), t.is_license(),
    ];
    let (is, text) = match t {
        Token::Char(_) => (0, t.to_string()),
        Token::Operation(o) => (1, OPERATIONS.iter().position(|x| x == o).map(|i| OPERATION_TEXTS[i].to_string())?),
        Token::Condition(c) => (2, CONDITIONS.iter().position(|x| x == c).map(|i| CONDITION_TEXTS[i].to_string())?),
        Token::Other(s) => (3, s.to_string()),
        Token::Keyword(k) => (4, format!("{k:?}").to_lowercase()),
        Token::String(s) => (5, s.to_string()),
        Token::Regex { regex, is_global, is_interactive } => {
            (6, format!("/{regex}/{}{}", if *is_global { "g" } else { "" }, if *is_interactive { "i" } else { "" }))
        }
        Token::CreatedVarDecl(s) => (7, s.to_string()),
        Token::CreatedVar(s) => (8, s.to_string()),
        Token::Number(n) => (9, n.to_string()),
        Token::FloatingNumber(s) => (10, s.to_string()),
        Token::Comment(s) => (11, s.to_string()),
        Token::License(s) => (12, format!("/*!{s}*/")),
    };
    for (i, x) in said.iter().enumerate() {
        if *x != (i == is) {
            return Some(format!("predicate {i} of is_reserved_char, is_operation, is_condition, is_other, is_keyword, is_string, is_regex, is_created_var_decl, is_created_var, is_number, is_floating_number, is_comment, is_license is {x}"));
        }
    }
    if t.to_string() != text {
        return Some(format!("it prints as {:?}, not {text:?}", t.to_string()));
    }
    let (c, k, s, o) = match t {
        Token::Char(c) => (Some(*c), None, None, None),
        Token::Keyword(k) => (None, Some(*k), None, None),
        Token::String(s) => (None, None, Some(*s), None),
        Token::Other(s) => (None, None, None, Some(*s)),
        _ => (None, None, None, None),
    };
    if t.get_char() != c || t.get_keyword() != k || t.get_string() != s || t.get_other() != o {
        return Some(format!("get_char, get_keyword, get_string, get_other give {:?} {:?} {:?} {:?}", t.get_char(), t.get_keyword(), t.get_string(), t.get_other()));
    }
    for ch in RESERVED.chars() {
        let Ok(r) = ReservedChar::try_from(ch) else { return Some(format!("{ch:?} is no reserved character")) };
        if t.eq_char(r) != (c == Some(r)) {
            return Some(format!("eq_char({r:?}) is {}", t.eq_char(r)));
        }
    }
    for x in OPERATIONS {
        let want = matches!(t, Token::Operation(o) if o == x);
        if t.eq_operation(*x) != want {
            return Some(format!("eq_operation({x:?}) is {}", !want));
        }
    }
    for x in CONDITIONS {
        let want = matches!(t, Token::Condition(o) if o == x);
        if t.eq_condition(*x) != want {
            return Some(format!("eq_condition({x:?}) is {}", !want));
        }
    }
    let white = is == 0 && matches!(text.as_str(), " " | "\t" | "\n" | "\r");
    if t.is_white_character() != white {
        return Some(format!("is_white_character is {}", !white));
    }
    if let Token::Operation(o) = t {
        if o.is_assign() != text.ends_with('=') {
            return Some(format!("is_assign is {}", o.is_assign()));
        }
    }
    None
}

pub struct C23;
impl Prop for C23 {
    type Case = Said;
    const ID: &'static str = "C23";
    const RULE: &'static str = "The tokens of programs and fragments, every created kind of token with a random text, a random character and a random word; each token's predicates, accessors, comparisons and printed form are compared with a table by kind. Non-trivial: at least six kinds of token.";
    const CASES: (u64, u64) = (200_000, 20_000_000);
    fn gen(s: &mut Src) -> Said {
        let source = p_tokens::soup(s);
        let word = match s.below(3) {
            0 => s.pick::<&str>(KEYWORDS).to_string(),
            1 => {
                let k = s.pick::<&str>(KEYWORDS).to_string();
                let i = s.below(k.len() + 1);
                match s.below(3) {
                    0 => format!("{}{}{}", &k[..i], s.pick(&['a', 'S', '_', '1', '$', ' ', '\n']), &k[i..]),
                    1 => k[..i].to_string(),
                    _ => k[i..].to_uppercase(),
                }
            }
            _ => util::dict_string(s).to_string(),
        };
        Said { source, word, ch: util::any_char(s) }
    }
    fn check(c: &Said, o: &mut Obs) -> Verdict {
        let Some(mut t) = sut_try!("js::simple_minify", vp_api::js::simple_minify(&c.source).ok()) else { return Verdict::Discard("refused") };
        t.0.push(Token::CreatedVarDecl(c.word.clone()));
        t.0.push(Token::CreatedVar(c.word.clone()));
        t.0.push(Token::Comment(&c.word));
        t.0.push(Token::Regex { regex: &c.word, is_global: c.word.len() % 2 == 0, is_interactive: c.word.len() % 3 == 0 });
        let mut kinds = std::collections::BTreeSet::new();
        let mut last = None;
        for (i, x) in t.iter().enumerate() {
            kinds.insert(format!("{:?}", std::mem::discriminant(x)));
            if let Some(m) = sut_try!("js::Token's methods", inconsistent(x)) {
                return Verdict::Fail(format!("token {i} of {}, {x:?}: {m}", clip(&c.source)));
            }
            // A property may have any name.
            if let Token::Other(w) = x {
                if KEYWORDS.contains(w) && last != Some(ReservedChar::Dot) {
                    return Verdict::Fail(format!("token {i} of {}, {x:?}, is a keyword: {}", clip(&c.source), list(&t)));
                }
            }
            if !x.is_white_character() && !x.is_comment() && !x.is_license() {
                last = x.get_char();
            }
        }
        match Keyword::try_from(c.word.as_str()) {
            Ok(k) if k.to_string() != c.word => return Verdict::Fail(format!("{} read as a keyword is {k:?}", clip(&c.word))),
            Err(_) if KEYWORDS.contains(&c.word.as_str()) => return Verdict::Fail(format!("{} isn't read as a keyword", clip(&c.word))),
            _ => {}
        }
        match ReservedChar::try_from(c.ch) {
            Ok(r) => {
                let want = if c.ch == '\r' { '\n' } else { c.ch };
                if r.to_string() != want.to_string() {
                    return Verdict::Fail(format!("{:?} read as a reserved character is {r:?}, which prints as {:?}", c.ch, r.to_string()));
                }
                let op = OPERATION_TEXTS.iter().position(|x| **x == r.to_string()).map(|i| OPERATIONS[i]);
                let cond = CONDITION_TEXTS.iter().position(|x| **x == r.to_string()).map(|i| CONDITIONS[i]);
                if Operation::try_from(r).ok() != op || Condition::try_from(r).ok() != cond {
                    return Verdict::Fail(format!("{r:?} is read as the operation {:?} and the condition {:?}", Operation::try_from(r), Condition::try_from(r)));
                }
            }
            Err(_) if c.ch == '\r' || RESERVED.contains(c.ch) => return Verdict::Fail(format!("{:?} isn't read as a reserved character", c.ch)),
            Err(_) => {}
        }
        o.nontrivial = kinds.len() >= 6;
        Verdict::Ok
    }
    fn to_json(c: &Said) -> J {
        J::obj(vec![("source", J::s(c.source.clone())), ("word", J::s(c.word.clone())), ("ch", J::s(c.ch.to_string()))])
    }
    fn from_json(j: &J) -> Said {
        Said { source: j.str_("source"), word: j.str_("word"), ch: j.str_("ch").chars().next().unwrap_or('a') }
    }
}

// ------------------------------------------------------------------ C24

#[derive(Clone)]
pub struct Gain {
    source: String,
    strings: Vec<String>,
    array: String,
    clean_first: bool,
}
/// A statement with a string in it, and how often.
fn use_of(s: &mut Src, l: &str, depth: usize) -> String {
    let inner = |s: &mut Src| use_of(s, l, depth + 1);
    match s.below(if depth > 4 { 14 } else { 22 }) {
        0 => format!("f({l});"),
        1 => format!("a={l}+b;"),
        2 => format!("var u{}={l};", s.below(9)),
        3 => format!("if(x==={l}){{g();}}"),
        4 => format!("q=[{l},1,{l}];"),
        5 => format!("switch(x){{case {l}:g();}}"),
        6 => format!("o={{k:{l},m:function(){{return {l};}}}};"),
        7 => format!("x?{l}:y;"),
        8 => format!("throw new Error({l});"),
        9 => format!("f(a,b,!{l},-c);"),
        10 => format!("while(x!={l})x=n();"),
        11 => format!("x[{l}]=1;"),
        12 => format!("for(i={l};i;)h(typeof {l});"),
        13 => format!("k={l}.length;"),
        14 => format!("function n{}(p){{{}return p;}}", s.below(99), inner(s)),
        15 => format!("{{{}{}}}", inner(s), inner(s)),
        16 => format!("if(a){{{}}}else{{{}}}", inner(s), inner(s)),
        17 => format!("z=function(){{{}}};", inner(s)),
        18 => format!("z=(p)=>{{{}}};", inner(s)),
        19 => format!("try{{{}}}catch(e){{{}}}", inner(s), inner(s)),
        20 => format!("class K{}{{m(){{{}}}}}", s.below(99), inner(s)),
        _ => format!("{}{}", inner(s), inner(s)),
    }
}

pub struct C24;
impl Prop for C24 {
    type Case = Gain;
    const ID: &'static str = "C24";
    const RULE: &'static str = "Programs made of statements that use strings of 50 to 120 characters, each at least twice, and strings of 3 to 16 characters, each at least 20 times, at different depths and in different roles, amid short strings and programs of the C07 grammar. Non-trivial: at least two such strings.";
    const CASES: (u64, u64) = (150_000, 15_000_000);
    fn gen(s: &mut Src) -> Gain {
        let n = 1 + s.len(2, 12);
        let with_program = s.chance(1, 6);
        let mut strings = vec![];
        let mut stmts = vec![];
        for i in 0..n {
            let quote = s.pick(&['"', '\'', '"']);
            let mut t = format!("<{i}>");
            // The short ones are worth it only when they are used often.
            let short = !with_program && s.chance(1, 4);
            let len = if short { s.range(3, 16) } else { s.range(50, 120) };
            while t.chars().count() < len {
                t.push_str(s.pick::<&str>(&["a", "word ", "é", "0", "\\n", "\\\\", "/*", "//", "{", ";", "}", "\u{1f600}", "\\x41", "r_aa", "`", "R[0]"]));
            }
            if !short {
                t.push_str(s.pick::<&str>(&["", " ", ".", "\\'", "\\\""]));
            }
            let l = format!("{quote}{t}{quote}");
            let uses = if short { s.range(20, 30) } else { s.range(2, 6) };
            for _ in 0..uses {
                let depth = if short { 9 } else { 0 };
                stmts.push(use_of(s, &l, depth));
            }
            strings.push(t);
        }
        for _ in 0..s.below(4) {
            let l = s.pick::<&str>(&["\"\"", "\"a\"", "'b'", "`t`"]).to_string();
            stmts.push(use_of(s, &l, 0));
        }
        for i in (1..stmts.len()).rev() {
            let j = s.below(i + 1);
            stmts.swap(i, j);
        }
        let mut source = String::new();
        if s.chance(1, 8) {
            source.push_str("\"use strict\";");
        }
        if with_program {
            let t = js_gen::program(s, Opt::default());
            let l = js_gen::layout(s, &t, true);
            source.push_str(&js_gen::render(&t, &l));
            source.push_str("\n;");
        }
        for x in stmts {
            source.push_str(&x);
            source.push_str(s.pick::<&str>(&["", "\n", " ", "/*c*/"]));
        }
        let array = s.pick(&["", "RR", "", "a_rr", "searchIn", "R"]).to_string();
        // The programs use the name R.
        let array = if with_program && array == "R" { "RR".to_string() } else { array };
        Gain { source, strings, array, clean_first: s.chance(1, 2) }
    }
    fn check(c: &Gain, o: &mut Obs) -> Verdict {
        let run = |aggregate: bool| -> Option<String> {
            let mut t = vp_api::js::simple_minify(&c.source).ok()?;
            if c.clean_first {
                t = t.apply(vp_api::js::clean_tokens);
            }
            if aggregate {
                t = if c.array.is_empty() { vp_api::vars(t, None) } else { vp_api::array(t, &c.array, None, None) };
            }
            if !c.clean_first {
                t = t.apply(vp_api::js::clean_tokens);
            }
            Some(t.to_string())
        };
        let (Some(plain), Some(out)) = (sut_try!("js::clean_tokens", run(false)), sut_try!("js aggregation", run(true))) else {
            return Verdict::Discard("refused");
        };
        let kind = if c.array.is_empty() { "variables" } else { "an array" };
        for t in &c.strings {
            let (before, n) = (plain.matches(t.as_str()).count(), out.matches(t.as_str()).count());
            // What stands for the string: `"<0>"`, `r_aa` or `RR[12]`.
            let (literal, used) = if c.array.is_empty() {
                (t.len() + 2, 4)
            } else {
                (t.len(), c.array.len() + 2 + if c.strings.len() < 10 { 1 } else { 2 })
            };
            let short = t.chars().count() < 50;
            if before > 1 && n != 1 && (!short || before >= 20 && literal > used) {
                return Verdict::Fail(format!("{} aggregated into {kind} has {t:?} {n} times, it had it {before} times: {}", clip(&c.source), clip(&out)));
            }
        }
        let only_long = c.strings.iter().all(|t| t.chars().count() >= 50);
        o.label_if(!only_long, "short strings used often");
        if only_long && out.len() >= plain.len() {
            return Verdict::Fail(format!("{} aggregated into {kind} takes {} bytes, not less than without, {}: {}", clip(&c.source), out.len(), plain.len(), clip(&out)));
        }
        o.label_if(c.array.is_empty(), "variables");
        o.label_if(!c.array.is_empty(), "array");
        o.nontrivial = c.strings.len() > 1;
        Verdict::Ok
    }
    fn to_json(c: &Gain) -> J {
        J::obj(vec![
            ("source", J::s(c.source.clone())),
            ("strings", J::Arr(c.strings.iter().map(|x| J::s(x.clone())).collect())),
            ("array", J::s(c.array.clone())),
            ("clean_first", J::n(c.clean_first as i64)),
        ])
    }
    fn from_json(j: &J) -> Gain {
        Gain {
            source: j.str_("source"),
            strings: j.arr("strings").iter().map(|x| x.as_str().to_string()).collect(),
            array: j.str_("array"),
            clean_first: j.int("clean_first") != 0,
        }
    }
}
