//! CSS: the minified text against the source, through an independent tokenizer and parser.
use crate::css::{self, T};
use crate::css_gen::{self, Opt};
use crate::engine::{Obs, Prop, Src, Verdict};
use crate::json::J;
use crate::{sut_try, util};

fn clip(s: &str) -> String {
    let t: String = s.chars().take(700).collect();
    format!("{t:?}")
}
fn src_json(c: &str) -> J {
    J::obj(vec![("source", J::s(c))])
}

macro_rules! minify {
    ($c:expr) => {
        match sut_try!("css::minify", vp_api::css_str($c)) {
            Ok(x) => x,
            Err(e) => return Verdict::Fail(format!("css::minify({}) refused a well-formed stylesheet: {e}", clip($c))),
        }
    };
}

fn parsed(c: &str) -> Result<Vec<css::Item>, Verdict> {
    css::parse(c).map_err(|e| {
        if std::env::var("VP_SHOW_BAD").is_ok() {
            eprintln!("BAD {e}\n{c}");
        }
        Verdict::Discard("the generated sheet does not parse")
    })
}
macro_rules! domain {
    ($c:expr) => {
        match parsed($c) {
            Ok(x) => x,
            Err(v) => return v,
        }
    };
}

fn count(items: &[css::Item]) -> usize {
    items
        .iter()
        .map(|x| match x {
            css::Item::At { block, .. } => 1 + block.as_ref().map_or(0, |b| count(b)),
            css::Item::Rule { block, .. } => 1 + count(block),
            css::Item::Decl { .. } => 1,
        })
        .sum()
}

pub struct C04;
impl Prop for C04 {
    type Case = String;
    const ID: &'static str = "C04";
    const RULE: &'static str = "Stylesheets from a grammar of selectors (all combinators, attribute selectors, pseudo-classes with arguments, escapes), at-rules (statements, blocks of rules, blocks of declarations, nested three deep) and values (math functions, urls, strings, escapes), with whitespace and comments wherever they may stand; source and output go through an independent CSS Syntax Level 3 tokenizer and parser. Non-trivial: the output differs from the source and there are at least 3 rules or declarations.";
    const CASES: (u64, u64) = (300_000, 30_000_000);
    fn gen(s: &mut Src) -> String {
        css_gen::sheet(s, Opt::default())
    }
    fn check(c: &String, o: &mut Obs) -> Verdict {
        let a = domain!(c);
        let out = minify!(c);
        o.nontrivial = out != *c && count(&a) >= 3;
        o.label_if(c.contains("/*"), "comments");
        o.label_if(c.contains('\\'), "escapes");
        o.label_if(c.contains('@'), "at-rules");
        o.label_if(c.contains("calc("), "calc");
        o.label_if(c.contains('*'), "star");
        let b = match css::parse(&out) {
            Ok(b) => b,
            Err(e) => return Verdict::Fail(format!("css::minify({}) is {}, which does not parse: {e}", clip(c), clip(&out))),
        };
        if let Some(d) = css::diff(&a, &b) {
            return Verdict::Fail(format!("css::minify({}) is {}: {d}", clip(c), clip(&out)));
        }
        Verdict::Ok
    }
    fn to_json(c: &String) -> J {
        src_json(c)
    }
    fn from_json(j: &J) -> String {
        j.str_("source")
    }
    fn assumptions() -> Vec<String> {
        vec!["The harness's CSS parser follows CSS Syntax Level 3; outside selectors whitespace only matters next to + and -.".into()]
    }
}

pub struct C05;
impl Prop for C05 {
    type Case = String;
    const ID: &'static str = "C05";
    const RULE: &'static str = "Stylesheets as for C04 with many ordinary and licence comments; the output is tokenized independently. Non-trivial: the source has a comment and whitespace to drop.";
    const CASES: (u64, u64) = (300_000, 30_000_000);
    fn gen(s: &mut Src) -> String {
        css_gen::sheet(s, Opt::default())
    }
    fn check(c: &String, o: &mut Obs) -> Verdict {
        let _ = domain!(c);
        let out = minify!(c);
        let a = css::lex(c);
        let b = css::lex(&out);
        let lic = |t: &[T], src: bool| -> Vec<String> {
            t.iter()
                .filter_map(|x| match x {
                    T::Comment(t) if t.starts_with('!') || (src && t.starts_with('*')) => Some(t[1..].to_string()),
                    _ => None,
                })
                .collect()
        };
        let la = lic(&a.t, true);
        let comments = a.t.iter().filter(|x| matches!(x, T::Comment(_))).count();
        o.nontrivial = comments > 0 && out.len() + 4 < c.len();
        o.label_if(!la.is_empty(), "licences");
        o.label_if(comments > la.len(), "ordinary comments");
        let fail = |m: String| Verdict::Fail(format!("css::minify({}) is {}: {m}", clip(c), clip(&out)));
        if let Some(T::Comment(t)) = b.t.iter().find(|x| matches!(x, T::Comment(t) if !t.starts_with('!'))) {
            return fail(format!("the comment /*{t}*/ is still there"));
        }
        let lb = lic(&b.t, false);
        if la != lb {
            return fail(format!("licences {la:?} became {lb:?}"));
        }
        let stick = |x: &T| matches!(x, T::P('{' | '}' | ';' | ','));
        for (i, x) in b.t.iter().enumerate() {
            let T::Ws(w) = x else { continue };
            let after_licence = i > 0 && matches!(b.t[i - 1], T::Comment(_));
            if after_licence && w == "\n" {
                continue;
            }
            if w != " " {
                return fail(format!("whitespace {w:?} at byte {}", b.at[i]));
            }
            if i == 0 {
                return fail("it starts with whitespace".into());
            }
            if stick(&b.t[i - 1]) || b.t.get(i + 1).is_some_and(stick) {
                return fail(format!("a space next to punctuation at byte {}", b.at[i]));
            }
        }
        Verdict::Ok
    }
    fn to_json(c: &String) -> J {
        src_json(c)
    }
    fn from_json(j: &J) -> String {
        j.str_("source")
    }
}

/// How a sheet was damaged; "" when it was not.
#[derive(Clone)]
pub struct Damaged {
    source: String,
    how: String,
}

pub struct C06;
impl Prop for C06 {
    type Case = Damaged;
    const ID: &'static str = "C06";
    const RULE: &'static str = "Stylesheets as for C04, intact or damaged at a place outside strings, comments, escapes and urls: cut inside the last string or comment, a string or comment opened and never closed, one closing brace too many, a closing square bracket too many, a square bracket inside square brackets. Non-trivial: the sheet was damaged, or has at least 3 rules or declarations.";
    const CASES: (u64, u64) = (300_000, 30_000_000);
    fn gen(s: &mut Src) -> Damaged {
        let source = css_gen::sheet(s, Opt::default());
        let how = s.pick::<&str>(&["", "string", "comment", "brace", "close bracket", "nested bracket", "cut"]).to_string();
        if how.is_empty() {
            return Damaged { source, how };
        }
        let l = css::lex(&source);
        if l.t.contains(&T::Bad) {
            return Damaged { source, how: String::new() };
        }
        // A place between two tokens.
        let i = s.below(l.at.len());
        let at = l.at[i];
        let (a, b) = source.split_at(at);
        let depth = |k: usize| {
            let mut square = 0i32;
            for x in &l.t[..k] {
                match x {
                    T::P('[') => square += 1,
                    T::P(']') => square -= 1,
                    _ => {}
                }
            }
            square
        };
        if a.trim_end().to_ascii_lowercase().ends_with("url(") {
            // What follows would be a url without quotes.
            return Damaged { source: source.clone(), how: String::new() };
        }
        let after_slash = a.ends_with('/') || a.ends_with('\\');
        let source = match how.as_str() {
            "string" => {
                // Without that quote in what follows.
                let q = *s.pick(&['"', '\'']);
                let tail: String = b.chars().filter(|c| *c != q).collect();
                let body = util::any_text(s, 4, 30).replace(q, "");
                if s.chance(1, 2) { format!("{a}{q}{tail}") } else { format!("{a}{q}{body}") }
            }
            "comment" => {
                if after_slash {
                    return Damaged { source: source.clone(), how: String::new() };
                }
                let open = s.pick::<&str>(&["/*", "/*!", "/**", "/* "]);
                let body = css_gen::comment_body(s);
                let tail = b.replace("*/", "*");
                let t = if s.chance(1, 2) { tail } else { body };
                let t = t.trim_end_matches('/').to_string();
                let t = if t.starts_with('/') { format!(" {t}") } else { t };
                let mut t = format!("{open}{t}");
                while t[2..].contains("*/") {
                    t = format!("{}{}", &t[..2], t[2..].replace("*/", "*"));
                }
                format!("{a}{t}")
            }
            "brace" => {
                let d = l.t[..i].iter().fold(0i32, |d, x| match x {
                    T::P('{') => d + 1,
                    T::P('}') => d - 1,
                    _ => d,
                });
                let n = (d + 1 + s.below(2) as i32) as usize;
                format!("{a}{}{b}", "}".repeat(n))
            }
            "close bracket" => format!("{a}{}{b}", "]".repeat((depth(i) + 1) as usize)),
            "nested bracket" => {
                let ks: Vec<usize> = (1..=l.t.len()).filter(|k| depth(*k) > 0).collect();
                if ks.is_empty() {
                    return Damaged { source: source.clone(), how: String::new() };
                }
                let at = l.at[*s.pick(&ks)];
                format!("{}[{}", &source[..at], &source[at..])
            }
            _ => {
                // Inside the last string or comment.
                let Some(k) = l.t.iter().rposition(|x| matches!(x, T::Str(_) | T::Comment(_))) else {
                    return Damaged { source: source.clone(), how: String::new() };
                };
                let (x, y) = (l.at[k], l.at[k + 1]);
                let min = if matches!(l.t[k], T::Str(_)) { 1 } else { 2 };
                let mut e = x + s.range(min, y - x - 1);
                while !source.is_char_boundary(e) {
                    e -= 1;
                }
                source[..e].to_string()
            }
        };
        Damaged { source, how }
    }
    fn check(c: &Damaged, o: &mut Obs) -> Verdict {
        if c.how.is_empty() {
            let a = domain!(&c.source);
            let _ = minify!(&c.source);
            o.nontrivial = count(&a) >= 3;
            o.label("well-formed");
            return Verdict::Ok;
        }
        o.nontrivial = true;
        o.label(match c.how.as_str() {
            "string" => "unclosed string",
            "comment" => "unclosed comment",
            "brace" => "brace too many",
            "cut" => "cut inside the last string or comment",
            "close bracket" => "square bracket too many",
            _ => "nested square brackets",
        });
        match sut_try!("css::minify", vp_api::css_str(&c.source)) {
            Ok(x) => Verdict::Fail(format!("css::minify({}), damaged by: {}, returned {}", clip(&c.source), c.how, clip(&x))),
            Err(_) => Verdict::Ok,
        }
    }
    fn to_json(c: &Damaged) -> J {
        J::obj(vec![("source", J::s(c.source.clone())), ("damage", J::s(c.how.clone()))])
    }
    fn from_json(j: &J) -> Damaged {
        Damaged { source: j.str_("source"), how: j.str_("damage") }
    }
}
