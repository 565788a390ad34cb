//! Properties of every entry point: totality, idempotence, writers, determinism.
use crate::engine::{hash, sut, Obs, Prop, Src, Verdict};
use crate::js_gen::{self, Opt};
use crate::json::J;
use crate::{css_gen, p_json, p_tokens, sut_try, util};
use std::io::{self, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use vp_api::js::{self, ReservedChar, Token};

fn clip(s: &str) -> String {
    let t: String = s.chars().take(500).collect();
    let more = if t.len() < s.len() { format!(".. ({} bytes)", s.len()) } else { String::new() };
    format!("{t:?}{more}")
}

fn js_source(s: &mut Src, o: Opt) -> String {
    let t = js_gen::program(s, o);
    let l = js_gen::layout(s, &t, true);
    js_gen::render(&t, &l)
}

/// Well-formed text of a language.
fn well_formed(s: &mut Src, lang: &str) -> String {
    match lang {
        "json" => p_json::doc(s).source(),
        "css" => css_gen::sheet(s, css_gen::Opt::default()),
        "html" => html_doc(s),
        "js agg" => js_source(s, Opt { agg: true, ..Opt::default() }),
        _ => js_source(s, Opt::default()),
    }
}
#[cfg(feature = "html")]
fn html_doc(s: &mut Src) -> String {
    crate::p_html::any_document(s)
}
#[cfg(not(feature = "html"))]
fn html_doc(s: &mut Src) -> String {
    util::any_text(s, 10, 50)
}
#[cfg(feature = "html")]
fn html_str(s: &str) -> String {
    vp_api::html_str(s)
}
#[cfg(not(feature = "html"))]
fn html_str(s: &str) -> String {
    s.into()
}

fn white(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

/// The entry points, by name. `Err` is an error the library returned.
const ENTRIES: &[&str] = &[
    "json", "json reader", "css", "js", "html", "js list", "js clean", "js clean except", "js replace", "js lookup", "js vars", "js array",
    "js array filter", "js separated",
];

fn run_entry(entry: &str, src: &str) -> Result<String, String> {
    let h = |t: &str| hash(t.as_bytes());
    Ok(match entry {
        "json" => vp_api::json_str(src),
        "json reader" => {
            let mut r = vp_api::json_reader(Box::new(io::Cursor::new(white(src))));
            let mut out = vec![];
            io::Read::read_to_end(&mut r, &mut out).map_err(|e| format!("{:?}", e.kind()))?;
            String::from_utf8_lossy(&out).into_owned()
        }
        "css" => vp_api::css_str(src)?,
        "html" => html_str(src),
        "js" => vp_api::js_str(src)?,
        _ => {
            let t = js::simple_minify(src)?;
            match entry {
                "js list" => format!("{:?}", t.0),
                "js clean" => t.apply(js::clean_tokens).to_string(),
                "js clean except" => vp_api::clean_except(t, &|x| h(&x.to_string()) % 3 == 0).to_string(),
                "js replace" => {
                    vp_api::replace(t, &|x| if h(&x.to_string()) % 3 == 0 { Some(Token::Keyword(js::Keyword::Null)) } else { None }).to_string()
                }
                "js lookup" => {
                    let n = t.len();
                    let mut o = String::new();
                    // Every position of a short list, the first of a long one.
                    for i in 0..n.min(300) {
                        if matches!(t[i], Token::Keyword(js::Keyword::Let | js::Keyword::Var)) {
                            o.push_str(&format!("{:?};", js::get_variable_name_and_value_positions(&t, i)));
                        } else if let Some((a, b)) = js::get_variable_name_and_value_positions(&t, i) {
                            o.push_str(&format!("{i}:{a}:{b:?};"));
                        }
                    }
                    o
                }
                "js vars" => vp_api::vars(t, None).to_string(),
                "js array" => vp_api::array(t, "R", None, None).to_string(),
                "js array filter" => vp_api::array(t, "R", None, Some(&|t: &js::Tokens<'_>, i| h(&t[i].to_string()) % 2 == 0)).to_string(),
                "js separated" => {
                    let x = vp_api::vars(t, Some(Token::Char(ReservedChar::Backline))).to_string();
                    let t = js::simple_minify(src)?;
                    let y = vp_api::array(t, "R", Some(Token::Char(ReservedChar::Backline)), None).to_string();
                    format!("{x}\u{1}{y}")
                }
                _ => String::new(),
            }
        }
    })
}

// ---------------------------------------------------------------- C15

const OPENERS: &[&str] = &[
    "(", "[", "{", "}", "]", ")", "`", "${", "`${", "${`", "/", "//", "/*", "*/", "/*!", "\"", "'", "\\", "\\\\", "<!--", "-->", "<", ">", "<a ", "</",
    "@", "@media{", "a{", "calc(", "url(", ":not(", "[a=", ";", ",", "=", "+", "-", "!", ".", "..", "1.", "#", "\n", "\r\n", " ", "\t", "\u{c}", "é",
    "😀", "\u{2028}", "var ", "var a=", "let a=[", "function(){", "return ", "/a/", "=/", "\"use strict\";", "'x',", "\"abc\"", "<script>", "<style>",
    "</script>", "<pre>", "a:", "u+", "?", "=>", "&&", "${}", "\\u", "\\x", "{\"a\":", "[1,", "\"\\\"", "const R=[", "class ", "async", "0x", "1e",
    "<!--[", "<![endif]-->", "width=\"1\"", "type=\"text/css\"", "\0", "\u{feff}", "\u{7f}",
];

fn damage(s: &mut Src, text: String) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..1 + s.len(2, 12) {
        let n = c.len();
        let i = s.below(n + 1);
        match s.weighted(&[4, 3, 3, 4, 2, 2, 2]) {
            0 => {
                let e = (i + 1 + s.len(1, 20)).min(n);
                if i < e {
                    c.drain(i..e);
                }
            }
            1 => {
                let t = s.pick::<&str>(OPENERS);
                c.splice(i..i, t.chars());
            }
            2 => {
                let x = util::any_char(s);
                c.insert(i, x);
            }
            3 => c.truncate(i),
            4 => {
                c.drain(..i);
            }
            5 => {
                let e = (i + 1 + s.len(3, 40)).min(n);
                let d: Vec<char> = c[i.min(e)..e].to_vec();
                let j = s.below(c.len() + 1);
                c.splice(j..j, d);
            }
            _ => {
                if i < n {
                    c[i] = util::any_char(s);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// Nested deeper than any stack allows for, if it is used for the nesting.
const NESTED: &[&str] = &[
    "`${", "`${{", "`${[", "`${(", "`${{a:", "`${f({b:", "`${'}'+", "`${/*}*/", "`a${b}${", "`${x=>{", "(", "[", "{", "({", "[{", "f(", "a?", "x=>{", "(a,", "{a:",
    "@media a{", "a{", "calc(", ":not(", ":is(.a,", "var(--a,", "[a", "@a(", "url(", "\\(", "<a>", "<li>", "<a b=\"", "<div><!--", "<!--[", "[{\"a\":", "\"\\",
];
fn nested(s: &mut Src) -> String {
    let mut unit = String::new();
    for _ in 0..1 + s.below(2) {
        unit.push_str(s.pick::<&str>(NESTED));
    }
    let n = *s.pick(&[900, 1100, 3000, 60_000]);
    let start = *s.pick(&["", "a", "a=", "(", "<p>"]);
    let end = if s.chance(1, 2) { util::any_text(s, 1, 4) } else { unit.chars().rev().map(|c| match c {
        '(' => ')', '[' => ']', '{' => '}', c => c }).collect::<String>().repeat(n) };
    format!("{start}{}{end}", unit.repeat(n))
}

/// A well-formed text of some hundred kilobytes, part of which is the same over and over.
fn large(s: &mut Src, entry: &str) -> String {
    let (lang, sep) = match entry {
        "json" | "json reader" => ("json", ",\n"),
        "css" => ("css", "\n"),
        "html" => ("html", " "),
        "js vars" | "js array" | "js array filter" | "js separated" => ("js agg", "\n;"),
        _ => ("js", "\n;"),
    };
    let mut o = String::new();
    let size = *s.pick(&[50_000, 200_000, 600_000]);
    let mut n = 0;
    while o.len() < size && n < 40 {
        let mut unit = well_formed(s, lang);
        if unit.trim().is_empty() {
            unit = "a ".into();
        }
        unit.push_str(sep);
        n += 1;
        o.push_str(&unit);
        if s.chance(1, 3) {
            o.push_str(&unit.repeat(size / 3 / unit.len()));
        }
    }
    o
}

/// Deep or long: one or two patterns many times over.
fn deep(s: &mut Src) -> String {
    let pat = |s: &mut Src| {
        let n = 1 + s.below(3);
        (0..n).map(|_| if s.chance(1, 6) { util::dict_string(s) } else { *s.pick(OPENERS) }).collect::<String>()
    };
    let a = pat(s);
    let mid = if s.chance(1, 2) { pat(s) } else { util::any_text(s, 2, 10) };
    let b = if s.chance(1, 2) { pat(s) } else { String::new() };
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.below(60),
        1 => s.below(700),
        _ => s.below(4000),
    };
    format!("{}{mid}{}", a.repeat(n), b.repeat(n))
}

#[derive(Clone)]
pub struct Total {
    entry: String,
    /// The text is `unit` repeated `times`, then `tail`: long inputs stay readable.
    source: String,
}

static CASE_START: AtomicU64 = AtomicU64::new(u64::MAX);
/// CPU time of this process in milliseconds.
fn cpu_ms() -> u64 {
    let t = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    // utime and stime, in ticks of 10 ms.
    (g(11) + g(12)) * 10
}
const HANG_MS: u64 = 40_000;

pub struct C15;
impl Prop for C15 {
    type Case = Total;
    const ID: &'static str = "C15";
    const RULE: &'static str = "Entry points (JSON string and reader, CSS, HTML, JS minifiers, token list, cleaning, replacing, looking up, aggregating) on well-formed text of any language with 1 to 13 cuts, insertions, repetitions and replacements, on sequences of fragments, on arbitrary characters, and on patterns repeated up to 4000 times; a panic, a crash of the process, or 40 s of CPU time for one input is a failure. Non-trivial: the text has at least 3 characters.";
    const CASES: (u64, u64) = (150_000, 40_000_000);
    fn gen(s: &mut Src) -> Total {
        let entry = match s.weighted(&[3, 2, 10, 10, 1, 3, 3, 2, 2, 4, 5, 5, 2, 2]) {
            i => ENTRIES[i].to_string(),
        };
        let lang = |s: &mut Src, e: &str| -> String {
            if s.chance(1, 12) {
                return s.pick::<&str>(&["json", "css", "js", "js agg"]).to_string();
            }
            match e {
                "json" | "json reader" => "json",
                "css" => "css",
                "html" => "html",
                "js vars" | "js array" | "js array filter" | "js separated" => "js agg",
                _ => "js",
            }
            .to_string()
        };
        let source = match s.weighted(&[8, 3, 2, 2]) {
            0 => {
                let l = lang(s, &entry);
                let t = well_formed(s, &l);
                damage(s, t)
            }
            1 => {
                let mut o = String::new();
                for _ in 0..s.len(8, 60) {
                    match s.weighted(&[6, 2, 2, 1]) {
                        0 => o.push_str(s.pick::<&str>(OPENERS)),
                        1 => o.push(util::any_char(s)),
                        2 => o.push_str(util::dict_string(s)),
                        _ => o.push_str(&p_tokens::soup(s)),
                    }
                }
                o
            }
            2 => util::any_text(s, 12, 200),
            _ if s.chance(1, 60) => nested(s),
            _ if s.chance(1, 60) => return Total { source: large(s, &entry), entry },
            _ => deep(s),
        };
        let source = if entry == "html" && source.len() > 20_000 { source.chars().take(3000).collect() } else { source };
        Total { entry, source }
    }
    fn check(c: &Total, o: &mut Obs) -> Verdict {
        o.nontrivial = c.source.chars().count() >= 3;
        o.label_if(c.source.len() > 2000, "long");
        let i = ENTRIES.iter().position(|e| *e == c.entry).unwrap_or(0);
        o.label(ENTRIES[i]);
        CASE_START.store(cpu_ms(), Ordering::SeqCst);
        let r = sut(|| run_entry(&c.entry, &c.source));
        CASE_START.store(u64::MAX, Ordering::SeqCst);
        match r {
            Ok(Ok(_)) => {
                o.label("a value");
                Verdict::Ok
            }
            Ok(Err(_)) => {
                o.label("an error");
                Verdict::Ok
            }
            Err(m) => Verdict::Fail(format!("{} on {} {m}", c.entry, clip(&c.source))),
        }
    }
    fn to_json(c: &Total) -> J {
        J::obj(vec![("entry", J::s(c.entry.clone())), ("source", J::s(c.source.clone()))])
    }
    fn from_json(j: &J) -> Total {
        Total { entry: j.str_("entry"), source: j.str_("source") }
    }
    fn setup() {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let st = CASE_START.load(Ordering::SeqCst);
            if st != u64::MAX && cpu_ms().saturating_sub(st) > HANG_MS && CASE_START.load(Ordering::SeqCst) == st {
                eprintln!("one input took more than {} s", HANG_MS / 1000);
                std::process::abort();
            }
        });
    }
    fn assumptions() -> Vec<String> {
        vec!["The worker's 8 MiB stack; an input that takes 40 s of CPU time counts as a hang.".into()]
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone)]
pub struct Lang {
    lang: String,
    source: String,
}
fn lang_json(c: &Lang) -> J {
    J::obj(vec![("lang", J::s(c.lang.clone())), ("source", J::s(c.source.clone()))])
}
fn lang_from(j: &J) -> Lang {
    Lang { lang: j.str_("lang"), source: j.str_("source") }
}

/// Asked before a failure counts.
fn in_domain(lang: &str, src: &str) -> bool {
    match lang {
        "js" => crate::p_js::valid_js(src),
        "css" => crate::css::parse(src).is_ok(),
        #[cfg(feature = "html")]
        "html" => crate::html::lex(src).is_ok_and(|l| {
            l.t.iter().all(|x| match x {
                crate::html::T::Start { attrs, .. } => (0..attrs.len()).all(|i| attrs[..i].iter().all(|y| y.0 != attrs[i].0)),
                _ => true,
            })
        }),
        _ => true,
    }
}

pub struct C16;
impl Prop for C16 {
    type Case = Lang;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Well-formed JSON, CSS, JS and HTML texts from the grammars of C01, C04, C07 and C13/C14, minified twice. Non-trivial: the first minification changed the text.";
    const CASES: (u64, u64) = (80_000, 10_000_000);
    fn gen(s: &mut Src) -> Lang {
        let lang = ["js", "css", "json", "html"][s.weighted(&[10, 8, 3, if cfg!(feature = "html") { 1 } else { 0 }])].to_string();
        let source = well_formed(s, &lang);
        Lang { lang, source }
    }
    fn check(c: &Lang, o: &mut Obs) -> Verdict {
        let l = ["js", "css", "json", "html"].iter().find(|x| **x == c.lang).copied().unwrap_or("js");
        o.label(l);
        let one = match sut_try!(l, run_entry(l, &c.source)) {
            Ok(x) => x,
            Err(_) => return Verdict::Discard("refused"),
        };
        o.nontrivial = one != c.source;
        let two = match sut_try!(l, run_entry(l, &one)) {
            Ok(x) => x,
            Err(_) if !in_domain(l, &c.source) => return Verdict::Discard("the source is not well-formed"),
            Err(e) => return Verdict::Fail(format!("{l}: {} minifies to {}, which is then refused: {e}", clip(&c.source), clip(&one))),
        };
        if one != two {
            if !in_domain(l, &c.source) {
                return Verdict::Discard("the source is not well-formed");
            }
            return Verdict::Fail(format!("{l}: {} minifies to {}, and that to {}", clip(&c.source), clip(&one), clip(&two)));
        }
        Verdict::Ok
    }
    fn to_json(c: &Lang) -> J {
        lang_json(c)
    }
    fn from_json(j: &J) -> Lang {
        lang_from(j)
    }
}

// ---------------------------------------------------------------- C25

pub struct C25;
impl Prop for C25 {
    type Case = Lang;
    const ID: &'static str = "C25";
    const RULE: &'static str = "Well-formed JSON, CSS, JS and HTML texts as for C16, the same with pieces cut, doubled or swapped, and texts of any characters. Non-trivial: the output differs from the source.";
    const CASES: (u64, u64) = (150_000, 15_000_000);
    fn gen(s: &mut Src) -> Lang {
        let lang = ["js", "css", "json", "html"][s.weighted(&[10, 10, 3, if cfg!(feature = "html") { 1 } else { 0 }])].to_string();
        let source = match s.below(4) {
            0 => {
                let t = well_formed(s, &lang);
                damage(s, t)
            }
            1 => match lang.as_str() {
                "js" => p_tokens::soup(s),
                _ => util::any_text(s, 12, 200),
            },
            _ => well_formed(s, &lang),
        };
        Lang { lang, source }
    }
    fn check(c: &Lang, o: &mut Obs) -> Verdict {
        let l = ["js", "css", "json", "html"].iter().find(|x| **x == c.lang).copied().unwrap_or("js");
        o.label(l);
        let Ok(out) = sut_try!(l, run_entry(l, &c.source)) else { return Verdict::Discard("refused") };
        o.nontrivial = out != c.source;
        // A licence comment takes the line break after it, the name of an at-rule the space after it.
        let more = match l {
            "js" => out.matches("/*!").count(),
            "css" => out.matches("/*!").count() + out.matches('@').count(),
            _ => 0,
        };
        if out.len() > c.source.len() + more {
            // HTML-like comments are not supported.
            if l == "js" && (c.source.contains("<!--") || c.source.contains("-->") || !in_domain(l, &c.source)) {
                return Verdict::Discard("the source is not well-formed");
            }
            return Verdict::Fail(format!("{l}: {} has {} bytes and minifies to {} with {}", clip(&c.source), c.source.len(), clip(&out), out.len()));
        }
        Verdict::Ok
    }
    fn to_json(c: &Lang) -> J {
        lang_json(c)
    }
    fn from_json(j: &J) -> Lang {
        lang_from(j)
    }
}

// ---------------------------------------------------------------- C28

#[derive(Clone)]
pub struct Two {
    lang: String,
    first: String,
    second: String,
}

pub struct C28;
impl Prop for C28 {
    type Case = Two;
    const ID: &'static str = "C28";
    const RULE: &'static str = "Two well-formed JSON, CSS, JS or HTML texts as for C16 (HTML without pre and textarea), one behind the other with a neutral piece between them, against each of them next to the neutral piece only. Non-trivial: the minifier changes both.";
    const CASES: (u64, u64) = (60_000, 8_000_000);
    fn gen(s: &mut Src) -> Two {
        let lang = ["js", "css", "json", "html"][s.weighted(&[10, 12, 3, if cfg!(feature = "html") { 1 } else { 0 }])].to_string();
        let first = well_formed(s, &lang);
        let second = well_formed(s, &lang);
        Two { lang, first, second }
    }
    fn check(c: &Two, o: &mut Obs) -> Verdict {
        let l = ["js", "css", "json", "html"].iter().find(|x| **x == c.lang).copied().unwrap_or("js");
        o.label(l);
        // What ends the first piece, the neutral piece, what begins the second piece.
        let (end, n, begin) = match l {
            "js" => ("\n;", "N0_", ";\n"),
            "css" => ("\n", "n{m:o}", "\n"),
            "html" => ("", "<i>N</i>", ""),
            _ => (" ", "0", " "),
        };
        let (a, b) = (&c.first, &c.second);
        if l == "html" && [a, b].iter().any(|x| x.to_lowercase().contains("<pre") || x.to_lowercase().contains("<textarea")) {
            return Verdict::Discard("the white space of the whole text stays because of a pre or textarea");
        }
        if b.starts_with("#!") {
            return Verdict::Discard("a hashbang");
        }
        let run = |t: &str| run_entry(l, t);
        let both = format!("{a}{end}{n}{begin}{b}");
        let (Ok(left), Ok(right)) = (sut_try!(l, run(&format!("{a}{end}{n}"))), sut_try!(l, run(&format!("{n}{begin}{b}")))) else {
            return Verdict::Discard("refused");
        };
        let got = match sut_try!(l, run(&both)) {
            Ok(x) => x,
            Err(_) if !in_domain(l, a) || !in_domain(l, b) => return Verdict::Discard("a source is not well-formed"),
            Err(e) => return Verdict::Fail(format!("{l}: {} and {} are accepted, but not one behind the other: {e}", clip(a), clip(b))),
        };
        o.nontrivial = left.len() < a.len() + n.len() && right.len() < b.len() + n.len();
        let Some(rest) = right.strip_prefix(n).filter(|_| left.ends_with(n)) else {
            if !in_domain(l, a) || !in_domain(l, b) {
                return Verdict::Discard("a source is not well-formed");
            }
            return Verdict::Fail(format!("{l}: {n} does not stay at the edge: {} before it gives {}, {} behind it {}", clip(a), clip(&left), clip(b), clip(&right)));
        };
        let want = format!("{left}{rest}");
        if got != want {
            if !in_domain(l, a) || !in_domain(l, b) {
                return Verdict::Discard("a source is not well-formed");
            }
            return Verdict::Fail(format!("{l}: {} and {} one behind the other are minified to {}, each for itself to {}", clip(a), clip(b), clip(&got), clip(&want)));
        }
        Verdict::Ok
    }
    fn to_json(c: &Two) -> J {
        J::obj(vec![("lang", J::s(c.lang.clone())), ("first", J::s(c.first.clone())), ("second", J::s(c.second.clone()))])
    }
    fn from_json(j: &J) -> Two {
        Two { lang: j.str_("lang"), first: j.str_("first"), second: j.str_("second") }
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone)]
pub struct Written {
    lang: String,
    source: String,
    /// Bytes accepted per call, in turn; 0: the call is interrupted.
    accept: Vec<usize>,
    /// Fails once that many bytes were accepted; the second number says how.
    fail: Option<(usize, usize)>,
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::StorageFull,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    // Stands for a writer that accepts nothing.
    io::ErrorKind::WriteZero,
];

struct Scripted<'a> {
    c: &'a Written,
    got: Vec<u8>,
    calls: usize,
    failed: usize,
}
impl Write for Scripted<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let left = self.c.fail.map_or(usize::MAX, |(at, _)| at.saturating_sub(self.got.len()));
        if left == 0 && !b.is_empty() {
            self.failed += 1;
            let k = KINDS[self.c.fail.unwrap().1 % KINDS.len()];
            return if k == io::ErrorKind::WriteZero { Ok(0) } else { Err(io::Error::new(k, "injected")) };
        }
        let n = if self.c.accept.is_empty() { usize::MAX } else { self.c.accept[self.calls % self.c.accept.len()] };
        self.calls += 1;
        if n == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = n.min(b.len()).min(left);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct C17;
impl Prop for C17 {
    type Case = Written;
    const ID: &'static str = "C17";
    const RULE: &'static str = "Texts of JSON, CSS and JS, well-formed or damaged, written into a scripted writer: number of bytes accepted per call, interrupted calls, and a failure of one of 8 kinds after any number of bytes. Non-trivial: the writer did not just accept everything.";
    const CASES: (u64, u64) = (300_000, 30_000_000);
    fn gen(s: &mut Src) -> Written {
        let lang = s.pick::<&str>(&["js", "css", "json"]).to_string();
        let source = match s.weighted(&[4, 3, 1]) {
            0 => well_formed(s, &lang),
            1 => {
                let t = well_formed(s, &lang);
                damage(s, t)
            }
            _ => util::any_text(s, 10, 100),
        };
        let mut accept: Vec<usize> = (0..s.len(3, 10)).map(|_| [1, 2, 0, 3, 7, 1000][s.weighted(&[4, 3, 3, 2, 1, 1])]).collect();
        if accept.iter().all(|x| *x == 0) {
            accept.clear();
        }
        let fail = s.chance(1, 2).then(|| (s.below(source.len() + 2), s.below(KINDS.len())));
        Written { lang, source, accept, fail }
    }
    fn check(c: &Written, o: &mut Obs) -> Verdict {
        o.nontrivial = c.fail.is_some() || !c.accept.is_empty();
        let l = ["js", "css", "json"].iter().find(|x| **x == c.lang).copied().unwrap_or("js");
        o.label(l);
        let want = match sut_try!(l, run_entry(l, &c.source)) {
            Ok(x) => x,
            Err(_) => return Verdict::Discard("refused"),
        };
        let mut w = Scripted { c, got: vec![], calls: 0, failed: 0 };
        let r = sut_try!(
            format!("write of {} into {:?}", clip(&c.source), (&c.accept, c.fail)),
            match l {
                "json" => Ok(vp_api::json_write(&c.source, &mut w)),
                "css" => vp_api::css_write(&c.source, &mut w),
                _ => vp_api::js_write(&c.source, &mut w),
            }
        );
        let fail = |m: String| Verdict::Fail(format!("{l}: writing {} into a writer that accepts {:?} and fails {:?}: {m}", clip(&c.source), c.accept, c.fail));
        let r = match r {
            Ok(r) => r,
            Err(e) => return fail(format!("refused: {e}")),
        };
        let got = String::from_utf8_lossy(&w.got).into_owned();
        let should_fail = c.fail.is_some_and(|(at, _)| at < want.len());
        match r {
            Ok(()) if should_fail => fail("it returned Ok".into()),
            Ok(()) if got != want => fail(format!("wrote {}, to_string is {}", clip(&got), clip(&want))),
            Ok(()) => {
                o.label("written");
                Verdict::Ok
            }
            Err(e) if !should_fail => fail(format!("it returned the error {e}")),
            Err(e) => {
                o.label("failure reported");
                let (at, k) = c.fail.unwrap();
                let k = KINDS[k % KINDS.len()];
                if e.kind() != k || (k != io::ErrorKind::WriteZero && e.to_string() != "injected") {
                    return fail(format!("the failure {k:?} became {e:?}"));
                }
                if w.got[..] != want.as_bytes()[..at] {
                    return fail(format!("wrote {} before the failure, to_string is {}", clip(&got), clip(&want)));
                }
                if w.failed != 1 {
                    return fail(format!("{} calls failed: it went on writing after the failure", w.failed));
                }
                Verdict::Ok
            }
        }
    }
    fn to_json(c: &Written) -> J {
        J::obj(vec![
            ("lang", J::s(c.lang.clone())),
            ("source", J::s(c.source.clone())),
            ("accept", J::Arr(c.accept.iter().map(|x| J::n(*x as i64)).collect())),
            ("fail", c.fail.map_or(J::Null, |(a, k)| J::Arr(vec![J::n(a as i64), J::n(k as i64)]))),
        ])
    }
    fn from_json(j: &J) -> Written {
        let v: Vec<usize> = j.arr("fail").iter().map(|x| x.as_int() as usize).collect();
        Written {
            lang: j.str_("lang"),
            source: j.str_("source"),
            accept: j.arr("accept").iter().map(|x| x.as_int() as usize).collect(),
            fail: (v.len() == 2).then(|| (v[0], v[1])),
        }
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone)]
pub struct Calls {
    /// Entry point and text.
    calls: Vec<(String, String)>,
    /// The order in which they are made, with repetitions.
    order: Vec<usize>,
    threads: usize,
    process: bool,
}

fn outcome(c: &(String, String)) -> Result<String, String> {
    match sut(|| run_entry(&c.0, &c.1)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}
fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, f).expect("thread").join().expect("thread"))
}
/// The last line of a file of calls, one outcome hash each: run in another process.
pub fn digest(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("calls");
    for l in t.lines() {
        let j = J::parse(l).expect("call");
        println!("{:x}", hash(format!("{:?}", outcome(&(j.str_("entry"), j.str_("source")))).as_bytes()));
    }
    0
}

/// Many strings, repeated as often as one another: ties for the aggregation to break.
fn tied(s: &mut Src) -> String {
    let n = 2 + s.below(8);
    let times = 2 + s.below(4);
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let len = 3 + s.below(3) + 8 * s.below(2);
        let w: String = (0..len).map(|k| (b'a' + ((i * 7 + k * 3 + s.below(2)) % 26) as u8) as char).collect();
        for _ in 0..times + s.below(2) {
            v.push(w.clone());
        }
    }
    let mut o = String::new();
    while !v.is_empty() {
        let i = s.below(v.len());
        let w = v.swap_remove(i);
        match s.below(4) {
            0 => o.push_str(&format!("f(\"{w}\");")),
            1 => o.push_str(&format!("x='{w}';")),
            2 => o.push_str(&format!("var v{i}=\"{w}\";")),
            _ => o.push_str(&format!("{{g(\"{w}\",1)}}")),
        }
    }
    o
}

pub struct C18;
impl Prop for C18 {
    type Case = Calls;
    const ID: &'static str = "C18";
    const RULE: &'static str = "Histories of calls of any entry points on texts that are well-formed, damaged, or full of strings that tie for aggregation; each call is repeated between the others, on other threads at the same time, and for some cases in another process. Non-trivial: at least two calls of an aggregation with at least two strings, or three entry points.";
    const CASES: (u64, u64) = (30_000, 6_000_000);
    fn gen(s: &mut Src) -> Calls {
        let n = 1 + s.below(4);
        let mut calls = vec![];
        for _ in 0..n {
            let e = match s.weighted(&[10, 10, 6, 6, 3, 3, 3, 3, 1, 1, 1]) {
                0 => "js vars",
                1 => "js array",
                2 => "js separated",
                3 => "js array filter",
                4 => "js",
                5 => "css",
                6 => "json",
                7 => "js lookup",
                8 => "js clean except",
                9 => "json reader",
                _ => "html",
            };
            let src = match e {
                "js vars" | "js array" | "js separated" | "js array filter" => {
                    if s.chance(2, 3) { tied(s) } else { well_formed(s, "js agg") }
                }
                e => {
                    let l = if e.starts_with("json") { "json" } else if e == "html" || e == "css" { e } else { "js" };
                    match s.weighted(&[9, 3, 1, 1]) {
                        0 => well_formed(s, l),
                        1 => {
                            let t = well_formed(s, l);
                            damage(s, t)
                        }
                        // A call that goes wrong late, or deep inside.
                        2 => s.pick::<&str>(&["`${", "f(`a${b+`", "{[(", "'", "/*", "a{b:url(\"", "[", "}", "\"a"]).repeat(1 + s.below(3000)),
                        // Nested a bit.
                        _ if l == "js" => format!("x={};", (0..1 + s.below(5)).fold("y".to_string(), |t, _| format!("`a${{f({t})}}b`"))),
                        _ => well_formed(s, l),
                    }
                }
            };
            calls.push((e.to_string(), src));
        }
        let order = (0..2 * n + s.below(6)).map(|_| s.below(n)).collect();
        let threads = if s.chance(1, 4) { 2 + s.below(3) } else { 0 };
        let process = s.chance(1, 10);
        Calls { calls, order, threads, process }
    }
    fn check(c: &Calls, o: &mut Obs) -> Verdict {
        let agg = c.calls.iter().filter(|x| x.0.contains("vars") || x.0.contains("array") || x.0.contains("sep")).any(|x| x.1.matches(['"', '\'']).count() >= 4);
        o.nontrivial = agg || c.calls.len() >= 3;
        o.label_if(c.threads > 0, "threads");
        o.label_if(c.process, "another process");
        o.label_if(agg, "aggregation");
        // Each call alone on a thread that made none before.
        let alone = |x: &(String, String)| on_thread(|| outcome(x));
        let first: Vec<Result<String, String>> = c.calls.iter().map(alone).collect();
        let bad = |i: usize, got: &Result<String, String>, how: &str| -> Option<Verdict> {
            (first[i] != *got).then(|| {
                let f = |x: &Result<String, String>| match x {
                    Ok(x) => clip(x),
                    Err(e) => format!("the error {e}"),
                };
                Verdict::Fail(format!("{} on {} gave {}, and {how} {}", c.calls[i].0, clip(&c.calls[i].1), f(&first[i]), f(got)))
            })
        };
        // The history on one thread, then other addresses for the same texts.
        let history: Vec<(usize, Result<String, String>)> = on_thread(|| c.order.iter().map(|i| (*i, outcome(&c.calls[*i]))).collect());
        for (i, r) in &history {
            if let Some(v) = bad(*i, r, "after other calls") {
                return v;
            }
        }
        for i in 0..c.calls.len() {
            let copy = (c.calls[i].0.clone(), format!("{}{}", c.calls[i].1, "").into_boxed_str().into_string());
            if let Some(v) = bad(i, &on_thread(|| outcome(&copy)), "for a copy") {
                return v;
            }
        }
        if c.threads > 0 {
            let all: Vec<Vec<Result<String, String>>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..c.threads).map(|_| sc.spawn(|| c.calls.iter().map(outcome).collect())).collect();
                hs.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            for r in all {
                for (i, x) in r.iter().enumerate() {
                    if let Some(v) = bad(i, x, "on another thread") {
                        return v;
                    }
                }
            }
        }
        if c.process {
            let f = format!("{}/calls-{}.jsonl", crate::scratch(), std::process::id());
            let t: String = c.calls.iter().rev().map(|(e, s)| J::obj(vec![("entry", J::s(e.clone())), ("source", J::s(s.clone()))]).dump() + "\n").collect();
            std::fs::write(&f, t).expect("calls file");
            let out = std::process::Command::new(std::env::current_exe().expect("own path")).args(["digest", &f]).output().expect("another process");
            let _ = std::fs::remove_file(&f);
            if !out.status.success() {
                panic!("the other process failed: {}", String::from_utf8_lossy(&out.stderr));
            }
            // The other process makes the calls in reverse order.
            for (i, l) in String::from_utf8_lossy(&out.stdout).lines().rev().enumerate() {
                if l != format!("{:x}", hash(format!("{:?}", first[i]).as_bytes())) {
                    return Verdict::Fail(format!("{} on {} gave {:?}, and something else in another process", c.calls[i].0, clip(&c.calls[i].1), first[i]));
                }
            }
        }
        Verdict::Ok
    }
    fn to_json(c: &Calls) -> J {
        J::obj(vec![
            ("calls", J::Arr(c.calls.iter().map(|(e, s)| J::obj(vec![("entry", J::s(e.clone())), ("source", J::s(s.clone()))])).collect())),
            ("order", J::Arr(c.order.iter().map(|x| J::n(*x as i64)).collect())),
            ("threads", J::n(c.threads as i64)),
            ("process", J::n(c.process as i64)),
        ])
    }
    fn from_json(j: &J) -> Calls {
        Calls {
            calls: j.arr("calls").iter().map(|x| (x.str_("entry"), x.str_("source"))).collect(),
            order: j.arr("order").iter().map(|x| x.as_int() as usize).collect(),
            threads: j.int("threads") as usize,
            process: j.int("process") != 0,
        }
    }
}

// ---------------------------------------------------------------- C27

/// Stands for the number of the repetition.
const NUMBER: char = '\u{1}';
const NUMBERED: &[&str] = &[
    "a\u{1}", " r_\u{1} ", "\"abcdef\u{1}\"", "'abc\u{1}'", "f(\"abcdefgh\u{1}\",\"abcdefgh\u{1}\");", "var a\u{1}=", "let r_\u{1}=\"abcdef\u{1}\";", "/*\u{1}*/",
    "/*!\u{1}*/", "//\u{1}\n", "`${a\u{1}}`", ".a\u{1}", "#a\u{1}", "<p\u{1}>", "<a b\u{1}=\"c\">", "\u{1}px", "\u{1}", "a\u{1}:", "--a\u{1}:", "R[\u{1}]", "{\"a\u{1}\":", ",\u{1}",
    "/a\u{1}/", "\"abcdefghijkl\u{1}\",", "const R=[\"abcdef\u{1}\"];",
];
const GROWING: &[&str] = &[
    "json", "json reader", "css", "js", "html", "js list", "js clean", "js clean except", "js replace", "js lookup", "js vars", "js array",
    "js array filter", "js separated",
];

/// `start`, then `unit` over and over, then `end`, then `unit2` over and over if it isn't empty.
#[derive(Clone)]
pub struct Repeated {
    entry: String,
    start: String,
    unit: String,
    end: String,
    unit2: String,
}
impl Repeated {
    fn text(&self, len: usize) -> String {
        let mut o = self.start.clone();
        let add = |unit: &str, len: usize, o: &mut String| {
            let before = o.len();
            let mut n = 0;
            while o.len() - before < len {
                if unit.contains(NUMBER) {
                    o.push_str(&unit.replace(NUMBER, &n.to_string()));
                    n += 1;
                } else {
                    o.push_str(&unit.repeat(len / unit.len() + 1));
                }
            }
        };
        if self.unit2.is_empty() {
            add(&self.unit, len, &mut o);
            o.push_str(&self.end);
        } else {
            add(&self.unit, len / 2, &mut o);
            o.push_str(&self.end);
            add(&self.unit2, len / 2, &mut o);
        }
        o
    }
}
const SHORT: usize = 100_000;
const LONG: usize = 400_000;
/// A time under this is never too long for the long text, nor is an amount of memory under that.
const FREE_MS: u64 = 800;
const FREE_BYTES: usize = 400 << 20;

pub struct C27;
impl Prop for C27 {
    type Case = Repeated;
    const ID: &'static str = "C27";
    const RULE: &'static str = "Entry points as for C15 on texts of 400 KB made of one unit over and over, which is 1 to 5 fragments (delimiters, keywords, strings, comments, tags, some of them numbered, or well-formed text of the language), with something else before and after, at times followed by a second such repetition or within brackets. A failure: 0.8 s of CPU time or 400 MiB of memory, and 7 times what a text of 100 KB takes (the least of three runs). Non-trivial: the unit is at most 2 KB.";
    const CASES: (u64, u64) = (12_000, 2_000_000);
    fn gen(s: &mut Src) -> Repeated {
        let entry = GROWING[s.weighted(&[2, 1, 8, 8, 4, 1, 2, 2, 2, 1, 6, 6, 2, 2])].to_string();
        let lang = match entry.as_str() {
            "json" | "json reader" => "json",
            "css" => "css",
            "html" => "html",
            "js vars" | "js array" | "js array filter" | "js separated" => "js agg",
            _ => "js",
        };
        let part = |s: &mut Src| match s.weighted(&[10, 6, 2, 1]) {
            0 => s.pick::<&str>(OPENERS).to_string(),
            1 => s.pick::<&str>(NUMBERED).to_string(),
            2 => util::dict_string(s).to_string(),
            _ => util::any_text(s, 2, 6),
        };
        let unit = |s: &mut Src| {
            let mut unit = String::new();
            if s.chance(1, 6) {
                unit = well_formed(s, lang);
                if s.chance(1, 2) {
                    unit = damage(s, unit);
                }
                unit.push_str(*s.pick(&["\n", ";", " ", ""]));
            } else {
                for _ in 0..1 + s.below(5) {
                    unit.push_str(&part(s));
                }
            }
            if unit.is_empty() {
                unit.push('a');
            }
            unit
        };
        let side = |s: &mut Src| {
            let mut o = String::new();
            for _ in 0..s.below(3) {
                o.push_str(&part(s).replace(NUMBER, "0"));
            }
            o
        };
        let one = unit(s);
        let (mut c, two) = (Repeated { entry, start: side(s), unit: one, end: side(s), unit2: String::new() }, s.chance(1, 3));
        if two {
            c.unit2 = unit(s);
        }
        if s.chance(1, 10) {
            // Something long that is open, closed before the rest.
            let (a, sep, b) = *s.pick(&[
                ("var R=[", ",", "];"), ("f(", ",", ");"), ("var ", ",", ";"), ("{", ";", "}"), ("({", ",", "});"), ("`", "", "`;"), ("a{", ";", "}"), ("@media a{", "", "}"),
                (":is(", ",", "){a:b}"), ("a{b:f(", ",", ")}"), ("<a ", " ", ">"), ("<ul>", "<li>", "</ul>"), ("<!--", "", "-->"), ("<pre>", "", "</pre>"), ("[", ",", "]"), ("/*", "", "*/"),
            ]);
            c.start = a.into();
            c.unit.push_str(sep);
            c.end = b.into();
        }
        c
    }
    fn check(c: &Repeated, o: &mut Obs) -> Verdict {
        o.nontrivial = c.unit.len() + c.unit2.len() <= 2000;
        o.label(GROWING[GROWING.iter().position(|e| *e == c.entry).unwrap_or(0)]);
        let mut broken = None;
        let mut run = |text: &str| {
            let start = cpu_ms();
            CASE_START.store(start, Ordering::SeqCst);
            let (r, peak) = util::peak_memory(|| sut(|| run_entry(&c.entry, text)));
            CASE_START.store(u64::MAX, Ordering::SeqCst);
            match r {
                // C15 is about panics.
                Err(_) => broken = Some("a panic"),
                Ok(Err(_)) => broken = Some("an error"),
                Ok(Ok(_)) => {}
            }
            (cpu_ms() - start, peak)
        };
        let (short, long) = (c.text(SHORT.max(2 * c.unit.len().max(c.unit2.len()))), c.text(LONG.max(8 * c.unit.len().max(c.unit2.len()))));
        let (mut ms, mut bytes) = run(&long);
        let mut verdict = Verdict::Ok;
        if ms >= FREE_MS || bytes >= FREE_BYTES {
            let (mut ms_short, mut bytes_short) = run(&short);
            for _ in 0..if ms < 10 * FREE_MS { 2 } else { 0 } {
                let (m, b) = run(&long);
                (ms, bytes) = (ms.min(m), bytes.min(b));
                let (m, b) = run(&short);
                (ms_short, bytes_short) = (ms_short.min(m), bytes_short.min(b));
            }
            let what = format!("{} on {}, {} over and over, {}, {} over and over,", c.entry, clip(&c.start), clip(&c.unit), clip(&c.end), clip(&c.unit2));
            if ms >= FREE_MS && ms > 7 * ms_short.max(1) {
                verdict = Verdict::Fail(format!("{what} takes {ms} ms for {} bytes but {ms_short} ms for {}", long.len(), short.len()));
            } else if bytes >= FREE_BYTES && bytes > 7 * bytes_short {
                verdict = Verdict::Fail(format!("{what} takes {bytes} bytes of memory for {} bytes but {bytes_short} for {}", long.len(), short.len()));
            }
        }
        o.label(broken.unwrap_or("a value"));
        verdict
    }
    fn to_json(c: &Repeated) -> J {
        J::obj(vec![("entry", J::s(c.entry.clone())), ("start", J::s(c.start.clone())), ("unit", J::s(c.unit.clone())), ("end", J::s(c.end.clone())), ("unit2", J::s(c.unit2.clone()))])
    }
    fn from_json(j: &J) -> Repeated {
        Repeated { entry: j.str_("entry"), start: j.str_("start"), unit: j.str_("unit"), end: j.str_("end"), unit2: j.str_("unit2") }
    }
    fn setup() {
        <C15 as Prop>::setup()
    }
    fn assumptions() -> Vec<String> {
        vec!["CPU time of the worker in ticks of 10 ms; texts of 400 KB usually take 10 to 200 ms.".into()]
    }
}
