//! Pieces that are large in one way: long, deep or many. Sizes lie around the limits of
//! small integers and of buffers, and around numbers found in the code under test.
use crate::engine::Src;
use crate::js_gen::{lit, punct, word, Tok, K};
use crate::{dict, util};

pub fn size(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[6, 6, 3, 2]) {
        0 => s.range(60, 320),
        1 => *s.pick(&[64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025]),
        2 => *s.pick(&[2000, 2048, 4095, 4096, 4097, 8192, 10_000, 16_384, 32_767, 32_768, 65_535, 65_536, 65_540, 70_000]),
        _ => {
            let d = &dict::get().large;
            if d.is_empty() {
                1000
            } else {
                s.pick(d) + s.below(3)
            }
        }
    };
    if n > max {
        60 + n % (max - 59)
    } else {
        n
    }
}

fn letters(s: &mut Src, n: usize) -> String {
    let unit: String = (0..1 + s.below(3)).map(|_| *s.pick(&['a', 'b', 'x', 'Z', 'é', '中', '😀'])).collect();
    let n = n / unit.len() + 1;
    unit.repeat(n)
}
fn name(s: &mut Src, n: usize) -> String {
    let unit: String = (0..1 + s.below(3)).map(|_| *s.pick(&['a', 'b', 'x', 'Z', 'é', '中', '_'])).collect();
    unit.repeat(n / unit.len() + 1)
}
/// What may stand in a string of any of the languages, with `q` around it.
fn text(s: &mut Src, n: usize) -> String {
    match s.below(4) {
        0 => letters(s, n),
        1 => "\\\\".repeat(n / 2 + 1),
        2 => "\\\"".repeat(n / 2 + 1),
        _ => {
            let unit = *s.pick(&["  ", "a b ", "/* */", "// ", "{}", "é ;", "a\\\\", "\\\"x"]);
            unit.repeat(n / unit.len() + 1)
        }
    }
}

fn many(t: &mut Vec<Tok>, n: usize, one: impl Fn(usize) -> Vec<Tok>) {
    for i in 0..n {
        t.extend(one(i));
    }
}

/// One or more JS statements.
pub fn js(s: &mut Src, regex: bool) -> Vec<Tok> {
    let mut t = vec![word("f"), punct("(")];
    match s.below(17) {
        0 => {
            let n = size(s, 70_000);
            let x = text(s, n);
            t.push(lit(&format!("\"{x}\"")));
        }
        1 => {
            let n = size(s, 20_000);
            let x = name(s, n);
            t.push(word(&x));
        }
        2 | 3 => {
            let (a, b) = *s.pick(&[("(", ")"), ("[", "]")]);
            let n = size(s, 400);
            many(&mut t, n, |_| vec![punct(a)]);
            t.push(word("a"));
            many(&mut t, n, |_| vec![punct(b)]);
        }
        4 => {
            let n = size(s, 400);
            t.truncate(0);
            many(&mut t, n, |_| vec![punct("{")]);
            many(&mut t, n, |_| vec![punct("}")]);
            return t;
        }
        5 => {
            let n = size(s, 300);
            many(&mut t, n, |_| vec![punct("{"), word("x"), punct(":")]);
            t.push(word("a"));
            many(&mut t, n, |_| vec![punct("}")]);
        }
        6 => {
            // A long template.
            let n = size(s, 70_000);
            let unit = *s.pick(&["a ", "\\`", "$", "\n", "${a}", "${`b`}", "${{}}", "{", "}", "//", "'"]);
            let x = unit.repeat(n.min(if unit.starts_with("${") { 2000 } else { 70_000 }) / unit.len() + 1);
            t.push(Tok { s: format!("`{x}`"), k: K::Tmpl, nl: true });
        }
        7 => {
            // Braces within one another in a substitution.
            let n = size(s, 300);
            let (a, b) = *s.pick(&[("{x:", "}"), ("(", ")"), ("[", "]"), ("`${", "}`"), ("f(()=>{return ", "})")]);
            let tail = *s.pick(&["", " ", "  b //c \n d", "`"]);
            let tail = if tail == "`" { "\\`" } else { tail };
            let more = *s.pick(&["", "+`b  c`", "+'`'", "+`${d}  e`", "+\"}\""]);
            t.push(Tok { s: format!("`${{{}1{}{more}}}{tail}`", a.repeat(n), b.repeat(n)), k: K::Tmpl, nl: true });
        }
        8 => {
            let n = size(s, 3000);
            many(&mut t, n, |_| vec![word("a"), punct(",")]);
            t.push(word("b"));
        }
        9 => {
            let n = size(s, 3000);
            let o = *s.pick(&["+", "&&", ".", ",", "==", "%", "<"]);
            if o == "==" || o == "." || o == "<" || o == "&&" || o == "%" || o == "+" {
                // Trees that lean to the left nest in the parser.
                let n = n.min(500);
                many(&mut t, n, |_| vec![word("a"), punct(o)]);
            } else {
                many(&mut t, n, |_| vec![word("a"), punct(o)]);
            }
            t.push(word("b"));
        }
        10 if regex => {
            let n = size(s, 20_000);
            let unit = *s.pick(&["a", "\\/", "[/]", "\\\\", " ", "'", "\""]);
            t.push(Tok { s: format!("/{}/g", unit.repeat(n / unit.len() + 1)), k: K::Re, nl: true });
        }
        10 | 11 => {
            let n = size(s, 300);
            t.push(Tok { s: format!("0.{}1", "0".repeat(n)), k: K::Num, nl: true });
        }
        12 => {
            let n = size(s, 400);
            many(&mut t, n, |_| vec![punct("!")]);
            t.push(word("a"));
        }
        13 => {
            let n = size(s, 2000);
            t.truncate(0);
            many(&mut t, n, |i| vec![word(if i % 2 == 0 { "a" } else { "b" }), punct(";")]);
            return t;
        }
        14 => {
            let n = size(s, 2000);
            t.truncate(0);
            many(&mut t, n, |_| vec![punct(";")]);
            return t;
        }
        15 => {
            let n = size(s, 2000);
            t.truncate(0);
            t.push(word("var"));
            many(&mut t, n, |i| vec![word(&format!("vv{i}")), punct("="), word("a"), punct(",")]);
            t.push(word("vvl"));
            t.push(punct(";"));
            return t;
        }
        _ => {
            t.truncate(0);
            let n = size(s, 200);
            many(&mut t, n, |_| vec![word("if"), punct("("), word("a"), punct(")"), word("b"), punct(";"), word("else")]);
            t.extend([word("c"), punct(";")]);
            return t;
        }
    }
    t.extend([punct(")"), punct(";")]);
    t
}

/// Statements with many different strings, each of them twice at least.
pub fn js_strings(s: &mut Src) -> Vec<Tok> {
    let n = if s.chance(1, 12) { s.range(3700, 4300) } else { size(s, 1100) };
    let (len, digits) = (*s.pick(&["a long string number ", "x", "a long string "]), s.chance(1, 2));
    let mut t = vec![];
    for i in 0..n {
        let x = if digits { format!("\"{len}{i}\"") } else { format!("\"{i} {len}\"") };
        t.extend([word("f"), punct("("), lit(&x), punct(","), lit(&x), punct(")"), punct(";")]);
    }
    t
}

/// CSS rules.
pub fn css(s: &mut Src) -> String {
    let n = |s: &mut Src| size(s, 5000);
    match s.below(13) {
        0 => {
            let n = size(s, 1000);
            let open = *s.pick(&["a{", "@media x{", "@media x { a {", "a:b {"]);
            let k = open.matches('{').count();
            format!("{}b:c{}", open.repeat(n / k), "}".repeat(n / k * k))
        }
        1 => {
            let n = size(s, 1000);
            let f = *s.pick(&["calc(", "(", "f(", "var(--a,"]);
            let first = if f == "(" { "calc" } else { "" };
            format!("a{{b:{first}{}1px + 2px{} c}}d > e{{f:g}}", f.repeat(n), ")".repeat(n))
        }
        2 => {
            let n = size(s, 1000);
            format!("{}b{} > c{{d:e}}", ":not(".repeat(n), ")".repeat(n))
        }
        3 => {
            let n = size(s, 70_000);
            let x = text(s, n);
            format!("a{{b:\"{x}\"}}c > d{{e:f}}")
        }
        4 => {
            let n = size(s, 20_000);
            let (x, p) = (name(s, n), *s.pick(&[".", "#", "", ":"]));
            format!("{p}{x} {p}{x}{{a:b c}}")
        }
        5 => {
            let n = n(s);
            format!("{}b{{c:d}}", "a , ".repeat(n))
        }
        6 => {
            let n = n(s);
            format!("a{{{}}}e > f{{g:h}}", "b : c d ; ".repeat(n))
        }
        7 => {
            let n = size(s, 70_000);
            let x = *s.pick(&["a", "* ", "/ ", " ", "{", "'", "é"]);
            let bang = *s.pick(&["", "!"]);
            format!("a{{b:c}}/*{bang}{}*/d > e{{f:g}}", x.repeat(n / x.len()))
        }
        8 => {
            let n = n(s);
            let w = *s.pick(&[" ", "\n", "\t", "/**/", " /* a */ "]);
            format!("a{w}{{b:c{}d}}", w.repeat(n).replacen("/*", " /*", 1))
        }
        9 => {
            let n = n(s);
            "a > b { c : d }".repeat(n)
        }
        10 => {
            let n = n(s);
            format!("a{}{{c:d}}", "[b=\"c\"]".repeat(n))
        }
        11 => {
            let n = n(s);
            format!("a{{b:{}c}}", "d , e ".repeat(n))
        }
        _ => {
            let n = n(s);
            let l = "@import \"a\" ;".repeat(n);
            format!("{l}a > b{{c:d}}")
        }
    }
}

/// The tokens of a JSON text.
pub fn json(s: &mut Src) -> Vec<String> {
    let q = |x: &str| format!("\"{x}\"");
    match s.below(6) {
        0 => {
            let n = size(s, 70_000);
            vec![q(&text(s, n))]
        }
        1 => {
            let n = size(s, 3000);
            let mut t: Vec<String> = (0..n).flat_map(|_| ["{".into(), q("a b"), ":".to_string()]).collect();
            t.push("1".into());
            t.extend((0..n).map(|_| "}".to_string()));
            t
        }
        2 => {
            let n = size(s, 3000);
            let x = *s.pick(&["1", "\"a b\"", "\"\\\\\"", "\"\\\"\"", "[]", "true"]);
            let mut t = vec!["[".to_string()];
            for _ in 0..n {
                t.extend([x.to_string(), ",".into()]);
            }
            t.extend(["0".into(), "]".into()]);
            t
        }
        3 => {
            let n = size(s, 5000);
            vec![format!("1{}", "0".repeat(n))]
        }
        4 => {
            let n = size(s, 3000);
            let k = size(s, 3000);
            vec!["{".into(), q(&text(s, n)), ":".into(), q(&text(s, k)), "}".into()]
        }
        _ => {
            let n = size(s, 20_000);
            let u = *s.pick(&["\\u0022", "\\\\", "\\n", "é", "中", "😀", "  "]);
            vec!["[".into(), q(&u.repeat(n / u.len() + 1)), ",".into(), q(" "), "]".into()]
        }
    }
}

/// HTML elements.
pub fn html(s: &mut Src) -> String {
    match s.below(8) {
        0 => {
            let n = size(s, 1000);
            format!("{}<i> x </i>{}", "<div>".repeat(n), "</div>".repeat(n))
        }
        1 => {
            let n = size(s, 20_000);
            format!("<a title=\"{}\"> b  c </a>", letters(s, n))
        }
        2 => {
            let n = size(s, 300);
            let a: String = (0..n).map(|i| format!("  data-a{i}=\"b c\"")).collect();
            format!("<b{a}>  d  </b>")
        }
        3 => {
            let n = size(s, 20_000);
            format!("<p>{}</p>", letters(s, n))
        }
        4 => {
            let n = size(s, 5000);
            format!("<p>a{}b</p>", s.pick(&[" ", "\n", "\t", "\r\n"]).repeat(n))
        }
        5 => {
            let n = size(s, 20_000);
            format!("<p>a</p><!--{}--><p>b</p>", letters(s, n))
        }
        6 => {
            let n = size(s, 1000);
            format!("<ul>{}</ul>", "<li> a  b </li> ".repeat(n))
        }
        _ => {
            let n = size(s, 1000);
            "<p>a</p><!-- b --> ".repeat(n)
        }
    }
}

/// A long comment's text.
pub fn comment(s: &mut Src) -> String {
    let n = size(s, 70_000);
    let x = util::ascii(s).to_string();
    let x = if x == "/" { "/ ".into() } else { x };
    x.repeat(n)
}
