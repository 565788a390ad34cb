//! Words, characters and numbers that occur as literals in the code under test. Generators
//! mix them into their own values, so that a special case keyed on such a literal is
//! reached more often than blind chance would.
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct Dict {
    pub strings: Vec<String>,
    pub idents: Vec<String>,
    pub chars: Vec<char>,
    pub ints: Vec<usize>,
    /// Those too large for most purposes, up to 70 000, and powers of two in them.
    pub large: Vec<usize>,
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(std::path::Path::new(&format!("{root}/src")), &mut files);
        files.sort();
        let (mut s, mut c, mut n) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for f in files {
            if f.file_name().is_some_and(|x| x == "tests.rs") {
                continue;
            }
            if let Ok(t) = std::fs::read_to_string(&f) {
                scan(&t, &mut s, &mut c, &mut n);
            }
        }
        let idents = s
            .iter()
            .filter(|x| {
                x.chars().enumerate().all(|(i, c)| c == '_' || c == '$' || c.is_ascii_alphabetic() || (i > 0 && c.is_ascii_digit()))
                    && !x.is_empty()
            })
            .cloned()
            .collect();
        let large = n.iter().copied().filter(|n| *n >= 60).collect();
        let ints = n.into_iter().filter(|n| (2..=3000).contains(n)).collect();
        Dict { strings: s.into_iter().collect(), idents, chars: c.into_iter().collect(), ints, large }
    })
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let q = e.path();
        if q.is_dir() {
            walk(&q, out);
        } else if q.extension().is_some_and(|x| x == "rs") {
            out.push(q);
        }
    }
}

fn scan(t: &str, s: &mut BTreeSet<String>, cs: &mut BTreeSet<char>, ns: &mut BTreeSet<usize>) {
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    while i < b.len() {
        match b[i] {
            '/' if at(i + 1) == '/' => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !b[i - 1].is_alphanumeric()) => {
                let mut h = 0;
                let mut j = i + 1;
                while at(j) == '#' {
                    h += 1;
                    j += 1;
                }
                if at(j) != '"' {
                    i += 1;
                    continue;
                }
                j += 1;
                let st = j;
                while j < b.len() && !(b[j] == '"' && (1..=h).all(|k| at(j + k) == '#')) {
                    j += 1;
                }
                add(&b[st..j.min(b.len())].iter().collect::<String>(), s);
                i = j + h + 1;
            }
            '"' => {
                let mut x = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' {
                        i += 1;
                        match at(i) {
                            'n' => x.push('\n'),
                            't' => x.push('\t'),
                            'r' => x.push('\r'),
                            c => x.push(c),
                        }
                    } else {
                        x.push(b[i]);
                    }
                    i += 1;
                }
                i += 1;
                add(&x, s);
            }
            '\'' if at(i + 1) != '\\' && at(i + 2) == '\'' => {
                cs.insert(at(i + 1));
                i += 3;
            }
            '\'' => i += 1,
            c if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                    i += 1;
                }
                let w: String = b[st..i].iter().filter(|c| **c != '_').collect();
                let d: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
                let n = match w.strip_prefix("0x") {
                    Some(h) => usize::from_str_radix(&h.chars().take_while(|c| c.is_ascii_hexdigit()).collect::<String>(), 16),
                    None => d.parse(),
                };
                if let Ok(mut n) = n {
                    // `1 << 10`, `4 * 1024`
                    let rest: String = b[i..].iter().take(12).filter(|c| **c != ' ' && **c != '_').collect();
                    let by = |o: &str| -> Option<usize> {
                        rest.strip_prefix(o)?.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
                    };
                    if let Some(k) = by("<<") {
                        n = n.checked_shl(k as u32).unwrap_or(0);
                    } else if let Some(k) = by("*") {
                        n = n.saturating_mul(k);
                    }
                    if (2..=70_000).contains(&n) {
                        ns.insert(n);
                    }
                }
            }
            _ => i += 1,
        }
    }
}

fn add(x: &str, s: &mut BTreeSet<String>) {
    if !x.is_empty() && x.chars().count() <= 24 {
        s.insert(x.to_string());
    }
}
