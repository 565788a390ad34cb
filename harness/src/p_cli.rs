//! The command line tool, run in a scratch directory as an unprivileged user, against a
//! model of the files it should leave behind.
use crate::engine::{Obs, Prop, Src, Verdict};
use crate::js_gen::{self, Opt};
use crate::json::J;
use crate::{css_gen, p_json, util};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Component, Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// The user the tool runs as, when we may change to it.
const NOBODY: u32 = 65534;

#[derive(Clone, PartialEq)]
enum Kind {
    File,
    Dir,
    /// No permission at all.
    Locked,
    /// May be read, not written.
    ReadOnly,
}

/// Paths are relative to the scratch directory; the tool runs in its `w`. `%xx` is a byte.
#[derive(Clone)]
struct Entry {
    path: String,
    kind: Kind,
    data: Vec<u8>,
}

#[derive(Clone)]
pub struct Run {
    files: Vec<Entry>,
    /// Relative to `w`; `@/` stands for the absolute path of the scratch directory.
    inputs: Vec<String>,
    ty: String,
    out: String,
    /// How the options are spelled, and where they stand.
    style: usize,
}

fn decode(p: &str) -> OsString {
    let b = p.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&p[i + 1..i + 3], 16) {
                o.push(x);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    OsString::from_vec(o)
}

// ---------------------------------------------------------------- generator

const DIRS: &[&str] = &["", "", "", "sub/", "sub/deep/", "o.d/", "./", "sub/../", "o/"];
const STEMS: &[&str] = &[
    "a", "b", "c", "x.y", "e.min", "sp ace", "é", "%ff", "q'\"", ".hid", "A", "a.js", "a.css", "min", "trail.", "t..u", "日本", "a+b", "semi;colon", "$x", "*",
    "main.min.min", "js", "c,d", "a=b", "[x]", "UPPER", "averyveryveryveryveryveryveryverylongfilename", "tab%09tab", "nl%0anl",
];
const EXTS: &[&str] = &[".js", ".css", ".json", ".js", ".css", ".json", ".JS", ".Css", ".jSoN", ".JSON"];
const BAD_EXTS: &[&str] = &[".txt", "", ".jsx", ".%ff", ".mjs", ".jso", ".cs", ".html", ".js~", ".", ".json5", ".s", ".CSSX"];

fn content(s: &mut Src, lang: &str) -> Vec<u8> {
    let t = match s.weighted(&[400, 50, 100, 50, 50, 1]) {
        0 => match lang {
            "css" => css_gen::sheet(s, css_gen::Opt::default()),
            "json" => p_json::doc(s).source(),
            _ => {
                let t = js_gen::program(s, Opt { max: 60, ..Opt::default() });
                let l = js_gen::layout(s, &t, true);
                js_gen::render(&t, &l)
            }
        },
        1 => String::new(),
        2 => match lang {
            "css" => "a { b : c }\n",
            "json" => "{ \"a\" : 1 }\n",
            _ => "var a = 1 ; // x\n",
        }
        .to_string(),
        3 => util::any_text(s, 10, 100),
        k => {
            // Sizes a buffer might have, and a bit more.
            let n = if k == 5 { (1 << (16 + s.below(6))) / 8 + s.below(4000) } else { 1 + s.below(3000) };
            match lang {
                "css" => ".é { color : red ; }\n".repeat(n),
                "json" => format!("[ {} 1 ]", "\"é\" , ".repeat(n)),
                _ => "f( \"é\" ) ;\n".repeat(n),
            }
        }
    };
    t.into_bytes()
}

fn lang_of(name: &str) -> &'static str {
    let l = name.to_ascii_lowercase();
    if l.ends_with(".css") {
        "css"
    } else if l.ends_with(".json") {
        "json"
    } else {
        "js"
    }
}

fn gen(s: &mut Src, bad: bool) -> Run {
    let ty = if s.chance(1, 4) { s.pick::<&str>(&["js", "css", "json"]).to_string() } else { String::new() };
    let mut files: Vec<Entry> = vec![];
    for d in ["w/sub/deep", "w/o.d", "w/o", "up"] {
        files.push(Entry { path: d.into(), kind: Kind::Dir, data: vec![] });
    }
    let mut inputs: Vec<String> = vec![];
    let n = 1 + s.below(4);
    for _ in 0..n {
        if !inputs.is_empty() && s.chance(1, 8) {
            // The same file again, or the output of one.
            let i = s.pick(&inputs).clone();
            if s.chance(1, 2) {
                inputs.push(i);
                continue;
            }
            if let Some((st, e)) = i.rsplit_once('.') {
                if !st.is_empty() && !st.ends_with('/') {
                    inputs.push(format!("{st}.min.{}", e.to_lowercase()));
                    continue;
                }
            }
        }
        let dir = match s.weighted(&[12, 2, 2]) {
            0 => s.pick::<&str>(DIRS).to_string(),
            1 => s.pick::<&str>(&["@/w/", "@/up/", "@/w/sub/"]).to_string(),
            _ => "../up/".into(),
        };
        let ext = if !ty.is_empty() || (bad && s.chance(1, 4)) {
            if s.chance(1, 2) { s.pick::<&str>(BAD_EXTS) } else { s.pick::<&str>(EXTS) }
        } else {
            s.pick::<&str>(EXTS)
        };
        let stem = s.pick::<&str>(STEMS);
        let name = format!("{dir}{stem}{ext}");
        let lang = if ty.is_empty() { lang_of(&name) } else { ["js", "css", "json"].iter().find(|x| **x == ty).copied().unwrap() };
        let mut e = Entry { path: full(&name), kind: Kind::File, data: content(s, lang) };
        if bad {
            match s.weighted(&[5, 2, 2, 2, 1, 1]) {
                0 => {}
                1 => {
                    // Missing.
                    inputs.push(name);
                    continue;
                }
                2 => {
                    let i = s.below(e.data.len() + 1);
                    let x: &[u8] = s.pick::<&[u8]>(&[b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\x80", b"\xf0\x9f\x98", b"\xc0\xaf"]);
                    e.data.splice(i..i, x.iter().copied());
                }
                3 => e.data.extend_from_slice(s.pick::<&[u8]>(&[b"}", b"\"", b"/*", b"a['", b"]", b"`", b"'", b"{ [ [", b"/* x", b"\"x\\"])),
                4 => {
                    e.kind = Kind::Dir;
                    e.data.clear();
                }
                _ => e.kind = Kind::Locked,
            }
        }
        // Something at the place of its output already, at times.
        if s.chance(1, 4) {
            if let Some((st, x)) = e.path.rsplit_once('.') {
                if !st.ends_with('/') {
                    let x = if ty.is_empty() { x.to_lowercase() } else { ty.clone() };
                    let kind = if bad { [Kind::File, Kind::File, Kind::Dir, Kind::ReadOnly][s.below(4)].clone() } else { Kind::File };
                    let data = if kind == Kind::Dir { vec![] } else { util::any_text(s, 30, 400).into_bytes() };
                    files.push(Entry { path: format!("{st}.min.{x}"), kind, data });
                }
            }
        }
        files.push(e);
        inputs.push(name);
    }
    let out = match s.weighted(&[10, 3, 3, 3, 2, 1]) {
        0 => String::new(),
        1 => s.pick::<&str>(&["o", "o.d", "o/", ".", "@/w/o", "sub/deep", "../up", "./o"]).to_string(),
        2 => s.pick::<&str>(&["out.js", "res", "o/x.min.css", "./y", "@/up/z.json", "%ff.out"]).to_string(),
        3 => s.pick::<&str>(&["new/out.js", "n/e/w/x.css", "@/w/fresh/a", "sub/k/out.json", "../up/v/x"]).to_string(),
        4 => s.pick(&inputs).clone(),
        _ if bad => {
            // A file where a directory is needed.
            files.push(Entry { path: "w/blocked".into(), kind: Kind::File, data: b"here".to_vec() });
            s.pick::<&str>(&["blocked/out.js", "blocked/a/b.css"]).to_string()
        }
        _ => String::new(),
    };
    if !out.is_empty() && s.chance(1, 3) {
        let kind = if bad && s.chance(1, 3) { Kind::ReadOnly } else { Kind::File };
        files.push(Entry { path: full(&out), kind, data: util::any_text(s, 30, 400).into_bytes() });
    }
    // Something nobody mentions.
    if s.chance(1, 2) {
        files.push(Entry { path: "w/bystander.js".into(), kind: Kind::File, data: b"var  x ;".to_vec() });
    }
    Run { files, inputs, ty, out, style: s.below(8) }
}

/// The path from the scratch directory.
fn full(p: &str) -> String {
    let (base, rest) = match p.strip_prefix("@/") {
        Some(r) => (vec![], r),
        None => (vec!["w"], p),
    };
    let mut v = base;
    for c in rest.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}

// ---------------------------------------------------------------- model

type P = Vec<OsString>;

#[derive(Default)]
struct Fs {
    dirs: BTreeSet<P>,
    files: BTreeMap<P, Vec<u8>>,
    locked: BTreeSet<P>,
    read_only: BTreeSet<P>,
}

impl Fs {
    fn is_dir(&self, p: &P) -> bool {
        p.is_empty() || self.dirs.contains(p)
    }
    /// Where a path as the tool sees it leads. `Err` when it goes through what is no directory.
    fn resolve(&self, p: &Path, root: &Path) -> Result<P, ()> {
        let (mut at, rest) = match p.strip_prefix(root) {
            Ok(r) => (vec![], r.to_path_buf()),
            Err(_) => (vec![OsString::from("w")], p.to_path_buf()),
        };
        for c in rest.components() {
            if !self.is_dir(&at) {
                return Err(());
            }
            match c {
                Component::CurDir => {}
                Component::ParentDir => {
                    at.pop().ok_or(())?;
                }
                Component::Normal(x) => at.push(x.into()),
                _ => return Err(()),
            }
        }
        Ok(at)
    }
    fn mkdirs(&mut self, p: &P) -> bool {
        for i in 1..=p.len() {
            let d = p[..i].to_vec();
            if self.files.contains_key(&d) {
                return false;
            }
            self.dirs.insert(d);
        }
        true
    }
    /// The resolution of a path whose directories need not exist yet.
    fn loose(p: &Path, root: &Path) -> P {
        let (mut at, rest) = match p.strip_prefix(root) {
            Ok(r) => (vec![], r.to_path_buf()),
            Err(_) => (vec![OsString::from("w")], p.to_path_buf()),
        };
        for c in rest.components() {
            match c {
                Component::ParentDir => {
                    at.pop();
                }
                Component::Normal(x) => at.push(x.into()),
                _ => {}
            }
        }
        at
    }
}

fn minified(ty: &str, src: &str) -> Result<String, String> {
    let r = crate::engine::sut(|| match ty {
        "css" => vp_api::css_str(src).map_err(|e| e.to_string()),
        "json" => Ok(vp_api::json_str(src)),
        _ => vp_api::js_str(src).map_err(|e| e.to_string()),
    });
    r.and_then(|x| x)
}

/// What one input should do. `Err` names the paths one of which the tool should mention.
fn step(fs: &mut Fs, input: &Path, ty: &str, out: Option<&Path>, root: &Path) -> Result<P, Vec<PathBuf>> {
    let e = || vec![input.to_path_buf()];
    let ty = if ty.is_empty() {
        match input.extension().map(|x| x.to_ascii_lowercase()) {
            Some(x) if x == OsStr::new("css") => "css",
            Some(x) if x == OsStr::new("js") => "js",
            Some(x) if x == OsStr::new("json") => "json",
            _ => return Err(e()),
        }
    } else {
        ty
    };
    let from = fs.resolve(input, root).map_err(|_| e())?;
    if fs.locked.contains(&from) {
        return Err(e());
    }
    let src = String::from_utf8(fs.files.get(&from).ok_or_else(e)?.clone()).map_err(|_| e())?;
    let text = minified(ty, &src).map_err(|_| e())?;
    let to = match out {
        None => {
            let mut p = input.to_path_buf();
            p.set_extension(format!("min.{ty}"));
            p
        }
        Some(o) => {
            let mut o = o.to_path_buf();
            if fs.resolve(&o, root).is_ok_and(|p| fs.is_dir(&p)) {
                o.extend(input.components().filter(|c| matches!(c, Component::Normal(_))));
                o.set_extension(format!("min.{ty}"));
            }
            o
        }
    };
    let e = || vec![input.to_path_buf(), to.clone()];
    let at = Fs::loose(&to, root);
    if out.is_some() && !fs.mkdirs(&at[..at.len() - 1].to_vec()) {
        return Err(e());
    }
    if fs.dirs.contains(&at) || fs.locked.contains(&at) || fs.read_only.contains(&at) || !fs.is_dir(&at[..at.len() - 1].to_vec()) {
        return Err(e());
    }
    fs.files.insert(at.clone(), text.into_bytes());
    Ok(at)
}

// ---------------------------------------------------------------- running the tool

struct Tool {
    base: PathBuf,
    bin: PathBuf,
    drop: bool,
}

fn tool() -> &'static Tool {
    static T: OnceLock<Tool> = OnceLock::new();
    T.get_or_init(|| {
        let base = std::env::var("VP_CLI_DIR").expect("VP_CLI_DIR: run through check.sh or replay.sh");
        let src = std::env::var("VP_CLI_BIN").expect("VP_CLI_BIN: run through check.sh or replay.sh");
        let base = PathBuf::from(format!("{base}/{}", std::process::id()));
        std::fs::create_dir_all(&base).expect("scratch");
        let _ = std::fs::set_permissions(&base, std::fs::Permissions::from_mode(0o711));
        let bin = base.join("minifier");
        std::fs::copy(src, &bin).expect("the tool");
        let _ = std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755));
        let mut drop = false;
        for _ in 0..20 {
            drop = Command::new(&bin)
                .arg("--version")
                .uid(NOBODY)
                .gid(NOBODY)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .is_ok_and(|s| s.success());
            if drop {
                break;
            }
        }
        Tool { base, bin, drop }
    })
}

fn walk(root: &Path, at: &mut P, out: &mut BTreeMap<P, Vec<u8>>) -> std::io::Result<()> {
    let mut p = root.to_path_buf();
    p.extend(at.iter());
    for e in std::fs::read_dir(&p)? {
        let e = e?;
        at.push(e.file_name());
        let t = e.file_type()?;
        if t.is_dir() {
            walk(root, at, out)?;
        } else {
            out.insert(at.clone(), std::fs::read(e.path())?);
        }
        at.pop();
    }
    Ok(())
}

fn show(p: &P) -> String {
    format!("{:?}", p.iter().collect::<PathBuf>())
}
fn clip(b: &[u8]) -> String {
    let t: String = String::from_utf8_lossy(b).chars().take(200).collect();
    format!("{t:?}")
}

fn check(c: &Run, o: &mut Obs, c20: bool) -> Verdict {
    let t = tool();
    let root = t.base.join("s");
    let _ = std::fs::remove_dir_all(&root);
    let own = |p: &Path| {
        if t.drop {
            let _ = std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY));
        }
    };
    let mut fs = Fs::default();
    // The files of the case; what conflicts with something before it is left out.
    std::fs::create_dir(&root).expect("scratch");
    own(&root);
    let mut made = vec![];
    for f in c.files.iter().chain(std::iter::once(&Entry { path: "w".into(), kind: Kind::Dir, data: vec![] })) {
        let p: P = Path::new(&decode(&f.path)).components().map(|x| x.as_os_str().to_owned()).collect();
        if p.is_empty() || fs.files.contains_key(&p) || fs.is_dir(&p) {
            continue;
        }
        let parent = if f.kind == Kind::Dir { p.clone() } else { p[..p.len() - 1].to_vec() };
        if (1..=parent.len()).any(|i| fs.files.contains_key(&parent[..i].to_vec())) {
            continue;
        }
        if !t.drop && f.kind != Kind::File && f.kind != Kind::Dir {
            return Verdict::Discard("permissions do not bind this user");
        }
        for i in 1..=parent.len() {
            if fs.dirs.insert(parent[..i].to_vec()) {
                let mut d = root.clone();
                d.extend(&parent[..i]);
                std::fs::create_dir(&d).expect("directory");
                own(&d);
            }
        }
        if f.kind != Kind::Dir {
            let mut d = root.clone();
            d.extend(&p);
            std::fs::write(&d, &f.data).expect("file");
            own(&d);
            fs.files.insert(p.clone(), f.data.clone());
            let mode = match f.kind {
                Kind::Locked => {
                    fs.locked.insert(p.clone());
                    0
                }
                Kind::ReadOnly => {
                    fs.read_only.insert(p.clone());
                    0o444
                }
                _ => 0o644,
            };
            if mode != 0o644 {
                std::fs::set_permissions(&d, std::fs::Permissions::from_mode(mode)).expect("mode");
            }
            made.push(p);
        }
    }
    let arg = |p: &str| -> OsString {
        match p.strip_prefix("@/") {
            Some(r) => root.join(decode(r)).into(),
            None => decode(p),
        }
    };
    // The model's run.
    let before = fs.files.clone();
    let out = (!c.out.is_empty()).then(|| PathBuf::from(arg(&c.out)));
    let mut failed = vec![];
    let mut written: BTreeSet<P> = BTreeSet::new();
    for i in &c.inputs {
        match step(&mut fs, Path::new(&arg(i)), &c.ty, out.as_deref(), &root) {
            Ok(p) => {
                written.insert(p);
            }
            Err(e) => failed.push((i.clone(), e)),
        }
    }
    if c20 == failed.is_empty() {
        return Verdict::Discard(if c20 { "every input is fine" } else { "an input is not fine" });
    }
    o.nontrivial = if c20 { c.inputs.len() > 1 } else { true };
    o.label_if(!c.out.is_empty(), "-o");
    o.label_if(!c.ty.is_empty(), "--type");
    o.label_if(c.inputs.len() > 1, "several inputs");
    o.label_if(failed.len() < c.inputs.len() && c20, "good and bad inputs");
    o.label_if(!t.drop, "as root");
    o.label_if(written.iter().any(|p| before.contains_key(p)), "existing outputs");

    // The tool's run.
    let mut opts: Vec<OsString> = vec![];
    let join = |a: &str, b: &OsStr| {
        let mut x = OsString::from(a);
        x.push(b);
        x
    };
    if let Some(x) = &out {
        match c.style & 3 {
            0 => opts.extend(["-o".into(), x.clone().into_os_string()]),
            1 => opts.extend(["--out".into(), x.clone().into_os_string()]),
            2 => opts.push(join("--out=", x.as_os_str())),
            _ => opts.push(join("-o", x.as_os_str())),
        }
    }
    if !c.ty.is_empty() {
        match c.style & 3 {
            0 => opts.extend(["-t".into(), OsString::from(&c.ty)]),
            1 => opts.extend(["--type".into(), OsString::from(&c.ty)]),
            2 => opts.push(format!("--type={}", c.ty).into()),
            _ => opts.push(format!("-t{}", c.ty).into()),
        }
    }
    let inputs: Vec<OsString> = c.inputs.iter().map(|i| arg(i)).collect();
    let mut cmd = Command::new(&t.bin);
    if c.style & 4 == 0 {
        cmd.args(&opts).args(&inputs);
    } else {
        cmd.args(&inputs).args(&opts);
    }
    let err_file = t.base.join("stderr");
    cmd.current_dir(root.join("w"))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&err_file).expect("stderr"));
    if t.drop {
        cmd.uid(NOBODY).gid(NOBODY);
    }
    let mut child = cmd.spawn().expect("the tool");
    let end = Instant::now() + Duration::from_secs(120);
    let mut nap = 200;
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if Instant::now() > end => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(5000);
            }
        }
    };
    let err = String::from_utf8_lossy(&std::fs::read(&err_file).unwrap_or_default()).into_owned();
    let fail = |m: String| {
        let files: Vec<String> = c.files.iter().filter(|f| f.kind != Kind::Dir).map(|f| format!("{} {}", f.path, clip(&f.data))).collect();
        Verdict::Fail(format!(
            "minifier {} {} in w, with {}: {m}; standard error: {}",
            opts.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" "),
            inputs.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" "),
            files.join(", "),
            clip(err.as_bytes())
        ))
    };
    let Some(status) = status else {
        return fail("it did not end".into());
    };
    if status.signal().is_some() || status.code() == Some(101) {
        return fail(format!("it died: {status}"));
    }
    if !c20 && !status.success() {
        return fail(format!("every file could be processed, but {status}"));
    }
    let mut after = BTreeMap::new();
    walk(&root, &mut vec![], &mut after).expect("walk");
    for (p, want) in &fs.files {
        match after.get(p) {
            None => return fail(format!("{} does not exist", show(p))),
            Some(got) if got != want => {
                return fail(format!("{} is {}, and should be {}", show(p), clip(got), clip(want)));
            }
            _ => {}
        }
    }
    if let Some((p, x)) = after.iter().find(|(p, _)| !fs.files.contains_key(*p)) {
        return fail(format!("{} appeared: {}", show(p), clip(x)));
    }
    let plain = |p: &Path| p.file_name().and_then(|x| x.to_str()).filter(|x| x.chars().all(|c| c.is_ascii_alphanumeric() || c == '.')).map(str::to_owned);
    for (i, paths) in &failed {
        let names: Vec<Option<String>> = paths.iter().map(|p| plain(p)).collect();
        let said = if names.iter().any(|n| n.is_none()) { !err.trim().is_empty() } else { names.iter().flatten().any(|n| err.contains(n.as_str())) };
        if !said {
            return fail(format!("nothing is said about {i}"));
        }
    }
    let _ = made;
    Verdict::Ok
}

fn to_json(c: &Run) -> J {
    let e = |f: &Entry| {
        let k = match f.kind {
            Kind::File => "file",
            Kind::Dir => "dir",
            Kind::Locked => "locked",
            Kind::ReadOnly => "read-only",
        };
        let mut v = vec![("path", J::s(f.path.clone())), ("kind", J::s(k))];
        match std::str::from_utf8(&f.data) {
            Ok(t) => v.push(("text", J::s(t))),
            Err(_) => v.push(("hex", J::s(f.data.iter().map(|x| format!("{x:02x}")).collect::<String>()))),
        }
        J::obj(v)
    };
    J::obj(vec![
        ("files", J::Arr(c.files.iter().map(e).collect())),
        ("inputs", J::Arr(c.inputs.iter().map(|x| J::s(x.clone())).collect())),
        ("type", J::s(c.ty.clone())),
        ("out", J::s(c.out.clone())),
        ("style", J::n(c.style as i64)),
    ])
}
fn from_json(j: &J) -> Run {
    let e = |f: &J| Entry {
        path: f.str_("path"),
        kind: match f.str_("kind").as_str() {
            "dir" => Kind::Dir,
            "locked" => Kind::Locked,
            "read-only" => Kind::ReadOnly,
            _ => Kind::File,
        },
        data: match f.get("hex") {
            Some(J::Str(h)) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
            _ => f.str_("text").into_bytes(),
        },
    };
    Run {
        files: j.arr("files").iter().map(e).collect(),
        inputs: j.arr("inputs").iter().map(|x| x.as_str().to_string()).collect(),
        ty: j.str_("type"),
        out: j.str_("out"),
        style: j.int("style") as usize,
    }
}
fn assumptions() -> Vec<String> {
    vec!["The library is the oracle for the contents (decided by the other properties).".into(), "Directories left behind without files are not compared.".into()]
}

pub struct C19;
impl Prop for C19 {
    type Case = Run;
    const ID: &'static str = "C19";
    const RULE: &'static str = "Runs of the built binary, as an unprivileged user in a scratch directory, on 1 to 4 files with names, extensions, places and contents of many kinds, with and without --type and -o (a directory, a new or existing file, a file in missing directories, an input itself); the files afterwards are compared with a model. Non-trivial: every run.";
    const CASES: (u64, u64) = (16_000, 1_600_000);
    fn gen(s: &mut Src) -> Run {
        gen(s, false)
    }
    fn check(c: &Run, o: &mut Obs) -> Verdict {
        check(c, o, false)
    }
    fn to_json(c: &Run) -> J {
        to_json(c)
    }
    fn from_json(j: &J) -> Run {
        from_json(j)
    }
    fn assumptions() -> Vec<String> {
        assumptions()
    }
}

pub struct C20;
impl Prop for C20 {
    type Case = Run;
    const ID: &'static str = "C20";
    const RULE: &'static str = "Runs as for C19 on 1 to 4 inputs of which at least one is missing, a directory, unreadable, not UTF-8, of unknown extension or not minifiable, or cannot be written where its output belongs. Non-trivial: there is another input.";
    const CASES: (u64, u64) = (16_000, 1_600_000);
    fn gen(s: &mut Src) -> Run {
        gen(s, true)
    }
    fn check(c: &Run, o: &mut Obs) -> Verdict {
        check(c, o, true)
    }
    fn to_json(c: &Run) -> J {
        to_json(c)
    }
    fn from_json(j: &J) -> Run {
        from_json(j)
    }
    fn assumptions() -> Vec<String> {
        assumptions()
    }
}
