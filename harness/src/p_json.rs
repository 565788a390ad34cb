//! JSON: the string API against a reference, and the reader API against the string API.
use crate::engine::{Obs, Prop, Src, Verdict};
use crate::json::J;
use crate::p_more::clip;
use crate::{stretch, sut_try, util};
use std::io::{self, Read};

// ------------------------------------------------------------------ documents

/// A JSON document as tokens, with the insignificant whitespace kept apart.
#[derive(Clone)]
pub struct Doc {
    toks: Vec<String>,
    ws: Vec<String>,
}
impl Doc {
    pub fn source(&self) -> String {
        let mut o = self.ws.first().cloned().unwrap_or_default();
        for (i, t) in self.toks.iter().enumerate() {
            o.push_str(t);
            if let Some(w) = self.ws.get(i + 1) {
                o.push_str(w);
            }
        }
        o
    }
    fn expected(&self) -> String {
        self.toks.concat()
    }
}

fn string(s: &mut Src) -> String {
    let mut o = String::from("\"");
    let n = util::size(s, 6, 3000);
    for _ in 0..n {
        match s.weighted(&[40, 14, 10, 10, 10, 6, 4, 3, 3]) {
            0 => {
                let c = util::ascii(s);
                if c != '"' && c != '\\' {
                    o.push(c);
                }
            }
            1 => o.push_str("\\\""),
            2 => o.push_str("\\\\"),
            3 => o.push_str(["  ", " ", "   "][s.below(3)]),
            4 => {
                o.push('\\');
                o.push(*s.pick(&['/', 'b', 'f', 'n', 'r', 't']));
            }
            5 => o.push(util::odd(s)),
            6 => o.push_str(&format!("\\u{:04x}", s.draw(0x10000))),
            7 => o.push('\u{7f}'),
            _ => {
                for c in util::dict_string(s).chars() {
                    if (c as u32) >= 0x20 && c != '"' && c != '\\' {
                        o.push(c);
                    }
                }
            }
        }
    }
    o.push('"');
    o
}

fn number(s: &mut Src) -> String {
    let mut o = String::new();
    if s.chance(1, 4) {
        o.push('-');
    }
    if s.chance(1, 3) {
        o.push('0');
    } else {
        o.push((b'1' + s.below(9) as u8) as char);
        for _ in 0..s.len(2, 40) {
            o.push((b'0' + s.below(10) as u8) as char);
        }
    }
    if s.chance(1, 3) {
        o.push('.');
        for _ in 0..=s.len(2, 20) {
            o.push((b'0' + s.below(10) as u8) as char);
        }
    }
    if s.chance(1, 4) {
        o.push_str(s.pick(&["e", "E", "e+", "E-", "e-", "E+"]));
        for _ in 0..=s.below(3) {
            o.push((b'0' + s.below(10) as u8) as char);
        }
    }
    o
}

fn value(s: &mut Src, depth: usize, t: &mut Vec<String>) {
    let w: &[u32] = if depth > 60 || t.len() > 4000 { &[4, 3, 3, 0, 0] } else { &[30, 12, 12, 24, 24] };
    match s.weighted(w) {
        0 => t.push(string(s)),
        1 => t.push(number(s)),
        2 => t.push(s.pick(&["null", "true", "false"]).to_string()),
        3 => {
            t.push("[".into());
            let n = s.len(3, 40);
            for i in 0..n {
                if i > 0 {
                    t.push(",".into());
                }
                value(s, depth + 1, t);
            }
            t.push("]".into());
        }
        _ => {
            t.push("{".into());
            let n = s.len(3, 40);
            for i in 0..n {
                if i > 0 {
                    t.push(",".into());
                }
                t.push(string(s));
                t.push(":".into());
                value(s, depth + 1, t);
            }
            t.push("}".into());
        }
    }
}

fn ws(s: &mut Src) -> String {
    let mut o = String::new();
    if s.chance(2, 5) {
        for _ in 0..=util::size(s, 2, 600) {
            o.push(*s.pick(&[' ', '\n', '\t', '\r']));
        }
    }
    o
}

pub fn doc(s: &mut Src) -> Doc {
    let mut toks = vec![];
    if s.chance(1, 100) {
        toks = stretch::json(s);
    } else {
        value(s, 0, &mut toks);
    }
    if s.chance(1, 60) {
        // Deep nesting.
        let n = s.len(50, 2000);
        for _ in 0..n {
            toks.insert(0, "[".into());
            toks.push("]".into());
        }
    }
    let w = (0..=toks.len()).map(|_| ws(s)).collect();
    Doc { toks, ws: w }
}

fn strs(v: &[J]) -> Vec<String> {
    v.iter().map(|x| x.as_str().to_string()).collect()
}

pub struct C01;
impl Prop for C01 {
    type Case = Doc;
    const ID: &'static str = "C01";
    const RULE: &'static str = "JSON documents (RFC 8259) built token by token from a grammar (nested objects and arrays, numbers in every form, strings with every escape, quotes, runs of spaces, DEL and non-ASCII text) with random insignificant whitespace between tokens; the expected output is the tokens with nothing between them. Non-trivial: at least one insignificant whitespace character and a string holding a space or a backslash.";
    const CASES: (u64, u64) = (300_000, 30_000_000);
    fn gen(s: &mut Src) -> Doc {
        doc(s)
    }
    fn check(c: &Doc, o: &mut Obs) -> Verdict {
        let src = c.source();
        let exp = c.expected();
        o.nontrivial = src.len() > exp.len() && c.toks.iter().any(|t| t.starts_with('"') && (t.contains(' ') || t.contains('\\')));
        o.label_if(c.toks.iter().any(|t| t.contains("\\\"")), "escaped quote");
        o.label_if(c.toks.iter().any(|t| t.ends_with("\\\\\"")), "string ending in a backslash");
        o.label_if(c.toks.iter().any(|t| !t.is_ascii()), "non-ASCII");
        o.label_if(src.len() > 1000, "over 1000 bytes");
        let out = sut_try!("json::minify", vp_api::json_str(&src));
        if out != exp {
            return Verdict::Fail(format!("json::minify({src:?}) gave {out:?}, expected {exp:?}"));
        }
        Verdict::Ok
    }
    fn to_json(c: &Doc) -> J {
        J::obj(vec![
            ("tokens", J::Arr(c.toks.iter().map(|x| J::s(x.clone())).collect())),
            ("ws", J::Arr(c.ws.iter().map(|x| J::s(x.clone())).collect())),
        ])
    }
    fn from_json(j: &J) -> Doc {
        Doc { toks: strs(&j.arr("tokens")), ws: strs(&j.arr("ws")) }
    }
    fn assumptions() -> Vec<String> {
        vec!["The document is valid JSON text: unescaped control characters inside strings are outside the property.".into()]
    }
}

// ------------------------------------------------------------------ readers

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    /// Hand out at most this many bytes.
    Give(usize),
    Interrupted,
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
];

struct Scripted<'a> {
    data: &'a [u8],
    pos: usize,
    script: &'a [Step],
    i: usize,
    /// Position from which every read fails, with the kind to fail with.
    fault: Option<(usize, usize)>,
    calls: &'a std::cell::Cell<usize>,
}
impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls.set(self.calls.get() + 1);
        let step = if self.script.is_empty() { Step::Give(usize::MAX) } else { self.script[self.i % self.script.len()] };
        self.i += 1;
        if step == Step::Interrupted && self.i <= self.script.len() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let end = self.fault.map(|f| f.0.min(self.data.len())).unwrap_or(self.data.len());
        if self.pos >= end {
            if let Some((_, k)) = self.fault {
                return Err(KINDS[k % KINDS.len()].into());
            }
            return Ok(0);
        }
        let n = match step {
            Step::Give(n) => n.max(1),
            _ => 1,
        };
        let n = n.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone)]
pub struct Stream {
    data: Vec<u8>,
    script: Vec<Step>,
    /// Buffer sizes of the consumer, used in turn; empty: `read_to_end`.
    bufs: Vec<usize>,
    fault: Option<(usize, usize)>,
}

fn script(s: &mut Src) -> Vec<Step> {
    let n = s.len(4, 40);
    (0..n)
        .map(|_| match s.weighted(&[30, 30, 20, 10]) {
            0 => Step::Give(1 + s.below(4)),
            1 => Step::Give(1 + util::size(s, 20, 9000)),
            2 => Step::Give(usize::MAX >> 1),
            _ => Step::Interrupted,
        })
        .collect()
}
fn bufs(s: &mut Src) -> Vec<usize> {
    match s.weighted(&[2, 4, 4]) {
        0 => vec![],
        1 => vec![1 + util::size(s, 8, 9000)],
        _ => {
            let n = 1 + s.below(6);
            let mut v: Vec<usize> = (0..n).map(|_| if s.chance(1, 10) { 0 } else { 1 + util::size(s, 6, 5000) }).collect();
            if v.iter().all(|x| *x == 0) {
                v[0] = 1;
            }
            v
        }
    }
}

/// Reads everything; `Err` carries what was delivered before the error.
fn consume(r: &mut dyn Read, bufs: &[usize], budget: usize) -> Result<Vec<u8>, (Vec<u8>, Option<io::Error>)> {
    let mut out = vec![];
    if bufs.is_empty() {
        return match r.read_to_end(&mut out) {
            Ok(_) => Ok(out),
            Err(e) => Err((out, Some(e))),
        };
    }
    let mut i = 0;
    let mut left = budget;
    loop {
        let n = bufs[i % bufs.len()];
        i += 1;
        if left == 0 {
            // Neither end nor progress.
            return Err((out, None));
        }
        left -= 1;
        let mut b = vec![0xAAu8; n];
        match r.read(&mut b) {
            Ok(0) if n == 0 => {}
            Ok(0) => return Ok(out),
            Ok(k) if k > n => return Err((out, None)),
            Ok(k) => out.extend_from_slice(&b[..k]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err((out, Some(e))),
        }
    }
}

fn step_json(x: &Step) -> J {
    match x {
        Step::Give(n) => J::n((*n).min(1 << 40) as i64),
        Step::Interrupted => J::s("interrupted"),
    }
}
fn step_from(j: &J) -> Step {
    match j {
        J::Str(_) => Step::Interrupted,
        j => Step::Give(j.as_int().max(1) as usize),
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

impl Stream {
    fn json(&self) -> J {
        let mut v = vec![];
        match std::str::from_utf8(&self.data) {
            Ok(t) => v.push(("text", J::s(t))),
            Err(_) => v.push(("hex", J::s(hex(&self.data)))),
        }
        v.push(("reads", J::Arr(self.script.iter().map(step_json).collect())));
        v.push(("buffers", J::Arr(self.bufs.iter().map(|x| J::n(*x as i64)).collect())));
        if let Some((p, k)) = self.fault {
            v.push(("fault_at", J::n(p as i64)));
            v.push(("fault_kind", J::n(k as i64)));
        }
        J::obj(v)
    }
    fn parse(j: &J) -> Stream {
        Stream {
            data: if j.get("hex").is_some() { unhex(&j.str_("hex")) } else { j.str_("text").into_bytes() },
            script: j.arr("reads").iter().map(step_from).collect(),
            bufs: j.arr("buffers").iter().map(|x| x.as_int() as usize).collect(),
            fault: j.get("fault_at").map(|p| (p.as_int() as usize, j.int("fault_kind") as usize)),
        }
    }
    fn budget(&self) -> usize {
        (self.data.len() + 16) * 4 * (self.bufs.len() + 1) + 4 * self.script.len()
    }
}

fn text(s: &mut Src) -> String {
    if s.chance(3, 4) {
        doc(s).source()
    } else {
        util::any_text(s, 12, 400)
    }
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

pub struct C02;
impl Prop for C02 {
    type Case = Stream;
    const ID: &'static str = "C02";
    const RULE: &'static str = "Texts (three in four a generated JSON document, otherwise arbitrary UTF-8 text), a scripted source that hands out 1..n bytes per call or reports Interrupted, and consumer buffer sizes that vary per call (zero included) or read_to_end; the bytes delivered must equal what the string API returns, and the end must stay the end. Non-trivial: the document does not fit one source read or one consumer buffer.";
    const CASES: (u64, u64) = (300_000, 30_000_000);
    fn gen(s: &mut Src) -> Stream {
        Stream { data: text(s).into_bytes(), script: script(s), bufs: bufs(s), fault: None }
    }
    fn check(c: &Stream, o: &mut Obs) -> Verdict {
        let t = std::str::from_utf8(&c.data).expect("text");
        let exp = sut_try!("json::minify", vp_api::json_str(t)).into_bytes();
        let calls = std::cell::Cell::new(0);
        let r = Scripted { data: &c.data, pos: 0, script: &c.script, i: 0, fault: None, calls: &calls };
        let bufs = c.bufs.clone();
        let budget = c.budget();
        let (res, again) = sut_try!("reading through json::minify_from_read", {
            let mut rd = vp_api::json_reader(Box::new(r));
            let res = consume(&mut *rd, &bufs, budget);
            let mut again = vec![];
            if res.is_ok() {
                for n in [1usize, 7, 64] {
                    let mut b = vec![0u8; n];
                    again.push(rd.read(&mut b).map_err(|e| e.kind()));
                }
            }
            (res, again)
        });
        o.nontrivial = calls.get() > 2 || (!c.bufs.is_empty() && c.bufs[0] < exp.len());
        o.label_if(c.script.contains(&Step::Interrupted), "interrupted reads");
        o.label_if(!t.is_ascii(), "multi-byte characters");
        o.label_if(c.bufs.is_empty(), "read_to_end");
        o.label_if(c.bufs.contains(&0), "empty buffers");
        match res {
            Ok(v) if v == exp => {}
            Ok(v) => return Verdict::Fail(format!("the reader delivered {}, the string API returns {}", show(&v), show(&exp))),
            Err((v, e)) => {
                return Verdict::Fail(format!("the reader failed with {e:?} after {} of {} bytes on a healthy source", v.len(), exp.len()))
            }
        }
        if again.iter().any(|x| *x != Ok(0)) {
            return Verdict::Fail(format!("reads after the end gave {again:?}"));
        }
        Verdict::Ok
    }
    fn to_json(c: &Stream) -> J {
        c.json()
    }
    fn from_json(j: &J) -> Stream {
        Stream::parse(j)
    }
    fn assumptions() -> Vec<String> {
        vec!["A source that returns Ok(0) for a non-empty buffer has ended (std::io::Read's contract).".into()]
    }
}

pub struct C03;
impl Prop for C03 {
    type Case = Stream;
    const ID: &'static str = "C03";
    const RULE: &'static str = "As C02, with a fault: the source starts to fail with a chosen error kind at a chosen byte, or the bytes are made invalid UTF-8 (byte flipped, removed, inserted, truncated sequence, surrogate, overlong form). The consumer must get an error of that kind (InvalidData for bad UTF-8), never a clean end, and what it got before must be a prefix of the minification of the text before the fault; further reads must not panic. Non-trivial: the fault comes after at least one byte.";
    const CASES: (u64, u64) = (300_000, 30_000_000);
    fn gen(s: &mut Src) -> Stream {
        let mut data = text(s).into_bytes();
        let mut fault = None;
        if s.chance(1, 2) {
            fault = Some((s.below(data.len() + 1), s.below(KINDS.len())));
        } else {
            let at = s.below(data.len() + 1);
            let bad: &[u8] = match s.weighted(&[3, 1, 1, 1, 1, 1, 1, 1]) {
                0 => &[0xff],
                1 => &[0x80],
                2 => &[0xc3],
                3 => &[0xe2, 0x82],
                4 => &[0xf0, 0x9f, 0x98],
                5 => &[0xed, 0xa0, 0x80],
                6 => &[0xc0, 0xaf],
                _ => &[0xf4, 0x90, 0x80, 0x80],
            };
            match s.below(3) {
                0 => {
                    data.splice(at..at, bad.iter().copied());
                }
                1 if at < data.len() => data[at] = bad[0],
                _ => {
                    data.truncate(at);
                    data.extend_from_slice(bad);
                }
            }
        }
        Stream { data, script: script(s), bufs: bufs(s), fault }
    }
    fn check(c: &Stream, o: &mut Obs) -> Verdict {
        let seen = match c.fault {
            Some((p, _)) => &c.data[..p.min(c.data.len())],
            None => &c.data[..],
        };
        let (good, bad) = match std::str::from_utf8(seen) {
            Ok(t) => (t, false),
            Err(e) => (std::str::from_utf8(&seen[..e.valid_up_to()]).unwrap(), true),
        };
        if c.fault.is_none() && !bad {
            return Verdict::Discard("the damaged bytes are still UTF-8");
        }
        let exp = sut_try!("json::minify", vp_api::json_str(good)).into_bytes();
        o.nontrivial = !good.is_empty();
        o.label_if(c.fault.is_some(), "source fault");
        o.label_if(c.fault.is_none(), "invalid UTF-8");
        o.label_if(c.fault.is_some_and(|f| f.0 == 0), "fault on the first read");
        let calls = std::cell::Cell::new(0);
        let r = Scripted { data: &c.data, pos: 0, script: &c.script, i: 0, fault: c.fault, calls: &calls };
        let bufs = c.bufs.clone();
        let budget = c.budget();
        let res = sut_try!("reading through json::minify_from_read", {
            let mut rd = vp_api::json_reader(Box::new(r));
            let res = consume(&mut *rd, &bufs, budget);
            for n in [1usize, 0, 16] {
                let mut b = vec![0u8; n];
                let _ = rd.read(&mut b);
            }
            res
        });
        let (got, err) = match res {
            Ok(v) => return Verdict::Fail(format!("clean end after {} although the source was cut short by a fault", show(&v))),
            Err((_, None)) => return Verdict::Fail("the reader neither ended nor failed".into()),
            Err((v, Some(e))) => (v, e),
        };
        let io_kind = c.fault.map(|(_, k)| KINDS[k % KINDS.len()]);
        // A fault in the middle of a character may be reported as either of the two.
        let ok = match io_kind {
            Some(k) => err.kind() == k || (bad && err.kind() == io::ErrorKind::InvalidData),
            None => err.kind() == io::ErrorKind::InvalidData,
        };
        if !ok {
            return Verdict::Fail(format!("error kind {:?}, expected {:?}", err.kind(), io_kind.unwrap_or(io::ErrorKind::InvalidData)));
        }
        if !exp.starts_with(&got) {
            return Verdict::Fail(format!("before the fault the reader delivered {}, not a prefix of {}", show(&got), show(&exp)));
        }
        Verdict::Ok
    }
    fn to_json(c: &Stream) -> J {
        c.json()
    }
    fn from_json(j: &J) -> Stream {
        Stream::parse(j)
    }
}

// ------------------------------------------------------------------ C26

/// What the adaptor may hold or read ahead, however long the stream is.
const BOUND: usize = 256 << 10;

/// `prefix`, then `unit` over and over, `len` bytes at least.
#[derive(Clone)]
pub struct Endless {
    prefix: String,
    unit: String,
    len: usize,
    script: Vec<Step>,
    bufs: Vec<usize>,
    /// The consumer stops after this many bytes, and the source never ends.
    stop: Option<usize>,
    write: bool,
}
impl Endless {
    fn text(&self) -> String {
        let n = (self.len.saturating_sub(self.prefix.len())) / self.unit.len().max(1) + 1;
        format!("{}{}", self.prefix, self.unit.repeat(n))
    }
}
/// How many bytes of output every byte of the source makes, added up, by the rules of C01.
fn produced(t: &str) -> Vec<u32> {
    let mut sums = vec![0u32];
    let (mut string, mut escaped, mut n) = (false, false, 0);
    for c in t.chars() {
        if string {
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                string = false;
            }
        } else if c == '"' {
            string = true;
        }
        if !((c.is_ascii_control() && c != '\u{7f}') || (!string && c.is_whitespace())) {
            n += c.len_utf8() as u32;
        }
        // The character counts once it is complete.
        for _ in 1..c.len_utf8() {
            sums.push(*sums.last().unwrap());
        }
        sums.push(n);
    }
    sums
}
struct Lazy<'a> {
    text: &'a [u8],
    /// Where the text starts again when the source never ends.
    again: Option<usize>,
    pos: usize,
    script: &'a [Step],
    i: usize,
    taken: &'a std::cell::Cell<usize>,
}
impl Read for Lazy<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let step = if self.script.is_empty() { Step::Give(usize::MAX) } else { self.script[self.i % self.script.len()] };
        self.i += 1;
        if step == Step::Interrupted {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.pos == self.text.len() {
            match self.again {
                Some(p) => self.pos = p,
                None => return Ok(0),
            }
        }
        let Step::Give(n) = step else { unreachable!() };
        let n = n.max(1).min(buf.len()).min(self.text.len() - self.pos);
        buf[..n].copy_from_slice(&self.text[self.pos..self.pos + n]);
        self.pos += n;
        self.taken.set(self.taken.get() + n);
        Ok(n)
    }
}
struct Compare<'a> {
    expected: &'a [u8],
    pos: usize,
    same: bool,
}
impl io::Write for Compare<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.same &= self.expected.get(self.pos..self.pos + b.len()) == Some(b);
        self.pos += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct C26;
impl Prop for C26 {
    type Case = Endless;
    const ID: &'static str = "C26";
    const RULE: &'static str = "Streams of 0.3 to 1 MB that are a document or a fragment (a run of whitespaces, of digits, of characters of a string, of brackets, ...) over and over, read in pieces of varying sizes into buffers of varying sizes, to the end or, from a source that never ends, up to some point; and the same texts written to a writer. The memory the thread allocates and what is read ahead are measured against 256 KiB. Non-trivial: every stream longer than that.";
    const CASES: (u64, u64) = (4_000, 400_000);
    fn gen(s: &mut Src) -> Endless {
        let prefix = s.pick::<&str>(&["", "\"", "[", "[\"", "{\"a\":\"\\\\", " ", "[1,"]).to_string();
        let unit = match s.below(3) {
            0 => doc(s).source(),
            1 => s.pick::<&str>(&[" ", "\n", "x", "7", "[", "]", "\\\\", "\\\"", "é", "\u{1f600}", "\u{7f}", "\"", "\"\"", "{\"a\":", "\t \r\n", "\\u0041", "a b"]).to_string(),
            _ => text(s),
        };
        let unit = if unit.is_empty() || unit.len() > 200_000 { ",1".to_string() } else { unit };
        let len = s.range(300, 1000) * 1024;
        let mut script = script(s);
        // Not one byte at a time only, and never only interruptions.
        script.push(Step::Give(4096));
        let mut bufs: Vec<usize> = (0..1 + s.below(3)).map(|_| 1 + util::size(s, 40, 60_000)).collect();
        bufs.push(*s.pick(&[64, 4096, 16]));
        let stop = if s.chance(1, 3) { Some(s.range(1, 600) * 512) } else { None };
        let write = s.chance(1, 5);
        Endless { prefix, unit, len, script, bufs, stop, write }
    }
    fn check(c: &Endless, o: &mut Obs) -> Verdict {
        let t = c.text();
        if t.len() < BOUND + (20 << 10) {
            return Verdict::Discard("too short");
        }
        let sums = produced(&t);
        let exp = sut_try!("json::minify", vp_api::json_str(&t)).into_bytes();
        if *sums.last().unwrap() as usize != exp.len() {
            // C01 is about what is removed.
            return Verdict::Discard("other rules");
        }
        o.nontrivial = true;
        if c.write {
            o.label("written");
            let mut w = Compare { expected: &exp, pos: 0, same: true };
            let (r, peak) = sut_try!("json::minify().write", util::peak_memory(|| vp_api::json_write(&t, &mut w)));
            if let Err(e) = r {
                return Verdict::Fail(format!("write failed with {e:?}"));
            }
            if !w.same || w.pos != exp.len() {
                return Verdict::Fail(format!("{} bytes were written which are not the {} of the string API", w.pos, exp.len()));
            }
            if peak > BOUND {
                return Verdict::Fail(format!("writing {} bytes took {peak} bytes of memory", exp.len()));
            }
            return Verdict::Ok;
        }
        // A source without an end only if every round makes output.
        let again = c.stop.filter(|_| sums[c.prefix.len()] as usize != exp.len()).map(|_| c.prefix.len());
        let stop = if again.is_some() { c.stop.unwrap().min(exp.len()) } else { usize::MAX };
        let taken = std::cell::Cell::new(0);
        let mut buf = vec![0u8; *c.bufs.iter().max().unwrap()];
        let (res, peak) = sut_try!(
            "reading through json::minify_from_read",
            util::peak_memory(|| -> Result<usize, String> {
                let mut r = vp_api::json_reader(Box::new(Lazy { text: t.as_bytes(), again, pos: 0, script: &c.script, i: 0, taken: &taken }));
                let mut done = 0;
                let mut i = 0;
                while done < stop {
                    let n = c.bufs[i % c.bufs.len()];
                    i += 1;
                    let n = r.read(&mut buf[..n]).map_err(|e| format!("failed with {e:?} after {done} bytes"))?;
                    if n == 0 {
                        break;
                    }
                    // What comes after the text started again isn't compared.
                    let end = (done + n).min(exp.len());
                    if exp[done..end] != buf[..end - done] || (again.is_none() && done + n > exp.len()) {
                        return Err(format!("delivered other bytes than the string API after {done} bytes"));
                    }
                    done += n;
                    let seen = taken.get().min(t.len());
                    if (sums[seen] as usize).saturating_sub(done) > BOUND {
                        return Err(format!("had read {} bytes of the source, which make {} bytes, when it had delivered {done}", taken.get(), sums[seen]));
                    }
                    if done >= exp.len() && again.is_some() {
                        break;
                    }
                }
                Ok(done)
            })
        );
        o.label_if(again.is_some(), "without an end");
        o.label_if(again.is_none(), "to the end");
        match res {
            Err(e) => return Verdict::Fail(format!("the reader of {} bytes, {:?} and {:?} over and over, {e}", t.len(), clip(&c.prefix), clip(&c.unit))),
            Ok(n) if again.is_none() && n != exp.len() => {
                return Verdict::Fail(format!("the reader delivered {n} bytes of {}: {:?} and {:?} over and over", exp.len(), clip(&c.prefix), clip(&c.unit)))
            }
            Ok(n) if n < stop.min(exp.len()) => return Verdict::Fail(format!("the reader ended after {n} bytes of a source without an end")),
            Ok(_) => {}
        }
        if peak > BOUND {
            return Verdict::Fail(format!("reading {} bytes of {:?} and {:?} over and over took {peak} bytes of memory", taken.get(), clip(&c.prefix), clip(&c.unit)));
        }
        Verdict::Ok
    }
    fn to_json(c: &Endless) -> J {
        J::obj(vec![
            ("prefix", J::s(c.prefix.clone())),
            ("unit", J::s(c.unit.clone())),
            ("len", J::n(c.len)),
            ("script", J::Arr(c.script.iter().map(step_json).collect())),
            ("bufs", J::Arr(c.bufs.iter().map(|x| J::n(*x)).collect())),
            ("stop", J::n(c.stop.map_or(-1, |x| x as i64))),
            ("write", J::n(c.write as i64)),
        ])
    }
    fn from_json(j: &J) -> Endless {
        Endless {
            prefix: j.str_("prefix"),
            unit: j.str_("unit"),
            len: j.int("len") as usize,
            script: j.arr("script").iter().map(step_from).collect(),
            bufs: j.arr("bufs").iter().map(|x| x.as_int() as usize).collect(),
            stop: Some(j.int("stop")).filter(|x| *x >= 0).map(|x| x as usize),
            write: j.int("write") != 0,
        }
    }
}
