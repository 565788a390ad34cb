//! `vp check ID [--tier quick|thorough]`, `vp replay FILE`, and the worker subcommands
//! they use. See /verif/DESIGN.md.
mod css;
mod css_gen;
mod dict;
mod engine;
#[cfg(feature = "html")]
mod html;
mod json;
mod js_gen;
mod node;
mod p_cli;
mod p_cross;
mod p_css;
#[cfg(feature = "html")]
mod p_html;
mod p_js;
mod p_json;
mod p_more;
mod p_tokens;
mod stretch;
mod util;

#[global_allocator]
static ALLOCATOR: util::Counting = util::Counting;

use engine::{Prop, Run};
use json::J;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const SHARDS: u64 = 8;

macro_rules! props {
    ($($(#[$m:meta])* $t:ty),* $(,)?) => {
        fn dispatch(id: &str, cmd: Cmd) -> i32 {
            $($(#[$m])* if id == <$t as Prop>::ID { return run::<$t>(cmd); })*
            eprintln!("unknown property {id}");
            3
        }
    };
}
props! {
    p_json::C01, p_json::C02, p_json::C03,
    p_css::C04, p_css::C05, p_css::C06,
    p_js::C07, p_js::C08, p_js::C09, p_js::C10,
    p_tokens::C11, p_tokens::C12,
    #[cfg(feature = "html")] p_html::C13, #[cfg(feature = "html")] p_html::C14,
    p_cross::C15, p_cross::C16, p_cross::C17, p_cross::C18,
    p_cli::C19, p_cli::C20,
    p_more::C21, p_more::C22, p_more::C23, p_more::C24, p_cross::C25, p_cross::C28,
    p_json::C26, p_cross::C27,
}

enum Cmd {
    Check { tier: String },
    Shard { n: u64, cases: u64, out: String, seed: u64 },
    /// Runs every case of a JSON-lines file; one verdict line per case.
    Cases { file: String },
    /// Re-runs the choices a dead worker left behind.
    Crash { file: String, print: bool },
    Gen { n: u64 },
}

fn verif() -> String {
    std::env::var("VP_HOME").unwrap_or_else(|_| "/verif".into())
}
fn scratch() -> String {
    std::env::var("VP_SCRATCH").unwrap_or_else(|_| format!("{}/target-vp/scratch", verif()))
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let run = move || -> i32 {
        let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
        let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
        match arg(0).as_str() {
            "check" => {
                let tier = a
                    .iter()
                    .position(|x| x == "--tier")
                    .map(|i| arg(i + 1))
                    .or_else(|| std::env::var("VERIF_TIER").ok())
                    .unwrap_or_else(|| "quick".into());
                dispatch(&arg(1), Cmd::Check { tier })
            }
            "shard" => dispatch(&arg(1), Cmd::Shard { n: num(2), cases: num(3), seed: num(4), out: arg(5) }),
            "cases" => dispatch(&arg(1), Cmd::Cases { file: arg(2) }),
            "crash" => dispatch(&arg(1), Cmd::Crash { file: arg(2), print: arg(3) == "print" }),
            "gen" => dispatch(&arg(1), Cmd::Gen { n: num(2) }),
            "replay" => replay(&arg(1)),
            "digest" => p_cross::digest(&arg(1)),
            _ => {
                eprintln!("usage: vp check ID [--tier T] | replay FILE | gen ID SEED | cases ID FILE");
                3
            }
        }
    };
    // The main thread's usual stack, independent of the caller's ulimit.
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(run).expect("thread");
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

fn run<P: Prop>(cmd: Cmd) -> i32 {
    match cmd {
        Cmd::Check { tier } => check::<P>(&tier),
        Cmd::Shard { n, cases, out, seed } => {
            P::setup();
            let r = engine::search::<P>(
                engine::hash(format!("{}/{seed}/{n}", P::ID).as_bytes()),
                cases,
                &format!("{out}.crash"),
            );
            let count = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::n(*v as i64))).collect());
            let cov: String = r.cov.iter().map(|x| if *x != 0 { '1' } else { '0' }).collect();
            let j = J::obj(vec![
                ("evals", J::n(r.evals as i64)),
                ("discards", count(&r.discards)),
                ("labels", count(&r.labels)),
                ("nontrivial", J::Arr(r.nontrivial.iter().map(|x| J::s(format!("{x:x}"))).collect())),
                ("samples", J::Arr(r.samples)),
                ("corpus", J::n(r.corpus as i64)),
                ("cov", J::s(cov)),
                (
                    "fail",
                    match &r.fail {
                        None => J::Null,
                        Some((_, c, m)) => J::obj(vec![("case", c.clone()), ("msg", J::s(m.clone()))]),
                    },
                ),
            ]);
            std::fs::write(&out, j.dump()).expect("shard result");
            0
        }
        Cmd::Cases { file } => {
            P::setup();
            for l in std::fs::read_to_string(&file).expect("cases file").lines() {
                if l.trim().is_empty() {
                    continue;
                }
                let c = P::from_json(&J::parse(l).expect("case"));
                let (v, m) = match engine::run_case::<P>(&c) {
                    Run::Ok(_) => ("ok", String::new()),
                    Run::Discard(r) => ("discard", r.to_string()),
                    Run::Fail(m) => ("fail", m),
                };
                println!("{}", J::obj(vec![("v", J::s(v)), ("m", J::s(m))]).dump());
                let _ = std::io::stdout().flush();
            }
            0
        }
        Cmd::Crash { file, print } => {
            P::setup();
            let rec = engine::read_crash(&file).expect("crash file");
            let c = engine::gen_case::<P>(&mut engine::Src::new(rec, None));
            if print {
                println!("{}", P::to_json(&c).dump());
                return 0;
            }
            match engine::run_case::<P>(&c) {
                Run::Fail(m) => {
                    println!("{m}");
                    1
                }
                _ => 0,
            }
        }
        Cmd::Gen { n } => {
            let c = engine::gen_case::<P>(&mut engine::Src::new(vec![], Some(engine::Rng::new(n))));
            println!("{}", P::to_json(&c).dump());
            0
        }
    }
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}

/// Runs cases in a worker; a worker killed by SIGSEGV/SIGABRT/... is that case's failure.
fn run_cases(id: &str, cases: &[J]) -> Result<Vec<(String, String)>, String> {
    let mut res: Vec<(String, String)> = vec![];
    while res.len() < cases.len() {
        let f = format!("{}/cases-{id}-{}.jsonl", scratch(), std::process::id());
        let text: String = cases[res.len()..].iter().map(|c| c.dump() + "\n").collect();
        std::fs::write(&f, text).map_err(|e| e.to_string())?;
        let mut child = Command::new(me())
            .args(["cases", id, &f])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut o = child.stdout.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut o, &mut s);
            s
        });
        let st = wait(&mut child, Duration::from_secs(300));
        let out = rd.join().unwrap_or_default();
        for l in out.lines() {
            if let Ok(j) = J::parse(l) {
                res.push((j.str_("v"), j.str_("m")));
            }
        }
        match st {
            None => return Err(format!("case {} did not finish in time", res.len())),
            Some(s) if s.success() => {
                if res.len() < cases.len() {
                    return Err("worker ended early".into());
                }
            }
            Some(s) => match s.signal() {
                Some(sig) if is_crash(sig) => res.push(("fail".into(), format!("process died with signal {sig}"))),
                _ => return Err(format!("worker failed: {s}")),
            },
        }
    }
    Ok(res)
}

fn is_crash(sig: i32) -> bool {
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: never SIGKILL, which says nothing.
    matches!(sig, 4 | 5 | 6 | 7 | 8 | 11)
}

fn wait(c: &mut std::process::Child, t: Duration) -> Option<std::process::ExitStatus> {
    let end = Instant::now() + t;
    let mut nap = 1;
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if Instant::now() > end => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            Ok(None) => {
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(20);
            }
            Err(_) => return None,
        }
    }
}

struct Entry {
    kind: String,
    id: String,
    text: String,
    case: J,
}

/// known_findings.txt: `known: property=ID what case={...}` / `fixed: property=ID commit what case={...}`
fn findings(id: &str) -> Vec<Entry> {
    let mut v = vec![];
    let p = format!("{}/known_findings.txt", verif());
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let Some((kind, rest)) = l.split_once(": property=") else { continue };
        if kind != "known" && kind != "fixed" {
            continue;
        }
        let (pid, rest) = rest.split_once(' ').unwrap_or((rest, ""));
        if pid != id {
            continue;
        }
        let Some((text, case)) = rest.split_once(" case=") else { continue };
        match J::parse(case) {
            Ok(case) => v.push(Entry { kind: kind.into(), id: pid.into(), text: text.into(), case }),
            Err(e) => {
                eprintln!("known_findings.txt: {e}: {l}");
                std::process::exit(3);
            }
        }
    }
    v
}

/// Hand-kept cases that must hold: regressions and boundary cases, one JSON case per line.
fn pinned(id: &str) -> Vec<J> {
    let p = format!("{}/harness/cases/{id}.jsonl", verif());
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| J::parse(l).unwrap_or_else(|e| panic!("cases/{id}.jsonl: {e}: {l}")))
        .collect()
}

fn save_replay(id: &str, case: &J, msg: &str) -> String {
    let d = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{d}/{id}-{:016x}.json", engine::hash(case.dump().as_bytes()));
    let j = J::obj(vec![("property", J::s(id)), ("case", case.clone()), ("message", J::s(msg))]);
    let _ = std::fs::write(&p, j.dump() + "\n");
    p
}

fn replay(file: &str) -> i32 {
    let j = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| J::parse(&s)) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 3;
        }
    };
    let id = j.str_("property");
    let _ = std::fs::create_dir_all(scratch());
    match run_cases(&id, &[j.get("case").cloned().unwrap_or(J::Null)]) {
        Ok(v) if v[0].0 == "fail" => {
            println!("{}", v[0].1);
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Ok(v) => {
            println!("{}: {}", v[0].0, v[0].1);
            0
        }
        Err(e) => {
            eprintln!("{e}");
            3
        }
    }
}

fn check<P: Prop>(tier: &str) -> i32 {
    let start = Instant::now();
    let id = P::ID;
    let seed = seed_env();
    let dir = format!("{}/{id}-{}", scratch(), std::process::id());
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("{dir}: {e}");
        return 3;
    }
    let stop = format!("{dir}/stop");
    let _ = std::fs::remove_file(&stop);
    let mut violations: Vec<(J, String)> = vec![];

    // 1. Listed findings and pinned cases.
    let fs = findings(id);
    let pins = pinned(id);
    let mut all: Vec<J> = fs.iter().map(|f| f.case.clone()).collect();
    all.extend(pins.iter().cloned());
    let mut known = vec![];
    if !all.is_empty() {
        match run_cases(id, &all) {
            Err(e) => {
                eprintln!("replaying listed cases: {e}");
                return 3;
            }
            Ok(r) => {
                for (i, (v, m)) in r.iter().enumerate() {
                    if v != "fail" {
                        continue;
                    }
                    match fs.get(i) {
                        Some(f) if f.kind == "known" => {
                            println!("KNOWN-FINDING: property={} {}", f.id, f.text);
                            known.push(f.text.clone());
                        }
                        _ => violations.push((all[i].clone(), m.clone())),
                    }
                }
            }
        }
    }

    // 2. The search.
    let cases = if let Ok(n) = std::env::var("VP_CASES") {
        n.parse().unwrap_or(1000)
    } else if tier == "thorough" {
        P::CASES.1
    } else {
        P::CASES.0
    };
    let limit = Duration::from_secs(
        std::env::var("VP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 6 * 3600 } else { 780 }),
    );
    let mut kids = vec![];
    for n in 0..SHARDS {
        let out = format!("{dir}/{n}.json");
        let c = Command::new(me())
            .args(["shard", id, &n.to_string(), &(cases / SHARDS).max(1).to_string(), &seed.to_string(), &out])
            .stdin(Stdio::null())
            .spawn();
        match c {
            Ok(c) => kids.push((c, out)),
            Err(e) => {
                eprintln!("{e}");
                return 3;
            }
        }
    }
    let mut evals = 0;
    let mut nontrivial: HashSet<String> = HashSet::new();
    let mut labels: BTreeMap<String, i64> = BTreeMap::new();
    let mut discards: BTreeMap<String, i64> = BTreeMap::new();
    let mut samples = vec![];
    let mut corpus = 0;
    let mut cov: Vec<u8> = vec![];
    let mut broken = false;
    for (mut c, out) in kids {
        let st = wait(&mut c, limit.saturating_sub(start.elapsed()).max(Duration::from_secs(1)));
        if !st.is_some_and(|s| s.success()) {
            let _ = std::fs::write(&stop, "");
        }
        match st {
            Some(s) if s.success() => {
                let Some(j) = std::fs::read_to_string(&out).ok().and_then(|t| J::parse(&t).ok()) else {
                    eprintln!("{out}: no result");
                    broken = true;
                    continue;
                };
                evals += j.int("evals");
                corpus += j.int("corpus");
                for x in j.arr("nontrivial") {
                    nontrivial.insert(x.as_str().into());
                }
                for (k, m) in [("labels", &mut labels), ("discards", &mut discards)] {
                    if let Some(J::Obj(v)) = j.get(k) {
                        for (k, v) in v {
                            *m.entry(k.clone()).or_insert(0) += v.as_int();
                        }
                    }
                }
                samples.extend(j.arr("samples").into_iter().take(3));
                for (i, b) in j.str_("cov").bytes().enumerate() {
                    if i >= cov.len() {
                        cov.push(0);
                    }
                    cov[i] |= b - b'0';
                }
                if let Some(f @ J::Obj(_)) = j.get("fail") {
                    violations.push((f.get("case").cloned().unwrap_or(J::Null), f.str_("msg")));
                }
            }
            Some(s) if s.signal().is_some_and(is_crash) => {
                let crash = format!("{out}.crash");
                let again = Command::new(me()).args(["crash", id, &crash]).stdin(Stdio::null()).status();
                let case = Command::new(me()).args(["crash", id, &crash, "print"]).output();
                match (again, case) {
                    (Ok(a), Ok(o)) if a.signal().is_some_and(is_crash) && o.status.success() => {
                        let j = J::parse(String::from_utf8_lossy(&o.stdout).trim()).unwrap_or(J::Null);
                        violations.push((j, format!("process died with signal {}", a.signal().unwrap())));
                    }
                    _ => {
                        eprintln!("a worker died ({s}) and its last case does not show why");
                        broken = true;
                    }
                }
            }
            Some(s) => {
                eprintln!("worker failed: {s}");
                broken = true;
            }
            None => {
                eprintln!("worker did not finish in time: no verdict");
                broken = true;
            }
        }
    }

    // 3. Report.
    violations.sort_by_key(|(c, _)| c.dump().len());
    let mut seen = HashSet::new();
    violations.retain(|(c, _)| seen.insert(c.dump()));
    let n = |m: &BTreeMap<String, i64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect());
    let mut assumptions: Vec<J> = P::assumptions().into_iter().map(J::s).collect();
    assumptions.push(J::s("Sampling: a pass says nothing about inputs that were not generated."));
    samples.truncate(12);
    let ev = J::obj(vec![
        ("property", J::s(id)),
        ("tier", J::s(if tier == "thorough" { "thorough" } else { "quick" })),
        ("seed", J::n(seed as i64)),
        ("level", J::s("exploration")),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::n(evals + all.len() as i64)),
                ("distinct_nontrivial", J::n(nontrivial.len() as i64)),
                ("rule", J::s(P::RULE)),
                ("samples", J::Arr(samples)),
                ("labels", n(&labels)),
                ("discards", n(&discards)),
                ("listed_cases", J::n(all.len() as i64)),
                ("known_findings", J::Arr(known.into_iter().map(J::s).collect())),
                ("coverage_counters_hit", J::n(cov.iter().filter(|x| **x != 0).count() as i64)),
                ("coverage_counters_total", J::n(cov.len() as i64)),
                ("corpus_entries", J::n(corpus)),
                ("shards", J::n(SHARDS as i64)),
            ]),
        ),
        ("assumptions", J::Arr(assumptions)),
        ("wall_s", J::Num((start.elapsed().as_millis() as f64) / 1000.0)),
        ("violations", J::n(violations.len() as i64)),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    if let Err(e) = std::fs::write(format!("{}/evidence/{id}.json", verif()), ev.dump() + "\n") {
        eprintln!("evidence: {e}");
        broken = true;
    }
    if std::env::var("VP_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    if !violations.is_empty() {
        for (c, m) in &violations {
            let r = save_replay(id, c, m);
            println!("{m}");
            println!("VIOLATION property={id} replay={r}");
        }
        return 1;
    }
    if broken {
        return 2;
    }
    println!(
        "{id}: held on {} cases ({} distinct non-trivial) in {:.1}s",
        evals,
        nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    0
}
