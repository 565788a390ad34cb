//! The JavaScript oracle: a node process with the acorn parser, one per worker.
use crate::json::J;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node {
    _child: Child,
    i: ChildStdin,
    o: ChildStdout,
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn start() -> Node {
    let home = std::env::var("VP_HOME").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new("node")
        .args(["--stack-size=3900", "--experimental-vm-modules", "--no-warnings", &format!("{home}/harness/js/oracle.js")])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("node");
    let i = c.stdin.take().unwrap();
    let o = c.stdout.take().unwrap();
    Node { _child: c, i, o }
}

/// Panics (a harness error, never a verdict) when the oracle breaks.
pub fn ask(q: &J) -> J {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.get_or_insert_with(start);
        let d = q.dump().into_bytes();
        n.i.write_all(&(d.len() as u32).to_le_bytes()).expect("oracle write");
        n.i.write_all(&d).expect("oracle write");
        n.i.flush().expect("oracle write");
        let mut h = [0u8; 4];
        n.o.read_exact(&mut h).expect("oracle read");
        let mut b = vec![0u8; u32::from_le_bytes(h) as usize];
        n.o.read_exact(&mut b).expect("oracle read");
        let j = J::parse(&String::from_utf8(b).expect("oracle reply")).expect("oracle reply");
        if j.get("oracle_error").is_some() {
            panic!("oracle: {}", j.str_("oracle_error"));
        }
        j
    })
}
