//! What a run records: a digest of everything observed, optional trace,
//! probe counters and the set of abstract states reached.

use crate::rng::mix2;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: String) -> R<T> {
    Err(Viol { class: class.to_string(), msg })
}

#[derive(Default)]
pub struct Rec {
    pub trace: Option<Vec<String>>,
    /// The trace is also written here, line by line (survives an abort).
    pub stream: Option<std::fs::File>,
    pub digest: u64,
    pub ops: u64,
    pub stats: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub nontrivial: bool,
    /// Abstract shape of the run (hash of its event sequence).
    pub shape: u64,
    pub known: Vec<String>,
}

impl Rec {
    pub fn ev(&mut self, code: u64, f: impl FnOnce() -> String) {
        self.digest = mix2(self.digest, code);
        if let Some(t) = &mut self.trace {
            let s = f().replace('\n', " ");
            if let Some(o) = &mut self.stream {
                use std::io::Write;
                let _ = o.write_all(format!("{s}\n").as_bytes());
            }
            t.push(s);
        }
    }
    pub fn stat(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
        self.shape = mix2(self.shape, h);
    }
}

/// Printable form of raw bytes.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(120) {
        match c {
            b'\\' => s.push_str("\\\\"),
            32..=126 => s.push(*c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > 120 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
