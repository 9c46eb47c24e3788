//! What a worker observed: counters, maxima, small value sets, distinct-case hashes, samples, and the verdict type.
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Viol { pub msg: String, pub input: Vec<u8>, pub sig: String }
pub type Check = Result<(), Viol>;

pub fn viol(sig: &str, msg: String, input: &[u8]) -> Viol { Viol { msg, input: input.to_vec(), sig: sig.to_string() } }

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub cnt: BTreeMap<String, u64>,
    pub max: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, BTreeSet<u64>>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) { if n > 0 || !self.cnt.contains_key(k) { *self.cnt.entry(k.to_string()).or_insert(0) += n; } }
    pub fn inc(&mut self, k: &str) { self.add(k, 1) }
    pub fn top(&mut self, k: &str, n: u64) { let e = self.max.entry(k.to_string()).or_insert(0); *e = (*e).max(n); }
    pub fn see(&mut self, k: &str, v: u64) { self.sets.entry(k.to_string()).or_default().insert(v); }
    /// one evaluated case; counted as distinct and non-trivial by its hash when `nontrivial`
    pub fn case(&mut self, h: u64, nontrivial: bool) { self.evals += 1; if nontrivial { self.distinct.insert(h); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 3 { let s = f(); self.samples.push(s); } }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        s += &format!("E {}\n", self.evals);
        for (k, v) in &self.cnt { s += &format!("C {k} {v}\n"); }
        for (k, v) in &self.max { s += &format!("M {k} {v}\n"); }
        for (k, v) in &self.sets { s += &format!("S {k}"); for x in v { s += &format!(" {x}"); } s += "\n"; }
        s += "D"; for h in &self.distinct { s += &format!(" {h:x}"); } s += "\n";
        for x in &self.samples { s += &format!("X {}\n", x.replace('\n', " ")); }
        s
    }
    pub fn merge(&mut self, text: &str) {
        for l in text.lines() {
            let mut it = l.split(' ');
            match it.next() {
                Some("E") => self.evals += it.next().unwrap().parse::<u64>().unwrap(),
                Some("C") => { let k = it.next().unwrap().to_string(); *self.cnt.entry(k).or_insert(0) += it.next().unwrap().parse::<u64>().unwrap(); }
                Some("M") => { let k = it.next().unwrap().to_string(); let v = it.next().unwrap().parse::<u64>().unwrap(); let e = self.max.entry(k).or_insert(0); *e = (*e).max(v); }
                Some("S") => { let k = it.next().unwrap().to_string(); let e = self.sets.entry(k).or_default(); for x in it { e.insert(x.parse().unwrap()); } }
                Some("D") => for x in it { self.distinct.insert(u64::from_str_radix(x, 16).unwrap()); },
                Some("X") => if self.samples.len() < 8 { self.samples.push(l[2..].to_string()); },
                _ => {}
            }
        }
    }
}
pub fn hex(d: &[u8], max: usize) -> String {
    let mut s: String = d.iter().take(max).map(|b| format!("{b:02x}")).collect();
    if d.len() > max { s += &format!("..(+{} bytes)", d.len() - max); }
    s
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o.push('"');
    o
}
