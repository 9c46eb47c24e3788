//! rvmon: runtime monitors for retrocompressor.
//!   rvmon run PROP            parent: spawns workers, watches them, merges what they observed, writes evidence
//!   rvmon worker ...          runs its share of the cases
//!   rvmon one PROP SEED TIER IDX   replays one case
mod cli;
mod codec;
mod gen;
mod heap;
mod mon;
mod props;
mod reflzh;
mod reflzw;
mod rng;
mod streams;

use mon::*;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const IDLE: u64 = u64::MAX;
/// CPU seconds one case may burn before it counts as not terminating; normal cases need well under 5.
/// (CPU seconds in a run, CPU seconds on its own)
fn case_cpu(prop: &str, idx: u64) -> (f64, u64) { if props::is_huge(prop, idx) { (200.0, 250) } else { (80.0, 150) } }
/// a process that sleeps this long without using CPU is blocked: nothing here waits for anything
const BLOCKED_WALL: u64 = 200;

fn envs(k: &str, d: &str) -> String { std::env::var(k).unwrap_or_else(|_| d.to_string()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => std::process::exit(run(&a[2])),
        Some("worker") => worker(&a[2..]),
        Some("ops") => { codec::install_hook(); props::ops_child(&a[2], &a[3..]) }
        Some("one") => std::process::exit(one(&a[2], a[3].parse().unwrap(), tier(&a[4]), a[5].parse().unwrap())),
        _ => { eprintln!("usage: rvmon run PROP | one PROP SEED TIER IDX"); std::process::exit(2) }
    }
}
fn tier(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }
fn tname(t: Tier) -> &'static str { if t == Tier::Thorough { "thorough" } else { "quick" } }

fn worker(a: &[String]) {
    codec::install_hook();
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let t = tier(&a[2]);
    let (start, n, total): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let me: u64 = a[9].parse().unwrap();
    let journal = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a[6]).unwrap();
    let out = &a[7];
    let deadline = Instant::now() + Duration::from_secs_f64(a[8].parse().unwrap());
    let mut st = Stats::default();
    let mut vs = String::new();
    let mut nv = 0;
    let mut idx = start;
    while idx < total {
        if owner(idx, n) != me { idx += 1; continue; }
        if Instant::now() > deadline { st.inc("stopped_at_time_cap"); break; }
        journal.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        let began = Instant::now();
        let held = props::run_case(prop, idx, seed, t, &mut st);
        st.top("slowest_case_ms", began.elapsed().as_millis() as u64);
        if let Err(v) = held {
            let f = format!("{out}.{idx}.bin");
            std::fs::write(&f, &v.input).unwrap();
            vs += &format!("V {idx}\t{}\t{f}\t{}\n", v.sig, v.msg.replace(['\n', '\t'], " "));
            nv += 1;
            if nv >= 10 { break; }
        }
        idx += 1;
    }
    journal.write_all_at(&IDLE.to_le_bytes(), 0).unwrap();
    std::fs::write(out, format!("{}{}", st.dump(), vs)).unwrap();
}

/// the worker that runs a case: cases come in groups whose cost depends on idx % 8, so rotate
fn owner(idx: u64, n: u64) -> u64 { (idx + idx / n + idx / 64) % n }

fn one(prop: &str, seed: u64, t: Tier, idx: u64) -> i32 {
    codec::install_hook();
    let mut st = Stats::default();
    match props::run_case(prop, idx, seed, t, &mut st) {
        Ok(()) => { println!("case {idx} of {prop} (seed {seed}): held"); 0 }
        Err(v) => { println!("case {idx} of {prop} (seed {seed}): VIOLATED [{}] {}", v.sig, v.msg); println!("input: {}", hex(&v.input, 200)); 3 }
    }
}

/// CPU seconds used, and whether the process is asleep right now
fn cpu_of(pid: u32) -> Option<(f64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0, *f.first()? == "S"))
}

struct W { child: Child, k: u64, journal: String, out: String, seen: u64, seen_cpu: f64, seen_at: Instant, done: bool, gen: u32 }

fn limited(args: &[String], cpu: Option<u64>) -> Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("sh");
    let lim = format!("ulimit -v 6000000; ulimit -c 0; {} exec \"$0\" \"$@\"", cpu.map(|x| format!("ulimit -S -t {x}; ulimit -H -t {};", x + 30)).unwrap_or_default());
    c.arg("-c").arg(lim).arg(exe).args(args).stdin(Stdio::null());
    c
}

/// run one case on its own: exit status, signal, its message, and whether it had to be killed while blocked
fn confirm(args: &[String], cpu: u64) -> (Option<i32>, Option<i32>, String, bool) {
    let mut ch = limited(args, Some(cpu)).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let mut asleep = false;
    loop {
        if ch.try_wait().unwrap().is_some() { break; }
        // asleep all the time, or hardly given any CPU
        if t0.elapsed().as_secs() > BLOCKED_WALL && (t0.elapsed().as_secs() > 2 * cpu || cpu_of(ch.id()).is_some_and(|c| c.1 && c.0 < 20.0)) {
            let c = cpu_of(ch.id());
            asleep = c.is_some_and(|c| c.1 && c.0 < 20.0);
            let _ = ch.kill();
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let o = ch.wait_with_output().unwrap();
    (o.status.code(), o.status.signal(), String::from_utf8_lossy(&o.stdout).trim().to_string(), asleep)
}

fn run(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = envs("VERIF_SEED", "1").parse().unwrap_or(1);
    let t = tier(&envs("VERIF_TIER", "quick"));
    let root = envs("RVMON_ROOT", "/verif");
    let scratch = envs("RVMON_SCRATCH", "/tmp/rvmon-scratch");
    std::fs::create_dir_all(&scratch).unwrap();
    let total = props::plan(prop, t);
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let n = if props::serial(prop) { 1 } else { ncpu };
    let cap: f64 = envs("RVMON_CAP", if t == Tier::Quick { "150" } else { "600" }).parse().unwrap();
    let spawn = |k: u64, start: u64, gen: u32| -> W {
        let journal = format!("{scratch}/j{k}");
        let out = format!("{scratch}/o{k}.{gen}");
        std::fs::write(&journal, IDLE.to_le_bytes()).unwrap();
        let left = (cap - t0.elapsed().as_secs_f64()).max(1.0);
        let args: Vec<String> = ["worker", prop, &seed.to_string(), tname(t), &start.to_string(), &n.to_string(), &total.to_string(), &journal, &out, &left.to_string(), &k.to_string()].iter().map(|s| s.to_string()).collect();
        let child = limited(&args, None).stdout(Stdio::null()).stderr(std::fs::File::create(format!("{scratch}/err{k}")).unwrap()).spawn().unwrap();
        W { child, k, journal, out, seen: IDLE, seen_cpu: 0.0, seen_at: Instant::now(), done: false, gen }
    };
    let mut ws: Vec<W> = (0..n).map(|k| spawn(k, 0, 0)).collect();
    let mut st = Stats::default();
    let mut found: Vec<(u64, String, String, String)> = vec![]; // idx, sig, file, msg
    let mut inconclusive: Vec<String> = vec![];
    let mut stopping = false;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(100));
        for w in ws.iter_mut() {
            if w.done { continue; }
            let mut cur = IDLE;
            if let Ok(b) = std::fs::read(&w.journal) { if b.len() == 8 { cur = u64::from_le_bytes(b.try_into().unwrap()); } }
            let mut bad: Option<String> = None;
            match w.child.try_wait().unwrap() {
                Some(s) if s.success() => {
                    w.done = true;
                    match std::fs::read_to_string(&w.out) {
                        Ok(text) => {
                            st.merge(&text);
                            for l in text.lines().filter(|l| l.starts_with("V ")) {
                                let p: Vec<&str> = l[2..].splitn(4, '\t').collect();
                                found.push((p[0].parse().unwrap(), p[1].to_string(), p[2].to_string(), p[3].to_string()));
                            }
                        }
                        Err(e) => inconclusive.push(format!("worker {} left no report: {e}", w.k)),
                    }
                    continue;
                }
                Some(s) => { bad = Some(format!("crash ({}) {}", s.signal().map(|x| format!("signal {x}")).unwrap_or(format!("status {:?}", s.code())), std::fs::read_to_string(format!("{scratch}/err{}", w.k)).unwrap_or_default().trim().chars().take(200).collect::<String>())); }
                None => {
                    if stopping { let _ = w.child.kill(); let _ = w.child.wait(); w.done = true; continue; }
                    if let Some((c, asleep)) = cpu_of(w.child.id()) {
                        if cur != w.seen { w.seen = cur; w.seen_cpu = c; w.seen_at = Instant::now(); }
                        else if cur != IDLE && asleep && w.seen_at.elapsed().as_secs() > BLOCKED_WALL && c - w.seen_cpu < 2.0 { let _ = w.child.kill(); let _ = w.child.wait(); bad = Some(format!("blocked: asleep for {BLOCKED_WALL} s without using CPU")); }
                        else if cur != IDLE && c - w.seen_cpu > case_cpu(prop, cur).0 { let _ = w.child.kill(); let _ = w.child.wait(); bad = Some(format!("no termination within {} CPU seconds", case_cpu(prop, cur).0)); }
                    }
                }
            }
            if let Some(why) = bad {
                w.done = true;
                // one confirmed witness is enough: confirming takes long when nothing terminates any more
                if !found.is_empty() && known(&root, prop).is_empty() { continue; }
                if cur == IDLE { inconclusive.push(format!("worker {} ended outside a case: {why}", w.k)); continue; }
                // decide on an isolated re-run of the same case, by CPU time, never by wall clock
                let args: Vec<String> = ["one", prop, &seed.to_string(), tname(t), &cur.to_string()].iter().map(|s| s.to_string()).collect();
                let (code, signal, text, asleep) = confirm(&args, case_cpu(prop, cur).1);
                let kind = if why.starts_with("crash") { "crash" } else { "no-termination" };
                match (code, signal) {
                    (Some(0), _) => inconclusive.push(format!("case {cur}: {why}; not reproduced")),
                    (Some(3), _) => found.push((cur, kind.into(), String::new(), format!("{why}; isolated re-run: {text}"))),
                    (_, Some(9)) if asleep => found.push((cur, kind.into(), String::new(), format!("{why}; isolated re-run: blocked as well"))),
                    (_, Some(9)) => inconclusive.push(format!("case {cur}: {why}; re-run was killed")),
                    (c, s) => found.push((cur, kind.into(), String::new(), format!("{why}; isolated re-run ended with {} after at most {} CPU seconds", s.map(|x| format!("signal {x}")).unwrap_or(format!("status {c:?}")), case_cpu(prop, cur).1))),
                }
                if found.is_empty() && cur + 1 < total { let (k, g) = (w.k, w.gen + 1); *w = spawn(k, cur + 1, g); }
            }
        }
        if !found.is_empty() && !stopping && ws.iter().any(|w| w.done) {
            // give the others a moment to finish, then stop: one witness is enough unless findings are listed
            if known(&root, prop).is_empty() { stopping = true; }
        }
    }
    // verdict
    let kn = known(&root, prop);
    let mut unknown = vec![];
    let mut reported: BTreeMap<String, String> = BTreeMap::new();
    for f in &found {
        if kn.iter().any(|k| k == &f.1) { reported.insert(f.1.clone(), f.3.clone()); } else { unknown.push(f.clone()); }
    }
    for (s, m) in &reported { println!("KNOWN-FINDING: property={prop} {s}: {m}"); }
    for i in &inconclusive { eprintln!("inconclusive: {i}"); }
    let wall = t0.elapsed().as_secs_f64();
    let ev = evidence(prop, t, seed, &st, wall, unknown.len(), &inconclusive, total, n);
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    std::fs::write(format!("{root}/evidence/{prop}.json"), ev).unwrap();
    if let Some((idx, sig, file, msg)) = unknown.iter().min_by_key(|f| f.0) {
        let dir = format!("{root}/evidence/replay");
        std::fs::create_dir_all(&dir).unwrap();
        let base = format!("{dir}/{prop}-{}-{seed}-{idx}", tname(t));
        if !file.is_empty() { let _ = std::fs::copy(file, format!("{base}.bin")); }
        let js = format!("{{\"property\":{},\"seed\":{seed},\"tier\":{},\"case\":{idx},\"signature\":{},\"message\":{},\"input_file\":{},\"replay\":{}}}\n", jstr(prop), jstr(tname(t)), jstr(sig), jstr(msg), jstr(&if file.is_empty() { String::new() } else { format!("{base}.bin") }), jstr(&format!("./check.sh one {prop} {seed} {} {idx}", tname(t))));
        std::fs::write(format!("{base}.json"), js).unwrap();
        println!("{prop}: case {idx} [{sig}] {msg}");
        println!("VIOLATION property={prop} replay={base}.json");
        return 1;
    }
    let floor = props::floor(prop);
    if st.distinct.len() < floor {
        eprintln!("{prop}: observed only {} distinct non-trivial cases (floor {floor}); no verdict", st.distinct.len());
        return 2;
    }
    println!("{prop}: held on {} evaluations, {} distinct non-trivial, {:.1}s ({} planned, {} inconclusive)", st.evals, st.distinct.len(), wall, total, inconclusive.len());
    0
}

fn known(root: &str, prop: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            // finding: property=<id> signature=<sig> <what fails>      ("fixed:" lines suppress nothing)
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.split(' ');
                if it.next() == Some(&format!("property={prop}")) { if let Some(s) = it.next().and_then(|x| x.strip_prefix("signature=")) { v.push(s.to_string()); } }
            }
        }
    }
    v
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, t: Tier, seed: u64, st: &Stats, wall: f64, nviol: usize, inc: &[String], total: u64, n: u64) -> String {
    let mut o = Vec::new();
    let (rule, assume) = props::describe(prop);
    write!(o, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n", jstr(prop), jstr(tname(t)), jstr(props::level(prop))).unwrap();
    write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", st.evals, st.distinct.len(), jstr(rule)).unwrap();
    write!(o, "  \"samples\": [{}],\n", st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")).unwrap();
    write!(o, "  \"cases_planned\": {total},\n  \"workers\": {n},\n  \"inconclusive\": [{}],\n", inc.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")).unwrap();
    write!(o, "  \"observed\": {{{}}},\n", st.cnt.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ")).unwrap();
    write!(o, "  \"maxima\": {{{}}},\n", st.max.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ")).unwrap();
    write!(o, "  \"distinct_values_seen\": {{{}}}\n", st.sets.iter().map(|(k, v)| format!("{}: {}", jstr(k), v.len())).collect::<Vec<_>>().join(", ")).unwrap();
    write!(o, " }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {nviol}\n}}\n", assume.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")).unwrap();
    String::from_utf8(o).unwrap()
}
