//! The properties: for each, a workload, the events observed, and the oracle that decides.
use crate::codec::*;
use crate::gen;
use crate::mon::*;
use crate::reflzh::{self, Tok};
use crate::reflzw;
use crate::rng::{hash_bytes, Rng};
use crate::streams::*;
use std::io::ErrorKind;

pub fn plan(p: &str, t: Tier) -> u64 {
    let (q, th) = match p {
        "C01" => (8000, 80000),
        "C02" => (8000, 80000),
        "C03" => (6400, 51200),
        "C04" => (32000, 320000),
        "C05" => (9600, 96000),
        "C06" => (12000, 120000),
        "C07" => (12000, 120000),
        "C08" => (80000, 1000000),
        "C09" => (7500, 75000),
        "C10" => (5200, 52000),
        "C11" => (200000, 3000000),
        "C12" => (6400, 64000),
        "C13" => (16000, 200000),
        "C14" => (48000, 600000),
        "C15" => (48000, 480000),
        "C16" => (8000, 80000),
        "C17" => (6000, 60000),
        "C18" => (800, 10000),
        "C19" => (24000, 300000),
        "C20" => (16000, 160000),
        "C21" => (48, 320),
        "C22" => (30000, 300000),
        "C23" => (8000, 80000),
        "C24" => (100000, 800000),
        "C25" => (240, 2400),
        _ => (0, 0),
    };
    if t == Tier::Quick { q } else { th }
}
pub fn serial(p: &str) -> bool { p == "C18" }
pub fn level(p: &str) -> &'static str { if p == "C12" || p == "C20" { "fault_enumeration" } else { "exploration" } }
pub fn floor(p: &str) -> usize { if p == "C21" { 6 } else { 20 } }

pub fn describe(p: &str) -> (&'static str, Vec<&'static str>) {
    let common = "the workload is sampled: it says nothing about inputs it never drives";
    match p {
        "C01" => ("families of generated inputs (gen.rs) and an enumeration of short strings, over standard and random valid options; non-trivial: a non-empty input, distinct by content and options", vec![common, "valid options: positions fit 12 bits, window at least twice the lookahead, threshold <= lookahead"]),
        "C02" => ("as C01 without the length header; non-trivial: non-empty input", vec![common]),
        "C03" => ("inputs encoded by both implementations and by the reference encoder, compared bit for bit; non-trivial: the stream has at least one match token or more than 200 tokens", vec![common, "reflzh.rs is a faithful reading of LZHUF"]),
        "C04" => ("random token sequences serialised by the reference, decoded by the code under test; non-trivial: at least 2 tokens", vec![common, "positions beyond the filled part of the window are excluded until a full window was written"]),
        "C05" => ("as C01 for the direct port", vec![common]),
        "C06" => ("inputs over self-consistent LZW options; non-trivial: non-empty input", vec![common, "self-consistent: headers can hold the chunk's bit count, every reset is visible to the decoder"]),
        "C07" => ("inputs encoded by the code and by the reference, compared bit for bit; non-trivial: at least 2 codes", vec![common, "reflzw.rs is a faithful reading of LZW with these options"]),
        "C08" => ("code streams (valid non-greedy ones, mutated ones, random bits) decoded by the code and by the reference; non-trivial: at least 2 codes read", vec![common]),
        "C09" => ("TD0 images with random headers for both version ranges; non-trivial: non-empty body", vec![common]),
        "C10" => ("headers with every signature, single/double bit flips, wrong checksums, short files; non-trivial: each distinct header judged", vec![common]),
        "C11" => ("random bytes, mutated/truncated/spliced real streams, forged headers, into every expander, on budgeted streams; non-trivial: a distinct hostile stream", vec![common, "termination is decided by counting stream operations and CPU time, never wall clock", "windows and code widths stay in the documented range"]),
        "C12" => ("for each small input and codec, every stream operation (or a sample, when there are many) fails once or from then on; non-trivial: a distinct (input, operation index, mode) whose fault was delivered", vec![common]),
        "C13" => ("the same operation on smooth streams and on streams with short transfers and EINTR; non-trivial: a run in which at least one short transfer or interruption was delivered", vec![common]),
        "C14" => ("operations at random offsets, onto outputs that already hold data, with the cursors anywhere; non-trivial: distinct case with a non-empty region", vec![common]),
        "C15" => ("file sizes around the limit, real and virtual; non-trivial: a distinct (codec, direction, size, limit)", vec![common]),
        "C16" => ("streams cut at every byte (or a sample); non-trivial: a distinct (stream, cut)", vec![common]),
        "C17" => ("the real executable on generated files: fresh and existing outputs, answers at the prompt, rejected inputs; non-trivial: a distinct invocation", vec![common]),
        "C18" => ("the same operations alone in a fresh process (the yardstick), in short histories in fresh processes, on cold threads, in a process with a long history, and on 8 threads at once; non-trivial: a distinct operation compared under concurrency", vec![common, "thread schedules are the ones the machine produced"]),
        "C19" => ("streams produced by the code, decoded to tokens by the reference and compared with a brute-force longest-match search; non-trivial: at least one match token", vec![common]),
        "C20" => ("expansions that fail (stream errors at any operation, damaged code streams) onto outputs that already hold data, compared with the undisturbed expansion; non-trivial: a distinct failing run", vec![common, "the truth about a damaged LZW stream is the reference decoder's output up to the impossible code"]),
        "C21" => ("operations on generated (never stored) data of two lengths, measured by a counting allocator; non-trivial: a distinct (codec, options, direction, data style)", vec![common, "heap memory only; the stack is limited by the platform"]),
        "C22" => ("several streams written one behind another by out_offset and the reported sizes, each extracted again by in_offset; non-trivial: a distinct member followed by other bytes", vec![common, "only self-delimiting streams: LZSS with header, LZW with stop code, the port"]),
        "C23" => ("inputs encoded by either LZHUF implementation and decoded by the other; non-trivial: a non-empty input", vec![common]),
        "C24" => ("buffers (valid, damaged, too large, with offsets) given to the buffer functions and to the stream functions; non-trivial: a non-empty buffer, distinct by content and options", vec![common]),
        "C25" => ("operations on data of one kind and of two lengths, their CPU time, stream operations and bytes transferred compared; non-trivial: a distinct (codec, options, data)", vec![common, "CPU time of the thread, the better of several runs; a cost that grows more slowly than about n^1.6 cannot be told from noise"]),
        _ => ("", vec![]),
    }
}

pub fn run_case(p: &str, idx: u64, seed: u64, t: Tier, st: &mut Stats) -> Check {
    let mut rng = Rng::new(seed, p, idx);
    match p {
        "C01" => c01(idx, &mut rng, st, t),
        "C02" => c02(idx, &mut rng, st, t),
        "C03" => c03(idx, &mut rng, st, t),
        "C04" => c04(idx, &mut rng, st, t),
        "C05" => c05(idx, &mut rng, st, t),
        "C06" => c06(idx, &mut rng, st, t),
        "C07" => c07(idx, &mut rng, st, t),
        "C08" => c08(idx, &mut rng, st, t),
        "C09" => c09(idx, &mut rng, st, t),
        "C10" => c10(idx, &mut rng, st, t),
        "C11" => c11(idx, &mut rng, st, t),
        "C12" => c12(idx, &mut rng, st, t),
        "C13" => c13(idx, &mut rng, st, t),
        "C14" => c14(idx, &mut rng, st, t),
        "C15" => c15(idx, &mut rng, st, t),
        "C16" => c16(idx, &mut rng, st, t),
        "C17" => crate::cli::c17(idx, &mut rng, st, t),
        "C18" => c18(idx, &mut rng, st, t),
        "C19" => c19(idx, &mut rng, st, t),
        "C20" => c20(idx, &mut rng, st, t),
        "C21" => c21(idx, &mut rng, st, t),
        "C22" => c22(idx, &mut rng, st, t),
        "C23" => c23(idx, &mut rng, st, t),
        "C24" => c24(idx, &mut rng, st, t),
        "C25" => c25(idx, &mut rng, st, t),
        _ => panic!("no such property"),
    }
}

// ---------------------------------------------------------------- helpers

/// the m-th string in an enumeration of all strings over small alphabets
pub fn nth_string(m: u64) -> Vec<u8> {
    let (alpha, mut k): (&[u8], u64) = match m % 4 { 0 => (&[b' ', b'a'], m / 4), 1 => (&[0, 255], m / 4), 2 => (&[b'a', b'b', b'c'], m / 4), _ => (&[b' ', 1, 2, 3], m / 4) };
    let b = alpha.len() as u64;
    let mut v = vec![];
    while k > 0 { k -= 1; v.push(alpha[(k % b) as usize]); k /= b; }
    v
}

fn note_lzh(st: &mut Stats, toks: &[Tok], hs: &reflzh::HuffStats) {
    st.add("tokens", toks.len() as u64);
    let mut m = 0;
    let mut maxpos = 0;
    for t in toks { if let Tok::Match { len, pos } = t { m += 1; st.see("match_lengths", *len as u64); if m % 16 == 0 { st.see("match_positions", *pos as u64); } maxpos = maxpos.max(*pos as u64); } else if let Tok::Lit(b) = t { st.see("literals", *b as u64); } }
    st.add("matches", m);
    st.add("huffman_rebuilds", hs.rebuilds as u64);
    st.top("huffman_code_bits", hs.max_code_len as u64);
    st.top("match_position", maxpos);
}

/// The LZSS workload: deep Huffman trees, cuts at rebuild boundaries, large mixtures, and the families.
/// With `huge`, one case is larger than 2^24 bytes so that every byte of a 32-bit length is exercised.
fn lz_work(idx: u64, rng: &mut Rng, p: &reflzh::Par, t: Tier, huge: bool) -> (Vec<u8>, &'static str) {
    if huge && idx == 5 {
        return (sparse(rng), "over-16-MB");
    }
    if idx == 7 { return (vec![], "empty"); }
    // the work of the match finder on degenerate data grows with the square of the lookahead
    let (mut d, fam) = lz_work_any(idx, rng, p, t);
    if p.f > 200 { d.truncate(6_000_000_000 / (p.f * p.f)); }
    (d, fam)
}
fn lz_work_any(idx: u64, rng: &mut Rng, p: &reflzh::Par, t: Tier) -> (Vec<u8>, &'static str) {
    let std = p.n == 4096 && p.f == 60 && p.t == 2;
    match idx % 64 {
        0 if std => (gen::deep_huffman(rng), "deep-huffman"),
        1 | 33 if std => {
            // cut where the Huffman tree is about to be / has just been rebuilt
            let n = rng.range(60_000, 110_000);
            let f = rng.pick(&["uniform", "skew", "smallalpha", "lzcopies", "corpus", "text"]);
            let f = if rng.chance(1, 2) { "uniform" } else { f };
            let d = gen::family(rng, f, n, 4096, 60);
            let toks = reflzh::parse(&d, p);
            let first = 0x8000 - 314usize;
            let want = first as i64 + rng.below(5) as i64 - 2;
            let mut off = 0usize;
            for (k, tk) in toks.iter().enumerate() { if k as i64 >= want { break; } off += match tk { Tok::Lit(_) => 1, Tok::Match { len, .. } => *len }; }
            (d[..off.min(d.len())].to_vec(), "rebuild-cut")
        }
        2 => { let m = if t == Tier::Quick { 250_000 } else { 600_000 }; let n = rng.range(100_000, m); let f = gen::FAMILIES[rng.below(gen::FAMILIES.len())]; (gen::family(rng, f, n, p.n.max(4), p.f.clamp(2, p.n.max(4) / 2)), "large") }
        3 => { let n = rng.range(p.n + p.f, 6 * p.n + 4 * p.f + 2000); (gen::family(rng, "ringedge", n, p.n.max(4), p.f.clamp(2, p.n.max(4) / 2)), "ringedge") }
        _ => gen::input_for(rng, 40_000, p.n, p.f),
    }
}
fn is_enum(idx: u64) -> bool { (8..14).contains(&(idx % 64)) }
/// a batch of enumerated short strings for this index
fn enum_batch(idx: u64) -> impl Iterator<Item = Vec<u8>> { let b = (idx / 64) * 6 + idx % 64 - 8; (0..60u64).map(move |j| nth_string(b * 60 + j)) }

fn show(f: &Fail) -> String { format!("{f:?}") }
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {}", a.len(), b.len(), i)
}

fn opt_hash(c: &Codec) -> u64 {
    match c {
        Codec::Lzss(o) => hash_bytes(1, &[o.header as u8, o.precursor]) ^ (o.window_size as u64) << 32 ^ (o.lookahead as u64) << 16 ^ o.threshold as u64,
        Codec::Port => 2,
        Codec::Lzw(o) => hash_bytes(3, format!("{} {} {} {} {:?} {:?} {} {}", o.header_bits, o.header_divisor, o.chunk_size, o.max_symbol, o.clear_code, o.stop_code, o.max_code_width, matches!(o.ord, retrocompressor::BitOrder::Lsb0)).as_bytes()),
        Codec::Td0 => 4,
    }
}

pub fn show_codec(c: &Codec) -> String {
    match c {
        Codec::Lzss(o) => format!("lzss_huff(header {}, window {}, lookahead {}, threshold {}, precursor {})", o.header, o.window_size, o.lookahead, o.threshold, o.precursor),
        Codec::Port => "lzhuf-port".into(),
        Codec::Lzw(o) => format!("lzw(header {}/{}, chunk {}, max_symbol {}, clear {:?}, stop {:?}, width {}, {})", o.header_bits, o.header_divisor, o.chunk_size, o.max_symbol, o.clear_code, o.stop_code, o.max_code_width, if matches!(o.ord, retrocompressor::BitOrder::Lsb0) { "lsb" } else { "msb" }),
        Codec::Td0 => "td0".into(),
    }
}

/// compress, expand, compare.  `slack`: trailing bytes tolerated (headerless LZSS).
fn lossless(c: &Codec, d: &[u8], slack: usize, st: &mut Stats) -> Result<Vec<u8>, Viol> {
    let z = match c.compress_slice(d) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: compressing {} bytes failed: {}", show_codec(c), d.len(), show(&f)), d)) };
    let e = match c.expand_slice(&z) { Ok(e) => e, Err(f) => return Err(viol("expand-failed", format!("{}: expanding the compressed form of {} bytes failed: {}", show_codec(c), d.len(), show(&f)), d)) };
    if e.len() < d.len() || &e[..d.len()] != d || e.len() > d.len() + slack {
        return Err(viol("roundtrip-mismatch", format!("{}: round trip of {} bytes differs: {}", show_codec(c), d.len(), first_diff(d, &e)), d));
    }
    st.add("stray_trailing_bytes", (e.len() - d.len()) as u64);
    st.add("bytes_in", d.len() as u64);
    st.add("bytes_compressed", z.len() as u64);
    st.top("largest_input", d.len() as u64);
    Ok(z)
}

// ---------------------------------------------------------------- C01 C02 C05: lossless

fn c01(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let p = if idx % 64 < 2 || idx % 2 == 0 || idx == 5 { reflzh::STD } else if is_enum(idx) { gen::lzss_par_light(rng) } else { gen::lzss_par(rng) };
    let c = Codec::Lzss(lzss_opt(&p, true));
    if p != reflzh::STD { st.inc("random_option_cases"); st.see("windows", p.n as u64); st.see("lookaheads", p.f as u64); st.see("thresholds", p.t as u64); }
    lz_lossless(idx, rng, st, t, &c, &p, 4, 0, true)
}
fn c02(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let p = if idx % 64 < 2 || idx % 2 == 0 || idx == 5 { reflzh::STD } else if is_enum(idx) { gen::lzss_par_light(rng) } else { gen::lzss_par(rng) };
    let c = Codec::Lzss(lzss_opt(&p, false));
    if p != reflzh::STD { st.inc("random_option_cases"); st.see("windows", p.n as u64); st.see("lookaheads", p.f as u64); st.see("thresholds", p.t as u64); }
    lz_lossless(idx, rng, st, t, &c, &p, 0, 7, true)
}
fn c05(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check { lz_lossless(idx, rng, st, t, &Codec::Port, &reflzh::STD, 4, 0, true) }

#[allow(clippy::too_many_arguments)]
fn lz_lossless(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier, c: &Codec, p: &reflzh::Par, hdr: usize, slack: usize, huge: bool) -> Check {
    if is_enum(idx) {
        for d in enum_batch(idx) {
            lossless(c, &d, slack, st)?;
            st.inc("enumerated_short_strings");
            st.case(hash_bytes(opt_hash(c), &d), !d.is_empty());
        }
        return Ok(());
    }
    let (d, fam) = lz_work(idx, rng, p, t, huge);
    let z = lossless(c, &d, slack, st)?;
    st.inc(&format!("family:{fam}"));
    // what was driven, seen through the reference decoder (coverage only)
    if z.len() >= hdr && d.len() < 2_000_000 {
        let r = reflzh::decode(&z[hdr..], p, if slack == 0 { d.len() } else { usize::MAX });
        note_lzh(st, &r.toks, &r.hs);
    }
    st.case(hash_bytes(opt_hash(c), &d), !d.is_empty());
    st.sample(|| format!("{} on {} ({} bytes -> {}): {}", show_codec(c), fam, d.len(), z.len(), hex(&d, 24)));
    Ok(())
}

// ---------------------------------------------------------------- C03: encoders are bit exact

fn c03(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let p = reflzh::STD;
    let one = |d: &[u8], st: &mut Stats, fam: &str| -> Check {
        let want = reflzh::encode(d, &p);
        let full = reflzh::with_header(d.len(), &want.body);
        let port = reflzh::with_header(d.len(), &reflzh::encode_with(d, &p, true).body);
        if port != full { st.inc("ring_and_mirror_tails_differ"); }
        let codecs = [Codec::Lzss(lzss_opt(&p, true)), Codec::Port, Codec::Lzss(lzss_opt(&p, false))];
        for (k, c) in codecs.iter().enumerate() {
            let w: &[u8] = match k { 0 => &full, 1 => &port, _ => &want.body };
            match c.compress_slice(d) {
                Ok(z) if z == w => {}
                Ok(z) => return Err(viol("not-bit-exact", format!("{}: stream differs from LZHUF on {} bytes: {} (reference first)", show_codec(c), d.len(), first_diff(w, &z)), d)),
                Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(c), show(&f)), d)),
            }
        }
        note_lzh(st, &want.toks, &want.hs);
        st.inc(&format!("family:{fam}"));
        let nt = want.toks.len() > 200 || want.toks.iter().any(|t| matches!(t, Tok::Match { .. }));
        st.case(hash_bytes(0, d), nt);
        if nt { st.sample(|| format!("{} {} bytes -> {} tokens, {} stream bytes identical in 3 encoders: {}", fam, d.len(), want.toks.len(), want.body.len(), hex(d, 24))); }
        Ok(())
    };
    if is_enum(idx) { for d in enum_batch(idx) { one(&d, st, "enumerated")?; } return Ok(()); }
    let (d, fam) = lz_work(idx, rng, &p, t, false);
    one(&d, st, fam)
}

// ---------------------------------------------------------------- C04: decoders accept every token stream

pub fn random_tokens(rng: &mut Rng, p: &reflzh::Par, n: usize) -> (Vec<Tok>, Vec<u8>) {
    let style = rng.below(6);
    let mut toks = vec![];
    let mut out: Vec<u8> = vec![];
    let maxlen = p.f;
    let minlen = p.t + 1;
    let has_match = maxlen >= minlen;
    let few: Vec<usize> = (0..rng.range(1, 4)).map(|_| if has_match { rng.range(minlen, maxlen) } else { 0 }).collect();
    let fewl: Vec<u8> = (0..rng.range(1, 5)).map(|_| rng.byte()).collect();
    let lit_w = rng.range(0, 10);
    let cap = 3_000_000;
    while toks.len() < n && out.len() < cap {
        let lit = !has_match || match style { 0 => rng.chance(lit_w, 10), 1 => true, 2 => false, _ => rng.chance(1, 3) };
        if lit {
            let b = match style { 3 | 4 => rng.pick(&fewl), 5 => (rng.next().trailing_zeros() as u8).wrapping_mul(3), _ => rng.byte() };
            toks.push(Tok::Lit(b));
            out.push(b);
        } else {
            let len = match style { 3 => rng.pick(&few), 4 => if rng.chance(1, 2) { minlen } else { maxlen }, _ => rng.range(minlen, maxlen) };
            // reachable history: the fill area plus everything written, up to the whole window
            let reach = (p.n - p.f + out.len()).min(p.n).min(4096);
            let pos = match rng.below(6) { 0 => 0, 1 => rng.below(reach.min(4)), 2 => reach - 1, 3 => rng.below(reach.min(out.len().max(1))), _ => rng.below(reach) };
            for _ in 0..len {
                let j = out.len() as i64 - pos as i64 - 1;
                let b = if j < 0 { p.fill } else { out[j as usize] };
                out.push(b);
            }
            toks.push(Tok::Match { len, pos });
        }
    }
    (toks, out)
}
/// tokens whose counts follow a Fibonacci chain, then one of every symbol: the longest codes possible
pub fn deep_tokens(rng: &mut Rng) -> (Vec<Tok>, Vec<u8>) {
    let p = reflzh::STD;
    let mut syms: Vec<usize> = (0..314).collect();
    rng.shuffle(&mut syms);
    let w0 = 314usize;
    let mut f = vec![w0 / 2 + rng.below(3), w0 + rng.below(3)];
    let mut sum = w0 + f[0] + f[1];
    loop {
        let nx = sum - f[f.len() - 1] + rng.below(3);
        if sum + nx > 32700 { break; }
        f.push(nx);
        sum += nx;
    }
    let mut seq: Vec<usize> = vec![];
    for (i, c) in f.iter().enumerate() { for _ in 0..*c { seq.push(syms[i]); } }
    rng.shuffle(&mut seq);
    let mut tail: Vec<usize> = syms[f.len()..].to_vec();
    rng.shuffle(&mut tail);
    tail.truncate(rng.range(5, 40));
    seq.extend(tail);
    let mut out: Vec<u8> = vec![];
    let toks: Vec<Tok> = seq.iter().map(|s| if *s < 256 { out.push(*s as u8); Tok::Lit(*s as u8) } else {
        let len = s + p.t - 255;
        let pos = rng.below(4036);
        for _ in 0..len { let j = out.len() as i64 - pos as i64 - 1; out.push(if j < 0 { p.fill } else { out[j as usize] }); }
        Tok::Match { len, pos }
    }).collect();
    (toks, out)
}

/// accepts one pattern over and over
struct PeriodSink { pat: Vec<u8>, at: usize, pos: u64, total: u64, slack: u64, wrong: Option<u64> }
impl PeriodSink {
    fn new(unit: &[u8], total: u64, slack: u64) -> Self { Self { pat: unit.repeat(200_000 / unit.len() + 1), at: 0, pos: 0, total, slack, wrong: None } }
}
impl std::io::Write for PeriodSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut k = 0;
        while k < b.len() {
            if self.pos >= self.total + self.slack { self.wrong.get_or_insert(self.pos); return Err(std::io::Error::other("stop here")); }
            if self.pos >= self.total { self.pos += 1; k += 1; continue; }
            let n = (b.len() - k).min(self.pat.len() - self.at).min((self.total - self.pos) as usize);
            if b[k..k + n] != self.pat[self.at..self.at + n] {
                let d = (0..n).find(|i| b[k + i] != self.pat[self.at + i]).unwrap();
                self.wrong.get_or_insert(self.pos + d as u64);
                return Err(std::io::Error::other("stop here"));
            }
            k += n;
            self.pos += n as u64;
            self.at += n;
            if self.at == self.pat.len() { self.at = 0; }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl std::io::Seek for PeriodSink {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        match to { std::io::SeekFrom::Current(0) => Ok(self.pos), std::io::SeekFrom::Start(n) if n == self.pos => Ok(n), _ => Err(std::io::Error::other("only forward")) }
    }
}

/// Streams that denote as much as a length header can state, or more than 32 bits can count: a few literals, then
/// nothing but copies of them
/// cases that take some 20 CPU seconds instead of well under 5
pub fn is_huge(prop: &str, idx: u64) -> bool { match prop { "C04" => lzh_is_huge(idx), "C08" => idx == 2 || idx == 3, "C14" => idx == 2, "C21" => true, _ => false } }
fn lzh_is_huge(idx: u64) -> bool { idx < 3 }
fn c04_huge(idx: u64, rng: &mut Rng, st: &mut Stats) -> Check {
    let (c, p, hdr) = match idx {
        0 => (Codec::Port, reflzh::STD, true),
        _ => { let p = reflzh::Par { n: 4096, f: 2048, t: rng.range(1, 3), fill: rng.byte() }; (Codec::Lzss(lzss_opt(&p, idx == 2)), p, idx == 2) }
    };
    let unit: Vec<u8> = (0..rng.range(1, 200)).map(|_| rng.byte()).collect();
    let total: u64 = if hdr { u32::MAX as u64 } else { (1 << 32) + rng.range(1000, 200_000) as u64 };
    let mut h = reflzh::Huff::new(reflzh::nsym(&p));
    let mut out = reflzh::BitOut::new();
    for b in &unit { h.encode(*b as usize, &mut out); }
    let (mut left, mut toks) = (total - unit.len() as u64, unit.len() as u64);
    while left > 0 {
        let len = left.min(p.f as u64) as usize;
        if len > p.t { reflzh::put_match(&mut h, &mut out, len, unit.len() - 1, &p); left -= len as u64; } else { h.encode(unit[((total - left) % unit.len() as u64) as usize] as usize, &mut out); left -= 1; }
        toks += 1;
    }
    let z = if hdr { reflzh::with_header(total as usize, &out.v) } else { out.v };
    let mut w = PeriodSink::new(&unit, total, if hdr { 0 } else { 7 });
    let r = c.expand(&mut std::io::Cursor::new(&z[..]), &mut w);
    let what = format!("{}: {toks} valid tokens denoting {total} bytes", show_codec(&c));
    let short = &z[..z.len().min(4096)];
    if let Some(at) = w.wrong { return Err(viol("decode-mismatch", format!("{what}: byte {at} of the expansion is wrong"), short)); }
    match r {
        Ok((_, n)) if n >= total && n == w.pos => {}
        Ok((_, n)) => return Err(viol("decode-mismatch", format!("{what}: reported {n} bytes and wrote {}", w.pos), short)),
        Err(f) => return Err(viol("decode-failed", format!("{what}: refused after {} bytes: {}", w.pos, show(&f)), short)),
    }
    st.inc("beyond_4gb_streams");
    st.top("largest_expansion", total);
    st.case(hash_bytes(hash_bytes(0, format!("{p:?}").as_bytes()), short), true);
    Ok(())
}

fn c04(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    if lzh_is_huge(idx) { return c04_huge(idx, rng, st); }
    let std = idx % 2 == 0;
    let p = if std { reflzh::STD } else { gen::lzss_par(rng) };
    let (toks, out) = if std && idx % 40 == 0 { st.inc("deep_token_streams"); deep_tokens(rng) } else {
        let n = match rng.below(40) { 0 => rng.range(33_000, 70_000), 1 => 32768 - reflzh::nsym(&p) - 2 + rng.below(6), 2..=8 => rng.logsize(20_000), _ => rng.logsize(1500) };
        random_tokens(rng, &p, n)
    };
    let mut hs = reflzh::HuffStats::default();
    let (body, _) = reflzh::put_tokens(&toks, &p, &mut hs);
    let full = reflzh::with_header(out.len(), &body);
    let mut runs: Vec<(Codec, &[u8], usize)> = vec![(Codec::Lzss(lzss_opt(&p, true)), &full, 0), (Codec::Lzss(lzss_opt(&p, false)), &body, 7)];
    if std { runs.push((Codec::Port, &full, 0)); }
    for (c, z, slack) in runs {
        match c.expand_slice(z) {
            Ok(e) if e.len() >= out.len() && e[..out.len()] == out[..] && e.len() <= out.len() + slack => {}
            Ok(e) => return Err(viol("decode-mismatch", format!("{}: {} valid tokens ({} bytes) decode differently: {} (reference first)", show_codec(&c), toks.len(), out.len(), first_diff(&out, &e)), z)),
            Err(f) => return Err(viol("decode-failed", format!("{}: {} valid tokens refused: {}", show_codec(&c), toks.len(), show(&f)), z)),
        }
        st.inc("streams_decoded");
    }
    note_lzh(st, &toks, &hs);
    st.case(hash_bytes(hash_bytes(0, format!("{p:?}").as_bytes()), &body), toks.len() >= 2);
    st.sample(|| format!("{:?}: {} tokens -> {} bytes, first tokens {:?}", p, toks.len(), out.len(), &toks[..toks.len().min(4)]));
    Ok(())
}

// ---------------------------------------------------------------- C06 C07 C08: LZW

/// three cases of a run go beyond 2^24 bytes (in many chunks, in one) or 2^16 chunks
fn lzw_special(idx: u64) -> u8 { match idx { 5 => 1, 6 => 2, 15 => 3, _ => 0 } }
fn lzw_opts(idx: u64, rng: &mut Rng) -> reflzw::Par {
    match lzw_special(idx) {
        1 => if rng.chance(1, 2) { reflzw::std_par() } else { reflzw::td_par() },
        2 => reflzw::Par { hbits: rng.pick(&[0usize, 32, 40]), chunk: 1 << 28, clear: None, stop: rng.pick(&[None, Some(300usize)]), width: rng.range(11, 16), lsb: rng.chance(1, 2), ..reflzw::std_par() },
        3 => { let h = rng.chance(1, 2); reflzw::Par { hbits: if h { 16 } else { 0 }, chunk: rng.range(2, 6), clear: if h { None } else { Some(256) }, stop: if rng.chance(1, 2) { Some(257) } else { None }, lsb: rng.chance(1, 2), ..reflzw::std_par() } }
        _ => if lzw_is_wide(idx) { gen::lzw_wide(rng) } else { gen::lzw_par_of(rng, true) },
    }
}
/// more than 2^24 bytes, nearly all of them zero
fn sparse(rng: &mut Rng) -> Vec<u8> {
    let mut d = vec![0u8; (1 << 24) + 70000 + rng.below(1000)];
    for _ in 0..3000 { let i = rng.below(d.len()); d[i] = rng.byte(); }
    d
}
fn lzw_is_wide(idx: u64) -> bool { idx % 128 == 37 }
fn lzw_work(idx: u64, rng: &mut Rng, p: &reflzw::Par, t: Tier) -> (Vec<u8>, &'static str) {
    if idx == 7 { return (vec![], "empty"); }
    let (mut d, mut fam) = match idx % 32 {
        5 if lzw_is_wide(idx) => { let n = rng.range(100_000, 180_000); (gen::family(rng, "uniform", n, 4096, 60), "wide") }
        0 => { let n = rng.range(50_000, if t == Tier::Quick { 200_000 } else { 600_000 }); let f = gen::FAMILIES[rng.below(gen::FAMILIES.len())]; (gen::family(rng, f, n, 4096, 60), "large") }
        1 => { let n = rng.range(5_000, 60_000); (gen::family(rng, "uniform", n, 4096, 60), "uniform-large") }
        _ => gen::input(rng, 30_000),
    };
    gen::restrict(&mut d, p.maxsym);
    // every chunk costs a new dictionary
    d.truncate(p.chunk.saturating_mul(30_000));
    if idx % 4 == 2 && d.len() > 4 {
        // cut at / around a chunk boundary, the filling of the dictionary, or any code boundary
        let (_, info) = reflzw::parse(&d, p);
        let cut = if info.chunk_starts.len() > 1 && rng.chance(2, 3) { info.chunk_starts[rng.range(1, info.chunk_starts.len() - 1)] }
            else { let room = (1usize << p.width) - p.maxsym - 1; let k = if rng.chance(1, 2) { room.min(info.code_offs.len() - 1).saturating_sub(rng.below(4)) } else { rng.below(info.code_offs.len()) }; info.code_offs[k] };
        let cut = (cut as i64 + rng.below(5) as i64 - 2).clamp(0, d.len() as i64) as usize;
        d.truncate(cut);
        fam = "boundary-cut";
    }
    (d, fam)
}
fn note_lzw(st: &mut Stats, p: &reflzw::Par, info: &reflzw::Info) {
    st.add("codes", info.codes as u64);
    st.add("chunks", info.chunks as u64);
    if info.full { st.inc("dictionary_filled"); }
    if info.chunks > 1 { st.inc("multi_chunk_streams"); }
    st.top("longest_string", info.longest as u64);
    st.see("widths", p.width as u64);
    st.see("chunk_sizes", p.chunk as u64);
}
fn c06(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let p = lzw_opts(idx, rng);
    let c = Codec::Lzw(lzw_opt(&p));
    if is_enum(idx) {
        for mut d in enum_batch(idx) { gen::restrict(&mut d, p.maxsym); lossless(&c, &d, 0, st)?; st.inc("enumerated_short_strings"); st.case(hash_bytes(opt_hash(&c), &d), !d.is_empty()); }
        return Ok(());
    }
    let (d, fam) = match lzw_special(idx) {
        1 | 2 => (sparse(rng), "over-16-MB"),
        3 => { let n = p.chunk * (66_000 + rng.below(3000)); (gen::family(rng, "uniform", n, 4096, 60), "over-65536-chunks") }
        _ => lzw_work(idx, rng, &p, t),
    };
    let z = lossless(&c, &d, 0, st)?;
    let (_, info) = reflzw::parse(&d, &p);
    note_lzw(st, &p, &info);
    st.inc(&format!("family:{fam}"));
    st.case(hash_bytes(opt_hash(&c), &d), !d.is_empty());
    st.sample(|| format!("{} on {} ({} -> {} bytes): {}", show_codec(&c), fam, d.len(), z.len(), hex(&d, 24)));
    Ok(())
}
fn c07(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let p = lzw_opts(idx, rng);
    let c = Codec::Lzw(lzw_opt(&p));
    let one = |d: &[u8], fam: &str, st: &mut Stats| -> Check {
        let (chunks, info) = reflzw::parse(d, &p);
        if !reflzw::headers_fit(&chunks, &p) { st.inc("skipped_header_overflow"); return Ok(()); }
        let want = reflzw::put_chunks(&chunks, &p);
        match c.compress_slice(d) {
            Ok(z) if z == want => {}
            Ok(z) => return Err(viol("not-canonical", format!("{}: stream differs from reference LZW on {} bytes: {} (reference first)", show_codec(&c), d.len(), first_diff(&want, &z)), d)),
            Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&c), show(&f)), d)),
        }
        note_lzw(st, &p, &info);
        st.inc(&format!("family:{fam}"));
        st.case(hash_bytes(opt_hash(&c), d), info.codes >= 2);
        if info.codes > 2 { st.sample(|| format!("{} on {} ({} bytes, {} codes, {} chunks) identical: {}", show_codec(&c), fam, d.len(), info.codes, info.chunks, hex(d, 24))); }
        Ok(())
    };
    if is_enum(idx) { for mut d in enum_batch(idx) { gen::restrict(&mut d, p.maxsym); one(&d, "enumerated", st)?; } return Ok(()); }
    let (d, fam) = match lzw_special(idx) {
        1 | 2 => (sparse(rng), "over-16-MB"),
        3 => { let n = p.chunk * (66_000 + rng.below(3000)); (gen::family(rng, "uniform", n, 4096, 60), "over-65536-chunks") }
        _ => lzw_work(idx, rng, &p, t),
    };
    one(&d, fam, st)
}
/// accepts the strings w[..1], w[..2], ... one after the other (with a literal before each, from the second on, if told so)
struct ChainSink<'a> { w: &'a [u8], lits: bool, k: usize, i: usize, base: u64, pos: u64, wrong: Option<(u64, u8, u8)> }
impl ChainSink<'_> {
    fn want(&mut self) -> u8 {
        if self.i == usize::MAX { self.i = 0; return self.w[self.k]; }
        let b = self.w[self.i];
        self.i += 1;
        if self.i > self.k { self.k += 1; self.i = if self.lits { usize::MAX } else { 0 }; }
        b
    }
}
impl std::io::Write for ChainSink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for x in b {
            let e = if self.k < self.w.len() { self.want() } else if !self.lits { self.w[0] } else { !*x };
            if e != *x && self.wrong.is_none() { self.wrong = Some((self.pos, e, *x)); return Err(std::io::Error::other("stop here")); }
            self.pos += 1;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl std::io::Seek for ChainSink<'_> {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        match to {
            std::io::SeekFrom::Start(n) if self.pos == 0 => { self.base = n; Ok(n) }
            std::io::SeekFrom::Start(n) if n == self.base + self.pos => Ok(n),
            std::io::SeekFrom::Current(0) => Ok(self.base + self.pos),
            _ => Err(std::io::Error::other("only forward")),
        }
    }
}

/// Codes that each stand for one byte more than the one before; when they stand for runs, strings longer than 16 bits can
/// count and an expansion longer than 32 bits can count, with the longest string once more at the end
fn c08_long_strings(idx: u64, rng: &mut Rng, st: &mut Stats) -> Check {
    let lits = idx % 2 == 1;
    let n = if lits { 12_000 } else { 92_700 } + rng.range(100, 400);
    let maxsym = 255;
    let stop = if rng.chance(1, 2) { Some(256) } else { None };
    let p = reflzw::Par { hbits: 0, hdiv: 1, chunk: usize::MAX, maxsym, clear: None, stop, width: rng.range(18, 24), lsb: rng.chance(1, 2) };
    let first = maxsym + 1 + stop.is_some() as usize;
    let w: Vec<u8> = if lits { (0..n).map(|_| rng.byte()).collect() } else { vec![rng.byte(); n] };
    let mut codes = vec![w[0] as usize];
    for k in 1..n {
        if lits { codes.push(w[k] as usize); codes.push(first + 2 * (k - 1)); } else { codes.push(first + k - 1); }
    }
    if !lits { codes.push(*codes.last().unwrap()); }
    let z = reflzw::put_chunks(&[codes.clone()], &p);
    let mut o = lzw_opt(&p);
    let at = rng.pick(&[0u64, 1, 12, 1 << 32, (1 << 40) + 5]);
    o.out_offset = at;
    let c = Codec::Lzw(o);
    let total = (n as u64) * (n as u64 + 1) / 2 + if lits { n as u64 - 1 } else { n as u64 };
    let mut sink = ChainSink { w: &w, lits, k: 0, i: 0, base: 0, pos: 0, wrong: None };
    let r = c.expand(&mut std::io::Cursor::new(&z[..]), &mut sink);
    let what = format!("{}: {} codes standing for strings of 1 to {n} bytes", show_codec(&c), codes.len());
    if let Some((at, e, g)) = sink.wrong { return Err(viol("decode-mismatch", format!("{what}: byte {at} of the expansion is {g:#04x} and must be {e:#04x}"), &z)); }
    match r {
        Ok((i, out)) if out == total && sink.pos == total && i == z.len() as u64 && sink.base == at => {}
        Ok((i, _)) if i != z.len() as u64 => return Err(viol("reported-sizes", format!("{what}: reported {i} bytes read of {}", z.len()), &z)),
        Ok(_) if sink.base != at => return Err(viol("wrong-place", format!("{what}: written at {} instead of {at}", sink.base), &z)),
        Ok((_, out)) => return Err(viol("decode-mismatch", format!("{what}: reported {out} bytes and wrote {}, but the stream stands for {total}", sink.pos), &z)),
        Err(f) => return Err(viol("valid-stream-refused", format!("{what}: refused after {} of {total} bytes: {}", sink.pos, show(&f)), &z)),
    }
    st.inc("kind:long-strings");
    st.add("codes", codes.len() as u64);
    st.top("longest_string", n as u64);
    st.case(hash_bytes(opt_hash(&c), &z), true);
    Ok(())
}

fn c08(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    if is_huge("C08", idx) { return c08_long_strings(idx, rng, st); }
    let p = if lzw_is_wide(idx) { gen::lzw_wide(rng) } else { gen::lzw_par(rng) };
    let c = Codec::Lzw(lzw_opt(&p));
    let n = match rng.below(20) { 0 => rng.range(4000, 12_000), 1..=4 => rng.logsize(5000), _ => rng.logsize(400) };
    let mut kind = "valid";
    let mut z = {
        let wide = lzw_is_wide(idx);
        let mut ch = if wide { let n = rng.range(100_000, 150_000); reflzw::parse(&gen::family(rng, "uniform", n, 4096, 60), &p).0 } else { reflzw::random_valid(rng, &p, n) };
        match if wide { rng.below(3) as u64 } else { idx % 4 } {
            0 => {}
            1 => {
                // an arbitrary code somewhere
                kind = "one-code-changed";
                let i = rng.below(ch.len());
                if !ch[i].is_empty() { let k = if rng.chance(1, 3) { 0 } else { rng.below(ch[i].len()) }; ch[i][k] = match rng.below(3) { 0 => (1usize << p.width) - 1, 1 => (p.maxsym + 1 + rng.below(ch[i].len() + 4)).min((1 << p.width) - 1), _ => rng.below(1 << p.width) }; }
            }
            2 => { kind = "trailing-bytes"; }
            _ => { kind = "random-codes"; ch = vec![(0..n.min(300)).map(|k| rng.below((p.maxsym + 2 + k).min(1 << p.width))).collect()]; }
        }
        if !reflzw::headers_fit(&ch, &p) { st.inc("skipped_header_overflow"); return Ok(()); }
        reflzw::put_chunks(&ch, &p)
    };
    if kind == "trailing-bytes" { for _ in 0..rng.range(1, 40) { z.push(rng.byte()); } }
    if idx % 16 == 15 { kind = "random-bits"; z = (0..rng.logsize(600)).map(|_| rng.byte()).collect(); }
    let want = reflzw::decode(&z, &p);
    match (c.expand_slice(&z), &want.end) {
        (Ok(e), reflzw::End::Ok) if e == want.out => { st.inc("accepted"); }
        (Err(Fail::Format), reflzw::End::Bad) => { st.inc("refused"); }
        (Ok(e), reflzw::End::Ok) => return Err(viol("decode-mismatch", format!("{} ({kind}): {} codes decode differently: {} (reference first)", show_codec(&c), want.codes, first_diff(&want.out, &e)), &z)),
        (Ok(e), reflzw::End::Bad) => return Err(viol("impossible-code-accepted", format!("{} ({kind}): code {} cannot be in the dictionary, but expansion succeeded with {} bytes", show_codec(&c), want.codes, e.len()), &z)),
        (Err(f), reflzw::End::Ok) => return Err(viol("valid-stream-refused", format!("{} ({kind}): valid stream of {} codes refused: {}", show_codec(&c), want.codes, show(&f)), &z)),
        (Err(f), reflzw::End::Bad) => return Err(viol("wrong-refusal", format!("{} ({kind}): an impossible code must be refused as a format mismatch, got {}", show_codec(&c), show(&f)), &z)),
    }
    st.inc(&format!("kind:{kind}"));
    st.add("codes", want.codes as u64);
    st.see("widths", p.width as u64);
    st.case(hash_bytes(opt_hash(&c), &z), want.codes >= 2);
    st.sample(|| format!("{} {kind}: {} codes -> {:?} {} bytes; stream {}", show_codec(&c), want.codes, want.end, want.out.len(), hex(&z, 24)));
    Ok(())
}

// ---------------------------------------------------------------- C09 C10: TD0

fn c09(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let v1 = rng.chance(1, 2);
    let ver = gen::version(rng, v1);
    let (body, fam) = if idx == 5 || idx == 6 { let mut d = sparse(rng); d.truncate(2_999_988 - rng.below(3)); (d, "near-limit") } else if is_enum(idx) { (nth_string(idx * 7), "enumerated") } else if v1 { lzw_work(idx, rng, &reflzw::td_par(), t) } else { lz_work(idx, rng, &reflzh::STD, t, false) };
    let h = gen::td0_header(rng, b"TD", ver);
    let mut img = h.clone();
    img.extend_from_slice(&body);
    let mut adv_h = h.clone();
    adv_h[0] = b't';
    adv_h[1] = b'd';
    let cc = gen::crc(0, &adv_h[..10]).to_le_bytes();
    adv_h[10..12].copy_from_slice(&cc);
    let c = Codec::Td0;
    let bad = |sig: &str, m: String| Err(viol(sig, format!("td0 version byte {ver}, {} body bytes ({fam}): {m}", body.len()), &img));
    let z = match c.compress_slice(&img) { Ok(z) => z, Err(f) => return bad("compress-failed", format!("compress: {}", show(&f))) };
    if z.len() < 12 || z[..12] != adv_h[..] { return bad("header", format!("advanced header is {} but must be {}", hex(&z, 12), hex(&adv_h, 12))); }
    let dec = if v1 { reflzw::decode(&z[12..], &reflzw::td_par()).out } else { reflzh::decode(&z[12..], &reflzh::STD, usize::MAX).out };
    let slack = if v1 { 0 } else { 7 };
    if dec.len() < body.len() || dec[..body.len()] != body[..] || dec.len() > body.len() + slack { return bad("wrong-body", format!("the advanced body does not hold the data in the codec its version calls for: {}", first_diff(&body, &dec))); }
    let e = match c.expand_slice(&z) { Ok(e) => e, Err(f) => return bad("expand-failed", format!("expand: {}", show(&f))) };
    if e.len() < img.len() || e[..img.len()] != img[..] || e.len() > img.len() + slack { return bad("roundtrip-mismatch", format!("round trip: {}", first_diff(&img, &e))); }
    // an advanced image made elsewhere
    let mut other = adv_h.clone();
    if v1 { other.extend(reflzw::encode(&body, &reflzw::td_par()).0) } else { other.extend(reflzh::encode(&body, &reflzh::STD).body) }
    let e2 = match c.expand_slice(&other) { Ok(e) => e, Err(f) => return bad("expand-failed", format!("expanding a reference advanced image: {}", show(&f))) };
    if e2.len() < img.len() || e2[..img.len()] != img[..] || e2.len() > img.len() + slack { return bad("foreign-image", format!("expanding a reference advanced image: {}", first_diff(&img, &e2))); }
    // one by a program that chooses its codes differently
    if idx % 4 == 3 {
        let n = if rng.chance(1, 10) { rng.range(5000, 40_000) } else { rng.logsize(2000) };
        let (z, out) = if v1 {
            let z = reflzw::put_chunks(&reflzw::random_valid(rng, &reflzw::td_par(), n.min(12_000)), &reflzw::td_par());
            let out = reflzw::decode(&z, &reflzw::td_par()).out;
            (z, out)
        } else {
            let (toks, out) = random_tokens(rng, &reflzh::STD, n);
            (reflzh::put_tokens(&toks, &reflzh::STD, &mut reflzh::HuffStats::default()).0, out)
        };
        let mut img = adv_h.clone();
        img.extend(&z);
        let mut want = h.clone();
        want.extend(&out);
        match c.expand_slice(&img) {
            Ok(e) if e.len() >= want.len() && e[..want.len()] == want[..] && e.len() <= want.len() + slack => st.inc("freely_coded_images"),
            Ok(e) => return Err(viol("foreign-image", format!("td0 version byte {ver}: an image coded with arbitrary valid codes expands wrongly: {}", first_diff(&want, &e)), &img)),
            Err(f) => return Err(viol("foreign-image", format!("td0 version byte {ver}: an image coded with arbitrary valid codes is refused: {}", show(&f)), &img)),
        }
    }
    st.inc(if v1 { "v1_images" } else { "v2_images" });
    st.see("version_bytes", ver as u64);
    st.inc(&format!("family:{fam}"));
    st.add("body_bytes", body.len() as u64);
    st.add("stray_trailing_bytes", (e.len() - img.len()) as u64);
    st.case(hash_bytes(4, &img), !body.is_empty());
    st.sample(|| format!("version {ver}, {} {} bytes, header {} -> {}", body.len(), fam, hex(&h, 12), hex(&z, 12)));
    Ok(())
}

fn c10(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    let body: Vec<u8> = { let n = rng.below(40); (0..n).map(|_| rng.byte()).collect() };
    let judge = |h: &[u8], st: &mut Stats| -> Check {
        let mut img = h.to_vec();
        if h.len() == 12 { img.extend_from_slice(&body); }
        for dir in [true, false] {
            let sig: &[u8] = if dir { b"TD" } else { b"td" };
            let want = if h.len() < 12 { Some(Fail::Io(ErrorKind::UnexpectedEof, String::new())) }
                else if &h[..2] != sig { Some(Fail::Format) }
                else if gen::crc(0, &h[..10]).to_le_bytes() != h[10..12] { Some(Fail::Checksum) }
                else { None };
            let log = new_log();
            let pol = Policy { op_budget: 2_000_000, out_budget: 1 << 22, ..Policy::plain() };
            let mut r = MonReader::new(&img, pol.clone(), &log);
            let mut w = MonWriter::new(vec![], pol, &log);
            let got = if dir { Codec::Td0.compress(&mut r, &mut w) } else { Codec::Td0.expand(&mut r, &mut w) };
            let d = if dir { "compress" } else { "expand" };
            let ok = match (&want, &got) {
                (Some(Fail::Io(k, _)), Err(Fail::Io(g, _))) => k == g,
                (Some(a), Err(b)) => a == b,
                (None, Ok(_)) => true,
                // a body of random bytes may be an invalid LZW stream, which is not the header's fault
                (None, Err(Fail::Format)) => !dir && img[4] < 20,
                _ => false,
            };
            if !ok { return Err(viol("header-judgement", format!("td0 {d}: header {} must give {:?}, got {:?}", hex(h, 12), want, got), &img)); }
            if want.is_some() && log.borrow().bytes_out > 0 { return Err(viol("output-on-refusal", format!("td0 {d}: refused header {} but {} bytes were written", hex(h, 12), log.borrow().bytes_out), &img)); }
            match &want { Some(Fail::Format) => st.inc("refused_signature"), Some(Fail::Checksum) => st.inc("refused_checksum"), Some(_) => st.inc("refused_short"), None => st.inc("accepted") }
        }
        st.case(hash_bytes(9, h), true);
        Ok(())
    };
    let rv = { let v1 = rng.chance(1, 2); gen::version(rng, v1) };
    let sig: &[u8; 2] = if rng.chance(1, 2) { b"TD" } else { b"td" };
    let base = gen::td0_header(rng, sig, rv);
    judge(&base, st)?;
    match idx % 5 {
        0 => {
            // a slice of all 65536 signatures, checksum made valid
            for k in 0..64u64 {
                let s = ((idx / 5) * 64 + k) as u16;
                let mut h = base.clone();
                h[..2].copy_from_slice(&s.to_le_bytes());
                let c = gen::crc(0, &h[..10]).to_le_bytes();
                h[10..].copy_from_slice(&c);
                judge(&h, st)?;
                st.see("signatures", s as u64);
            }
        }
        1 => for b in 0..96 { let mut h = base.clone(); h[b / 8] ^= 1 << (b % 8); judge(&h, st)?; st.inc("single_bit_flips"); },
        2 => for _ in 0..100 { let mut h = base.clone(); let (a, b) = (rng.below(96), rng.below(96)); h[a / 8] ^= 1 << (a % 8); h[b / 8] ^= 1 << (b % 8); judge(&h, st)?; st.inc("double_bit_flips"); },
        3 => {
            for _ in 0..60 { let mut h = base.clone(); let c = match rng.below(4) { 0 => [h[11], h[10]], 1 => [0, 0], 2 => [rng.byte(), h[11]], _ => [rng.byte(), rng.byte()] }; h[10..].copy_from_slice(&c); judge(&h, st)?; }
            for l in 0..12 { judge(&base[..l], st)?; }
        }
        _ => {
            // the public checksum: agrees with the bitwise definition, and can be fed in pieces
            for s in 0..80u64 {
                let seed = ((idx / 5) * 80 + s) as u16; // over the run, every register value
                let one = [rng.byte(), rng.byte()];
                let n = rng.range(1, 2);
                let got = guard(|| Ok(retrocompressor::td0::crc16(seed, &one[..n])));
                let want = gen::crc(seed, &one[..n]);
                if got != Ok(want) { return Err(viol("crc", format!("crc16(seed {seed:#x}, {}) is {got:?}, the polynomial gives {want:#x}", hex(&one[..n], 2)), &one)); }
                let empty = guard(|| Ok(retrocompressor::td0::crc16(seed, &[])));
                if empty != Ok(seed) { return Err(viol("crc", format!("crc16(seed {seed:#x}, nothing) is {empty:?}"), &[])); }
                st.inc("crc_registers");
            }
            for _ in 0..20 {
                let n = rng.below(300);
                let d: Vec<u8> = (0..n).map(|_| rng.byte()).collect();
                let seed = if rng.chance(1, 2) { 0 } else { rng.next() as u16 };
                let got = guard(|| Ok(retrocompressor::td0::crc16(seed, &d)));
                let want = gen::crc(seed, &d);
                if got != Ok(want) { return Err(viol("crc", format!("crc16(seed {seed:#x}, {n} bytes) is {got:?}, the polynomial gives {want:#x}"), &d)); }
                let k = rng.below(n + 1);
                let split = guard(|| Ok(retrocompressor::td0::crc16(retrocompressor::td0::crc16(seed, &d[..k]), &d[k..])));
                if split != Ok(want) { return Err(viol("crc-split", format!("crc16 of {n} bytes split at {k}: {split:?} vs {want:#x}"), &d)); }
                st.inc("crc_values");
            }
        }
    }
    st.sample(|| format!("header {} ({}) judged in both directions", hex(&base, 12), String::from_utf8_lossy(&base[..2])));
    Ok(())
}

// ---------------------------------------------------------------- any codec, for the stream properties

pub struct Setup { pub c: Codec, pub plain: Vec<u8>, pub fam: &'static str, pub slack: usize }
pub fn any_setup(rng: &mut Rng, max: usize) -> Setup {
    match rng.below(9) {
        0 | 1 => { let (plain, fam) = gen::input(rng, max); Setup { c: Codec::Lzss(lzss_opt(&reflzh::STD, true)), plain, fam, slack: 0 } }
        2 => { let p = gen::lzss_par_light(rng); let (mut plain, fam) = gen::input_for(rng, max, p.n, p.f); plain.truncate(600_000_000 / (p.f * p.f)); let hd = rng.chance(1, 2); Setup { c: Codec::Lzss(lzss_opt(&p, hd)), plain, fam, slack: if hd { 0 } else { 7 } } }
        3 | 4 => { let (plain, fam) = gen::input(rng, max); Setup { c: Codec::Port, plain, fam, slack: 0 } }
        5 | 6 => { let p = gen::lzw_par(rng); let (mut plain, fam) = gen::input(rng, max); gen::restrict(&mut plain, p.maxsym); plain.truncate(p.chunk.saturating_mul(1500)); Setup { c: Codec::Lzw(lzw_opt(&p)), plain, fam, slack: 0 } }
        _ => {
            let v1 = rng.chance(1, 2);
            let v = gen::version(rng, v1);
            let mut plain = gen::td0_header(rng, b"TD", v);
            let (b, fam) = gen::input(rng, max);
            plain.extend(b);
            Setup { c: Codec::Td0, plain, fam, slack: if v1 { 0 } else { 7 } }
        }
    }
}

// ---------------------------------------------------------------- C11: hostile streams

fn c11(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    let s = any_setup(rng, if idx % 8 == 0 { 20_000 } else { 600 });
    let mut z = match rng.below(4) {
        0 => { let n = rng.logsize(2000); (0..n).map(|_| rng.byte()).collect::<Vec<u8>>() }
        _ => s.c.compress_slice(&s.plain).unwrap_or_default(),
    };
    let mut kind = "random";
    for _ in 0..rng.range(1, 4) {
        kind = match rng.below(8) {
            0 => { for _ in 0..rng.range(1, 8) { if !z.is_empty() { let i = rng.below(z.len()); z[i] ^= 1 << rng.below(8); } } "bit-flips" }
            1 => { if !z.is_empty() { let i = rng.below(z.len()); z.remove(i); } "byte-removed" }
            2 => { let i = rng.below(z.len() + 1); z.insert(i, rng.byte()); "byte-inserted" }
            3 => { let i = rng.below(z.len() + 1); z.truncate(i); "truncated" }
            4 => { let n = rng.range(1, 60); let b = rng.pick(&[0u8, 0xff, 0x55]); for _ in 0..n { z.push(b); } "extended" }
            5 => { if z.len() > 4 { let i = rng.below(z.len()); let l = rng.range(1, (z.len() - i).min(40)); let part = z[i..i + l].to_vec(); let at = rng.below(z.len()); z.splice(at..at, part); } "spliced" }
            6 => { if z.len() > 2 { let i = rng.below(z.len() - 1); z[i] = rng.pick(&[0u8, 0xff, 0x80, 1]); z[i + 1] = rng.pick(&[0u8, 0xff, 0x10]); } "forced-bytes" }
            _ => "as-is",
        };
    }
    let mut declared = u64::MAX;
    match &s.c {
        Codec::Lzss(o) if o.header => { if z.len() >= 4 { let d = if rng.chance(1, 2) { rng.logsize(100_000) as u32 } else { rng.pick(&[0u32, 1, 2, 59, 60, 61, u32::MAX, 0x8000_0000, 65536]) }; if rng.chance(1, 2) { z[..4].copy_from_slice(&d.to_le_bytes()); } declared = u32::from_le_bytes([z[0], z[1], z[2], z[3]]) as u64; } }
        // the port decodes zeros past the end until the declared length is reached: keep it affordable
        Codec::Port => { if z.len() >= 4 { let l = u32::from_le_bytes([z[0], z[1], z[2], z[3]]); if l > 60_000 || rng.chance(1, 4) { let d = if rng.chance(1, 30) { 300_000 } else { rng.logsize(20_000) as u32 }; z[..4].copy_from_slice(&d.to_le_bytes()); } declared = u32::from_le_bytes([z[0], z[1], z[2], z[3]]) as u64; } }
        // make the header acceptable so that the body is reached
        Codec::Td0 => { if z.len() >= 12 && rng.chance(7, 8) { z[0] = b't'; z[1] = b'd'; let c = gen::crc(0, &z[..10]).to_le_bytes(); z[10..12].copy_from_slice(&c); } }
        _ => {}
    }
    let n = z.len() as u64;
    // a match token yields at most `lookahead` bytes and costs at least 1 bit; an LZW code at most one dictionary's worth
    let bound = match &s.c {
        Codec::Lzss(o) => (8 * n * o.lookahead as u64).min(declared.saturating_add(o.lookahead as u64)),
        Codec::Port => declared.min(400_000) + 60,
        Codec::Lzw(o) => { let codes = 8 * n / o.max_code_width as u64 + 1; codes * (codes + 1) }
        Codec::Td0 => 12 + (8 * n * 60).max((8 * n / 12 + 1) * (8 * n / 12 + 2)),
    };
    let bound = bound + 64;
    let log = new_log();
    let pol = Policy { op_budget: 50_000 + 200 * n + 100 * bound.min(1 << 32), out_budget: bound, ..Policy::plain() };
    let mut r = MonReader::new(&z, pol.clone(), &log);
    let mut w = MonWriter::new(vec![], pol, &log);
    let (got, peak, ..) = crate::heap::measure(|| s.c.expand(&mut r, &mut w));
    let what = format!("{} ({kind}, {} stream bytes)", show_codec(&s.c), z.len());
    // tables may be sized by the options, everything else by what was really read and written
    let room = (4 << 20) + 4 * w.buf.len() as u64 + 600 * n + match &s.c { Codec::Lzw(o) => 128u64 << o.max_code_width, _ => 0 };
    st.top("peak_heap_of_an_expansion", peak);
    if peak > room { return Err(viol("runaway-memory", format!("{what}: {peak} bytes of heap for {n} bytes of input and {} of output", w.buf.len()), &z)); }
    match got {
        Ok((_, o)) => {
            if o != w.buf.len() as u64 { return Err(viol("hostile-size", format!("{what}: reports {o} bytes, {} were written", w.buf.len()), &z)); }
            st.inc(&format!("accepted:{}", s.c.name()));
        }
        Err(Fail::Panic(m)) if m.contains(BUDGET) => return Err(viol("runaway", format!("{what}: {m}"), &z)),
        Err(Fail::Panic(m)) => return Err(viol("panic", format!("{what}: panicked: {m}"), &z)),
        Err(f) => { let k = match f { Fail::Format => "format", Fail::Checksum => "checksum", Fail::TooLarge => "too-large", Fail::Io(ErrorKind::UnexpectedEof, _) => "eof", Fail::Io(..) => "io", _ => "other" }; st.inc(&format!("refused:{}:{k}", s.c.name())); }
    }
    let l = log.borrow();
    st.add("stream_operations", l.ops);
    st.add("bytes_out", l.bytes_out);
    st.top("largest_output", w.buf.len() as u64);
    drop(l);
    st.inc(&format!("kind:{kind}"));
    st.case(hash_bytes(opt_hash(&s.c), &z), true);
    st.sample(|| format!("{what}: {}", hex(&z, 32)));
    // compressors face hostile bytes too: any file may be given to them
    if idx % 4 == 1 {
        let log = new_log();
        let pol = Policy { op_budget: 100_000 + 400 * n, out_budget: 1 << 20, ..Policy::plain() };
        let mut src = z.clone();
        if let Codec::Lzw(o) = &s.c { gen::restrict(&mut src, o.max_symbol); }
        let mut r = MonReader::new(&src, pol.clone(), &log);
        let mut w = MonWriter::new(vec![], pol, &log);
        if let Err(Fail::Panic(m)) = s.c.compress(&mut r, &mut w) { return Err(viol(if m.contains(BUDGET) { "runaway" } else { "panic" }, format!("compressing arbitrary bytes, {what}: {m}"), &src)); }
        st.inc("compressor_runs");
    }
    Ok(())
}

// ---------------------------------------------------------------- C12: stream failures

fn c12(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let mut s = any_setup(rng, match idx % 8 { 0 => 20_000, 1 => 9_000, 2 | 3 => 1500, _ => 120 });
    let mut comp = rng.chance(1, 2);
    if idx % 8 == 1 {
        // an expansion whose output is larger than any buffer on its way, so that writes happen (and fail) midway
        comp = false;
        let n = rng.range(8_200, 30_000);
        let top = if let Codec::Lzw(o) = &s.c { o.max_symbol } else { 255 };
        while s.plain.len() < n { let i = rng.below(s.plain.len() + 1); let k = rng.range(1, 3000); let mut piece: Vec<u8> = s.plain[s.plain.len().saturating_sub(i + 1)..].iter().take(k).cloned().collect(); piece.push((rng.byte() as usize % (top + 1).min(256)) as u8); s.plain.extend(piece); }
        if let Codec::Lzss(o) = &s.c { s.plain.truncate(600_000_000 / (o.lookahead * o.lookahead)); }
        if let Codec::Lzw(o) = &s.c { s.plain.truncate(o.chunk_size.saturating_mul(1500)); }
    }
    if idx % 16 == 5 {
        // many small LZW chunks, each ending in a clear code, a header to go back to, or both
        let mut p = gen::lzw_par(rng);
        while p.clear.is_none() && p.hbits == 0 { p = gen::lzw_par(rng); }
        p.chunk = p.chunk.min(rng.range(1, 12));
        gen::restrict(&mut s.plain, p.maxsym);
        s.c = Codec::Lzw(lzw_opt(&p));
    }
    let src = if comp { s.plain.clone() } else { match s.c.compress_slice(&s.plain) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&s.c), show(&f)), &s.plain)) } };
    let run = |pol: Policy| -> (Sizes, Log) {
        let log = new_log();
        let mut r = MonReader::new(&src, pol.clone(), &log);
        let mut w = MonWriter::new(vec![], pol, &log);
        let res = if comp { s.c.compress(&mut r, &mut w) } else { s.c.expand(&mut r, &mut w) };
        drop(r);
        drop(w);
        let l = log.borrow().clone();
        (res, l)
    };
    let (base, l0) = run(Policy { op_budget: 200_000_000, out_budget: 1 << 24, ..Policy::plain() });
    let what = format!("{} {}", show_codec(&s.c), if comp { "compress" } else { "expand" });
    if let Err(f) = base { return Err(viol("fault-free-run-failed", format!("{what}: {}", show(&f)), &s.plain)); }
    if l0.unflushed { return Err(viol("success-before-flush", format!("{what}: success was reported without flushing what had been written last, so that an error the output defers until then is lost"), &src)); }
    st.inc("fault_free_runs_flushed");
    let total = l0.ops;
    // with next to no match lengths allowed, the match finder's tree degenerates into a list on repetitive data
    let slow = comp && src.len() > 1000 && matches!(&s.c, Codec::Lzss(o) if o.threshold + 4 > o.lookahead);
    let budget = if slow { 80 } else { (if t == Tier::Quick { 2_000_000 } else { 8_000_000 } / (s.plain.len() as u64 + 4000)).clamp(80, 1600) };
    let mut ks: Vec<u64> = if total <= budget { st.inc("operations_enumerated_completely"); (0..total).collect() } else {
        let mut v: Vec<u64> = (0..24).chain(total - 40..total).collect();
        let room = (budget - 64).min(4_000_000 / total.max(1) + 8);
        for _ in 0..room { v.push(rng.below(total as usize) as u64); }
        v
    };
    ks.sort();
    ks.dedup();
    for k in ks {
        let kind = rng.pick(&[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::StorageFull, ErrorKind::WriteZero, ErrorKind::InvalidInput, ErrorKind::ConnectionReset, ErrorKind::Unsupported, ErrorKind::NotFound, ErrorKind::OutOfMemory]);
        let sticky = rng.chance(1, 2);
        let zero = rng.chance(1, 6);
        let (res, l) = run(Policy { fail_at: Some(k), sticky, zero, kind, op_budget: total * 4 + 100_000, out_budget: 1 << 24, ..Policy::plain() });
        if l.faults == 0 { st.inc("fault_not_reached"); continue; }
        match res {
            Err(Fail::Panic(m)) => return Err(viol("panic-on-io-error", format!("{what}: operation {k} of {total} failed ({kind:?}, {}) and the library panicked: {m}", if sticky { "persistent" } else { "once" }), &src)),
            Ok(o) => return Err(viol("io-error-swallowed", format!("{what}: operation {k} of {total} failed ({kind:?}, {}) yet success {o:?} was reported", if sticky { "persistent" } else { "once" }), &src)),
            Err(Fail::Io(kk, m)) if kk == kind && m.contains(MARK) => st.inc("reported_verbatim"),
            Err(_) => st.inc("reported_otherwise"),
        }
        st.add("faults_delivered", l.faults);
        st.inc(if sticky { "persistent_faults" } else { "single_faults" });
        st.add("writes_that_accepted_nothing", l.zero_writes);
        st.case(hash_bytes(opt_hash(&s.c) ^ k << 2 ^ (sticky as u64) << 1 ^ comp as u64, &src), true);
    }
    st.inc(&format!("codec:{}:{}", s.c.name(), if comp { "compress" } else { "expand" }));
    st.top("operations_in_a_run", total);
    st.sample(|| format!("{what}: {} bytes of {}, {total} stream operations", src.len(), s.fam));
    Ok(())
}

// ---------------------------------------------------------------- C13: transfer granularity

fn c13(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    let (c, src, comp, plain_out);
    if idx == 3 {
        // LZW strings longer than any internal buffer: 16-bit codes, each defining the next longer run
        let p = reflzw::Par { chunk: usize::MAX, width: 16, ..reflzw::std_par() };
        let mut codes = vec![7usize];
        let mut next = 258;
        while codes.len() < 8400 { codes.push(next); next += 1; }
        codes.push(257);
        c = Codec::Lzw(lzw_opt(&p));
        src = reflzw::put_chunks(&[codes], &p);
        comp = false;
        st.inc("strings_longer_than_8k");
    } else {
        let s = any_setup(rng, match idx % 10 { 0 => 120_000, 1..=3 => 20_000, _ => 3000 });
        comp = rng.chance(1, 2);
        c = s.c.clone();
        src = if comp { s.plain.clone() } else { match s.c.compress_slice(&s.plain) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&s.c), show(&f)), &s.plain)) } };
    }
    let run = |pol: Policy| -> (Sizes, Vec<u8>, Log) {
        let log = new_log();
        let rp = Policy { rng: Rng::new(1, "reader", idx), ..pol.clone() };
        let mut r = MonReader::new(&src, rp, &log);
        let mut w = MonWriter::new(vec![], pol, &log);
        let res = if comp { c.compress(&mut r, &mut w) } else { c.expand(&mut r, &mut w) };
        let l = log.borrow().clone();
        (res, w.buf, l)
    };
    let what = format!("{} {}", show_codec(&c), if comp { "compress" } else { "expand" });
    let base = run(Policy::plain());
    plain_out = match &base.0 { Ok(_) => base.1, Err(f) => return Err(viol("fault-free-run-failed", format!("{what}: {}", show(f)), &src)) };
    for mode in 0..3 {
        let pol = Policy { short: mode != 1, interrupt: mode != 0, rng: rng.clone(), op_budget: 400 * (src.len() + plain_out.len()) as u64 + 2_000_000, ..Policy::plain() };
        rng.next();
        let (res, out, l) = run(pol);
        let hit = l.short_reads + l.short_writes + l.interrupts;
        st.add("short_reads", l.short_reads);
        st.add("short_writes", l.short_writes);
        st.add("interruptions", l.interrupts);
        if res != base.0 { return Err(viol("result-depends-on-transfers", format!("{what}: smooth streams give {:?}, fragmented streams (mode {mode}) give {:?}", base.0, res), &src)); }
        if out != plain_out { return Err(viol("bytes-depend-on-transfers", format!("{what}: output differs when transfers are fragmented (mode {mode}): {}", first_diff(&plain_out, &out)), &src)); }
        st.case(hash_bytes(opt_hash(&c) ^ mode ^ (comp as u64) << 4, &src), hit > 0);
    }
    st.inc(&format!("codec:{}:{}", c.name(), if comp { "compress" } else { "expand" }));
    st.sample(|| format!("{what}: {} bytes in, {} out", src.len(), plain_out.len()));
    Ok(())
}

// ---------------------------------------------------------------- C14: regions and sizes

fn c14(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    // a result longer than 32 bits can count
    if is_huge("C14", idx) { return c08_long_strings(idx, rng, st); }
    let s = any_setup(rng, match idx % 10 { 0 => 60_000, 1..=3 => 9_000, _ => 1200 });
    let comp = rng.chance(1, 2);
    let src = if comp { s.plain.clone() } else { match s.c.compress_slice(&s.plain) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&s.c), show(&f)), &s.plain)) } };
    let fresh = match if comp { s.c.compress_slice(&src) } else { s.c.expand_slice(&src) } { Ok(v) => v, Err(f) => return Err(viol("slice-failed", format!("{}: {}", show_codec(&s.c), show(&f)), &src)) };
    if !comp && (fresh.len() < s.plain.len() || fresh[..s.plain.len()] != s.plain[..] || fresh.len() > s.plain.len() + s.slack) { return Err(viol("roundtrip-mismatch", format!("{}: {}", show_codec(&s.c), first_diff(&s.plain, &fresh)), &s.plain)); }
    // place it
    let mut c = s.c.clone();
    let offs = [0u64, 1, 2, 3, 4, 7, 12, 13, 60, 100, 512, 4095, 8192, 10_000];
    let (mut io, mut oo) = (rng.pick(&offs), rng.pick(&offs));
    // the direct port's encoder always takes the whole input
    if comp && matches!(c, Codec::Port) { io = 0; }
    // beyond what 32 bits can address: nothing in front of the data is stored
    let (mut ibase, mut obase) = (0u64, 0u64);
    if idx % 6 == 1 {
        let far = [(1u64 << 32) - 100, 1 << 32, (1 << 32) + 12_345, 1 << 33, 1 << 40, (1 << 31) - 7];
        if io > 0 && rng.chance(2, 3) { ibase = rng.pick(&far); io += ibase; }
        if ibase == 0 || rng.chance(1, 2) { obase = rng.pick(&far); oo += obase; }
        st.inc("offsets_beyond_32_bits");
    }
    match &mut c {
        Codec::Lzss(o) => { o.in_offset = io; o.out_offset = oo; }
        Codec::Lzw(o) => { o.in_offset = io; o.out_offset = oo; }
        _ => {}
    }
    let mut inp: Vec<u8> = (0..io - ibase).map(|_| rng.byte()).collect();
    inp.extend_from_slice(&src);
    // what the output held before: nothing, a prefix, or more than will be written
    let ostart = (oo - obase) as usize;
    let end = ostart + fresh.len();
    let held = match rng.below(5) { 0 => 0, 1 => rng.below(end + 1), 2 => end, 3 => end + 1 + rng.below(50), _ => end + rng.below(20_000) };
    let before: Vec<u8> = (0..held).map(|_| rng.byte()).collect();
    let log = new_log();
    let pol = Policy { op_budget: 20_000_000, out_budget: (ostart + 2 * fresh.len() + (1 << 16)) as u64, ..Policy::plain() };
    let mut r = MonReader::new(&inp, pol.clone(), &log);
    let mut w = MonWriter::new(before.clone(), pol, &log);
    r.base = ibase;
    r.len += ibase;
    w.base = obase;
    match &c {
        // positions are absolute offsets, wherever the cursors happen to be
        Codec::Lzss(_) | Codec::Lzw(_) => {
            r.pos = if rng.chance(1, 4) { rng.below(100) as u64 } else { ibase + rng.below(inp.len() + 1) as u64 };
            w.pos = if rng.chance(1, 4) { rng.below(100) as u64 } else { obase + rng.below(held + 1) as u64 };
        }
        // no offsets: the cursors say where
        Codec::Port if comp => { r.pos = rng.below(inp.len() + 1) as u64; w.pos = oo; }
        _ => { r.pos = io; w.pos = oo; }
    }
    let res = if comp { c.compress(&mut r, &mut w) } else { c.expand(&mut r, &mut w) };
    let what = format!("{} {} in_offset {io} out_offset {oo}, {} source bytes, output held {held} bytes", show_codec(&c), if comp { "compress" } else { "expand" }, src.len());
    let (a, b) = match res { Ok(x) => x, Err(f) => return Err(viol("operation-failed", format!("{what}: {}", show(&f)), &src)) };
    let l = log.borrow();
    if a != src.len() as u64 { return Err(viol("input-size", format!("{what}: reports {a} input bytes, there are {}", src.len()), &src)); }
    if b != fresh.len() as u64 { return Err(viol("output-size", format!("{what}: reports {b} output bytes, {} belong to the result", fresh.len()), &src)); }
    if !fresh.is_empty() && (w.buf.len() < end || w.buf[ostart..end] != fresh[..]) { return Err(viol("placed-bytes", format!("{what}: bytes at the output offset differ from the result elsewhere: {}", first_diff(&fresh, &w.buf[ostart.min(w.buf.len())..end.min(w.buf.len())])), &src)); }
    if !fresh.is_empty() {
        if l.min_write.map_or(false, |m| m < oo) { return Err(viol("wrote-before-offset", format!("{what}: byte {} was written", l.min_write.unwrap()), &src)); }
        if l.max_write_end > obase + end as u64 { return Err(viol("wrote-past-end", format!("{what}: bytes up to {} were written, the result ends at {end}", l.max_write_end), &src)); }
    }
    let keep = ostart.min(held);
    if w.buf[..keep] != before[..keep] { return Err(viol("clobbered-before-offset", format!("{what}: bytes in front of the output offset changed"), &src)); }
    if held > end && w.buf[end..] != before[end..] { return Err(viol("clobbered-after-end", format!("{what}: bytes after the result changed"), &src)); }
    st.add("bytes_written_events", l.writes);
    drop(l);
    st.inc(&format!("codec:{}:{}", c.name(), if comp { "compress" } else { "expand" }));
    st.inc(if held > end { "output_was_longer" } else if held == 0 { "output_was_empty" } else { "output_was_shorter" });
    st.see("in_offsets", io);
    st.see("out_offsets", oo);
    st.case(hash_bytes(opt_hash(&c) ^ io << 20 ^ oo ^ (held as u64) << 40, &src), !fresh.is_empty());
    st.sample(|| what.clone());
    // an input offset past the end of the file is refused by lzw
    if let Codec::Lzw(o) = &mut c {
        if idx % 8 == 0 && ibase == 0 && obase == 0 {
            o.in_offset = inp.len() as u64 + 1 + rng.below(100) as u64;
            let res = if comp { c.compress_slice(&inp) } else { c.expand_slice(&inp) };
            if res != Err(Fail::Format) { return Err(viol("offset-past-end", format!("{what}: input offset past the end gives {:?}", res.map(|v| v.len())), &inp)); }
            st.inc("offset_past_end_refused");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15: size limits

fn vast_limit(rng: &mut Rng) -> u64 { rng.pick(&[u32::MAX as u64 - 1, u32::MAX as u64, 1 << 32, 5_000_000_000, 1 << 45, u64::MAX >> 2]) }
fn c15(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    let comp = rng.chance(1, 2);
    let which = rng.below(5);
    let mut off = 0u64;
    let mut def_limit = false;
    let (c, limit, strict_file): (Codec, u64, bool) = match which {
        0 | 1 => {
            let mut o = lzss_opt(&if rng.chance(1, 2) { reflzh::STD } else { gen::lzss_par(rng) }, rng.chance(2, 3));
            let def = rng.chance(1, 4);
            def_limit = def;
            let vast = !def && rng.chance(1, 3);
            if vast { o.max_file_size = vast_limit(rng); }
            else if !def { o.max_file_size = rng.logsize(5000) as u64; }
            off = rng.pick(&[0u64, 0, 5, 300]);
            o.in_offset = off;
            // where the length is stored it must fit 32 bits
            let l = if o.header && comp { o.max_file_size.min(u32::MAX as u64) } else { o.max_file_size };
            if vast { st.inc("limits_beyond_4_GB"); }
            (Codec::Lzss(o), l, def || vast)
        }
        2 | 3 => {
            let mut o = lzw_opt(&gen::lzw_par(rng));
            let def = rng.chance(1, 4);
            def_limit = def;
            let vast = !def && rng.chance(1, 3);
            if vast { o.max_file_size = vast_limit(rng); }
            else if !def { o.max_file_size = rng.logsize(5000) as u64; }
            off = rng.pick(&[0u64, 0, 5, 300]);
            o.in_offset = off;
            let l = o.max_file_size;
            if vast { st.inc("limits_beyond_4_GB"); }
            (Codec::Lzw(o), l, def || vast)
        }
        _ => if rng.chance(1, 2) { (Codec::Port, u32::MAX as u64, true) } else { off = 12; (Codec::Td0, 3_000_000, true) },
    };
    if matches!(c, Codec::Port) && !comp { st.inc("port_expand_has_no_limit"); return Ok(()); }
    // the limits the README promises
    if def_limit && limit != u32::MAX as u64 / 4 { return Err(viol("default-limit", format!("{}: default limit is {limit}, documented as 1 GB (2^32/4)", c.name()), &[])); }
    let len = match rng.below(7) { 0 => limit - 1, 1 | 2 => limit, 3 | 4 => limit + 1, 5 => limit + 1 + rng.logsize(1 << 40) as u64, _ => (limit as f64 * (rng.below(1000) as f64 / 1000.0)) as u64 };
    let too_big = len > limit;
    let mut head: Vec<u8> = vec![];
    if matches!(c, Codec::Td0) { let v = gen::version(rng, idx % 2 == 0); head = gen::td0_header(rng, if comp { b"TD" } else { b"td" }, v); }
    let log = new_log();
    // content is never needed to decide: the first content read fails with the marker
    let content_fault = strict_file || len > 20_000;
    let hdr_reads = head.len() as u64;
    let mut data = head.clone();
    if !content_fault { let bits = match &c { Codec::Lzw(o) if o.max_symbol == 0 => 1, _ => 2 }; data = (0..off + len).map(|_| rng.below(bits) as u8).collect(); if !comp && matches!(&c, Codec::Lzss(o) if o.header) && data.len() >= (off + 4) as usize { for b in &mut data[off as usize..off as usize + 4] { *b = 0; } data[off as usize] = 9; } }
    let mut r = LimReader { inner: MonReader::new(&data, Policy { op_budget: 3_000_000, ..Policy::plain() }, &log), free: if content_fault { hdr_reads } else { u64::MAX } };
    r.inner.len = off + len;
    let mut w = MonWriter::new(vec![], Policy { op_budget: 30_000_000, out_budget: 1 << 24, ..Policy::plain() }, &log);
    let res = if comp { c.compress(&mut r, &mut w) } else { c.expand(&mut r, &mut w) };
    let what = format!("{} {}: {len} bytes (after offset {off}), limit {limit}", show_codec(&c), if comp { "compress" } else { "expand" });
    let l = log.borrow();
    match (&res, too_big) {
        (Err(Fail::TooLarge), true) => {
            if l.bytes_in > hdr_reads || l.bytes_out > hdr_reads { return Err(viol("processed-before-refusal", format!("{what}: refused only after reading {} and writing {} bytes", l.bytes_in, l.bytes_out), &[])); }
            st.inc("refused");
        }
        (_, true) => return Err(viol("over-limit-accepted", format!("{what}: must be refused as too large, got {res:?}"), &[])),
        (Err(Fail::TooLarge), false) => return Err(viol("within-limit-refused", format!("{what}: refused as too large"), &[])),
        (Err(Fail::Panic(m)), false) => return Err(viol("panic", format!("{what}: {m}"), &data)),
        (Ok(_), false) => st.inc("accepted_and_completed"),
        (Err(_), false) => st.inc("accepted_past_the_size_check"),
    }
    if len == limit { st.inc("exactly_at_limit"); }
    if len == limit + 1 { st.inc("one_over_limit"); }
    st.inc(&format!("codec:{}:{}", c.name(), if comp { "compress" } else { "expand" }));
    st.case(hash_bytes(opt_hash(&c) ^ comp as u64, format!("{len} {limit} {off}").as_bytes()), true);
    st.sample(|| format!("{what} -> {res:?}"));
    Ok(())
}
/// reads beyond `free` bytes fail with the marker: the size decision must not depend on them
struct LimReader<'a> { inner: MonReader<'a>, free: u64 }
impl<'a> std::io::Read for LimReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.inner.pos >= self.free { return Err(std::io::Error::new(ErrorKind::Other, MARK)); }
        let n = (b.len() as u64).min(self.free - self.inner.pos) as usize;
        self.inner.read(&mut b[..n])
    }
}
impl<'a> std::io::Seek for LimReader<'a> { fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> { self.inner.seek(s) } }

// ---------------------------------------------------------------- C16: truncated streams

fn c16(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let mx = match idx % 10 { 0 => 60_000, 1..=3 => 8000, _ => 500 };
    let s = loop { let s = any_setup(rng, mx); if !matches!(s.c, Codec::Port) { break s; } };
    let z = match s.c.compress_slice(&s.plain) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&s.c), show(&f)), &s.plain)) };
    let full = match s.c.expand_slice(&z) { Ok(e) => e, Err(f) => return Err(viol("expand-failed", format!("{}: {}", show_codec(&s.c), show(&f)), &s.plain)) };
    let head = match &s.c { Codec::Lzss(o) => if o.header { 4 } else { 0 }, Codec::Td0 => 12, _ => 0 };
    let room = if t == Tier::Quick { 80 } else { 300 };
    let mut cuts: Vec<usize> = if z.len() <= room { (head.min(z.len())..=z.len()).collect() } else {
        let m = (3_000_000 / full.len().max(1)).clamp(4, room);
        let mut v: Vec<usize> = (0..m).map(|_| rng.range(head, z.len())).collect();
        v.extend([head, head + 1, z.len() - 1, z.len() - 2]);
        v
    };
    cuts.sort();
    cuts.dedup();
    let mut last = 0usize;
    for cut in cuts {
        if cut > z.len() { continue; }
        let part = &z[..cut];
        let what = format!("{} ({} bytes of {}) cut at {cut}", show_codec(&s.c), z.len(), s.fam);
        let e = match s.c.expand_slice(part) { Ok(e) => e, Err(f) => return Err(viol("truncated-refused", format!("{what}: {}", show(&f)), part)) };
        if e.len() > full.len() || e[..] != full[..e.len()] { return Err(viol("fabricated-data", format!("{what}: the result is not a prefix of the whole: {}", first_diff(&full, &e)), part)); }
        if e.len() < last { return Err(viol("not-monotone", format!("{what}: {} bytes, but an earlier cut gave {last}", e.len()), part)); }
        last = e.len();
        // exactly what the complete codes say
        let want = match &s.c {
            Codec::Lzss(o) => reflzh::decode(&part[head..], &reflzh::Par { n: o.window_size, f: o.lookahead, t: o.threshold, fill: o.precursor }, if o.header { s.plain.len() } else { usize::MAX }).out.len(),
            Codec::Td0 => 12 + if s.plain[4] < 20 { reflzw::decode(&part[12..], &reflzw::td_par()).out.len() } else { reflzh::decode(&part[12..], &reflzh::STD, usize::MAX).out.len() },
            Codec::Lzw(o) => reflzw::decode(part, &reflzw::Par { hbits: o.header_bits, hdiv: o.header_divisor, chunk: o.chunk_size, maxsym: o.max_symbol, clear: o.clear_code, stop: o.stop_code, width: o.max_code_width, lsb: matches!(o.ord, retrocompressor::BitOrder::Lsb0) }).out.len(),
            Codec::Port => unreachable!(),
        };
        if e.len() != want { return Err(viol("lost-complete-codes", format!("{what}: {} bytes recovered, the complete codes hold {want}", e.len()), part)); }
        st.case(hash_bytes(opt_hash(&s.c) ^ cut as u64, part), cut < z.len());
        st.inc("cuts");
        if e.len() < full.len() { st.inc("cuts_that_lost_data"); }
    }
    st.inc(&format!("codec:{}", s.c.name()));
    st.sample(|| format!("{}: {} bytes -> {} compressed, cut at many points", show_codec(&s.c), s.plain.len(), z.len()));
    Ok(())
}

// ---------------------------------------------------------------- C18: determinism and isolation

/// one operation as stored in a file: everything a fresh process needs to perform it
#[derive(Clone)]
pub struct Op { pub c: Codec, pub src: Vec<u8>, pub comp: bool }
impl Op {
    pub fn exec(&self) -> Bytes { if self.comp { self.c.compress_slice(&self.src) } else { self.c.expand_slice(&self.src) } }
    fn store(&self, path: &str) {
        let o = |x: Option<usize>| x.map(|v| v as i64).unwrap_or(-1);
        let l = match &self.c {
            Codec::Lzss(p) => format!("lzss {} {} {} {} {}", p.header, p.window_size, p.threshold, p.lookahead, p.precursor),
            Codec::Port => "port".into(),
            Codec::Lzw(p) => format!("lzw {} {} {} {} {} {} {} {}", p.header_bits, p.header_divisor, p.chunk_size, p.max_symbol, o(p.clear_code), o(p.stop_code), p.max_code_width, matches!(p.ord, retrocompressor::BitOrder::Lsb0)),
            Codec::Td0 => "td0".into(),
        };
        let mut f = format!("{} {l}\n", self.comp).into_bytes();
        f.extend_from_slice(&self.src);
        std::fs::write(path, f).unwrap();
    }
    fn load(path: &str) -> Op {
        let f = std::fs::read(path).unwrap();
        let nl = f.iter().position(|b| *b == b'\n').unwrap();
        let l = String::from_utf8_lossy(&f[..nl]).to_string();
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        let o = |i: usize| w[i].parse::<i64>().unwrap().try_into().ok();
        let c = match w[1] {
            "lzss" => Codec::Lzss(lzss_opt(&reflzh::Par { n: n(3), t: n(4), f: n(5), fill: n(6) as u8 }, w[2] == "true")),
            "port" => Codec::Port,
            "lzw" => Codec::Lzw(lzw_opt(&reflzw::Par { hbits: n(2), hdiv: n(3), chunk: n(4), maxsym: n(5), clear: o(6), stop: o(7), width: n(8), lsb: w[9] == "true" })),
            _ => Codec::Td0,
        };
        Op { c, src: f[nl + 1..].to_vec(), comp: w[0] == "true" }
    }
    fn show(&self) -> String { format!("{} {}", show_codec(&self.c), if self.comp { "compress" } else { "expand" }) }
}
/// what identifies a result, across processes
fn outcome(b: &Bytes) -> String { match b { Ok(v) => format!("ok:{}:{:016x}", v.len(), hash_bytes(7, v)), Err(f) => format!("err:{f:?}").replace('\n', " ") } }

/// child process: performs the operations of the given files, in order or all at once on threads; prints their outcomes
pub fn ops_child(mode: &str, files: &[String]) {
    let ops: Vec<Op> = files.iter().map(|f| Op::load(f)).collect();
    let res: Vec<String> = if mode == "seq" { ops.iter().map(|o| outcome(&o.exec())).collect() } else {
        let bar = std::sync::Barrier::new(ops.len());
        std::thread::scope(|sc| { let h: Vec<_> = ops.iter().map(|o| { let bar = &bar; sc.spawn(move || { bar.wait(); outcome(&o.exec()) }) }).collect(); h.into_iter().map(|h| h.join().unwrap_or_else(|_| "thread died".into())).collect() })
    };
    for r in res { println!("{r}"); }
}
/// outcomes from a fresh process; None if it ended without them
fn fresh(mode: &str, files: &[String]) -> Option<Vec<String>> {
    let mut a = vec!["ops".to_string(), mode.to_string()];
    a.extend_from_slice(files);
    let o = crate::limited(&a, Some(40)).stderr(std::process::Stdio::null()).output().ok()?;
    let v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
    if o.status.success() && v.len() == files.len() { Some(v) } else { None }
}

fn c18(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::{Barrier, Mutex};
    let nops = rng.range(6, 14);
    let mut ops: Vec<Op> = vec![];
    for k in 0..nops {
        let s = any_setup(rng, if idx % 6 == 0 && k == 0 { 80_000 } else { 5000 });
        let comp = rng.chance(1, 2);
        let mut src = if comp { s.plain.clone() } else { s.c.compress_slice(&s.plain).unwrap_or_default() };
        // some operations fail or are refused, and must do so every time
        if rng.chance(1, 3) && !src.is_empty() && !matches!(s.c, Codec::Port | Codec::Lzss(_)) && !comp { for _ in 0..rng.range(1, 3) { let i = rng.below(src.len()); src[i] ^= 1 << rng.below(8); } }
        ops.push(Op { c: s.c, src, comp });
        // the same data under options that differ in one respect: shared state would be confused most easily
        if rng.chance(1, 3) {
            let mut o = ops[ops.len() - 1].clone();
            match &mut o.c {
                Codec::Lzss(p) => match rng.below(3) { 0 => p.precursor ^= 0x20, 1 => p.header = !p.header, _ => p.threshold = if p.threshold > 0 { p.threshold - 1 } else { 1.min(p.lookahead) } },
                Codec::Lzw(p) => match rng.below(2) { 0 => p.ord = if matches!(p.ord, retrocompressor::BitOrder::Lsb0) { retrocompressor::BitOrder::Msb0 } else { retrocompressor::BitOrder::Lsb0 }, _ => if p.max_code_width < 16 { p.max_code_width += 1; p.min_code_width += 1; } },
                _ => {}
            }
            // options and data may no longer fit, but whatever the answer is, it is always the same
            if !matches!(o.c, Codec::Lzss(_)) || o.comp || matches!(&o.c, Codec::Lzss(p) if !p.header) { ops.push(o); }
        }
    }
    let nops = ops.len();
    let scratch = std::env::var("RVMON_SCRATCH").unwrap_or_else(|_| "/tmp/rvmon-scratch".into());
    let dir = format!("{scratch}/ops");
    std::fs::create_dir_all(&dir).unwrap();
    let files: Vec<String> = (0..nops).map(|i| format!("{dir}/{i}")).collect();
    for (o, f) in ops.iter().zip(&files) { o.store(f); }
    // the yardstick: each operation alone in a process without any history
    let mut want: Vec<Option<String>> = vec![None; nops];
    std::thread::scope(|sc| {
        let h: Vec<_> = files.iter().map(|f| sc.spawn(move || fresh("seq", std::slice::from_ref(f)).map(|mut v| v.remove(0)))).collect();
        for (i, h) in h.into_iter().enumerate() { want[i] = h.join().unwrap(); }
    });
    // an operation that does not end even on its own belongs to another property
    let keep: Vec<usize> = (0..nops).filter(|i| want[*i].is_some()).collect();
    st.add("operations_without_baseline", (nops - keep.len()) as u64);
    let ops: Vec<Op> = keep.iter().map(|i| ops[*i].clone()).collect();
    let files: Vec<String> = keep.iter().map(|i| files[*i].clone()).collect();
    let want: Vec<String> = keep.iter().map(|i| want[*i].clone().unwrap()).collect();
    let nops = ops.len();
    if nops == 0 { return Ok(()); }
    let complain = |sig: &str, how: &str, i: usize, got: &str| Err(viol(sig, format!("{}: {how} gives {got}, alone in a fresh process it gives {}", ops[i].show(), want[i]), &ops[i].src));
    // fresh processes with a short history each: a random order, the reverse order, all at once on cold threads
    let mut order: Vec<usize> = (0..nops).collect();
    rng.shuffle(&mut order);
    for (mode, ord) in [("seq", order.clone()), ("seq", order.iter().rev().copied().collect()), ("par", order.clone())] {
        let fs: Vec<String> = ord.iter().map(|i| files[*i].clone()).collect();
        match fresh(mode, &fs) {
            None => return complain("depends-on-history", &format!("one of {nops} operations in one fresh process ({mode}) ends the process or does not end; the first of them"), ord[0], "no result"),
            Some(v) => for (k, got) in v.iter().enumerate() {
                if *got != want[ord[k]] { return complain(if mode == "seq" { "depends-on-history" } else { "depends-on-concurrency" }, &format!("as number {} of {nops} in one fresh process ({mode})", k + 1), ord[k], got); }
            },
        }
        st.add(if mode == "seq" { "operations_in_short_histories" } else { "operations_on_cold_threads" }, nops as u64);
    }
    // this process, whose history is every case before: a random order, twice
    for round in 0..2 {
        rng.shuffle(&mut order);
        for &i in &order {
            let got = outcome(&ops[i].exec());
            if got != want[i] { return complain("depends-on-history", &format!("after many other operations (round {round})"), i, &got); }
            st.inc("operations_in_long_histories");
        }
    }
    let inflight = AtomicU64::new(0);
    let maxin = AtomicU64::new(0);
    let overlaps = AtomicU64::new(0);
    let bad: Mutex<Option<(usize, usize, String)>> = Mutex::new(None);
    let nthreads = 8;
    let bar = Barrier::new(nthreads);
    let orders: Vec<Vec<usize>> = (0..nthreads).map(|_| { let mut v: Vec<usize> = (0..nops).collect(); rng.shuffle(&mut v); v }).collect();
    std::thread::scope(|sc| {
        for (tid, ord) in orders.iter().enumerate() {
            let (ops, want, bar, inflight, maxin, overlaps, bad) = (&ops, &want, &bar, &inflight, &maxin, &overlaps, &bad);
            sc.spawn(move || {
                bar.wait();
                for &i in ord {
                    let n = inflight.fetch_add(1, Ordering::SeqCst) + 1;
                    maxin.fetch_max(n, Ordering::SeqCst);
                    if n > 1 { overlaps.fetch_add(1, Ordering::SeqCst); }
                    let got = outcome(&ops[i].exec());
                    inflight.fetch_sub(1, Ordering::SeqCst);
                    if got != want[i] { *bad.lock().unwrap() = Some((tid, i, got)); }
                }
            });
        }
    });
    let b = bad.lock().unwrap().take();
    if let Some((tid, i, got)) = b { return complain("depends-on-concurrency", &format!("on thread {tid} of {nthreads}"), i, &got); }
    st.add("concurrent_operations", (nops * nthreads) as u64);
    st.add("operations_started_while_others_ran", overlaps.load(std::sync::atomic::Ordering::SeqCst));
    st.top("operations_in_flight", maxin.load(std::sync::atomic::Ordering::SeqCst));
    for (o, w) in ops.iter().zip(&want) { st.case(hash_bytes(opt_hash(&o.c) ^ o.comp as u64, &o.src), true); st.inc(if w.starts_with("ok") { "op_succeeds" } else { "op_refused" }); }
    st.sample(|| format!("{nops} operations x {nthreads} threads: {}", ops.iter().map(|o| format!("{}{}", o.c.name(), if o.comp { "+" } else { "-" })).collect::<Vec<_>>().join(" ")));
    Ok(())
}

// ---------------------------------------------------------------- C19: longest matches

fn c19(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let kind = idx % 3;
    let p = if kind == 2 { gen::lzss_par(rng) } else { reflzh::STD };
    let (c, hdr) = if kind == 1 { (Codec::Port, 4) } else { let h = rng.chance(1, 2); (Codec::Lzss(lzss_opt(&p, h)), if h { 4 } else { 0 }) };
    let mx = match idx % 30 { 0 => if t == Tier::Quick { 30_000 } else { 90_000 }, 1..=10 => 12_000, _ => 3000 };
    let (d, fam) = gen::input_for(rng, mx, p.n, p.f);
    let z = match c.compress_slice(&d) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&c), show(&f)), &d)) };
    let dec = reflzh::decode(&z[hdr.min(z.len())..], &p, d.len());
    match reflzh::check_greedy(&d, &dec.toks, &p) {
        Ok(n) => st.add("tokens_checked", n),
        Err(m) => return Err(viol("not-longest-match", format!("{} on {} bytes of {fam}: {m}", show_codec(&c), d.len()), &d)),
    }
    let m = dec.toks.iter().filter(|t| matches!(t, Tok::Match { .. })).count();
    note_lzh(st, &dec.toks, &dec.hs);
    st.inc(&format!("family:{fam}"));
    st.case(hash_bytes(opt_hash(&c), &d), m > 0);
    if m > 0 { st.sample(|| format!("{} on {fam} {} bytes: {} tokens, {m} matches, each the longest", show_codec(&c), d.len(), dec.toks.len())); }
    Ok(())
}

// ---------------------------------------------------------------- C20: what a failed operation leaves behind

fn lzw_par_of(o: &retrocompressor::lzw::Options) -> reflzw::Par {
    reflzw::Par { hbits: o.header_bits, hdiv: o.header_divisor, chunk: o.chunk_size, maxsym: o.max_symbol, clear: o.clear_code, stop: o.stop_code, width: o.max_code_width, lsb: matches!(o.ord, retrocompressor::BitOrder::Lsb0) }
}

fn c20(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let s = any_setup(rng, match idx % 8 { 0 => 60_000, 1 => 20_000, 2 | 3 => 3000, _ => 300 });
    let mut c = s.c.clone();
    let z = match c.compress_slice(&s.plain) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&c), show(&f)), &s.plain)) };
    let (mut src, mut truth) = match c.expand_slice(&z) { Ok(e) => (z.clone(), e), Err(f) => return Err(viol("expand-failed", format!("{}: {}", show_codec(&c), show(&f)), &s.plain)) };
    let mut damaged = false;
    if idx % 3 == 0 {
        // a code that cannot be, somewhere in the stream
        let (head, par) = match &c { Codec::Lzw(o) => (0, Some(lzw_par_of(o))), Codec::Td0 if s.plain[4] < 20 => (12, Some(reflzw::td_par())), _ => (0, None) };
        if let Some(par) = par {
            for _ in 0..6 {
                let mut d = z.clone();
                if d.len() <= head { break; }
                for _ in 0..rng.range(1, 4) { let i = rng.range(head, d.len() - 1); d[i] = rng.byte(); }
                let r = reflzw::decode(&d[head..], &par);
                if r.end == reflzw::End::Bad { truth = if head > 0 { let mut h = s.plain[..12].to_vec(); h.extend(&r.out); h } else { r.out }; src = d; damaged = true; break; }
            }
        }
    }
    let comp = !damaged && rng.chance(1, 4);
    if comp { src = s.plain.clone(); truth = z.clone(); }
    let (mut io, mut oo) = (0u64, 0u64);
    let offs = [0u64, 0, 1, 12, 777];
    match &mut c {
        Codec::Lzss(o) => { io = rng.pick(&offs); oo = rng.pick(&offs); o.in_offset = io; o.out_offset = oo; }
        Codec::Lzw(o) => { io = rng.pick(&offs); oo = rng.pick(&offs); o.in_offset = io; o.out_offset = oo; }
        _ => {}
    }
    let mut inp: Vec<u8> = (0..io).map(|_| rng.byte()).collect();
    inp.extend_from_slice(&src);
    let end = oo as usize + truth.len();
    let held = match rng.below(4) { 0 => 0, 1 => rng.below(end + 1), _ => end + rng.below(2000) };
    // never what the truth has at that place
    let before: Vec<u8> = (0..held).map(|i| if i >= oo as usize && i < end { !truth[i - oo as usize] } else { rng.byte() }).collect();
    let run = |pol: Policy| -> (Sizes, Vec<u8>, Log) {
        let log = new_log();
        let mut r = MonReader::new(&inp, pol.clone(), &log);
        let mut w = MonWriter::new(before.clone(), pol, &log);
        let res = if comp { c.compress(&mut r, &mut w) } else { c.expand(&mut r, &mut w) };
        let l = log.borrow().clone();
        (res, w.buf, l)
    };
    let what = format!("{} {} in_offset {io} out_offset {oo}, output held {held} bytes", show_codec(&c), if comp { "compress" } else if damaged { "expand (damaged)" } else { "expand" });
    let judge = |how: &str, res: &Sizes, buf: &[u8], l: &Log, st: &mut Stats| -> Check {
        if let Err(Fail::Panic(m)) = res { return Err(viol("panic", format!("{what}: {how}: {m}"), &inp)); }
        if let Some(m) = l.min_write {
            if m < oo { return Err(viol("wrote-before-offset", format!("{what}: {how}: byte {m} was written"), &inp)); }
            let e = l.max_write_end as usize;
            if !comp {
                let got = &buf[oo as usize..e];
                if got.len() > truth.len() || got != &truth[..got.len()] { return Err(viol("wrong-data-left-behind", format!("{what}: {how} and failed, leaving {} bytes which are not how the true result begins: {}", got.len(), first_diff(&truth, got)), &inp)); }
                st.add("true_bytes_left_by_failures", got.len() as u64);
                if got.is_empty() { st.inc("failures_before_any_output") } else if got.len() < truth.len() { st.inc("failures_with_partial_output") }
            }
            if e < held && buf[e..] != before[e..] { return Err(viol("clobbered-after-end", format!("{what}: {how}: bytes behind what was written changed"), &inp)); }
        } else { st.inc("failures_before_any_output"); if buf != before { return Err(viol("clobbered", format!("{what}: {how}: the output changed without a write"), &inp)); } }
        let keep = (oo as usize).min(held).min(buf.len());
        if buf[..keep] != before[..keep] { return Err(viol("clobbered-before-offset", format!("{what}: {how}: bytes in front of the output offset changed"), &inp)); }
        Ok(())
    };
    let (res, buf, l0) = run(Policy { op_budget: 200_000_000, out_budget: 1 << 24, ..Policy::plain() });
    match (&res, damaged) {
        (Err(Fail::Format), true) => { judge("met an impossible code", &res, &buf, &l0, st)?; st.inc("damaged_streams_refused"); st.case(hash_bytes(opt_hash(&c), &inp), true); }
        (Ok(_), false) => {}
        // whether a damaged stream is refused is another property's business
        (_, true) => { st.inc("damaged_streams_not_refused"); return Ok(()); }
        (Err(f), false) => return Err(viol("fault-free-run-failed", format!("{what}: {}", show(f)), &inp)),
    }
    let total = l0.ops;
    let n = if t == Tier::Quick { 40 } else { 120 };
    let ks: Vec<u64> = if total <= n { (0..total).collect() } else { (0..n).map(|i| if i < 6 { i } else if i < 12 { total - 1 - (i - 6) } else { rng.below(total as usize) as u64 }).collect() };
    for k in ks {
        let kind = rng.pick(&[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::StorageFull, ErrorKind::TimedOut, ErrorKind::InvalidInput, ErrorKind::WouldBlock, ErrorKind::InvalidData]);
        let (sticky, zero, short) = (rng.chance(1, 2), rng.chance(1, 6), rng.chance(1, 3));
        let (res, buf, l) = run(Policy { fail_at: Some(k), sticky, zero, short, rng: rng.clone(), kind, op_budget: total * 400 + 1_000_000, out_budget: 1 << 24, ..Policy::plain() });
        if l.faults == 0 { st.inc("fault_not_reached"); continue; }
        // a swallowed failure is another property's business, but it must not hide here
        if res.is_ok() { st.inc("failure_not_reported"); continue; }
        judge(&format!("operation {k} of {total} failed ({kind:?}{}{})", if sticky { ", persistently" } else { "" }, if zero { ", or accepted nothing" } else { "" }), &res, &buf, &l, st)?;
        st.add("faults_delivered", l.faults);
        st.case(hash_bytes(opt_hash(&c) ^ k << 3 ^ (sticky as u64) << 2 ^ (zero as u64) << 1 ^ comp as u64, &inp), true);
    }
    st.inc(&format!("codec:{}:{}", c.name(), if comp { "compress" } else { "expand" }));
    st.sample(|| format!("{what}: {total} stream operations"));
    Ok(())
}

// ---------------------------------------------------------------- C21: working memory

fn c21(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let mut head = vec![];
    let c = match idx % 9 {
        0 => Codec::Lzss(lzss_opt(&reflzh::STD, true)),
        // the work per byte may reach the square of the lookahead, with nothing but literals the window times the lookahead
        1 => { let p = loop { let p = gen::lzss_par(rng); if p.f <= 64 && p.t < p.f { break p; } }; Codec::Lzss(lzss_opt(&p, false)) }
        2 => Codec::Port,
        3 => Codec::Lzw(lzw_opt(&reflzw::std_par())),
        4 => Codec::Lzw(lzw_opt(&reflzw::td_par())),
        5 | 6 => Codec::Lzw(lzw_opt(&reflzw::Par { width: rng.range(9, 14), lsb: rng.chance(1, 2), chunk: usize::MAX, clear: None, stop: if rng.chance(1, 2) { Some(256) } else { None }, ..reflzw::std_par() })),
        7 => Codec::Lzw(lzw_opt(&reflzw::Par { width: 12, lsb: rng.chance(1, 2), hbits: 32, chunk: rng.range(1, 3000), ..reflzw::std_par() })),
        _ => { let ver = gen::version(rng, idx / 9 % 2 == 0); head = gen::td0_header(rng, b"TD", ver); Codec::Td0 }
    };
    let style = rng.below(4) as u64;
    // long enough for every table to fill, then many times that
    let (small, big): (u64, u64) = (150_000, if matches!(c, Codec::Td0) { 1_900_000 } else if t == Tier::Quick { 3_000_000 } else { 12_000_000 });
    let what = format!("{} (data style {style}{})", show_codec(&c), head.get(4).map(|v| format!(", version byte {v}")).unwrap_or_default());
    let mut z_len = [0u64; 2];
    let mut peak = [[0u64; 2]; 2];
    let mut calls = [0u64; 2];
    // tables that are made once per process are not working memory; random data fills every table soonest
    let full = {
        let mut z = std::io::Cursor::new(vec![]);
        let (_, a, ..) = { let mut r = GenReader { len: small, pos: 0, style: 0, head: head.clone() }; let mut w = NullWriter::default(); crate::heap::measure(|| c.compress(&mut r, &mut w)) };
        let _ = c.compress(&mut GenReader { len: small, pos: 0, style: 0, head: head.clone() }, &mut z);
        let (_, b, ..) = { let mut zr = std::io::Cursor::new(&z.get_ref()[..]); let mut w = NullWriter::default(); crate::heap::measure(|| c.expand(&mut zr, &mut w)) };
        [a, b]
    };
    for (k, len) in [small, big].into_iter().enumerate() {
        let (r, p, left, n) = crate::heap::measure(|| { let mut r = GenReader { len, pos: 0, style, head: head.clone() }; let mut w = NullWriter::default(); c.compress(&mut r, &mut w) });
        match r { Ok((a, b)) => { if a != len { return Err(viol("input-size", format!("{what}: reports {a} of {len} bytes"), &[])); } z_len[k] = b; } Err(f) => return Err(viol("compress-failed", format!("{what}: {}", show(&f)), &[])) }
        if left > 65_536 { return Err(viol("leak", format!("{what}: compressing {len} bytes leaves {left} bytes allocated"), &[])); }
        peak[0][k] = p;
        calls[k] = n;
        // expansion: of the real stream, held by the harness outside the measurement
        let mut z = std::io::Cursor::new(vec![]);
        { let mut r = GenReader { len, pos: 0, style, head: head.clone() }; if let Err(f) = c.compress(&mut r, &mut z) { return Err(viol("compress-failed", format!("{what}: {}", show(&f)), &[])); } }
        let mut zr = std::io::Cursor::new(&z.get_ref()[..]);
        let (r, p, left, _) = crate::heap::measure(|| { let mut w = NullWriter::default(); let r = c.expand(&mut zr, &mut w); (r, w.len) });
        match r { (Ok(_), n) => if n < len { return Err(viol("roundtrip-size", format!("{what}: {len} bytes came back as {n}"), &[])); }, (Err(f), _) => return Err(viol("expand-failed", format!("{what}: {}", show(&f)), &[])) }
        if left > 65_536 { return Err(viol("leak", format!("{what}: expanding to {len} bytes leaves {left} bytes allocated"), &[])); }
        peak[1][k] = p;
    }
    for d in 0..2 {
        let (a, b) = (peak[d][0].max(full[d]), peak[d][1]);
        let dir = if d == 0 { "compressing" } else { "expanding" };
        if b > a + a / 4 + 100_000 { return Err(viol("memory-grows", format!("{what}: {dir} {small} bytes needs {a} bytes of heap, {big} bytes need {b}"), &[])); }
        st.top(&format!("peak_heap_{}", if d == 0 { "compress" } else { "expand" }), b);
    }
    // small operations, failing ones among them, again and again: what one call leaves behind adds up
    let mut plain = head.clone();
    for _ in 0..rng.range(1, 400) { plain.push(rng.byte()); }
    let good = c.compress_slice(&plain).unwrap_or_default();
    let mut failures = 0u64;
    let mut round = |rng: &mut Rng| {
        let log = new_log();
        let mut bad = good.clone();
        if !bad.is_empty() { let k = rng.below(bad.len()); bad[k] ^= 1 << rng.below(8); if rng.chance(1, 2) { bad.truncate(k); } }
        if matches!(c, Codec::Port) || matches!(&c, Codec::Lzss(o) if o.header) { for b in bad.iter_mut().take(4).skip(2) { *b = 0; } }
        let pol = Policy { op_budget: 50_000_000, out_budget: 1 << 26, fail_at: Some(rng.below(40) as u64), ..Policy::plain() };
        let _ = c.compress_slice(&plain);
        let _ = c.expand_slice(&good);
        failures += c.expand_slice(&bad).is_err() as u64;
        let mut w = MonWriter::new(vec![], pol.clone(), &log);
        failures += c.compress(&mut std::io::Cursor::new(&plain[..]), &mut w).is_err() as u64;
        let mut w = MonWriter::new(vec![], pol, &log);
        failures += c.expand(&mut std::io::Cursor::new(&good[..]), &mut w).is_err() as u64;
    };
    for _ in 0..20 { round(rng); }
    let (_, _, left, _) = crate::heap::measure(|| for _ in 0..200 { round(rng) });
    if left > 16_384 { return Err(viol("leak", format!("{what}: 1,000 small operations leave {left} bytes allocated"), &plain)); }
    st.add("small_operations", 1100);
    st.add("failed_small_operations", failures);
    st.add("allocations_observed", calls[1]);
    st.add("bytes_driven", 2 * (small + big));
    st.inc(&format!("codec:{}", c.name()));
    st.case(hash_bytes(hash_bytes(opt_hash(&c), &style.to_le_bytes()), &head), true);
    st.sample(|| format!("{what}: heap {:?} for {small} and {big} bytes (compress, expand), streams {:?}", peak, z_len));
    Ok(())
}

// ---------------------------------------------------------------- C22: streams one behind another

fn c22(idx: u64, rng: &mut Rng, st: &mut Stats, _t: Tier) -> Check {
    let members = rng.range(2, 5);
    let lead = rng.pick(&[0usize, 0, 1, 12, 100]);
    let mut cont: Vec<u8> = (0..lead).map(|_| rng.byte()).collect();
    let mut dir: Vec<(Codec, u64, u64, Vec<u8>, &'static str)> = vec![];
    let log = new_log();
    let plainp = Policy { op_budget: 400_000_000, out_budget: 1 << 24, ..Policy::plain() };
    for _ in 0..members {
        let mx = match rng.below(12) { 0 if idx % 4 == 0 => 40_000, 0..=3 => 4000, _ => 200 };
        let (c, plain, fam) = loop {
            let s = any_setup(rng, mx);
            match &s.c { Codec::Lzss(o) if o.header => break (s.c, s.plain, s.fam), Codec::Lzw(o) if o.stop_code.is_some() => break (s.c, s.plain, s.fam), Codec::Port => break (s.c, s.plain, s.fam), _ => {} }
        };
        let at = cont.len() as u64;
        let what = |c: &Codec| format!("member {} ({} bytes of {fam}) by {} at {at}", dir.len(), plain.len(), show_codec(c));
        let size;
        if let Codec::Port = c {
            // has no offsets: made apart and appended
            let z = match c.compress_slice(&plain) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", what(&c), show(&f)), &plain)) };
            size = z.len() as u64;
            cont.extend_from_slice(&z);
        } else {
            let mut k = c.clone();
            match &mut k { Codec::Lzss(o) => o.out_offset = at, Codec::Lzw(o) => o.out_offset = at, _ => {} }
            let mut r = MonReader::new(&plain, plainp.clone(), &log);
            let mut w = MonWriter::new(std::mem::take(&mut cont), plainp.clone(), &log);
            size = match k.compress(&mut r, &mut w) { Ok((_, b)) => b, Err(f) => return Err(viol("compress-failed", format!("{}: {}", what(&c), show(&f)), &plain)) };
            cont = w.buf;
            if cont.len() as u64 != at + size { return Err(viol("reported-size", format!("{}: reports {size} bytes, the container grew by {}", what(&c), cont.len() as u64 - at), &plain)); }
        }
        dir.push((c, at, size, plain, fam));
    }
    let tail = rng.below(50);
    for _ in 0..tail { cont.push(rng.byte()); }
    let mut order: Vec<usize> = (0..dir.len()).collect();
    rng.shuffle(&mut order);
    for i in order {
        let (c, at, size, plain, fam) = &dir[i];
        let mut k = c.clone();
        let inp: &[u8] = match &mut k { Codec::Lzss(o) => { o.in_offset = *at; &cont } Codec::Lzw(o) => { o.in_offset = *at; &cont } _ => &cont[*at as usize..] };
        let what = format!("member {i} of {} ({} bytes of {fam}) by {} at {at}, {} bytes follow its {size}", dir.len(), plain.len(), show_codec(c), cont.len() as u64 - at - size);
        match k.expand_slice(inp) {
            Ok(e) if e == *plain => {}
            Ok(e) => return Err(viol("member-mismatch", format!("{what}: {}", first_diff(plain, &e)), &cont)),
            Err(f) => return Err(viol("member-refused", format!("{what}: {}", show(&f)), &cont)),
        }
        st.inc(&format!("members:{}", c.name()));
        st.case(hash_bytes(opt_hash(c) ^ at << 24, plain), cont.len() as u64 > at + size);
    }
    st.add("container_bytes", cont.len() as u64);
    st.sample(|| format!("container of {} bytes: {}", cont.len(), dir.iter().map(|d| format!("{}@{}+{}", d.0.name(), d.1, d.2)).collect::<Vec<_>>().join(" ")));
    Ok(())
}

// ---------------------------------------------------------------- C23: the two LZHUF implementations

fn c23(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let g = Codec::Lzss(lzss_opt(&reflzh::STD, true));
    let one = |d: &[u8], fam: &str, st: &mut Stats| -> Check {
        for (a, b) in [(&g, &Codec::Port), (&Codec::Port, &g)] {
            let z = match a.compress_slice(d) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(a), show(&f)), d)) };
            match b.expand_slice(&z) {
                Ok(e) if e == d => {}
                Ok(e) => return Err(viol("not-interoperable", format!("{} bytes of {fam} compressed by {} and expanded by {}: {}", d.len(), show_codec(a), show_codec(b), first_diff(d, &e)), d)),
                Err(f) => return Err(viol("not-interoperable", format!("{} bytes of {fam} compressed by {}: {} refuses them: {}", d.len(), show_codec(a), show_codec(b), show(&f)), d)),
            }
            st.add("bytes_compressed", z.len() as u64);
        }
        st.inc(&format!("family:{fam}"));
        st.add("bytes_in", d.len() as u64);
        st.case(hash_bytes(23, d), !d.is_empty());
        Ok(())
    };
    if is_enum(idx) { for d in enum_batch(idx) { one(&d, "enumerated", st)?; } return Ok(()); }
    let (d, fam) = lz_work(idx, rng, &reflzh::STD, t, true);
    one(&d, fam, st)?;
    st.sample(|| format!("{} bytes of {fam} both ways", d.len()));
    Ok(())
}

// ---------------------------------------------------------------- C24: buffer functions and stream functions

fn c24(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let s = any_setup(rng, match idx % 16 { 0 => if t == Tier::Quick { 60_000 } else { 200_000 }, 1..=5 => 6000, _ => 400 });
    let comp = rng.chance(1, 2);
    let mut c = s.c.clone();
    let mut src = if comp { s.plain.clone() } else { match s.c.compress_slice(&s.plain) { Ok(z) => z, Err(f) => return Err(viol("compress-failed", format!("{}: {}", show_codec(&s.c), show(&f)), &s.plain)) } };
    let mut kind = "as-is";
    match rng.below(8) {
        0 if !src.is_empty() && !(comp && matches!(c, Codec::Lzw(_))) => { for _ in 0..rng.range(1, 4) { let top = if rng.chance(1, 2) { 16 } else { usize::MAX }; let i = rng.below(src.len().min(top)); src[i] ^= 1 << rng.below(8); } kind = "damaged"; }
        1 => { let k = rng.below(src.len() + 1); src.truncate(k); kind = "truncated"; }
        2 => match &mut c {
            Codec::Lzss(o) => { o.max_file_size = rng.below(2 * src.len() + 2) as u64; kind = "limited"; }
            Codec::Lzw(o) => { o.max_file_size = rng.below(2 * src.len() + 2) as u64; kind = "limited"; }
            _ => {}
        },
        3 | 4 => {
            let (a, b) = (rng.below(300), rng.pick(&[0u64, 1, 4, 100, 5000]));
            // some with a limit between the size of the region and that of the buffer
            let lim = if rng.chance(1, 2) { Some((src.len() + rng.below(a + 2)).saturating_sub(rng.below(3)) as u64) } else { None };
            match &mut c {
                Codec::Lzss(o) => { o.in_offset = a as u64; o.out_offset = b; if let Some(l) = lim { o.max_file_size = l; } }
                Codec::Lzw(o) => { o.in_offset = a as u64; o.out_offset = b; if let Some(l) = lim { o.max_file_size = l; } }
                _ => {}
            }
            if matches!(c, Codec::Lzss(_) | Codec::Lzw(_)) { let mut v: Vec<u8> = (0..a).map(|_| rng.byte()).collect(); v.extend_from_slice(&src); src = v; kind = "offsets"; }
        }
        _ => {}
    }
    // the port invents data up to the length a damaged header declares: keep it affordable
    if !comp && matches!(c, Codec::Port) && src.len() >= 4 { let l = u32::from_le_bytes([src[0], src[1], src[2], src[3]]); if l > 300_000 { src[2] = 0; src[3] = 0; } }
    let log = new_log();
    let pol = Policy { op_budget: 300_000_000, out_budget: 1 << 26, ..Policy::plain() };
    let mut r = MonReader::new(&src, pol.clone(), &log);
    let mut w = MonWriter::new(vec![], pol, &log);
    let by_stream = if comp { c.compress(&mut r, &mut w) } else { c.expand(&mut r, &mut w) };
    let by_buffer = if comp { c.compress_slice(&src) } else { c.expand_slice(&src) };
    let what = format!("{} {} of {} bytes ({kind})", show_codec(&c), if comp { "compress" } else { "expand" }, src.len());
    match (&by_stream, &by_buffer) {
        (Ok(_), Ok(v)) if *v == w.buf => st.inc("same_bytes"),
        (Ok(_), Ok(v)) => return Err(viol("buffer-differs", format!("{what}: {} (stream function first)", first_diff(&w.buf, v)), &src)),
        (Err(a), Err(b)) if a == b => st.inc("same_error"),
        (Err(Fail::Io(a, _)), Err(Fail::Io(b, _))) if a == b => st.inc("same_error"),
        _ => return Err(viol("outcome-differs", format!("{what}: the stream function gives {by_stream:?}, the buffer function {:?}", by_buffer.as_ref().map(|v| v.len())), &src)),
    }
    st.inc(&format!("kind:{kind}"));
    st.inc(&format!("codec:{}:{}", c.name(), if comp { "compress" } else { "expand" }));
    st.case(hash_bytes(opt_hash(&c) ^ comp as u64, &src), !src.is_empty());
    st.sample(|| what.clone());
    Ok(())
}

// ---------------------------------------------------------------- C25: the work grows as the data does

#[repr(C)]
struct Timespec { s: i64, n: i64 }
extern "C" { fn clock_gettime(id: i32, t: *mut Timespec) -> i32; }
/// CPU time of this thread in microseconds
fn cpu_us() -> u64 { let mut t = Timespec { s: 0, n: 0 }; unsafe { clock_gettime(3, &mut t); } t.s as u64 * 1_000_000 + t.n as u64 / 1000 }

fn c25(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let mut head = vec![];
    let c = match idx % 10 {
        0 => Codec::Lzss(lzss_opt(&reflzh::STD, true)),
        // one chunk holds it all, and has a header
        8 => Codec::Lzw(lzw_opt(&reflzw::Par { width: rng.range(12, 16), lsb: rng.chance(1, 2), hbits: 40, chunk: usize::MAX, clear: None, stop: None, ..reflzw::std_par() })),
        // the work per byte may reach the square of the lookahead, with nothing but literals the window times the lookahead
        1 => { let p = loop { let p = gen::lzss_par(rng); if p.f <= 64 && p.t < p.f { break p; } }; Codec::Lzss(lzss_opt(&p, false)) }
        2 => Codec::Port,
        3 => Codec::Lzw(lzw_opt(&reflzw::std_par())),
        4 => Codec::Lzw(lzw_opt(&reflzw::td_par())),
        5 => Codec::Lzw(lzw_opt(&reflzw::Par { width: rng.range(9, 16), lsb: rng.chance(1, 2), chunk: usize::MAX, clear: None, stop: if rng.chance(1, 2) { Some(256) } else { None }, ..reflzw::std_par() })),
        6 => Codec::Lzw(lzw_opt(&reflzw::Par { lsb: rng.chance(1, 2), chunk: rng.range(200, 20_000), ..reflzw::std_par() })),
        7 => Codec::Lzw(lzw_opt(&reflzw::Par { width: 12, lsb: rng.chance(1, 2), hbits: 32, chunk: rng.range(200, 3000), ..reflzw::std_par() })),
        _ => { let ver = gen::version(rng, idx / 10 % 2 == 0); head = gen::td0_header(rng, b"TD", ver); Codec::Td0 }
    };
    // one kind of data throughout: whatever the first part costs, the rest costs about as much
    const K: usize = 16;
    let n = if t == Tier::Quick { 40_000 } else { 80_000 };
    let fam;
    let mut data: Vec<u8>;
    if rng.chance(1, 2) {
        let style = rng.below(4) as u64;
        data = vec![0; n * K];
        let mut g = GenReader { len: (n * K) as u64, pos: 0, style, head: vec![] };
        let mut k = 0;
        while k < data.len() { k += std::io::Read::read(&mut g, &mut data[k..]).unwrap(); }
        fam = format!("generated, style {style}");
    } else {
        let mx = rng.pick(&[300usize, 4000, 12_000]);
        let (mut block, f) = gen::input(rng, mx);
        if block.is_empty() { block.push(7); }
        block.truncate(n / 2);
        data = block.iter().copied().cycle().take(n * K).collect();
        fam = format!("{f}, period {}", block.len());
    }
    if idx % 10 == 0 && rng.chance(1, 3) { for b in data.iter_mut() { *b &= 0x7f; } }
    data[..head.len()].copy_from_slice(&head);
    let what = format!("{} ({fam})", show_codec(&c));
    let run = |data: &[u8], comp: bool, z: &[u8]| -> Result<(u64, u64, u64, Vec<u8>), Fail> {
        let log = new_log();
        let pol = Policy { op_budget: u64::MAX >> 1, out_budget: 1 << 30, ..Policy::plain() };
        let mut r = MonReader::new(if comp { data } else { z }, pol.clone(), &log);
        let mut w = MonWriter::new(vec![], pol, &log);
        let t0 = cpu_us();
        let res = if comp { c.compress(&mut r, &mut w) } else { c.expand(&mut r, &mut w) };
        let t1 = cpu_us() - t0;
        res?;
        let l = log.borrow();
        Ok((t1, l.ops, l.bytes_in + l.bytes_out, w.buf))
    };
    let mut z: [Vec<u8>; 2] = [vec![], vec![]];
    for comp in [true, false] {
        let dir = if comp { "compressing" } else { "expanding" };
        let (d, e) = (&data[..n], &data[..]);
        let go = |d: &[u8], k: usize, z: &[Vec<u8>; 2]| run(d, comp, &z[k]).map_err(|f| viol("failed", format!("{what}: {dir} {} bytes: {}", d.len(), show(&f)), &[]));
        let mut a = go(d, 0, &z)?;
        a.0 = a.0.max(go(d, 0, &z)?.0);
        let mut b = go(e, 1, &z)?;
        let k = K as u64;
        // what the streams saw does not depend on the machine
        if b.1 > 3 * k * a.1 + 2000 { return Err(viol("operations-grow", format!("{what}: {dir} {n} bytes takes {} stream operations, {} bytes take {}", a.1, n * K, b.1), &[])); }
        if b.2 > 3 * k * a.2 + 200_000 { return Err(viol("transfers-grow", format!("{what}: {dir} {n} bytes moves {} bytes through the streams, {} bytes move {}", a.2, n * K, b.2), &[])); }
        // CPU time is noisy: the longest of the short runs against the shortest of the long ones
        let over = |a: u64, b: u64| b > 5 * k * a + 300_000;
        let mut tries = 0;
        while over(a.0, b.0) && tries < 4 {
            a.0 = a.0.max(go(d, 0, &z)?.0);
            b.0 = b.0.min(go(e, 1, &z)?.0);
            tries += 1;
        }
        if tries > 0 { st.inc("measured_again"); }
        if over(a.0, b.0) { return Err(viol("time-grows", format!("{what}: {dir} {n} bytes takes {} us of CPU time, {} bytes take {}", a.0, n * K, b.0), &[])); }
        st.top(if comp { "growth_percent_compress" } else { "growth_percent_expand" }, b.0 * 100 / (k * a.0.max(1000)));
        st.top("slowest_ns_per_byte", b.0 * 1000 / (n * K) as u64);
        st.add("stream_operations", a.1 + b.1);
        if comp { z = [a.3, b.3]; } else if a.3.len() < n || b.3.len() < n * K { return Err(viol("roundtrip-size", format!("{what}: {} and {} bytes came back", a.3.len(), b.3.len()), &[])); }
    }
    st.inc(&format!("codec:{}", c.name()));
    st.case(hash_bytes(opt_hash(&c), &data[..n]), true);
    st.sample(|| format!("{what}: {n} and {} bytes give {} and {}", n * K, z[0].len(), z[1].len()));
    Ok(())
}
