//! Workload generators: input families and option spaces.
use crate::reflzh;
use crate::reflzw;
use crate::rng::Rng;
use std::sync::OnceLock;

pub const FAMILIES: &[&str] = &["tiny", "tinyalpha", "uniform", "smallalpha", "runs", "periodic", "lzcopies", "text", "spaces", "corpus", "sectors", "skew", "ramp", "kwkwk", "concat", "markov", "nearmiss", "ringedge", "counter", "bytesweep"];

fn corpus() -> &'static Vec<Vec<u8>> {
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for f in ["hamlet_act_1.txt", "hamlet_full.txt", "tempest_act_5.txt", "shkspr.dsk", "td105.norm.td0", "td215.norm.td0", "hamlet_act_1.lzh"] {
            if let Ok(d) = std::fs::read(format!("/repo/tests/{f}")) { if !d.is_empty() { v.push(d); } }
        }
        if v.is_empty() { v.push(b"fallback corpus, only used when the reference files are missing. ".repeat(64)); }
        v
    })
}
pub fn corpus_file(i: usize) -> &'static [u8] { let c = corpus(); &c[i % c.len()] }

pub fn special_size(rng: &mut Rng, max: usize) -> usize {
    let base = rng.pick(&[1usize, 2, 3, 59, 60, 61, 62, 119, 120, 121, 255, 256, 257, 511, 512, 1024, 4035, 4036, 4037, 4095, 4096, 4097, 4156, 8191, 8192, 8193, 12288, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072]);
    let d = rng.below(5) as i64 - 2;
    ((base as i64 + d).max(0) as usize).min(max)
}
pub fn size(rng: &mut Rng, max: usize) -> usize {
    match rng.below(8) { 0 => special_size(rng, max), 1 => rng.range(0, max.min(64)), _ => rng.logsize(max) }
}

const WORDS: &[&str] = &["the", "of", "and", "a", "to", "in", "disk", "sector", "track", "head", "boot", "volume", "catalog", "file", "LOAD", "SAVE", "RUN", "PRINT", "GOTO 100", "10 REM", "chaunt", "priests", "Mung", "Sam", "I am", "green", "eggs", "\r\n", "\n", "  ", "    ", ".", ", ", "0", "1", "2", "255", "\0", "\0\0\0\0", "\x1a"];

/// one input of the given family, about `n` bytes
pub fn family(rng: &mut Rng, fam: &str, n: usize, win: usize, look: usize) -> Vec<u8> {
    let mut d: Vec<u8> = Vec::with_capacity(n + 64);
    match fam {
        "tiny" => { for _ in 0..n.min(rng.below(9)) { d.push(rng.byte()); } }
        "tinyalpha" => {
            let k = rng.range(1, 3);
            let base = rng.pick(&[b' ', 0u8, 255, b'a', 253]);
            for _ in 0..n.min(rng.below(200)) { d.push(base.wrapping_add(rng.below(k) as u8)); }
        }
        "uniform" => { for _ in 0..n { d.push(rng.byte()); } }
        "smallalpha" => {
            let k = rng.pick(&[2usize, 2, 3, 4, 5, 8, 16, 40, 100]);
            let m = rng.byte();
            for _ in 0..n { d.push((rng.below(k) as u8).wrapping_mul(7).wrapping_add(m)); }
        }
        "runs" => {
            while d.len() < n {
                let b = match rng.below(4) { 0 => b' ', 1 => rng.pick(&[0u8, 0xff, 0xe5, 0xf6]), _ => rng.byte() };
                let l = match rng.below(6) {
                    0 => rng.range(1, 4),
                    1 => look - 2 + rng.below(6),
                    2 => win - look - 3 + rng.below(7),
                    3 => rng.logsize(3 * win),
                    _ => rng.logsize(300),
                };
                for _ in 0..l { d.push(b); }
            }
        }
        "periodic" => {
            let p = match rng.below(5) { 0 => rng.range(1, 4), 1 => rng.range(look - 1, look + 2), 2 => (win - look - 2 + rng.below(6)).max(1), 3 => (win - 2 + rng.below(6)).max(1), _ => rng.logsize(2 * win) };
            let mut unit: Vec<u8> = (0..p).map(|_| rng.byte()).collect();
            let mutate = rng.chance(1, 2);
            while d.len() < n {
                d.extend_from_slice(&unit);
                if mutate { let i = rng.below(unit.len()); unit[i] = rng.byte(); }
            }
        }
        "lzcopies" => {
            let k = rng.pick(&[2usize, 4, 16, 64, 256]);
            let litw = rng.range(1, 6);
            let dists = [1, 2, 3, look - 1, look, look + 1, win - look - 1, win - look, win - look + 1, win - 1, win, win + 1];
            while d.len() < n {
                if d.is_empty() || rng.chance(litw, 10) {
                    for _ in 0..rng.range(1, 4) { d.push(rng.below(k) as u8); }
                } else {
                    let dist = if rng.chance(1, 3) { rng.pick(&dists) } else { rng.logsize(win + 20) };
                    let dist = dist.clamp(1, d.len());
                    let l = if rng.chance(1, 2) { rng.pick(&[1, 2, 3, 4, look.saturating_sub(2).max(1), look.saturating_sub(1).max(1), look, look + 1, 2 * look, 2 * look + 1]) } else { rng.range(1, look + 5) };
                    let st = d.len() - dist;
                    for x in 0..l { let b = d[st + x]; d.push(b); }
                }
            }
        }
        "text" => { while d.len() < n { d.extend_from_slice(rng.pick(WORDS).as_bytes()); if rng.chance(3, 4) { d.push(b' '); } } }
        "spaces" => { while d.len() < n { for _ in 0..rng.logsize(150) { d.push(b' '); } for _ in 0..rng.below(4) { d.push(b'a' + rng.below(3) as u8); } } }
        "corpus" => {
            let c = corpus_file(rng.below(16));
            let l = n.min(c.len());
            let s = rng.below(c.len() - l + 1);
            d.extend_from_slice(&c[s..s + l]);
            if l > 0 && rng.chance(1, 2) { for _ in 0..rng.below(20) { let i = rng.below(l); d[i] = rng.byte(); } }
        }
        "sectors" => {
            let ss = rng.pick(&[128usize, 256, 512, 1024]);
            let mut prev: Vec<u8> = vec![0xe5; ss];
            while d.len() < n {
                let mut s = match rng.below(4) { 0 => vec![rng.pick(&[0u8, 0xe5, 0xf6, 0xff]); ss], 1 => prev.clone(), 2 => (0..ss).map(|_| rng.byte()).collect(), _ => { let mut t = vec![0u8; ss]; for x in t.iter_mut().take(ss / 4) { *x = rng.below(64) as u8 + 32; } t } };
                for _ in 0..rng.below(3) { let i = rng.below(ss); s[i] = rng.byte(); }
                d.extend_from_slice(&s);
                prev = s;
            }
        }
        "skew" => {
            let sh = rng.range(1, 6);
            let off = rng.byte();
            for _ in 0..n { let z = (rng.next() | (1 << 40)).trailing_zeros() as usize; d.push(((z * sh) as u8).wrapping_add(if rng.chance(1, 3) { rng.below(4) as u8 } else { 0 }).wrapping_add(off)); }
        }
        "ramp" => { let st = rng.pick(&[1u8, 3, 7, 85, 255, 128]); let mut b = rng.byte(); let e = rng.range(1, 600); for i in 0..n { d.push(b); b = b.wrapping_add(st); if i % e == e - 1 { b = b.wrapping_add(1); } } }
        "kwkwk" => {
            let mut l = 1;
            let a = rng.byte();
            let b = rng.byte();
            while d.len() < n { for _ in 0..l { d.push(a); } if rng.chance(1, 3) { d.push(b); } if rng.chance(1, 40) { l = 1 } else { l += rng.below(2); } }
        }
        "concat" => {
            let parts = rng.range(2, 5);
            for _ in 0..parts { let f = FAMILIES[rng.below(FAMILIES.len())]; if f != "concat" { d.extend(family(rng, f, n / parts, win, look)); } }
        }
        "markov" => {
            let k = rng.range(2, 24);
            let t: Vec<u8> = (0..k * 3).map(|_| rng.below(k) as u8).collect();
            let mut s = 0usize;
            for _ in 0..n { let r = rng.below(8); s = if r == 7 { rng.below(k) } else { t[s * 3 + r % 3] as usize }; d.push(s as u8 + b'A'); }
        }
        "nearmiss" => {
            // a block repeated with its last/first byte changed: exercises tree ordering and ties
            let p = rng.range(2, 2 * look.max(2));
            let unit: Vec<u8> = (0..p).map(|_| rng.below(3) as u8 + 253).collect();
            while d.len() < n { let cut = rng.range(1, p); d.extend_from_slice(&unit[..cut]); d.push(rng.below(3) as u8 + 253); if rng.chance(1, 6) { for _ in 0..rng.below(40) { d.push(rng.byte()); } } }
        }
        "ringedge" => {
            // the k-th byte sits at window position (win - look + k) mod win: blocks that straddle the end of the window,
            // then the same blocks with single bytes replaced by what the previous lap had in their place
            let k = rng.pick(&[3usize, 16, 256]);
            while d.len() < n {
                let lap = (d.len() + win - look) / win;
                let e = if rng.chance(1, 2) { rng.range(1, 3) } else { rng.range(1, look) }.min(look);
                let edge = (lap + 1) * win - (win - look) - e; // index of the byte at window position win - e
                while d.len() < edge { if rng.chance(1, 4) && d.len() > 70 { let s = d.len() - rng.range(1, 60); for x in 0..rng.range(1, 8) { let b = d[s + x]; d.push(b); } } else { d.push(rng.below(k) as u8); } }
                d.truncate(edge);
                for _ in 0..look { d.push(rng.byte()); }
                let blk = d[edge..].to_vec();
                for _ in 0..rng.range(1, 5) {
                    for _ in 0..rng.below(30) { d.push(rng.below(k) as u8); }
                    let mut b = blk.clone();
                    if rng.chance(2, 3) { let i = if rng.chance(1, 2) { look - 1 } else { rng.below(look) }; b[i] = if rng.chance(1, 2) { rng.pick(&[0u8, b' ']) } else if edge + i >= win { d[edge + i - win] } else { b' ' }; }
                    d.extend_from_slice(&b);
                }
            }
        }
        "counter" => {
            // numbered records in ascending or descending order: search trees that are one long chain, matches at its far end
            let tag = rng.byte();
            let (mut k, step) = (rng.below(65536), rng.pick(&[1usize, 1, 2, 255, 65535, 65535, 65281]));
            let (lead, again) = (rng.range(1, 2), rng.chance(1, 3));
            let mut recs: Vec<Vec<u8>> = vec![];
            while d.len() < n {
                let mut r = vec![tag; lead];
                r.extend_from_slice(&(k as u16).to_be_bytes());
                for _ in 0..rng.below(2) { r.push(rng.byte()); }
                d.extend_from_slice(&r);
                recs.push(r);
                k = (k + step) % 65536;
                if again && recs.len() > 900 && rng.chance(1, 30) {
                    // a run of earlier records
                    let at = recs.len() - rng.range(2, recs.len().min(win / 4));
                    for x in at..(at + rng.range(1, 6)).min(recs.len()) { let r = recs[x].clone(); d.extend_from_slice(&r); }
                }
                if !again && recs.len() > 3 && rng.chance(1, 400) { let x = recs.len() - rng.range(1, recs.len().min(win / 4)); let r = recs[x].clone(); d.extend_from_slice(&r); }
            }
        }
        _ => { for i in 0..n { d.push((i & 255) as u8 ^ ((i >> 8) & 255) as u8); } }
    }
    d.truncate(n);
    d
}

pub fn input(rng: &mut Rng, max: usize) -> (Vec<u8>, &'static str) { input_for(rng, max, 4096, 60) }
pub fn input_for(rng: &mut Rng, max: usize, win: usize, look: usize) -> (Vec<u8>, &'static str) {
    let f = FAMILIES[rng.below(FAMILIES.len())];
    let n = size(rng, max);
    (family(rng, f, n, win.max(4), look.max(2).min(win.max(4) / 2)), f)
}

/// Inputs whose Huffman statistics grow along a Fibonacci-like chain, giving the longest codes LZHUF can have,
/// then rare symbols that need those codes.  The chain is made of match lengths: every copy is followed by a
/// byte that its source was not followed by, so that a longest-match parser emits exactly the planned length.
pub fn deep_huffman(rng: &mut Rng) -> Vec<u8> {
    let nlit = rng.range(30, 60);
    let mut lits: Vec<u8> = (0..=255u8).collect();
    rng.shuffle(&mut lits);
    let mut d: Vec<u8> = lits[..nlit].to_vec();
    let lo = rng.range(4, 9);
    let mut lens: Vec<usize> = (lo..lo + 12).collect();
    rng.shuffle(&mut lens);
    // weight of everything that is not in the chain
    let w0 = 314 + nlit + rng.below(40);
    let mut f = vec![w0 * rng.range(50, 70) / 100, w0 + rng.below(20)];
    let mut sum = w0 + f[0] + f[1];
    loop {
        let nx = sum - f[f.len() - 1] + rng.below(4);
        if sum + nx > 32_600 { break; }
        f.push(nx);
        sum += nx;
    }
    let mut toks: Vec<usize> = vec![];
    for (i, c) in f.iter().enumerate() { for _ in 0..*c { toks.push(lens[i]); } }
    rng.shuffle(&mut toks);
    // bytes that the next copy must not start with: whatever follows the string just copied, anywhere in the window
    let mut follow = [false; 256];
    for l in toks {
        let mut st = 0;
        for _ in 0..60 {
            let dist = (l + 1 + rng.below(3900)).min(d.len());
            st = d.len() - dist;
            if !follow[d[st] as usize] { break; }
        }
        let at = d.len();
        for k in 0..l { let b = d[st + k]; d.push(b); }
        follow = [false; 256];
        let (win, s) = d.split_at(at);
        let (s0, s1) = (s[0], s[1]);
        for j in at.saturating_sub(4096)..at.saturating_sub(l) {
            if win[j] == s0 && win[j + 1] == s1 && win[j..j + l] == s[..l] { follow[win[j + l] as usize] = true; }
        }
    }
    // now the rare symbols
    let mut rare: Vec<u8> = lits[nlit..].to_vec();
    rng.shuffle(&mut rare);
    rare.truncate(rng.range(30, 120));
    d.extend_from_slice(&rare);
    for l in 41..60usize { let st = d.len() - 3000 - rng.below(500); for k in 0..l { let b = d[st + k]; d.push(b); } }
    for _ in 0..rng.below(500) { d.push(rng.byte()); }
    d
}

/// (window, lookahead, threshold, precursor) combinations the format can represent:
/// positions fit 12 bits, the initial indexing of `lookahead` fill strings stays inside the window.
pub fn lzss_par(rng: &mut Rng) -> reflzh::Par {
    if rng.chance(1, 4) { return reflzh::Par { fill: if rng.chance(1, 2) { b' ' } else { rng.byte() }, ..reflzh::STD }; }
    let n = match rng.below(5) { 0 => rng.pick(&[256usize, 512, 1024, 2048, 4096]), 1 => rng.range(8, 64), 2 => rng.range(64, 600), _ => rng.range(16, 4096) };
    let maxf = (n / 2).min(300);
    let f = match rng.below(4) { 0 => rng.pick(&[16usize, 18, 34, 60, 64, 66, 128, 255, 256, 257]).min(maxf), _ => rng.range(1, maxf.min(100)) }.max(1);
    let t = match rng.below(4) { 0 => 2, 1 => rng.range(0, 3), _ => rng.range(0, f) }.min(f);
    let mut p = reflzh::Par { n, f, t, fill: rng.pick(&[b' ', 0, 0xff, b'a']) };
    // lookahead and threshold beyond a byte
    if rng.chance(1, 10) && n > 540 { p.f = rng.range(256, (n / 2).min(1000)); p.t = if rng.chance(1, 2) { rng.range(250, p.f) } else { rng.range(0, p.f) }; }
    // the largest windows the 12-bit position can serve
    if rng.chance(1, 12) { p.n = 4096 + p.f.min(60) - rng.below(3).min(p.f.min(60)); }
    p
}

/// the same for monitors that run an operation many times: the work of the match finder on degenerate data
/// grows with the cube of the lookahead
pub fn lzss_par_light(rng: &mut Rng) -> reflzh::Par {
    let mut p = lzss_par(rng);
    if p.f > 320 { p.f = rng.range(256, 320); p.t = p.t.min(p.f); }
    p
}

/// LZW option combinations that are self-consistent: the decoder has a way to see every reset.
pub fn lzw_par(rng: &mut Rng) -> reflzw::Par { lzw_par_of(rng, false) }
/// `beyond`: also alphabets with more symbols than there are bytes
pub fn lzw_par_of(rng: &mut Rng, beyond: bool) -> reflzw::Par {
    let lsb = rng.chance(1, 2);
    let mut p = match rng.below(6) {
        0 => reflzw::Par { lsb, ..reflzw::std_par() },
        1 => reflzw::td_par(),
        _ => {
            let maxsym = if beyond && rng.chance(1, 8) { rng.pick(&[256usize, 300, 511, 512, 1000, 4000]) } else if rng.chance(3, 4) { 255 } else { match rng.below(7) { 0 => 0, 1 => 1, 2 => 3, 3 => 15, 4 => 127, 5 => rng.below(255), _ => rng.below(20) } };
            let minw = (maxsym as f64 + 3.0).log2().ceil() as usize;
            let width = match rng.below(9) { 0 | 1 => minw.max(2), 2 | 3 => 12.max(minw), 4 | 5 => 16, 6 => if rng.chance(1, 3) { rng.range(25, 63) } else { rng.range(17, 24) }, _ => rng.range(minw.max(2), 16) };
            let (clear, stop) = match rng.below(5) {
                0 => (Some(maxsym + 1), Some(maxsym + 2)),
                1 => (Some(maxsym + 2), Some(maxsym + 1)),
                2 => (Some(maxsym + 1), None),
                3 => (None, Some(maxsym + 1)),
                _ => (None, None),
            };
            // control codes anywhere above the alphabet, up to the largest code
            let (clear, stop) = if rng.chance(1, 5) { far_codes(rng, maxsym, width) } else { (clear, stop) };
            let (mut hbits, mut hdiv) = (0, 1);
            if rng.chance(1, 2) {
                hbits = rng.pick(&[16usize, 16, 24, 20, 32, 8, 11, 40, 48, 56]);
                // rounding down must not lose a whole code
                hdiv = match rng.below(4) { 0 => 1, 1 => rng.pick(&[2usize, 4, 8]), 2 => rng.range(1, width), _ => width };
                if hdiv > width { hdiv = 1; }
                // a header of a few bits, counting codes
                if rng.chance(1, 12) { hbits = rng.range(2, 7); hdiv = width; }
            }
            // a stream without a stop code must not end in padding that looks like a code, which cannot
            // happen as padding is below 8 bits; widths below 8 therefore always carry a stop code or header
            let (clear, stop) = if width < 8 && stop.is_none() && hbits == 0 { (clear, Some(if clear == Some(maxsym + 1) { maxsym + 2 } else { maxsym + 1 })) } else { (clear, stop) };
            let chunk = match rng.below(5) { 0 => 4096, 1 => rng.range(1, 20), 2 => rng.range(20, 400), _ => rng.range(1, 5000) };
            reflzw::Par { hbits, hdiv, chunk, maxsym, clear, stop, width, lsb }
        }
    };
    if p.hbits == 0 && p.clear.is_none() { p.chunk = usize::MAX; }
    if p.hbits > 0 {
        // the header must be able to hold the bit count of a full chunk (clear code included)
        let maxcodes = ((1u128 << p.hbits) - 1) * p.hdiv as u128 / p.width as u128;
        if p.chunk == usize::MAX { p.chunk = 4096; }
        if p.hbits >= 40 && rng.chance(1, 3) { p.chunk = rng.pick(&[70_000usize, 1 << 30]); }
        p.chunk = (p.chunk as u128).min(maxcodes.saturating_sub(2)).max(1) as usize;
    }
    p
}
fn far_codes(rng: &mut Rng, maxsym: usize, width: usize) -> (Option<usize>, Option<usize>) {
    let top = (1usize << width) - 1;
    let mut one = || match rng.below(4) { 0 => top - rng.below(3).min(top - maxsym - 1), 1 => rng.range(maxsym + 1, top), _ => rng.range(maxsym + 1, top.min(maxsym + 200)) };
    let (c, s) = (one(), one());
    match rng.below(4) { 0 if c != s => (Some(c), Some(s)), 1 => (Some(c), None), 2 => (None, Some(s)), _ => (Some(c), if c + 1 <= top { Some(c + 1) } else { None }) }
}
/// more codes than 16 bits can count
pub fn lzw_wide(rng: &mut Rng) -> reflzw::Par {
    let (hbits, clear) = rng.pick(&[(0usize, None), (0, Some(256usize)), (32, None), (24, None)]);
    reflzw::Par { hbits, hdiv: 1, chunk: if hbits == 0 && clear.is_none() { usize::MAX } else { rng.range(66_000, 120_000) }, maxsym: 255, clear, stop: if rng.chance(1, 2) { Some(rng.pick(&[257usize, 65_535, 65_536])) } else { None }, width: rng.range(17, 20), lsb: rng.chance(1, 2) }
}
pub fn restrict(d: &mut [u8], maxsym: usize) { if maxsym < 255 { for b in d.iter_mut() { *b = (*b as usize % (maxsym + 1)) as u8; } } }

pub fn crc(mut crc: u16, buf: &[u8]) -> u16 {
    for b in buf {
        for bit in 0..8 {
            let inb = (b >> (7 - bit)) & 1;
            let top = (crc >> 15) as u8 & 1;
            crc <<= 1;
            if inb ^ top == 1 { crc ^= 0xa097; }
        }
    }
    crc
}
/// a TD0 image: valid 12-byte header (given signature and version) + body
pub fn td0_header(rng: &mut Rng, sig: &[u8; 2], ver: u8) -> Vec<u8> {
    let mut h = vec![sig[0], sig[1]];
    for _ in 2..10 { h.push(if rng.chance(1, 3) { rng.pick(&[0u8, 1, 2, 0xff, 0x80]) } else { rng.byte() }); }
    h[4] = ver;
    let c = crc(0, &h).to_le_bytes();
    h.extend_from_slice(&c);
    h
}
pub fn version(rng: &mut Rng, v1: bool) -> u8 {
    if v1 { match rng.below(3) { 0 => rng.pick(&[10u8, 11, 14, 15, 18, 19, 0, 1]), _ => rng.below(20) as u8 } } else { match rng.below(3) { 0 => rng.pick(&[20u8, 21, 22, 24, 32, 100, 127, 128, 255]), _ => rng.range(20, 255) as u8 } }
}
