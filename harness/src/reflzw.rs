//! Reference model of fixed-width LZW with chunk headers / clear / stop codes.  No code shared with /repo.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Par {
    pub hbits: usize,
    pub hdiv: usize,
    pub chunk: usize,
    pub maxsym: usize,
    pub clear: Option<usize>,
    pub stop: Option<usize>,
    pub width: usize,
    pub lsb: bool,
}

pub fn std_par() -> Par { Par { hbits: 0, hdiv: 1, chunk: 4096, maxsym: 255, clear: Some(256), stop: Some(257), width: 12, lsb: true } }
pub fn td_par() -> Par { Par { hbits: 16, hdiv: 4, chunk: 4096, maxsym: 255, clear: None, stop: None, width: 12, lsb: true } }

pub struct BitOut { pub v: Vec<u8>, n: usize, lsb: bool }
impl BitOut {
    pub fn new(lsb: bool) -> Self { Self { v: vec![], n: 0, lsb } }
    pub fn put(&mut self, val: usize, bits: usize) {
        for i in 0..bits {
            let b = if self.lsb { (val >> i) & 1 } else { (val >> (bits - 1 - i)) & 1 };
            if self.n % 8 == 0 { self.v.push(0); }
            if b == 1 {
                let sh = if self.lsb { self.n % 8 } else { 7 - self.n % 8 };
                *self.v.last_mut().unwrap() |= 1 << sh;
            }
            self.n += 1;
        }
    }
    pub fn bits(&self) -> usize { self.n }
}
pub struct BitIn<'a> { d: &'a [u8], pub at: usize, lsb: bool }
impl<'a> BitIn<'a> {
    pub fn new(d: &'a [u8], lsb: bool) -> Self { Self { d, at: 0, lsb } }
    pub fn get(&mut self, bits: usize) -> Option<usize> {
        if self.at + bits > self.d.len() * 8 { self.at = self.d.len() * 8; return None; }
        let mut v = 0usize;
        for i in 0..bits {
            let p = self.at + i;
            let sh = if self.lsb { p % 8 } else { 7 - p % 8 };
            let b = ((self.d[p / 8] >> sh) & 1) as usize;
            if self.lsb { v |= b << i } else { v = (v << 1) | b }
        }
        self.at += bits;
        Some(v)
    }
}

/// codes handed to new dictionary entries, in order
struct Alloc { next: usize, max: usize, skip: [Option<usize>; 2] }
impl Alloc {
    fn new(p: &Par) -> Self { Self { next: p.maxsym + 1, max: (1usize << p.width) - 1, skip: [p.clear, p.stop] } }
    fn take(&mut self) -> Option<usize> {
        while self.skip.contains(&Some(self.next)) { self.next += 1; }
        if self.next > self.max { return None; }
        self.next += 1;
        Some(self.next - 1)
    }
}

#[derive(Default, Clone, Debug)]
pub struct Info { pub chunks: usize, pub codes: usize, pub full: bool, pub longest: usize, pub chunk_starts: Vec<usize>, pub code_offs: Vec<usize> }

/// The codes of each chunk (clear / stop codes included).
pub fn parse(data: &[u8], p: &Par) -> (Vec<Vec<usize>>, Info) {
    let mut chunks = vec![];
    let mut info = Info::default();
    let mut i = 0;
    loop {
        info.chunk_starts.push(i);
        let mut dict: HashMap<(usize, u8), usize> = HashMap::new();
        let mut al = Alloc::new(p);
        let mut codes = vec![];
        let mut done = i >= data.len();
        while i < data.len() {
            let mut code = data[i] as usize;
            let mut j = i + 1;
            while j < data.len() {
                match dict.get(&(code, data[j])) { Some(c) => { code = *c; j += 1; } None => break }
            }
            info.longest = info.longest.max(j - i);
            info.code_offs.push(i);
            codes.push(code);
            if j == data.len() { i = j; done = true; break; }
            match al.take() { Some(c) => { dict.insert((code, data[j]), c); } None => info.full = true }
            i = j;
            if codes.len() >= p.chunk { break; }
        }
        info.codes += codes.len();
        if done { if let Some(s) = p.stop { codes.push(s); } } else if let Some(c) = p.clear { codes.push(c); }
        chunks.push(codes);
        if done { break; }
    }
    info.chunks = chunks.len();
    (chunks, info)
}

pub fn put_chunks(chunks: &[Vec<usize>], p: &Par) -> Vec<u8> {
    let mut o = BitOut::new(p.lsb);
    for c in chunks {
        if p.hbits > 0 { o.put(c.len() * p.width / p.hdiv, p.hbits); }
        for &x in c { o.put(x, p.width); }
    }
    let _ = o.bits();
    o.v
}

pub fn encode(data: &[u8], p: &Par) -> (Vec<u8>, Info) {
    let (c, i) = parse(data, p);
    (put_chunks(&c, p), i)
}

/// Is every chunk header value representable, and does the reader see the same code count?
pub fn headers_fit(chunks: &[Vec<usize>], p: &Par) -> bool {
    p.hbits == 0 || chunks.iter().all(|c| {
        let v = c.len() * p.width / p.hdiv;
        let n_extra = 0;
        v < (1usize << p.hbits) && (v * p.hdiv).div_ceil(p.width) + n_extra == c.len()
    })
}

#[derive(Debug, PartialEq)]
pub enum End { Ok, Bad }
pub struct Decoded { pub out: Vec<u8>, pub end: End, pub codes: usize }

/// Decode; a truncated stream yields what its complete codes say.
pub fn decode(data: &[u8], p: &Par) -> Decoded {
    let mut inp = BitIn::new(data, p.lsb);
    let mut out: Vec<u8> = vec![];
    let mut ncodes = 0;
    'chunks: loop {
        // entry: (prefix code or MAX, last symbol, first symbol, length)
        let mut dict: HashMap<usize, (usize, u8, u8, usize)> = (0..=p.maxsym).map(|s| (s, (usize::MAX, s as u8, s as u8, 1))).collect();
        let mut al = Alloc::new(p);
        let mut left = usize::MAX;
        if p.hbits > 0 {
            match inp.get(p.hbits) { Some(v) => left = v * p.hdiv, None => break }
        }
        let mut prev: Option<usize> = None;
        let mut used = 0;
        while used < left {
            let c = match inp.get(p.width) { Some(c) => c, None => break 'chunks };
            ncodes += 1;
            if Some(c) == p.stop { break 'chunks; }
            if Some(c) == p.clear { break; }
            used += p.width;
            let newc = if prev.is_some() { al.take() } else { None };
            if let (Some(nc), Some(pc)) = (newc, prev) {
                let (_, _, pf, pl) = dict[&pc];
                // the new entry is prev + first symbol of the current string
                let first = match dict.get(&c) { Some(e) => e.2, None if c == nc => pf, None => return Decoded { out, end: End::Bad, codes: ncodes } };
                dict.insert(nc, (pc, first, pf, pl + 1));
            }
            let e = match dict.get(&c) { Some(e) => *e, None => return Decoded { out, end: End::Bad, codes: ncodes } };
            let at = out.len();
            out.resize(at + e.3, 0);
            let mut k = c;
            for x in (0..e.3).rev() {
                let ent = dict[&k];
                out[at + x] = ent.1;
                k = ent.0;
            }
            prev = Some(c);
        }
    }
    Decoded { out, end: End::Ok, codes: ncodes }
}

/// A random valid code sequence (not necessarily what a greedy encoder emits).
pub fn random_valid(rng: &mut crate::rng::Rng, p: &Par, n_codes: usize) -> Vec<Vec<usize>> {
    let mut chunks = vec![];
    let mut left = n_codes;
    // with neither header nor clear code the decoder never resets
    let can_reset = p.hbits > 0 || p.clear.is_some();
    loop {
        let mut al = Alloc::new(p);
        let mut avail: Vec<usize> = vec![];
        let mut codes: Vec<usize> = vec![];
        let cap = if can_reset { if rng.chance(1, 3) { p.chunk } else { rng.range(1, p.chunk.max(1)) } } else { usize::MAX };
        let maxhdr = if p.hbits > 0 { ((1usize << p.hbits) - 1) * p.hdiv / p.width } else { usize::MAX };
        let room = 1; // for clear / stop
        let cap = cap.min(maxhdr.saturating_sub(room));
        while left > 0 && codes.len() < cap {
            // the code that becomes defined with this one (KwKwK) is legal too
            let newc = if codes.is_empty() { None } else { al.take() };
            let c = match rng.below(10) {
                0..=2 => rng.below(p.maxsym + 1),
                3..=4 if newc.is_some() => newc.unwrap(),
                5..=6 if !avail.is_empty() => *avail.last().unwrap(),
                _ if !avail.is_empty() => avail[rng.below(avail.len())],
                _ => rng.below(p.maxsym + 1),
            };
            if let Some(nc) = newc { avail.push(nc); }
            codes.push(c);
            left -= 1;
        }
        let done = left == 0 || !can_reset || cap == 0;
        if done { if let Some(s) = p.stop { codes.push(s); } } else if let Some(c) = p.clear { codes.push(c); }
        chunks.push(codes);
        if done { break; }
    }
    chunks
}
