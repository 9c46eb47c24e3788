//! Reference model of the LZHUF format (Okumura / Yoshizaki LZHUF.C, 1989), written from the
//! published algorithm, generalised over (window, lookahead, threshold, precursor).
//! It shares no code with /repo.  Huffman codes are kept in a u64, so no code length is cut.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Par { pub n: usize, pub f: usize, pub t: usize, pub fill: u8 }

pub const STD: Par = Par { n: 4096, f: 60, t: 2, fill: b' ' };

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tok { Lit(u8), Match { len: usize, pos: usize } }

/// 6-bit prefix lengths of the position code: how many of the 64 upper values have each length
/// 1 of length 3, 3 of 4, 8 of 5, 12 of 6, 24 of 7, 16 of 8; codes assigned canonically.
pub fn pos_code(upper: usize) -> (u32, u32) {
    let groups = [(3u32, 1usize), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)];
    let mut code: u32 = 0; // left aligned in 8 bits
    let mut idx = 0;
    for (len, cnt) in groups {
        for _ in 0..cnt {
            if idx == upper { return (code >> (8 - len), len); }
            code += 1 << (8 - len);
            idx += 1;
        }
    }
    unreachable!()
}

pub struct BitOut { pub v: Vec<u8>, nbits: usize }
impl BitOut {
    pub fn new() -> Self { Self { v: Vec::new(), nbits: 0 } }
    pub fn put(&mut self, code: u64, len: u32) {
        for i in (0..len).rev() {
            if self.nbits % 8 == 0 { self.v.push(0); }
            if (code >> i) & 1 == 1 { *self.v.last_mut().unwrap() |= 0x80 >> (self.nbits % 8); }
            self.nbits += 1;
        }
    }
    pub fn bits(&self) -> usize { self.nbits }
}

pub struct BitIn<'a> { d: &'a [u8], pub at: usize }
impl<'a> BitIn<'a> {
    pub fn new(d: &'a [u8]) -> Self { Self { d, at: 0 } }
    pub fn get(&mut self) -> Option<usize> {
        let by = *self.d.get(self.at / 8)?;
        let b = (by >> (7 - self.at % 8)) & 1;
        self.at += 1;
        Some(b as usize)
    }
}

#[derive(Clone, Default, Debug)]
pub struct HuffStats { pub rebuilds: usize, pub max_code_len: u32, pub updates: usize, pub swaps: usize }

/// Adaptive Huffman tree with the LZHUF ordering rules.
pub struct Huff { nc: usize, t: usize, freq: Vec<u32>, prnt: Vec<usize>, son: Vec<usize>, pub st: HuffStats }

impl Huff {
    pub fn new(nc: usize) -> Self {
        let t = 2 * nc - 1;
        let mut h = Huff { nc, t, freq: vec![0; t + 1], prnt: vec![0; t + nc], son: vec![0; t], st: HuffStats::default() };
        for i in 0..nc {
            h.freq[i] = 1;
            h.son[i] = i + t;
            h.prnt[i + t] = i;
        }
        let (mut i, mut j) = (0, nc);
        while j < t {
            h.freq[j] = h.freq[i] + h.freq[i + 1];
            h.son[j] = i;
            h.prnt[i] = j;
            h.prnt[i + 1] = j;
            i += 2;
            j += 1;
        }
        h.freq[t] = u32::MAX;
        h.prnt[t - 1] = 0;
        h
    }
    fn reconst(&mut self) {
        self.st.rebuilds += 1;
        // leaves in table order with halved frequency, then merge as in LZHUF: every new inner node
        // is placed after all nodes of frequency <= its own
        let mut nodes: Vec<(u32, usize)> = Vec::with_capacity(self.t);
        for i in 0..self.t {
            if self.son[i] >= self.t { nodes.push(((self.freq[i] + 1) / 2, self.son[i])); }
        }
        let mut i = 0;
        while nodes.len() < self.t {
            let f = nodes[i].0 + nodes[i + 1].0;
            let mut k = nodes.len();
            while k > 0 && f < nodes[k - 1].0 { k -= 1; }
            nodes.insert(k, (f, i));
            i += 2;
        }
        for (k, (f, s)) in nodes.iter().enumerate() {
            self.freq[k] = *f;
            self.son[k] = *s;
        }
        for k in 0..self.t {
            let s = self.son[k];
            self.prnt[s] = k;
            if s < self.t { self.prnt[s + 1] = k; }
        }
        self.prnt[self.t - 1] = 0;
    }
    fn update(&mut self, sym: usize) {
        if self.freq[self.t - 1] == 0x8000 { self.reconst(); }
        self.st.updates += 1;
        let mut c = self.prnt[sym + self.t];
        loop {
            self.freq[c] += 1;
            let k = self.freq[c];
            let mut l = c + 1;
            if k > self.freq[l] {
                while k > self.freq[l + 1] { l += 1; }
                self.st.swaps += 1;
                self.freq[c] = self.freq[l];
                self.freq[l] = k;
                let i = self.son[c];
                self.prnt[i] = l;
                if i < self.t { self.prnt[i + 1] = l; }
                let j = self.son[l];
                self.son[l] = i;
                self.prnt[j] = c;
                if j < self.t { self.prnt[j + 1] = c; }
                self.son[c] = j;
                c = l;
            }
            if c == self.t - 1 { break; }
            c = self.prnt[c];
        }
    }
    pub fn encode(&mut self, sym: usize, out: &mut BitOut) {
        let mut path: u64 = 0;
        let mut len = 0u32;
        let mut k = self.prnt[sym + self.t];
        while k != self.t - 1 {
            path |= ((k & 1) as u64) << len;
            len += 1;
            k = self.prnt[k];
        }
        self.st.max_code_len = self.st.max_code_len.max(len);
        out.put(path, len);
        self.update(sym);
    }
    pub fn decode(&mut self, inp: &mut BitIn) -> Option<usize> {
        let mut c = self.son[self.t - 1];
        let start = inp.at;
        while c < self.t {
            c = self.son[c + inp.get()?];
        }
        self.st.max_code_len = self.st.max_code_len.max((inp.at - start) as u32);
        let s = c - self.t;
        self.update(s);
        Some(s)
    }
    pub fn code_len(&self, sym: usize) -> u32 {
        let mut len = 0;
        let mut k = self.prnt[sym + self.t];
        while k != self.t - 1 { len += 1; k = self.prnt[k]; }
        len
    }
    #[allow(dead_code)]
    pub fn nsym(&self) -> usize { self.nc }
}

pub fn nsym(p: &Par) -> usize { 256 + p.f - p.t }

fn put_pos(pos: usize, out: &mut BitOut) {
    let (c, l) = pos_code(pos >> 6);
    out.put(c as u64, l);
    out.put((pos & 0x3f) as u64, 6);
}

fn get_pos(inp: &mut BitIn) -> Option<usize> {
    let mut code = 0u32;
    let mut len = 0u32;
    loop {
        code = (code << 1) | inp.get()? as u32;
        len += 1;
        if len >= 3 {
            for u in 0..64 {
                if pos_code_tab()[u] == (code, len) {
                    let mut low = 0;
                    for _ in 0..6 { low = (low << 1) | inp.get()?; }
                    return Some((u << 6) | low);
                }
            }
        }
        if len > 8 { unreachable!("position code is complete"); }
    }
}

fn pos_code_tab() -> &'static [(u32, u32); 64] {
    use std::sync::OnceLock;
    static T: OnceLock<[(u32, u32); 64]> = OnceLock::new();
    T.get_or_init(|| {
        let mut a = [(0, 0); 64];
        for (u, e) in a.iter_mut().enumerate() { *e = pos_code(u); }
        a
    })
}

pub fn put_match(h: &mut Huff, out: &mut BitOut, len: usize, pos: usize, p: &Par) {
    h.encode(255 + len - p.t, out);
    put_pos(pos, out);
}

/// Serialise a token sequence (no length header).  Returns bytes and, per token, the bit position of its end.
pub fn put_tokens(toks: &[Tok], p: &Par, hs: &mut HuffStats) -> (Vec<u8>, Vec<usize>) {
    let mut h = Huff::new(nsym(p));
    let mut out = BitOut::new();
    let mut ends = Vec::with_capacity(toks.len());
    for t in toks {
        match *t {
            Tok::Lit(b) => h.encode(b as usize, &mut out),
            Tok::Match { len, pos } => {
                h.encode(255 + len - p.t, &mut out);
                put_pos(pos, &mut out);
            }
        }
        ends.push(out.bits());
    }
    *hs = h.st.clone();
    (out.v, ends)
}

pub struct Decoded {
    pub toks: Vec<Tok>,
    pub out: Vec<u8>,
    pub hs: HuffStats,
    /// per token: (bit position of its end, output length after it)
    #[allow(dead_code)]
    pub marks: Vec<(usize, usize)>,
}

/// Decode a stream without its length header; stops when `limit` bytes are out, or the bits run out.
pub fn decode(body: &[u8], p: &Par, limit: usize) -> Decoded {
    let mut win = vec![0u8; p.n];
    for b in win.iter_mut().take(p.n - p.f) { *b = p.fill; }
    let mut r = p.n - p.f;
    let mut h = Huff::new(nsym(p));
    let mut inp = BitIn::new(body);
    let mut d = Decoded { toks: vec![], out: vec![], hs: HuffStats::default(), marks: vec![] };
    while d.out.len() < limit {
        let s = match h.decode(&mut inp) { Some(s) => s, None => break };
        if s < 256 {
            d.out.push(s as u8);
            win[r] = s as u8;
            r = (r + 1) % p.n;
            d.toks.push(Tok::Lit(s as u8));
        } else {
            let pos = match get_pos(&mut inp) { Some(x) => x, None => break };
            let len = s + p.t - 255;
            let mut q = (r as i64 - pos as i64 - 1).rem_euclid(p.n as i64) as usize;
            for _ in 0..len {
                let b = win[q];
                d.out.push(b);
                win[r] = b;
                r = (r + 1) % p.n;
                q = (q + 1) % p.n;
            }
            d.toks.push(Tok::Match { len, pos });
        }
        d.marks.push((inp.at, d.out.len()));
    }
    d.hs = h.st.clone();
    d
}

/// LZHUF.C's string matcher: binary search trees in arrays.  Returns the token sequence.
pub fn parse(data: &[u8], p: &Par) -> Vec<Tok> { parse_with(data, p, false) }

/// `mirror`: compare strings in a linear buffer of n+f-1 bytes whose last f-1 bytes repeat the first ones as
/// they are written and start out zero, which is LZHUF.C to the letter.  A true ring differs from that only in
/// which of several matches is taken within the last `f` bytes of the data.
pub fn parse_with(data: &[u8], p: &Par, mirror: bool) -> Vec<Tok> {
    let (n, f, thr) = (p.n, p.f, p.t);
    if data.is_empty() { return vec![]; }
    let nil = n;
    let mut buf = vec![0u8; n + f];
    let mut lson = vec![nil; n + 1];
    let mut rson = vec![nil; n + 257];
    let mut dad = vec![nil; n + 1];
    let mut ml = 0usize;
    let mut mp = 0usize;

    struct T<'a> { buf: &'a mut Vec<u8>, lson: &'a mut Vec<usize>, rson: &'a mut Vec<usize>, dad: &'a mut Vec<usize>, ml: &'a mut usize, mp: &'a mut usize, n: usize, f: usize, thr: usize, mirror: bool }
    impl<'a> T<'a> {
        fn dist(&self, r: usize, p: usize) -> usize { (r + self.n - p) % self.n }
        fn insert(&mut self, r: usize) {
            let (n, nil) = (self.n, self.n);
            let mut p = n + 1 + self.buf[r] as usize;
            self.rson[r] = nil;
            self.lson[r] = nil;
            *self.ml = 0;
            let mut cmp: i32 = 1;
            loop {
                let next = if cmp >= 0 { self.rson[p] } else { self.lson[p] };
                if next == nil {
                    if cmp >= 0 { self.rson[p] = r } else { self.lson[p] = r }
                    self.dad[r] = p;
                    return;
                }
                p = next;
                let mut i = 1;
                while i < self.f {
                    let mut a = r + i;
                    if a >= n && !self.mirror { a -= n; }
                    let mut b = p + i;
                    if b >= n && !self.mirror { b -= n; }
                    cmp = self.buf[a] as i32 - self.buf[b] as i32;
                    if cmp != 0 { break; }
                    i += 1;
                }
                if i > self.thr {
                    let d = self.dist(r, p).wrapping_sub(1);
                    if i > *self.ml {
                        *self.mp = d;
                        *self.ml = i;
                        if i >= self.f { break; }
                    } else if i == *self.ml && d < *self.mp {
                        *self.mp = d;
                    }
                }
            }
            // full-length match: r takes p's place
            self.dad[r] = self.dad[p];
            self.lson[r] = self.lson[p];
            self.rson[r] = self.rson[p];
            let (l, rr) = (self.lson[p], self.rson[p]);
            self.dad[l] = r;
            self.dad[rr] = r;
            let dd = self.dad[p];
            if self.rson[dd] == p { self.rson[dd] = r } else { self.lson[dd] = r }
            self.dad[p] = nil;
        }
        fn delete(&mut self, p: usize) {
            let nil = self.n;
            if self.dad[p] == nil { return; }
            let q;
            if self.rson[p] == nil {
                q = self.lson[p];
            } else if self.lson[p] == nil {
                q = self.rson[p];
            } else {
                let mut x = self.lson[p];
                if self.rson[x] != nil {
                    while self.rson[x] != nil { x = self.rson[x]; }
                    let dx = self.dad[x];
                    self.rson[dx] = self.lson[x];
                    let lx = self.lson[x];
                    self.dad[lx] = dx;
                    self.lson[x] = self.lson[p];
                    let lp = self.lson[p];
                    self.dad[lp] = x;
                }
                self.rson[x] = self.rson[p];
                let rp = self.rson[p];
                self.dad[rp] = x;
                q = x;
            }
            let dp = self.dad[p];
            self.dad[q] = dp;
            if self.rson[dp] == p { self.rson[dp] = q } else { self.lson[dp] = q }
            self.dad[p] = nil;
        }
    }
    let mut t = T { buf: &mut buf, lson: &mut lson, rson: &mut rson, dad: &mut dad, ml: &mut ml, mp: &mut mp, n, f, thr, mirror };
    let mut toks = Vec::new();
    let mut s = 0usize;
    let mut r = n - f;
    for i in 0..r { t.buf[i] = p.fill; }
    let mut next = 0usize;
    let mut len = 0usize;
    while len < f && next < data.len() {
        t.buf[r + len] = data[next];
        len += 1;
        next += 1;
    }
    for i in 1..=f { t.insert((r + n - i) % n); }
    t.insert(r);
    while len > 0 {
        if *t.ml > len { *t.ml = len; }
        let step;
        if *t.ml <= thr {
            step = 1;
            toks.push(Tok::Lit(t.buf[r]));
        } else {
            step = *t.ml;
            toks.push(Tok::Match { len: *t.ml, pos: *t.mp });
        }
        for _ in 0..step {
            t.delete(s);
            if next < data.len() {
                t.buf[s] = data[next];
                if s < f - 1 { t.buf[s + n] = data[next]; }
                next += 1;
            } else {
                len -= 1;
            }
            s = (s + 1) % n;
            r = (r + 1) % n;
            if len > 0 { t.insert(r); }
        }
    }
    toks
}

pub struct Encoded { pub body: Vec<u8>, pub toks: Vec<Tok>, pub hs: HuffStats, #[allow(dead_code)] pub ends: Vec<usize> }

pub fn encode(data: &[u8], p: &Par) -> Encoded { encode_with(data, p, false) }
pub fn encode_with(data: &[u8], p: &Par, mirror: bool) -> Encoded {
    let toks = parse_with(data, p, mirror);
    let mut hs = HuffStats::default();
    let (body, ends) = put_tokens(&toks, p, &mut hs);
    Encoded { body, toks, hs, ends }
}

pub fn with_header(n: usize, body: &[u8]) -> Vec<u8> {
    let mut v = (n as u32).to_le_bytes().to_vec();
    v.extend_from_slice(body);
    v
}

/// Brute-force specification of the LZSS parse: at every token, the longest string starting at one of
/// the indexed positions (the `f` fill positions before the data, or at most n-f bytes back).  The fill
/// positions are indexed backwards and a string equal to an indexed one over the full `f` bytes takes its
/// place, so of several equal fill strings only the oldest is indexed.
/// Returns the first token that is not the longest match, if any.
pub fn check_greedy(data: &[u8], toks: &[Tok], p: &Par) -> Result<u64, String> {
    let at = |j: i64| -> u8 { if j < 0 { p.fill } else { data[j as usize] } };
    let mut i = 0usize;
    let mut checked = 0u64;
    let string = |j: i64| -> Vec<u8> { (0..p.f as i64).map(|x| if j + x < data.len() as i64 { at(j + x) } else { 0 }).collect() };
    let mut seen = std::collections::HashSet::new();
    // hidden[d-1]: the fill position d bytes before the data is not indexed
    let mut hidden: Vec<bool> = (1..=p.f as i64).rev().map(|d| !seen.insert(string(-d))).collect();
    hidden.reverse();
    for (k, t) in toks.iter().enumerate() {
        if i >= data.len() { return Err(format!("token {k} {t:?} lies after the end of the data")); }
        let lim = p.f.min(data.len() - i);
        let mut best = 0usize;
        let maxd = (p.n - p.f).min(i + p.f);
        for d in 1..=maxd {
            let j = i as i64 - d as i64;
            if j < 0 && hidden[(-j - 1) as usize] { continue; }
            if best > 0 && best < lim && at(j + best as i64) != data[i + best] { continue; }
            let mut l = 0;
            while l < lim && at(j + l as i64) == data[i + l] { l += 1; }
            if l > best {
                best = l;
                if best == lim { break; }
            }
        }
        checked += 1;
        let got = match t {
            Tok::Lit(b) => {
                if *b != data[i] { return Err(format!("token {k} at input {i}: literal {b} but the data has {}", data[i])); }
                1
            }
            Tok::Match { len, pos } => {
                let j = i as i64 - *pos as i64 - 1;
                for x in 0..*len {
                    if i + x >= data.len() { return Err(format!("token {k} at input {i}: match of {len} runs past the end")); }
                    let src = j + x as i64;
                    if src < -((p.n - p.f) as i64) || at(src) != data[i + x] { return Err(format!("token {k} at input {i}: match len {len} pos {pos} does not reproduce the data")); }
                }
                *len
            }
        };
        let want = if best > p.t { best } else { 1 };
        if got != want { return Err(format!("token {k} at input {i}: {t:?} covers {got} bytes, the longest match in the window covers {want}")); }
        i += got;
    }
    if i != data.len() { return Err(format!("tokens cover {i} of {} bytes", data.len())); }
    Ok(checked)
}
