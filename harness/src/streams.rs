//! Instrumented streams: every call the library makes on its input and output is an observed event.
//! Policies inject short transfers, interruptions and faults; budgets turn a runaway loop into a
//! deterministic (call-count) verdict rather than a wall-clock one.
use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub ops: u64,
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub flushes: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub interrupts: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub faults: u64,
    pub zero_writes: u64,
    pub min_write: Option<u64>,
    pub max_write_end: u64,
    /// something was written after the last flush
    pub unflushed: bool,
}
pub type SharedLog = Rc<RefCell<Log>>;

pub const MARK: &str = "rvmon-injected-fault";
pub const BUDGET: &str = "rvmon-budget-exceeded";

#[derive(Clone)]
pub struct Policy {
    pub short: bool,
    pub interrupt: bool,
    /// fail the k-th operation (counted over the shared log), and all later ones if `sticky`
    pub fail_at: Option<u64>,
    pub sticky: bool,
    /// a failing write reports that nothing was accepted (`Ok(0)`) instead of an error
    pub zero: bool,
    pub kind: ErrorKind,
    pub rng: Rng,
    pub op_budget: u64,
    pub out_budget: u64,
}
impl Policy {
    pub fn plain() -> Self {
        Self { short: false, interrupt: false, fail_at: None, sticky: false, zero: false, kind: ErrorKind::Other, rng: Rng::new(0, "plain", 0), op_budget: u64::MAX, out_budget: u64::MAX }
    }
}

fn tick(log: &SharedLog, pol: &Policy) -> Result<()> {
    let mut l = log.borrow_mut();
    let k = l.ops;
    l.ops += 1;
    if l.ops > pol.op_budget {
        drop(l);
        // a second panic while unwinding would abort the process
        if std::thread::panicking() { return Err(Error::new(ErrorKind::Other, BUDGET)); }
        panic!("{}: more than {} stream operations", BUDGET, pol.op_budget);
    }
    if let Some(f) = pol.fail_at {
        if k == f || (pol.sticky && k > f) {
            l.faults += 1;
            return Err(Error::new(pol.kind, MARK));
        }
    }
    Ok(())
}

pub struct MonReader<'a> {
    pub data: &'a [u8],
    /// virtual length when larger than data (the rest reads as zeros)
    pub len: u64,
    /// where `data` begins; something else stands in front of it
    pub base: u64,
    pub pos: u64,
    pub pol: Policy,
    pub log: SharedLog,
}
impl<'a> MonReader<'a> {
    pub fn new(data: &'a [u8], pol: Policy, log: &SharedLog) -> Self { Self { data, len: data.len() as u64, base: 0, pos: 0, pol, log: log.clone() } }
}
impl<'a> Read for MonReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        tick(&self.log, &self.pol)?;
        let mut l = self.log.borrow_mut();
        l.reads += 1;
        if self.pol.interrupt && self.pol.rng.chance(1, 4) {
            l.interrupts += 1;
            return Err(Error::new(ErrorKind::Interrupted, "eintr"));
        }
        let avail = self.len.saturating_sub(self.pos);
        let mut n = (buf.len() as u64).min(avail) as usize;
        if self.pol.short && n > 1 {
            let m = match self.pol.rng.below(4) { 0 => 1, 1 => self.pol.rng.range(1, n.min(7)), 2 => self.pol.rng.range(1, n), _ => n };
            if m < n { l.short_reads += 1; }
            n = m;
        }
        for (i, b) in buf.iter_mut().enumerate().take(n) {
            let p = self.pos + i as u64;
            *b = if p < self.base { (p ^ 0x5a) as u8 } else { let p = (p - self.base) as usize; if p < self.data.len() { self.data[p] } else { 0 } };
        }
        self.pos += n as u64;
        l.bytes_in += n as u64;
        Ok(n)
    }
}
fn seek_to(cur: u64, len: u64, s: SeekFrom) -> Result<u64> {
    let r = match s {
        SeekFrom::Start(x) => x as i128,
        SeekFrom::Current(d) => cur as i128 + d as i128,
        SeekFrom::End(d) => len as i128 + d as i128,
    };
    if r < 0 { return Err(Error::new(ErrorKind::InvalidInput, "seek before start")); }
    Ok(r as u64)
}
impl<'a> Seek for MonReader<'a> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        tick(&self.log, &self.pol)?;
        self.log.borrow_mut().seeks += 1;
        self.pos = seek_to(self.pos, self.len, s)?;
        Ok(self.pos)
    }
}

pub struct MonWriter {
    pub buf: Vec<u8>,
    /// where `buf` begins; what is written in front of it is only logged
    pub base: u64,
    pub pos: u64,
    pub pol: Policy,
    pub log: SharedLog,
}
impl MonWriter {
    pub fn new(initial: Vec<u8>, pol: Policy, log: &SharedLog) -> Self { Self { buf: initial, base: 0, pos: 0, pol, log: log.clone() } }
}
impl Write for MonWriter {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if let Err(e) = tick(&self.log, &self.pol) {
            if self.pol.zero && self.pol.fail_at.is_some() && !b.is_empty() { self.log.borrow_mut().zero_writes += 1; return Ok(0); }
            return Err(e);
        }
        let mut l = self.log.borrow_mut();
        l.writes += 1;
        if b.is_empty() { return Ok(0); }
        if self.pol.interrupt && self.pol.rng.chance(1, 4) {
            l.interrupts += 1;
            return Err(Error::new(ErrorKind::Interrupted, "eintr"));
        }
        let mut n = b.len();
        if self.pol.short && n > 1 {
            let m = match self.pol.rng.below(4) { 0 => 1, 1 => self.pol.rng.range(1, n.min(7)), 2 => self.pol.rng.range(1, n), _ => n };
            if m < n { l.short_writes += 1; }
            n = m;
        }
        l.min_write = Some(l.min_write.map_or(self.pos, |m| m.min(self.pos)));
        l.max_write_end = l.max_write_end.max(self.pos + n as u64);
        l.bytes_out += n as u64;
        l.unflushed = true;
        if (self.pos + n as u64).saturating_sub(self.base) > self.pol.out_budget {
            drop(l);
            if std::thread::panicking() { return Err(Error::new(ErrorKind::Other, BUDGET)); }
            panic!("{}: output longer than {} bytes", BUDGET, self.pol.out_budget);
        }
        if self.pos >= self.base {
            let p = (self.pos - self.base) as usize;
            if self.buf.len() < p + n { self.buf.resize(p + n, 0); }
            self.buf[p..p + n].copy_from_slice(&b[..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        tick(&self.log, &self.pol)?;
        let mut l = self.log.borrow_mut();
        l.flushes += 1;
        l.unflushed = false;
        Ok(())
    }
}
impl Seek for MonWriter {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        tick(&self.log, &self.pol)?;
        self.log.borrow_mut().seeks += 1;
        self.pos = seek_to(self.pos, self.base + self.buf.len() as u64, s)?;
        Ok(self.pos)
    }
}
/// endless-looking content computed from the position: nothing of it is ever stored
pub struct GenReader { pub len: u64, pub pos: u64, pub style: u64, pub head: Vec<u8> }
impl GenReader {
    fn at(&self, p: u64) -> u8 {
        if p < self.head.len() as u64 { return self.head[p as usize]; }
        let h = |x: u64| { let mut z = x.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z ^ (z >> 27) };
        match self.style {
            0 => h(p) as u8,
            1 => (h(p / 3).trailing_zeros() as u8).wrapping_mul(7),
            2 => if h(p / 40) % 4 == 0 { h(p) as u8 } else { h(p % 997) as u8 },
            _ => 0xe5,
        }
    }
}
impl Read for GenReader {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        for (i, x) in b.iter_mut().enumerate().take(n) { *x = self.at(self.pos + i as u64); }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for GenReader { fn seek(&mut self, s: SeekFrom) -> Result<u64> { self.pos = seek_to(self.pos, self.len, s)?; Ok(self.pos) } }
/// accepts everything, keeps nothing but a length
#[derive(Default)]
pub struct NullWriter { pub len: u64, pub pos: u64, pub total: u64 }
impl Write for NullWriter {
    fn write(&mut self, b: &[u8]) -> Result<usize> { self.pos += b.len() as u64; self.total += b.len() as u64; self.len = self.len.max(self.pos); Ok(b.len()) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Seek for NullWriter { fn seek(&mut self, s: SeekFrom) -> Result<u64> { self.pos = seek_to(self.pos, self.len, s)?; Ok(self.pos) } }

pub fn new_log() -> SharedLog { Rc::new(RefCell::new(Log::default())) }
