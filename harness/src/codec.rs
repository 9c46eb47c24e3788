//! Uniform access to the public API of the crate under test, with panics turned into outcomes.
use crate::{reflzh, reflzw};
use retrocompressor::{direct_ports::lzhuf, lzss_huff, lzw, td0, BitOrder, Error};
use std::io::{Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub enum Codec {
    Lzss(lzss_huff::Options),
    Port,
    Lzw(lzw::Options),
    Td0,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Format,
    TooLarge,
    Checksum,
    Io(std::io::ErrorKind, String),
    Other(String),
    Panic(String),
}
pub type Sizes = Result<(u64, u64), Fail>;
pub type Bytes = Result<Vec<u8>, Fail>;

fn classify(e: Box<dyn std::error::Error>) -> Fail {
    match e.downcast_ref::<Error>() {
        Some(Error::FileFormatMismatch) => return Fail::Format,
        Some(Error::FileTooLarge) => return Fail::TooLarge,
        Some(Error::BadChecksum) => return Fail::Checksum,
        #[allow(unreachable_patterns)]
        Some(o) => return Fail::Other(o.to_string()),
        None => {}
    }
    match e.downcast_ref::<std::io::Error>() {
        Some(i) => Fail::Io(i.kind(), i.to_string()),
        None => Fail::Other(e.to_string()),
    }
}

thread_local! { static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if !GUARDED.with(|g| g.get()) { eprintln!("harness panic: {msg} at {loc}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn guard<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    GUARDED.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    match r {
        Ok(r) => r,
        Err(_) => Err(Fail::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn lzss_opt(p: &reflzh::Par, header: bool) -> lzss_huff::Options {
    let mut o = lzss_huff::STD_OPTIONS;
    // the standard options are judged as the crate states them
    if *p == reflzh::STD && header { return o; }
    o.header = header;
    if *p == reflzh::STD { return o; }
    o.window_size = p.n;
    o.lookahead = p.f;
    o.threshold = p.t;
    o.precursor = p.fill;
    o
}
pub fn lzw_opt(p: &reflzw::Par) -> lzw::Options {
    // the stated option sets are judged as the crate states them
    if *p == reflzw::std_par() { return lzw::STD_OPTIONS; }
    if *p == reflzw::td_par() { return lzw::Options { in_offset: 0, out_offset: 0, max_file_size: lzw::STD_OPTIONS.max_file_size, ..td0::TD_V1_OPTIONS }; }
    let mut o = lzw::STD_OPTIONS;
    o.header_bits = p.hbits;
    o.header_divisor = p.hdiv;
    o.chunk_size = p.chunk;
    o.max_symbol = p.maxsym;
    o.clear_code = p.clear;
    o.stop_code = p.stop;
    o.min_code_width = p.width;
    o.max_code_width = p.width;
    o.ord = if p.lsb { BitOrder::Lsb0 } else { BitOrder::Msb0 };
    o
}

impl Codec {
    pub fn name(&self) -> &'static str {
        match self { Codec::Lzss(_) => "lzss_huff", Codec::Port => "lzhuf-port", Codec::Lzw(_) => "lzw", Codec::Td0 => "td0" }
    }
    pub fn compress<R: Read + Seek, W: Write + Seek>(&self, r: &mut R, w: &mut W) -> Sizes {
        guard(|| match self {
            Codec::Lzss(o) => lzss_huff::compress(r, w, o),
            Codec::Port => lzhuf::encode(r, w),
            Codec::Lzw(o) => lzw::compress(r, w, o),
            Codec::Td0 => td0::compress(r, w),
        }.map_err(classify))
    }
    pub fn expand<R: Read + Seek, W: Write + Seek>(&self, r: &mut R, w: &mut W) -> Sizes {
        guard(|| match self {
            Codec::Lzss(o) => lzss_huff::expand(r, w, o),
            Codec::Port => lzhuf::decode(r, w),
            Codec::Lzw(o) => lzw::expand(r, w, o),
            Codec::Td0 => td0::expand(r, w),
        }.map_err(classify))
    }
    pub fn compress_slice(&self, d: &[u8]) -> Bytes {
        guard(|| match self {
            Codec::Lzss(o) => lzss_huff::compress_slice(d, o),
            Codec::Port => lzhuf::encode_slice(d),
            Codec::Lzw(o) => lzw::compress_slice(d, o),
            Codec::Td0 => td0::compress_slice(d),
        }.map_err(classify))
    }
    pub fn expand_slice(&self, d: &[u8]) -> Bytes {
        guard(|| match self {
            Codec::Lzss(o) => lzss_huff::expand_slice(d, o),
            Codec::Port => lzhuf::decode_slice(d),
            Codec::Lzw(o) => lzw::expand_slice(d, o),
            Codec::Td0 => td0::expand_slice(d),
        }.map_err(classify))
    }
}
