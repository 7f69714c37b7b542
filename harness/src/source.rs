//! Byte sources and sinks: slices, well-behaved and awkward readers, a minimal user input,
//! each of them optionally failing, and with virtual (run-length) content for large cases.
use compact_thrift_runtime::{CompactThriftInput, CompactThriftOutput, ThriftError};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub fn kind(s: &str) -> Option<ErrorKind> {
    Some(match s {
        "AddrInUse" => ErrorKind::AddrInUse, "AddrNotAvailable" => ErrorKind::AddrNotAvailable, "AlreadyExists" => ErrorKind::AlreadyExists,
        "ArgumentListTooLong" => ErrorKind::ArgumentListTooLong, "BrokenPipe" => ErrorKind::BrokenPipe, "ConnectionAborted" => ErrorKind::ConnectionAborted,
        "ConnectionRefused" => ErrorKind::ConnectionRefused, "ConnectionReset" => ErrorKind::ConnectionReset, "Deadlock" => ErrorKind::Deadlock,
        "DirectoryNotEmpty" => ErrorKind::DirectoryNotEmpty, "ExecutableFileBusy" => ErrorKind::ExecutableFileBusy, "FileTooLarge" => ErrorKind::FileTooLarge,
        "HostUnreachable" => ErrorKind::HostUnreachable, "InvalidData" => ErrorKind::InvalidData, "InvalidInput" => ErrorKind::InvalidInput,
        "IsADirectory" => ErrorKind::IsADirectory, "NetworkDown" => ErrorKind::NetworkDown, "NetworkUnreachable" => ErrorKind::NetworkUnreachable,
        "NotADirectory" => ErrorKind::NotADirectory, "NotConnected" => ErrorKind::NotConnected, "NotFound" => ErrorKind::NotFound,
        "NotSeekable" => ErrorKind::NotSeekable, "Other" => ErrorKind::Other, "OutOfMemory" => ErrorKind::OutOfMemory,
        "PermissionDenied" => ErrorKind::PermissionDenied, "QuotaExceeded" => ErrorKind::QuotaExceeded, "ReadOnlyFilesystem" => ErrorKind::ReadOnlyFilesystem,
        "ResourceBusy" => ErrorKind::ResourceBusy, "StaleNetworkFileHandle" => ErrorKind::StaleNetworkFileHandle, "StorageFull" => ErrorKind::StorageFull,
        "TimedOut" => ErrorKind::TimedOut, "TooManyLinks" => ErrorKind::TooManyLinks, "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "Unsupported" => ErrorKind::Unsupported, "WouldBlock" => ErrorKind::WouldBlock, "WriteZero" => ErrorKind::WriteZero,
        // what the system reports and the library has no name for
        "Uncategorized" => Error::from_raw_os_error(71).kind(),
        _ => return None,
    })
}
/// An error of the kind, made in one of the ways there are: of the kind alone, with a text, around another error, from the system.
pub fn error(k: ErrorKind, way: u64) -> Error {
    let code = match k {
        ErrorKind::PermissionDenied => 13, ErrorKind::BrokenPipe => 32, ErrorKind::TimedOut => 110, ErrorKind::ConnectionReset => 104, ErrorKind::WouldBlock => 11, ErrorKind::NotFound => 2,
        ErrorKind::OutOfMemory => 12, ErrorKind::InvalidInput => 22, ErrorKind::Interrupted => 4, ErrorKind::StorageFull => 28, ErrorKind::IsADirectory => 21, ErrorKind::ConnectionRefused => 111,
        ErrorKind::NotConnected => 107, ErrorKind::ReadOnlyFilesystem => 30, ErrorKind::FileTooLarge => 27, ErrorKind::Unsupported => 38, ErrorKind::NotSeekable => 29,
        _ => if k == Error::from_raw_os_error(71).kind() { 71 } else { 0 },
    };
    let e = match way % 6 {
        1 => Error::new(k, "a reason"),
        2 => Error::new(k, Error::other("inside")),
        3 if code != 0 => Error::from_raw_os_error(code),
        // around errors of the library itself
        4 => Error::new(k, ThriftError::MissingStop),
        5 => Error::new(k, ThriftError::IO(if k == ErrorKind::Other { ErrorKind::InvalidData } else { ErrorKind::Other })),
        _ => Error::from(k),
    };
    assert!(e.kind() == k);
    e
}
/// deterministic pseudo random numbers (splitmix64)
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
}
/// explicit prefix followed by `rep` copies of `fill`
pub struct Content { pub prefix: Vec<u8>, pub fill: u8, pub rep: u64, pub tail: Vec<u8> }
impl Content {
    pub fn len(&self) -> u64 { self.prefix.len() as u64 + self.rep + self.tail.len() as u64 }
    pub fn materialize(&self) -> Vec<u8> { let mut v = self.prefix.clone(); v.resize(v.len() + self.rep as usize, self.fill); v.extend_from_slice(&self.tail); v }
    pub fn copy(&self, at: u64, out: &mut [u8]) {
        let (n, r) = (self.prefix.len() as u64, self.prefix.len() as u64 + self.rep);
        let end = at + out.len() as u64;
        let cut = |x: u64| (x.clamp(at, end) - at) as usize;
        if at < n { out[..cut(n)].copy_from_slice(&self.prefix[at as usize..n.min(end) as usize]); }
        out[cut(n)..cut(r)].fill(self.fill);
        if end > r { let s = at.max(r) - r; out[cut(r)..].copy_from_slice(&self.tail[s as usize..(end - r) as usize]); }
    }
}
/// A reader over the content. Short reads and interruptions according to `rng`; after the content
/// either end of file or, if given, the error `fault`.
/// `sched` says how the next reads behave: deliver at most so many bytes, 0 interruption, -1 failure, -3 a single failure (`hit` is set).
pub struct Reader<'a> { pub c: &'a Content, pub pos: Rc<Cell<u64>>, pub rng: Option<Rng>, pub fault: Option<ErrorKind>,
    pub sched: VecDeque<i64>, pub hit: Rc<Cell<bool>> }
impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let mut n = ((self.c.len() - self.pos.get()).min(buf.len() as u64)) as usize;
        match self.sched.pop_front() {
            Some(0) => return Err(error(ErrorKind::Interrupted, self.pos.get())),
            Some(-3) => { self.hit.set(true); return Err(error(self.fault.unwrap_or(ErrorKind::BrokenPipe), self.pos.get())) }
            Some(k) if k < 0 => { self.hit.set(true); self.sched.push_front(k); return Err(error(self.fault.unwrap_or(ErrorKind::BrokenPipe), self.pos.get())) }
            Some(k) => n = n.min(k as usize),
            None => {}
        }
        if let Some(r) = &mut self.rng {
            if r.below(3) == 0 { return Err(error(ErrorKind::Interrupted, r.below(6))); }
            if n > 1 { n = 1 + r.below(n as u64) as usize; if n > 3 && r.below(2) == 0 { n = 1 + r.below(3) as usize; } }
        }
        if n == 0 { return match self.fault { Some(k) => Err(error(k, self.pos.get())), None => Ok(0) }; }
        self.c.copy(self.pos.get(), &mut buf[..n]);
        self.pos.set(self.pos.get() + n as u64);
        Ok(n)
    }
}
/// An input that implements only the required primitives.
pub struct Min<'a> { pub c: &'a Content, pub pos: Rc<Cell<u64>>, pub fault: Option<ErrorKind> }
impl Min<'_> {
    fn take(&mut self, out: &mut [u8]) -> Result<(), ThriftError> {
        if self.c.len() - self.pos.get() < out.len() as u64 { return Err(ThriftError::from(self.fault.unwrap_or(ErrorKind::UnexpectedEof))); }
        self.c.copy(self.pos.get(), out);
        self.pos.set(self.pos.get() + out.len() as u64);
        Ok(())
    }
}
impl CompactThriftInput<'static> for Min<'_> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> { let mut b = [0]; self.take(&mut b)?; Ok(b[0]) }
    fn read_double(&mut self) -> Result<f64, ThriftError> { let mut b = [0; 8]; self.take(&mut b)?; Ok(f64::from_le_bytes(b)) }
    fn read_binary(&mut self) -> Result<Cow<'static, [u8]>, ThriftError> {
        // as a user would write it
        let len = self.read_len()?;
        if len > compact_thrift_runtime::MAX_BINARY_LEN { return Err(ThriftError::InvalidBinaryLen(len)); }
        if self.c.len() - self.pos.get() < len as u64 { return Err(ThriftError::from(self.fault.unwrap_or(ErrorKind::UnexpectedEof))); }
        let mut v = vec![0; len]; self.take(&mut v)?; Ok(Cow::Owned(v))
    }
}
/// A sink that accepts `budget` bytes, then fails with `err`; optionally short writes and interruptions.
pub struct Sink { pub out: Vec<u8>, pub total: u64, pub keep: usize, pub budget: u64, pub err: Option<ErrorKind>, pub rng: Option<Rng>,
    /// behaviour of the next writes: accept at most so many bytes, 0 interruption, -1 failure, -2 accepts nothing any more, -3 a single failure
    pub sched: VecDeque<i64>, pub hit: Option<&'static str> }
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let mut n = (buf.len() as u64).min(self.budget - self.total) as usize;
        match self.sched.pop_front() {
            Some(0) => return Err(error(ErrorKind::Interrupted, self.total)),
            Some(-1) => { self.hit = Some("fault"); self.sched.push_front(-1); return Err(error(self.err.unwrap_or(ErrorKind::BrokenPipe), self.total)) }
            Some(-3) => { self.hit = Some("fault"); return Err(error(self.err.unwrap_or(ErrorKind::BrokenPipe), self.total)) }
            Some(k) if k < 0 => { self.hit = Some("zero"); self.sched.push_front(k); return Ok(0) }
            Some(k) => n = n.min(k as usize),
            None => {}
        }
        if let Some(r) = &mut self.rng {
            if r.below(3) == 0 { return Err(error(ErrorKind::Interrupted, r.below(6))); }
            if n > 1 { n = 1 + r.below(n as u64) as usize; }
        }
        if n == 0 { return match self.err { Some(k) => Err(error(k, self.total)), None => Ok(0) }; }
        let k = self.keep.saturating_sub(self.out.len()).min(n);
        self.out.extend_from_slice(&buf[..k]);
        self.total += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// An output that implements only the required primitives, as a user would write them.
pub struct MinSink(pub Vec<u8>);
impl MinSink {
    fn uleb(&mut self, mut v: u64) { while v >= 128 { self.0.push(v as u8 | 128); v >>= 7; } self.0.push(v as u8) }
    fn zigzag(&mut self, v: i64) { self.uleb(((v << 1) ^ (v >> 63)) as u64) }
}
impl CompactThriftOutput for MinSink {
    fn write_byte(&mut self, v: u8) -> Result<(), ThriftError> { self.0.push(v); Ok(()) }
    fn write_len(&mut self, v: usize) -> Result<(), ThriftError> { self.uleb(v as u64); Ok(()) }
    fn write_i16(&mut self, v: i16) -> Result<(), ThriftError> { self.zigzag(v as i64); Ok(()) }
    fn write_i32(&mut self, v: i32) -> Result<(), ThriftError> { self.zigzag(v as i64); Ok(()) }
    fn write_i64(&mut self, v: i64) -> Result<(), ThriftError> { self.zigzag(v); Ok(()) }
    fn write_double(&mut self, v: f64) -> Result<(), ThriftError> { self.0.extend(v.to_bits().to_le_bytes()); Ok(()) }
    fn write_binary(&mut self, v: &[u8]) -> Result<(), ThriftError> {
        if v.len() > compact_thrift_runtime::MAX_BINARY_LEN { return Err(ThriftError::InvalidBinaryLen(v.len())); }
        self.uleb(v.len() as u64); self.0.extend_from_slice(v); Ok(())
    }
}
/// A sparse seekable file of `len` bytes: explicit bytes at the given offsets, zero elsewhere.
pub struct FileImage { pub len: u64, pub parts: Vec<(u64, Vec<u8>)>, pub pos: u64, pub rng: Option<Rng>,
    pub read_fault: Option<(u64, ErrorKind)>, pub seek_fault: Option<(u64, ErrorKind)>, pub seeks: u64,
    /// explicit behaviour of the next reads: deliver at most so many bytes, 0 interruption, -1 or -3 failure, -2 the file has become shorter
    pub sched: VecDeque<i64>,
    /// after so many delivered bytes the file ends at that place, whatever its length was
    pub shrinks: Option<(u64, u64)>, pub delivered: u64, pub ended: bool,
    /// the last seek was to a place that no file has: its failure is none of the environment's making
    pub astray: bool }
impl Read for FileImage {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let mut n = self.len.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        match self.sched.pop_front() {
            Some(0) => return Err(error(ErrorKind::Interrupted, self.pos)),
            Some(-2) => self.ended = true,
            Some(-3) => return Err(error(ErrorKind::BrokenPipe, self.pos)),
            Some(k) if k < 0 => { self.sched.push_front(k); return Err(error(ErrorKind::BrokenPipe, self.pos)) }
            Some(k) => n = n.min(k as usize),
            None => {}
        }
        if let Some(r) = &mut self.rng {
            if r.below(3) == 0 { return Err(error(ErrorKind::Interrupted, r.below(6))); }
            if n > 1 { n = 1 + r.below(n as u64) as usize; }
        }
        if self.ended { return Ok(0); }
        if let Some((after, at)) = self.shrinks {
            if self.delivered >= after {
                if self.pos >= at { self.ended = true; return Ok(0); }
                n = n.min((at - self.pos) as usize);
            }
        }
        if let Some((at, k)) = self.read_fault {
            if self.pos >= at { return Err(error(k, self.pos)); }
            n = n.min((at - self.pos) as usize);
        }
        buf[..n].fill(0);
        for (s, b) in &self.parts {
            for (i, x) in b.iter().enumerate() {
                let p = s + i as u64;
                if p >= self.pos && p - self.pos < n as u64 { buf[(p - self.pos) as usize] = *x; }
            }
        }
        self.pos += n as u64;
        self.delivered += n as u64;
        Ok(n)
    }
}
impl Seek for FileImage {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.astray = false;
        if let Some((n, k)) = self.seek_fault { if self.seeks >= n { return Err(error(k, self.pos)); } }
        self.seeks += 1;
        let t = match to {
            SeekFrom::Start(x) => { x as i128 }
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if t < 0 || t > i64::MAX as i128 { self.astray = true; return Err(error(ErrorKind::InvalidInput, self.pos)); }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

/// Memory for inputs that ends right before an inaccessible page, so that any access behind the input is fatal.
pub struct Guarded { base: *mut u8, size: usize }
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 65536;
impl Guarded {
    pub const fn new() -> Self { Guarded { base: std::ptr::null_mut(), size: 0 } }
    /// a copy of the content whose last byte is the last accessible one
    pub fn place(&mut self, c: &Content) -> &'static mut [u8] {
        let n = c.len() as usize;
        unsafe {
            if n > self.size || self.base.is_null() {
                if !self.base.is_null() { munmap(self.base, self.size + PAGE); }
                self.size = (n / PAGE + 1) * PAGE;
                // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS
                self.base = mmap(std::ptr::null_mut(), self.size + PAGE, 3, 0x22, -1, 0);
                assert!(self.base as isize != -1 && mprotect(self.base.add(self.size), PAGE, 0) == 0);
            }
            let s = std::slice::from_raw_parts_mut(self.base.add(self.size - n), n);
            c.copy(0, s);
            s
        }
    }
}
