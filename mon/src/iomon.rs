//! Instrumented sources and destinations: fragmentation, faults, interruptions, counting.
use crate::rng::Rng;
use il2_iltags::io::{ErrorKind, Reader, Writer};
use std::io;

type IResult<T> = std::result::Result<T, ErrorKind>;

/// Only the required method of Reader; everything else is the trait's own.
pub struct PlainReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// fail (with `marker`) when this byte position is reached
    pub fail_at: Option<usize>,
    /// after failing that many times, work again
    pub fail_times: usize,
    pub failed: usize,
    pub marker: u64,
    pub err: usize,
}

impl<'a> PlainReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        PlainReader { data, pos: 0, fail_at: None, fail_times: usize::MAX, failed: 0, marker: 0, err: 0 }
    }
}

pub fn marker_text(m: u64) -> String {
    format!("injected-fault-{:016x}", m)
}

pub const FAULT_KINDS: [io::ErrorKind; 9] = [
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
];

pub fn io_fault(m: u64, k: usize) -> io::Error {
    io::Error::new(FAULT_KINDS[k % FAULT_KINDS.len()], marker_text(m))
}

pub fn reader_fault(m: u64, k: usize) -> ErrorKind {
    match k % 3 {
        0 => ErrorKind::BoxedError(marker_text(m).into()),
        _ => ErrorKind::IOError(io_fault(m, k)),
    }
}

impl<'a> Reader for PlainReader<'a> {
    fn read(&mut self) -> IResult<u8> {
        if self.fail_at == Some(self.pos) && self.failed < self.fail_times {
            self.failed += 1;
            return Err(reader_fault(self.marker, self.err));
        }
        match self.data.get(self.pos) {
            Some(b) => {
                self.pos += 1;
                Ok(*b)
            }
            None => Err(ErrorKind::EndOfData),
        }
    }
}

/// Reader that implements read_all in bulk, failing whole when data is short; counts requests.
pub struct BulkReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub calls: usize,
    pub fail_call: Option<usize>,
    pub fail_times: usize,
    pub failed: usize,
    pub marker: u64,
    pub err: usize,
    pub delivered: u64,
}

impl<'a> BulkReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        BulkReader { data, pos: 0, calls: 0, fail_call: None, fail_times: usize::MAX, failed: 0, marker: 0, err: 0, delivered: 0 }
    }
    fn gate(&mut self) -> IResult<()> {
        let c = self.calls;
        self.calls += 1;
        if let Some(f) = self.fail_call {
            if c >= f && self.failed < self.fail_times {
                self.failed += 1;
                return Err(reader_fault(self.marker, self.err));
            }
        }
        Ok(())
    }
}

impl<'a> Reader for BulkReader<'a> {
    fn read(&mut self) -> IResult<u8> {
        self.gate()?;
        match self.data.get(self.pos) {
            Some(b) => {
                self.pos += 1;
                self.delivered += 1;
                Ok(*b)
            }
            None => Err(ErrorKind::EndOfData),
        }
    }
    fn read_all(&mut self, buff: &mut [u8]) -> IResult<()> {
        self.gate()?;
        let left = self.data.len() - self.pos;
        if buff.len() > left {
            return Err(if left == 0 { ErrorKind::EndOfData } else { ErrorKind::UnableToReadData });
        }
        buff.copy_from_slice(&self.data[self.pos..self.pos + buff.len()]);
        self.pos += buff.len();
        self.delivered += buff.len() as u64;
        Ok(())
    }
    fn skip(&mut self, count: usize) -> IResult<()> {
        self.gate()?;
        if count > self.data.len() - self.pos {
            return Err(ErrorKind::UnableToReadData);
        }
        self.pos += count;
        Ok(())
    }
}

/// std::io::Read (not Seek) delivering in fragments, with interruptions and faults.
pub struct Frag<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub max: usize,
    pub rng: Rng,
    pub interrupts: u64,
    pub fail_at: Option<usize>,
    pub fail_times: usize,
    pub failed: usize,
    pub marker: u64,
    pub err: usize,
    pub n_interrupts: u64,
    pub n_short: u64,
    pub delivered: u64,
    /// fragments of exactly `max` bytes instead of any number up to it
    pub exact: bool,
}

/// The sizes of the fragments of a stream: mostly small and uneven, at times those of the
/// buffers that streams are usually read through.
pub fn fragments(rng: &mut Rng) -> (usize, bool) {
    if rng.one_in(3) {
        (*rng.pick(&[255usize, 256, 512, 1023, 1024, 1024, 1448, 1460, 2048, 4095, 4096, 4096, 8191, 8192, 8192, 16384, 65536]), true)
    } else {
        (1 + rng.us(40), rng.one_in(4))
    }
}

impl<'a> Frag<'a> {
    pub fn new(data: &'a [u8], max: usize, interrupts: u64, rng: Rng) -> Self {
        Frag {
            data, pos: 0, max, rng, interrupts, fail_at: None, fail_times: usize::MAX, failed: 0,
            marker: 0, err: 0, n_interrupts: 0, n_short: 0, delivered: 0, exact: false,
        }
    }
    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts > 0 && self.rng.one_in(self.interrupts) {
            self.n_interrupts += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = buf.len().min(self.data.len().saturating_sub(self.pos));
        if self.max > 0 && n > self.max {
            n = if self.exact { self.max } else { 1 + self.rng.us(self.max) };
            self.n_short += 1;
        }
        if let Some(f) = self.fail_at {
            if self.failed < self.fail_times {
                if self.pos >= f {
                    self.failed += 1;
                    return Err(io_fault(self.marker, self.err));
                }
                n = n.min(f - self.pos);
            }
        }
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        }
        self.pos += n;
        self.delivered += n as u64;
        Ok(n)
    }
}

impl<'a> io::Read for Frag<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}

/// The same with Seek: the library implements Reader for it directly.
pub struct SeekFrag<'a> {
    pub f: Frag<'a>,
    pub seeks: u64,
    /// fail this seek call
    pub fail_seek: Option<u64>,
}

impl<'a> SeekFrag<'a> {
    pub fn new(data: &'a [u8], max: usize, interrupts: u64, rng: Rng) -> Self {
        SeekFrag { f: Frag::new(data, max, interrupts, rng), seeks: 0, fail_seek: None }
    }
}

impl<'a> io::Read for SeekFrag<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.f.do_read(buf)
    }
}

impl<'a> io::Seek for SeekFrag<'a> {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let c = self.seeks;
        self.seeks += 1;
        if self.fail_seek == Some(c) {
            return Err(io_fault(self.f.marker, self.f.err));
        }
        let p = match to {
            io::SeekFrom::Start(p) => p as i128,
            io::SeekFrom::Current(d) => self.f.pos as i128 + d as i128,
            io::SeekFrom::End(d) => self.f.data.len() as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.f.pos = p as usize;
        Ok(p as u64)
    }
}

/// Library Writer that fails at a given byte or call, and records what it took.
pub struct FaultWriter {
    pub out: Vec<u8>,
    pub calls: usize,
    pub fail_call: Option<usize>,
    pub fail_byte: Option<usize>,
    pub fail_times: usize,
    pub failed: usize,
    pub marker: u64,
    /// implement only `write`, leaving write_all to the trait
    pub err: usize,
}

impl FaultWriter {
    pub fn new() -> Self {
        FaultWriter { out: vec![], calls: 0, fail_call: None, fail_byte: None, fail_times: usize::MAX, failed: 0, marker: 0, err: 0 }
    }
    fn gate(&mut self) -> IResult<()> {
        let c = self.calls;
        self.calls += 1;
        if let Some(f) = self.fail_call {
            if c >= f && self.failed < self.fail_times {
                self.failed += 1;
                return Err(reader_fault(self.marker, self.err));
            }
        }
        Ok(())
    }
}

impl Writer for FaultWriter {
    fn write(&mut self, v: u8) -> IResult<()> {
        self.gate()?;
        if let Some(f) = self.fail_byte {
            if self.out.len() >= f && self.failed < self.fail_times {
                self.failed += 1;
                return Err(reader_fault(self.marker, self.err));
            }
        }
        self.out.push(v);
        Ok(())
    }
    fn write_all(&mut self, b: &[u8]) -> IResult<()> {
        self.gate()?;
        if let Some(f) = self.fail_byte {
            if self.out.len() + b.len() > f && self.failed < self.fail_times {
                self.failed += 1;
                let k = f.saturating_sub(self.out.len());
                self.out.extend_from_slice(&b[..k]);
                return Err(reader_fault(self.marker, self.err));
            }
        }
        self.out.extend_from_slice(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Writer with only the required methods.
pub struct PlainWriter {
    pub out: Vec<u8>,
    pub fail_byte: Option<usize>,
    pub fail_times: usize,
    pub failed: usize,
    pub marker: u64,
}

impl PlainWriter {
    pub fn new() -> Self {
        PlainWriter { out: vec![], fail_byte: None, fail_times: usize::MAX, failed: 0, marker: 0 }
    }
}

impl Writer for PlainWriter {
    fn write(&mut self, v: u8) -> IResult<()> {
        if self.fail_byte == Some(self.out.len()) && self.failed < self.fail_times {
            self.failed += 1;
            return Err(reader_fault(self.marker, 1));
        }
        self.out.push(v);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// std::io::Write taking part of the data, interrupted, failing.
pub struct FragW {
    pub out: Vec<u8>,
    pub max: usize,
    pub rng: Rng,
    pub interrupts: u64,
    pub fail_byte: Option<usize>,
    pub fail_times: usize,
    pub failed: usize,
    /// fail by accepting nothing (Ok(0)) instead of an error
    pub zero: bool,
    pub marker: u64,
    pub err: usize,
    pub n_short: u64,
    pub n_interrupts: u64,
    /// take exactly `max` bytes
    pub exact: bool,
}

impl FragW {
    pub fn new(max: usize, interrupts: u64, rng: Rng) -> Self {
        FragW {
            out: vec![], max, rng, interrupts, fail_byte: None, fail_times: usize::MAX, failed: 0,
            zero: false, marker: 0, err: 0, n_short: 0, n_interrupts: 0, exact: false,
        }
    }
}

impl io::Write for FragW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts > 0 && self.rng.one_in(self.interrupts) {
            self.n_interrupts += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = b.len();
        if self.max > 0 && n > self.max {
            n = if self.exact { self.max } else { 1 + self.rng.us(self.max) };
            self.n_short += 1;
        }
        if let Some(f) = self.fail_byte {
            if self.failed < self.fail_times {
                if self.out.len() >= f {
                    self.failed += 1;
                    return if self.zero { Ok(0) } else { Err(io_fault(self.marker, self.err)) };
                }
                n = n.min(f - self.out.len());
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The same with Seek (append only): the library implements Writer for it directly.
pub struct SeekFragW(pub FragW);

impl io::Write for SeekFragW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl io::Seek for SeekFragW {
    fn seek(&mut self, _: io::SeekFrom) -> io::Result<u64> {
        Ok(self.0.out.len() as u64)
    }
}

/// A source that begins with some bytes and goes on with zeros for ever (or up to a length),
/// without holding them.
pub struct Endless<'a> {
    pub head: &'a [u8],
    pub pos: u64,
    pub total: u64,
    pub fill: u8,
}

impl<'a> Reader for Endless<'a> {
    fn read(&mut self) -> IResult<u8> {
        if self.pos >= self.total {
            return Err(ErrorKind::EndOfData);
        }
        let b = self.head.get(self.pos as usize).cloned().unwrap_or(self.fill);
        self.pos += 1;
        Ok(b)
    }
    fn read_all(&mut self, buff: &mut [u8]) -> IResult<()> {
        if buff.len() as u64 > self.total - self.pos {
            return Err(ErrorKind::UnableToReadData);
        }
        let p = self.pos as usize;
        if p >= self.head.len() {
            // fresh zeroed buffers stay untouched
            if self.fill != 0 || buff.len() < (1 << 20) {
                for b in buff.iter_mut() {
                    *b = self.fill;
                }
            } else {
                let n = buff.len();
                for k in [0, n / 2, n - 1] {
                    buff[k] = 0;
                }
            }
        } else {
            for (i, b) in buff.iter_mut().enumerate() {
                *b = self.head.get(p + i).cloned().unwrap_or(self.fill);
            }
        }
        self.pos += buff.len() as u64;
        Ok(())
    }
    fn skip(&mut self, count: usize) -> IResult<()> {
        if count as u64 > self.total - self.pos {
            return Err(ErrorKind::UnableToReadData);
        }
        self.pos += count as u64;
        Ok(())
    }
}

/// Every kind of source over the same bytes.
pub const SOURCES: usize = 11;

pub fn source_name(k: usize) -> &'static str {
    ["slice", "vec", "cursor", "read", "read-bytewise", "read-fragments", "seek-fragments", "bufreader",
     "limited", "plain-custom", "bulk-custom"][k % SOURCES]
}

/// Runs f on a reader of kind k over data; pos() afterwards is given where it is defined.
pub fn with_source<T>(
    k: usize,
    data: &[u8],
    rng: &mut Rng,
    f: &mut dyn FnMut(&mut dyn Reader) -> T,
) -> (T, Option<usize>) {
    use il2_iltags::io::array::{ByteArrayReader, MemoryReader, VecReader};
    use il2_iltags::io::{LimitedReader, ReadReader};
    match k % SOURCES {
        0 => {
            let mut r = ByteArrayReader::new(data);
            let x = f(&mut r);
            (x, Some(r.offset()))
        }
        1 => {
            let mut r = VecReader::new(data);
            let x = f(&mut r);
            (x, Some(r.offset()))
        }
        2 => {
            let mut r = io::Cursor::new(data);
            let x = f(&mut r);
            (x, Some(r.position() as usize))
        }
        3 => {
            let mut s = Frag::new(data, 0, 0, rng.fork());
            let x = f(&mut ReadReader::new(&mut s));
            (x, Some(s.pos))
        }
        4 => {
            let mut s = Frag::new(data, 1, 0, rng.fork());
            let x = f(&mut ReadReader::new(&mut s));
            (x, Some(s.pos))
        }
        5 => {
            let (m, exact) = fragments(rng);
            let mut s = Frag::new(data, m, if rng.one_in(3) { 0 } else { 3 }, rng.fork());
            s.exact = exact;
            let x = f(&mut ReadReader::new(&mut s));
            (x, Some(s.pos))
        }
        6 => {
            let (m, exact) = fragments(rng);
            let mut s = SeekFrag::new(data, m, if rng.one_in(3) { 0 } else { 3 }, rng.fork());
            s.f.exact = exact;
            let x = f(&mut s);
            (x, Some(s.f.pos))
        }
        7 => {
            let cap = if rng.one_in(4) { fragments(rng).0 } else { 1 + rng.us(64) };
            let mut s = io::BufReader::with_capacity(cap, io::Cursor::new(data));
            let x = f(&mut s);
            let p = io::Seek::stream_position(&mut s).unwrap() as usize;
            (x, Some(p))
        }
        8 => {
            let mut r = ByteArrayReader::new(data);
            let mut l = LimitedReader::new(&mut r, data.len());
            let x = f(&mut l);
            let left = l.available();
            (x, Some(data.len() - left))
        }
        9 => {
            let mut r = PlainReader::new(data);
            let x = f(&mut r);
            (x, Some(r.pos))
        }
        _ => {
            let mut r = BulkReader::new(data);
            let x = f(&mut r);
            (x, Some(r.pos))
        }
    }
}

/// A dyn Reader where the library wants a sized one; every method is forwarded.
pub struct Dyn<'a>(pub &'a mut dyn Reader);

impl<'a> Reader for Dyn<'a> {
    fn read(&mut self) -> IResult<u8> {
        self.0.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> IResult<()> {
        self.0.read_all(b)
    }
    fn skip(&mut self, n: usize) -> IResult<()> {
        self.0.skip(n)
    }
    fn skip_u64(&mut self, n: u64) -> IResult<()> {
        self.0.skip_u64(n)
    }
}

/// Source whose position, and furthest position ever, can be watched while it is borrowed.
/// `whole`: requests are served completely or not at all; otherwise only read() is implemented.
pub struct Probe<'a> {
    pub data: &'a [u8],
    pub pos: &'a std::cell::Cell<usize>,
    pub whole: bool,
}

impl<'a> Reader for Probe<'a> {
    fn read(&mut self) -> IResult<u8> {
        let p = self.pos.get();
        match self.data.get(p) {
            Some(b) => {
                self.pos.set(p + 1);
                Ok(*b)
            }
            None => Err(ErrorKind::EndOfData),
        }
    }
    fn read_all(&mut self, b: &mut [u8]) -> IResult<()> {
        if !self.whole {
            for x in b {
                *x = self.read()?;
            }
            return Ok(());
        }
        let p = self.pos.get();
        if b.len() > self.data.len() - p {
            return Err(ErrorKind::UnableToReadData);
        }
        b.copy_from_slice(&self.data[p..p + b.len()]);
        self.pos.set(p + b.len());
        Ok(())
    }
    fn skip(&mut self, n: usize) -> IResult<()> {
        if !self.whole {
            for _ in 0..n {
                self.read()?;
            }
            return Ok(());
        }
        let p = self.pos.get();
        if n > self.data.len() - p {
            return Err(ErrorKind::UnableToReadData);
        }
        self.pos.set(p + n);
        Ok(())
    }
}

/// Custom reader that leaves skipping to the trait.
pub struct NoSkip<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}

impl<'a> Reader for NoSkip<'a> {
    fn read(&mut self) -> IResult<u8> {
        let b = *self.data.get(self.pos).ok_or(ErrorKind::EndOfData)?;
        self.pos += 1;
        Ok(b)
    }
    fn read_all(&mut self, b: &mut [u8]) -> IResult<()> {
        if b.len() > self.data.len() - self.pos {
            return Err(ErrorKind::UnableToReadData);
        }
        b.copy_from_slice(&self.data[self.pos..self.pos + b.len()]);
        self.pos += b.len();
        Ok(())
    }
}

/// Virtual data of up to 2^64-1 bytes: zeros, except for some short pieces.
#[derive(Clone)]
pub struct Sparse {
    pub len: u64,
    pub pieces: Vec<(u64, Vec<u8>)>,
    pub pos: u64,
}

impl Sparse {
    fn at(&self, p: u64) -> u8 {
        for (s, b) in self.pieces.iter().rev() {
            if p >= *s && p - *s < b.len() as u64 {
                return b[(p - *s) as usize];
            }
        }
        0
    }
}

/// The same as a library Reader of its own.
pub struct SparseReader(pub Sparse);

impl Reader for SparseReader {
    fn read(&mut self) -> IResult<u8> {
        if self.0.pos >= self.0.len {
            return Err(ErrorKind::EndOfData);
        }
        let b = self.0.at(self.0.pos);
        self.0.pos += 1;
        Ok(b)
    }
    fn skip(&mut self, n: usize) -> IResult<()> {
        if n as u64 > self.0.len - self.0.pos {
            return Err(ErrorKind::UnableToReadData);
        }
        self.0.pos += n as u64;
        Ok(())
    }
}

impl io::Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.len.saturating_sub(self.pos);
        let n = (b.len() as u64).min(left) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() {
            *x = self.at(self.pos + i as u64);
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl io::Seek for Sparse {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let p = match to {
            io::SeekFrom::Start(p) => p as i128,
            io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
            io::SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
