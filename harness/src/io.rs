//! Readers and writers that split, interrupt and fail.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// Reads at most `chunk` bytes at a time, interrupts every `intr`-th call,
/// and fails once `fail` bytes have been delivered.
pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: u64,
    pub chunk: usize,
    pub intr: usize,
    pub fail: Option<u64>,
    pub once: bool,
    pub calls: usize,
    pub failed: bool,
}

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], chunk: usize, intr: usize, fail: Option<u64>) -> Self {
        Reader { data, pos: 0, chunk, intr, fail, once: false, calls: 0, failed: false }
    }
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len().min(self.chunk);
        if let Some(f) = self.fail {
            if self.pos >= f && n > 0 && !(self.once && self.failed) {
                self.failed = true;
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            if self.pos < f {
                n = n.min((f - self.pos) as usize);
            }
        }
        let start = (self.pos as usize).min(self.data.len());
        n = n.min(self.data.len() - start);
        buf[..n].copy_from_slice(&self.data[start..start + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Reader<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let t = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.data.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if t < 0 || t > u64::MAX as i128 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

/// Accepts at most `chunk` bytes at a time, interrupts every `intr`-th call,
/// fails (once, or forever) after `fail` bytes, and may fail in flush.
pub struct Writer {
    pub data: Vec<u8>,
    pub chunk: usize,
    pub intr: usize,
    pub fail: Option<usize>,
    pub zero: bool,
    pub flush_fails: bool,
    pub once: bool,
    pub calls: usize,
    pub failed: bool,
}

impl Writer {
    pub fn new(chunk: usize, intr: usize, fail: Option<usize>) -> Self {
        Writer { data: vec![], chunk, intr, fail, zero: false, flush_fails: false, once: false, calls: 0, failed: false }
    }
}

impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len().min(self.chunk);
        if let Some(f) = self.fail {
            if self.data.len() >= f && n > 0 && !(self.once && self.failed) {
                self.failed = true;
                if self.zero {
                    return Ok(0);
                }
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            if self.data.len() < f {
                n = n.min(f - self.data.len());
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        if self.flush_fails {
            self.failed = true;
            return Err(Error::new(ErrorKind::Other, "injected flush"));
        }
        Ok(())
    }
}
