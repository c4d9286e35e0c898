//! Sources and sinks with scripted behaviour.
#![allow(dead_code)]
use std::io::{self, BufRead, Read, Write};

/// Reader that returns at most `sizes[i % n]` bytes on the i-th call and fails where told to.
pub struct Chunked {
    pub data: Vec<u8>,
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub call: usize,
    /// calls (by index) that fail
    pub fail: Vec<(usize, io::ErrorKind)>,
    pub budget: usize,
}
impl Chunked {
    pub fn new(data: Vec<u8>, sizes: Vec<usize>) -> Self {
        let budget = 10_000 + data.len() * 64;
        Chunked { data, pos: 0, sizes, call: 0, fail: Vec::new(), budget }
    }
}
impl Read for Chunked {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let i = self.call;
        self.call += 1;
        assert!(self.call <= self.budget, "source asked for data {} times for {} bytes", self.call, self.data.len());
        if let Some((_, k)) = self.fail.iter().find(|(c, _)| *c == i) {
            return Err(io::Error::new(*k, "injected"));
        }
        let n = self.sizes[i % self.sizes.len()].max(1).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// BufRead with windows of given sizes; consumption is bounds-checked.
pub struct Windowed {
    pub data: Vec<u8>,
    pub pos: usize,
    pub end: usize,
    pub sizes: Vec<usize>,
    pub call: usize,
}
impl Windowed {
    pub fn new(data: Vec<u8>, sizes: Vec<usize>) -> Self {
        Windowed { data, pos: 0, end: 0, sizes, call: 0 }
    }
}
impl Read for Windowed {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let w = self.fill_buf()?;
        let n = w.len().min(buf.len());
        buf[..n].copy_from_slice(&w[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Windowed {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos == self.end {
            let n = self.sizes[self.call % self.sizes.len()].max(1);
            self.call += 1;
            self.end = (self.pos + n).min(self.data.len());
        }
        Ok(&self.data[self.pos..self.end])
    }
    fn consume(&mut self, amt: usize) {
        assert!(self.pos + amt <= self.end, "consumed {} bytes of a window of {}", amt, self.end - self.pos);
        self.pos += amt;
    }
}

#[derive(Clone, Debug)]
pub enum Act {
    /// accept at most n bytes
    Take(usize),
    Zero,
    Fail,
    Interrupted,
}
/// Sink that follows a script, then accepts everything.
pub struct Script {
    pub got: Vec<u8>,
    pub acts: Vec<Act>,
    pub call: usize,
    pub cycle: bool,
    pub failed: bool,
    pub vectored: bool,
}
impl Script {
    pub fn new(acts: Vec<Act>, cycle: bool, vectored: bool) -> Self {
        Script { got: Vec::new(), acts, call: 0, cycle, failed: false, vectored }
    }
    fn act(&mut self) -> Act {
        let i = self.call;
        self.call += 1;
        assert!(self.call < 2_000_000, "sink called too often");
        if self.acts.is_empty() {
            return Act::Take(usize::MAX);
        }
        if self.cycle {
            self.acts[i % self.acts.len()].clone()
        } else {
            self.acts.get(i).cloned().unwrap_or(Act::Take(usize::MAX))
        }
    }
}
impl Write for Script {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.write_vectored(&[io::IoSlice::new(buf)])
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        if bufs.iter().all(|b| b.is_empty()) {
            return Ok(0);
        }
        match self.act() {
            Act::Take(n) => {
                let mut left = n.max(1);
                let mut done = 0;
                for b in bufs {
                    let k = b.len().min(left);
                    self.got.extend_from_slice(&b[..k]);
                    done += k;
                    left -= k;
                    // a sink without vectored support takes the first non-empty slice only
                    if left == 0 || (!self.vectored && !b.is_empty()) {
                        break;
                    }
                }
                Ok(done)
            }
            Act::Zero => {
                self.failed = true;
                Ok(0)
            }
            Act::Fail => {
                self.failed = true;
                Err(io::Error::new(io::ErrorKind::StorageFull, "injected"))
            }
            Act::Interrupted => Err(io::Error::new(io::ErrorKind::Interrupted, "injected")),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct MemState {
    pub data: Vec<u8>,
    /// every write with its position, when recording
    pub log: Option<Vec<(u64, Vec<u8>)>>,
    /// operation indices (reads, writes, seeks and flushes counted together) that fail; a write may take some bytes first
    pub fail: Vec<(usize, Fault)>,
    pub ops: usize,
    pub writes: usize,
    pub fired: usize,
    /// largest number of bytes one write takes (0 = no limit)
    pub max_write: usize,
    pub max_read: usize,
    /// a write far behind the end fails instead of being a mistake of the library
    pub far: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the operation fails without effect
    Error,
    /// a write takes this many bytes, and the next operation fails
    Partial(usize),
}

/// Shared in-memory medium; every handle has its own position.
pub struct Mem {
    pub st: Arc<Mutex<MemState>>,
    pub pos: u64,
}
impl Mem {
    pub fn new() -> Self {
        Mem { st: Arc::default(), pos: 0 }
    }
    pub fn with(data: Vec<u8>) -> Self {
        let m = Mem::new();
        m.st.lock().unwrap().data = data;
        m
    }
    pub fn handle(&self) -> Mem {
        Mem { st: self.st.clone(), pos: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.st.lock().unwrap().data.clone()
    }
    fn gate(st: &mut MemState) -> io::Result<Option<usize>> {
        let i = st.ops;
        st.ops += 1;
        if let Some(k) = st.fail.iter().position(|(n, _)| *n == i) {
            let (_, f) = st.fail.remove(k);
            st.fired += 1;
            match f {
                Fault::Error => return Err(io::Error::new(io::ErrorKind::StorageFull, "injected")),
                Fault::Partial(n) => {
                    st.fail.push((i + 1, Fault::Error));
                    return Ok(Some(n));
                }
            }
        }
        Ok(None)
    }
}
impl Read for Mem {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut st = self.st.lock().unwrap();
        Mem::gate(&mut st)?;
        let from = (self.pos.min(st.data.len() as u64)) as usize;
        let mut n = (st.data.len() - from).min(buf.len());
        if st.max_read > 0 {
            n = n.min(st.max_read);
        }
        buf[..n].copy_from_slice(&st.data[from..from + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Mem {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut st = self.st.lock().unwrap();
        let part = Mem::gate(&mut st)?;
        let mut n = buf.len();
        if st.max_write > 0 {
            n = n.min(st.max_write);
        }
        if let Some(p) = part {
            n = n.min(p);
        }
        st.writes += 1;
        let end = self.pos + n as u64;
        if st.far && end > 1 << 26 {
            return Err(io::Error::new(io::ErrorKind::FileTooLarge, "far"));
        }
        assert!(end < 1 << 30, "write at {} of an in-memory medium", self.pos);
        if n > 0 {
            if st.data.len() < end as usize {
                st.data.resize(end as usize, 0);
            }
            st.data[self.pos as usize..end as usize].copy_from_slice(&buf[..n]);
        }
        let pos = self.pos;
        if let Some(l) = st.log.as_mut() {
            l.push((pos, buf[..n].to_vec()));
        }
        self.pos = end;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Mem::gate(&mut self.st.lock().unwrap()).map(|_| ())
    }
}
impl io::Seek for Mem {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let mut st = self.st.lock().unwrap();
        Mem::gate(&mut st)?;
        let np: i128 = match to {
            io::SeekFrom::Start(n) => n as i128,
            io::SeekFrom::End(d) => st.data.len() as i128 + d as i128,
            io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// A handle that keeps written bytes to itself until it is flushed or moved, if `on`.
pub struct Late {
    pub mem: Mem,
    pub on: bool,
    pub limit: usize,
    pending: Vec<u8>,
}
impl Late {
    pub fn new(mem: Mem, on: bool, limit: usize) -> Self {
        Late { mem, on, limit, pending: Vec::new() }
    }
    fn settle(&mut self) -> io::Result<()> {
        let p = std::mem::take(&mut self.pending);
        self.mem.write_all(&p)
    }
}
impl Read for Late {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.settle()?;
        self.mem.read(buf)
    }
}
impl Write for Late {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if !self.on || self.pending.len() + buf.len() > self.limit {
            self.settle()?;
            return self.mem.write(buf);
        }
        self.pending.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.settle()?;
        self.mem.flush()
    }
}
impl io::Seek for Late {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        self.settle()?;
        self.mem.seek(to)
    }
}
impl Drop for Late {
    fn drop(&mut self) {
        self.settle().ok();
    }
}

#[derive(Default)]
pub struct SparseState {
    pub chunks: std::collections::BTreeMap<u64, Vec<u8>>,
    pub size: u64,
}
const CHUNK: u64 = 4096;
/// Shared medium of any size, most of it zeros that are not stored; every handle has its own position.
pub struct Sparse {
    pub st: Arc<Mutex<SparseState>>,
    pub pos: u64,
}
impl Sparse {
    pub fn new() -> Self {
        Sparse { st: Arc::default(), pos: 0 }
    }
    pub fn handle(&self) -> Sparse {
        Sparse { st: self.st.clone(), pos: 0 }
    }
    /// size and what is stored besides zeros
    pub fn content(&self) -> (u64, Vec<(u64, Vec<u8>)>) {
        let st = self.st.lock().unwrap();
        (st.size, st.chunks.iter().filter(|(_, c)| c.iter().any(|b| *b != 0)).map(|(k, c)| (k * CHUNK, c.clone())).collect())
    }
    pub fn put(&self, at: u64, data: &[u8]) {
        let mut st = self.st.lock().unwrap();
        let mut i = 0;
        while i < data.len() {
            let p = at + i as u64;
            let o = (p % CHUNK) as usize;
            let k = (CHUNK as usize - o).min(data.len() - i);
            st.chunks.entry(p / CHUNK).or_insert_with(|| vec![0; CHUNK as usize])[o..o + k].copy_from_slice(&data[i..i + k]);
            i += k;
        }
        st.size = st.size.max(at + data.len() as u64);
    }
    pub fn grow(&self, to: u64) {
        let mut st = self.st.lock().unwrap();
        st.size = st.size.max(to);
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let st = self.st.lock().unwrap();
        let n = st.size.saturating_sub(self.pos).min(buf.len() as u64).min(1 << 20) as usize;
        let mut i = 0;
        while i < n {
            let p = self.pos + i as u64;
            let o = (p % CHUNK) as usize;
            let k = (CHUNK as usize - o).min(n - i);
            match st.chunks.get(&(p / CHUNK)) {
                Some(c) => buf[i..i + k].copy_from_slice(&c[o..o + k]),
                None => buf[i..i + k].fill(0),
            }
            i += k;
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.put(self.pos, buf);
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Seek for Sparse {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let size = self.st.lock().unwrap().size;
        let np: i128 = match to {
            io::SeekFrom::Start(n) => n as i128,
            io::SeekFrom::End(d) => size as i128 + d as i128,
            io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
