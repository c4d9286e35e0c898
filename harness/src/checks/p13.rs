use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::refc::hex;
use brec::BufferedReader;
use std::cell::RefCell;
use std::io::{self, BufRead, Read};
use std::rc::Rc;

pub static CHECK: Check = Check {
    id: "P13",
    level: "exploration",
    rule: "a case is a byte source with generated window sizes and injected read failures, and a generated sequence of up to 60 operations (reads of any size, buffer inspections, partial consumptions, refills, length queries) on the adapter checked step by step against a position model; non-trivial = at least one refill with data and at least one consumption after it",
    assumptions: &["consume() is never called with more than the last inspected length (the contract of BufRead)", "the source is a correct BufRead"],
    quick: 4_000_000,
    thorough: 300_000_000,
    threads: 8,
    alloc_limit: 16 << 20,
    case,
};

struct Src {
    data: Vec<u8>,
    pos: usize,
    end: usize,
    sizes: Vec<usize>,
    loads: usize,
    /// loads that fail (once each)
    fail: Vec<usize>,
    failed: usize,
}
#[derive(Clone)]
struct Shared(Rc<RefCell<Src>>, Vec<u8>);
impl Src {
    fn load(&mut self) -> io::Result<()> {
        if self.pos == self.end {
            let i = self.loads;
            self.loads += 1;
            if self.fail.contains(&i) {
                self.failed += 1;
                return Err(io::Error::new(io::ErrorKind::TimedOut, "injected"));
            }
            let n = self.sizes[i % self.sizes.len()].max(1);
            self.end = (self.pos + n).min(self.data.len());
        }
        Ok(())
    }
}
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.load()?;
        let n = (s.end - s.pos).min(buf.len());
        buf[..n].copy_from_slice(&s.data[s.pos..s.pos + n]);
        s.pos += n;
        Ok(n)
    }
}
impl BufRead for Shared {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let mut s = self.0.borrow_mut();
        s.load()?;
        self.1 = s.data[s.pos..s.end].to_vec();
        drop(s);
        Ok(&self.1)
    }
    fn consume(&mut self, amt: usize) {
        let mut s = self.0.borrow_mut();
        assert!(s.pos + amt <= s.end, "the adapter consumed {amt} bytes of a source window of {}", s.end - s.pos);
        s.pos += amt;
    }
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let len = match g.weighted(&[2, 3, 1]) {
        0 => g.us(0, 12),
        1 => g.us(0, 300),
        _ => g.us(0, 5000),
    };
    // position-coded content: any loss or repetition shows
    let data: Vec<u8> = (0..len).map(|i| ((i * 7 + i / 251) % 256) as u8).collect();
    let sizes = match g.weighted(&[1, 2, 3]) {
        0 => vec![1 << 20],
        1 => vec![g.us(1, 8)],
        _ => (0..g.us(2, 6)).map(|_| g.us(1, 40)).collect(),
    };
    let fail: Vec<usize> = if g.chance(1, 3) { (0..g.us(1, 4)).map(|_| g.us(0, 12)).collect() } else { Vec::new() };
    let src = Rc::new(RefCell::new(Src { data: data.clone(), pos: 0, end: 0, sizes, loads: 0, fail, failed: 0 }));
    let mut inner = Shared(src.clone(), Vec::new());
    let mut r = BufferedReader::new(&mut inner);
    // model: bytes handed out; retained = source position minus that
    let mut out = 0usize;
    let mut refilled = false;
    let n = g.us(1, 60);
    let mut trace = String::new();
    for step in 0..n {
        let op = g.weighted(&[3, 3, 3, 3, 1, 1, 1, 1, 1]);
        let failed0 = src.borrow().failed;
        let pos0 = src.borrow().pos;
        let retained = pos0 - out;
        let mut ended = false;
        let mut res: Result<(), io::Error> = Ok(());
        let what: String;
        match op {
            0 => {
                what = "refill".into();
                res = r.refill();
                if res.is_ok() && src.borrow().pos > pos0 {
                    refilled = true;
                }
            }
            1 => {
                // inspect and consume a part
                match r.fill_buf() {
                    Ok(b) => {
                        let s = src.borrow();
                        ensure!(b == &data[out..s.end.max(out).min(out + b.len())] && out + b.len() <= len, "step {step} ({trace}): fill_buf shows {} instead of {}", hex(b), hex(&data[out..(out + b.len()).min(len)]));
                        ensure!(b.len() == s.end - out, "step {step} ({trace}): fill_buf shows {} bytes, {} are retained or in the source's buffer", b.len(), s.end - out);
                        ensure!(!b.is_empty() || out == len, "step {step} ({trace}): fill_buf reports the end at {out} of {len}");
                        let have = b.len();
                        drop(s);
                        let k = match g.weighted(&[2, 2, 2, 1]) {
                            0 => 0,
                            1 => have,
                            2 => g.us(0, have),
                            _ => retained.min(have),
                        };
                        // looking at the data without taking any is allowed, too
                        if k > 0 || g.flag() {
                            r.consume(k);
                        }
                        out += k;
                        if refilled && k > 0 {
                            c.nontrivial = true;
                        }
                        what = format!("fill_buf {have} consume {k}");
                    }
                    Err(e) => {
                        what = "fill_buf fails".into();
                        res = Err(e);
                    }
                }
            }
            2 | 3 => {
                let k = match g.weighted(&[4, 2, 1]) {
                    0 => g.us(0, 20),
                    1 => g.us(0, 200),
                    _ => g.us(0, 6000),
                };
                let mut buf = vec![0xEE; k];
                match r.read(&mut buf) {
                    Ok(m) => {
                        ensure!(m <= k && out + m <= len, "step {step} ({trace}): read of {k} returned {m}");
                        ensure!(buf[..m] == data[out..out + m], "step {step} ({trace}): read returned {} instead of {}", hex(&buf[..m]), hex(&data[out..out + m]));
                        ensure!(m > 0 || k == 0 || out == len, "step {step} ({trace}): read reports the end at {out} of {len}");
                        out += m;
                        if refilled && m > 0 {
                            c.nontrivial = true;
                        }
                        what = format!("read {k} -> {m}");
                    }
                    Err(e) => {
                        what = format!("read {k} fails");
                        res = Err(e);
                    }
                }
            }
            4 => {
                let k = g.us(0, 30);
                // read_exact against what is left
                let mut buf = vec![0; k];
                if failed0 == src.borrow().failed && src.borrow().fail.is_empty() {
                    match r.read_exact(&mut buf) {
                        Ok(()) => {
                            ensure!(out + k <= len && buf[..] == data[out..out + k], "step {step} ({trace}): read_exact returned wrong bytes at {out}");
                            out += k;
                        }
                        Err(e) => {
                            ensure!(out + k > len, "step {step} ({trace}): read_exact of {k} fails at {out} of {len}: {e}");
                            ended = true;
                        }
                    }
                }
                what = format!("read_exact {k}");
            }
            5 => {
                what = "len".into();
                match r.len() {
                    Ok(l) => {
                        let s = src.borrow();
                        ensure!(l == s.end - out, "step {step} ({trace}): len() is {l}, available {}", s.end - out);
                    }
                    Err(e) => res = Err(e),
                }
            }
            6 => {
                what = "buffer_len".into();
                match r.buffer_len() {
                    Ok(l) => {
                        let s = src.borrow();
                        ensure!(l == s.end - s.pos, "step {step} ({trace}): buffer_len() is {l}, the source's buffer has {}", s.end - s.pos);
                    }
                    Err(e) => res = Err(e),
                }
            }
            7 => {
                what = "is_empty".into();
                match r.is_empty() {
                    Ok(l) => {
                        let s = src.borrow();
                        ensure!(l == (s.end == out), "step {step} ({trace}): is_empty() is {l} with {} bytes available", s.end - out);
                    }
                    Err(e) => res = Err(e),
                }
            }
            _ => {
                let mut v = Vec::new();
                what = "read_until".into();
                let stop = g.u(255) as u8;
                match r.read_until(stop, &mut v) {
                    Ok(m) => {
                        ensure!(m == v.len() && out + m <= len && v[..] == data[out..out + m], "step {step} ({trace}): read_until returned wrong bytes at {out}");
                        let want = data[out..].iter().position(|b| *b == stop).map_or(len - out, |p| p + 1);
                        ensure!(m == want, "step {step} ({trace}): read_until took {m} instead of {want}");
                        out += m;
                    }
                    Err(_) => {
                        // bytes taken before the failure are in v
                        ensure!(out + v.len() <= len && v[..] == data[out..out + v.len()], "step {step} ({trace}): read_until returned wrong bytes at {out}");
                        out += v.len();
                        ensure!(src.borrow().failed > failed0, "step {step} ({trace}): read_until fails without the source failing");
                    }
                }
            }
        }
        if trace.len() < 500 {
            trace.push_str(&what);
            trace.push_str("; ");
        }
        if let Err(e) = res {
            ensure!(src.borrow().failed > failed0, "step {step} ({trace}): fails with {e} though the source did not fail");
            ensure!(src.borrow().pos == pos0, "step {step} ({trace}): failed, but the source moved from {pos0} to {}", src.borrow().pos);
            c.label("failed operation");
        }
        if ended {
            break;
        }
        ensure!(r.consumed() == out, "step {step} ({trace}): consumed() is {}, handed out {out}", r.consumed());
        ensure!(src.borrow().pos >= out, "step {step} ({trace}): handed out {out} bytes, source at {}", src.borrow().pos);
        c.eval();
    }
    // everything left comes out, in order
    if r.consumed() == out {
        let mut rest = Vec::new();
        for _ in 0..10 {
            if r.read_to_end(&mut rest).is_ok() {
                break;
            }
        }
        if src.borrow().pos == len {
            ensure!(rest[..] == data[out..], "after {trace}: the rest has {} bytes instead of {}", rest.len(), len - out);
            ensure!(r.consumed() == len, "after {trace}: consumed() is {} at the end of {len}", r.consumed());
        }
    }
    c.sample(|| format!("{len} bytes: {trace}"));
    Ok(())
}
