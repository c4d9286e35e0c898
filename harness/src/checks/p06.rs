use super::common::*;
use super::p03::corrupt;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use std::io::{BufRead, Cursor, Read, Seek, SeekFrom};

pub static CHECK: Check = Check {
    id: "P06",
    level: "exploration",
    rule: "a case is one value (packet, block through the unified and its own type, packet header, payload header, payload body) behind a generated number of already read bytes; every prefix length of short encodings (generated ones of long) is offered to the seekable and buffered incremental reads, the announced shortfall is then supplied until success; corrupted encodings and sources that fail or give less than asked for check that errors do not move the source; non-trivial = a strict prefix was offered",
    assumptions: &["buffered sources expose all bytes present in one buffer", "the buffered payload header read is documented to consume nothing on success", "of a payload body only the seekable read is driven (the buffered one documents that all data must be there)"],
    quick: 500_000,
    thorough: 50_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

#[derive(Debug)]
enum St {
    Done(Vec<u8>),
    Need(u64),
    Fail(String),
}
fn st<T>(r: Result<ReadStatus<T>, brec::Error>, f: impl Fn(T) -> Vec<u8>) -> St {
    match r {
        Ok(ReadStatus::Success(v)) => St::Done(f(v)),
        Ok(ReadStatus::NotEnoughData(n)) => St::Need(n),
        Err(e) => St::Fail(e.to_string()),
    }
}

type Reader<'a> = Box<dyn Fn(&mut Src) -> St + 'a>;

/// Source over a slice. Reads give at most `step` bytes, the read after `fail` bytes given fails (once).
struct Src<'a> {
    inner: Cursor<&'a [u8]>,
    step: usize,
    given: usize,
    fail: Option<(usize, std::io::ErrorKind)>,
    failed: bool,
}
impl<'a> Src<'a> {
    fn new(data: &'a [u8], at: usize) -> Self {
        let mut inner = Cursor::new(data);
        inner.set_position(at as u64);
        Src { inner, step: usize::MAX, given: 0, fail: None, failed: false }
    }
    fn position(&self) -> usize {
        self.inner.position() as usize
    }
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = buf.len().min(self.step);
        if let Some((at, kind)) = self.fail {
            if self.given >= at {
                self.fail = None;
                self.failed = true;
                return Err(std::io::Error::new(kind, "injected"));
            }
            n = n.min(at - self.given);
        }
        let n = self.inner.read(&mut buf[..n])?;
        self.given += n;
        Ok(n)
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(to)
    }
}
impl BufRead for Src<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if let Some((_, kind)) = self.fail.take() {
            self.failed = true;
            return Err(std::io::Error::new(kind, "injected"));
        }
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n)
    }
}

fn blk<B>(f: impl Fn(B) -> Block) -> impl Fn(B) -> Vec<u8> {
    move |b| enc_block(&f(b))
}

macro_rules! concrete {
    ($b:expr, $out:expr, $($v:ident => $t:ty);*) => { match $b { $(
        Block::$v(_) => {
            $out.push(("own type, seekable", true, Box::new(|c: &mut Src| st(<$t as brec::TryReadFrom>::try_read(c), blk(Block::$v)))));
            $out.push(("own type, buffered", true, Box::new(|c: &mut Src| st(<$t as brec::TryReadFromBuffered>::try_read(c), blk(Block::$v)))));
        } )* } };
}

fn phdr(h: brec::PacketHeader) -> Vec<u8> {
    enc_header(h.size, h.blocks_len, h.payload as u8)
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let what = g.weighted(&[4, 4, 1, 1, 2]);
    let lead = g.us(0, 40);
    let tail = if g.flag() { 0 } else { g.us(1, 60) };
    let enc: Vec<u8>;
    let want: Vec<u8>;
    let header_store: brec::PayloadHeader;
    let pl_store: Payload;
    let mut readers: Vec<(&str, bool, Reader)> = Vec::new();
    let desc;
    match what {
        0 => {
            let p = if g.chance(1, 12) { gens::packet(g) } else { gens::packet_small(g, 60) };
            enc = enc_packet(&p);
            want = canon(&p);
            desc = format!("packet {}", describe(&p));
            readers.push(("packet seekable", true, Box::new(|c| st(<Packet as TryReadFrom>::try_read(c), |p| canon(&p)))));
            readers.push(("packet buffered", true, Box::new(|c| st(<Packet as TryReadFromBuffered>::try_read(c), |p| canon(&p)))));
            c.label("packet");
        }
        1 => {
            let b = gens::block(g);
            enc = enc_block(&b);
            want = enc.clone();
            desc = format!("block {}", hex(&enc));
            readers.push(("unified block seekable", true, Box::new(|c| st(<Block as TryReadFrom>::try_read(c), |b| enc_block(&b)))));
            readers.push(("unified block buffered", true, Box::new(|c| st(<Block as TryReadFromBuffered>::try_read(c), |b| enc_block(&b)))));
            concrete!(&b, readers, BlkU8 => BlkU8; BlkTwin => BlkTwin; BlkScalars => BlkScalars; BlkBools => BlkBools; BlkBlobs => BlkBlobs; BlkBig => BlkBig; BlkEnum => BlkEnum; BlkNoCrc => BlkNoCrc; BlkFloat => BlkFloat; CrateProtoDeepErBlkPath => crate::proto::deep::er::BlkPath);
            c.label("block");
        }
        2 => {
            enc = enc_header(g.bits(64) as u64, g.bits(64) as u64, g.u(1) as u8);
            want = enc.clone();
            desc = "packet header".to_string();
            readers.push(("packet header seekable", true, Box::new(|c| st(<brec::PacketHeader as TryReadFrom>::try_read(c), phdr))));
            readers.push(("packet header buffered", true, Box::new(|c| st(<brec::PacketHeader as TryReadFromBuffered>::try_read(c), phdr))));
            c.label("packet header");
        }
        3 => {
            let pl = gens::payload(g, 20);
            let full = enc_payload(&pl);
            enc = full[..full.len() - payload_body(&pl).len()].to_vec();
            want = enc.clone();
            desc = "payload header".to_string();
            readers.push(("payload header seekable", true, Box::new(|c| st(<brec::PayloadHeader as TryReadFrom>::try_read(c), |h| h.as_vec()))));
            readers.push(("payload header buffered", false, Box::new(|c| st(<brec::PayloadHeader as TryReadFromBuffered>::try_read(c), |h| h.as_vec()))));
            c.label("payload header");
        }
        _ => {
            pl_store = gens::payload(g, 60);
            let full = enc_payload(&pl_store);
            enc = payload_body(&pl_store);
            want = payload_canon(&pl_store);
            header_store = <brec::PayloadHeader as ReadFrom>::read(&mut &full[..]).map_err(es)?;
            desc = format!("payload kind {} body {}", payload_kind(&pl_store), hex(&enc));
            let h = &header_store;
            readers.push(("payload seekable", true, Box::new(move |c| st(<Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(c, h), |p| payload_canon(&p)))));
            c.label("payload body");
        }
    }
    c.sample(|| desc.clone());
    let mut all = vec![0xEEu8; lead];
    all.extend_from_slice(&enc);
    let end = all.len();
    let follow = g.blob(tail);
    let cuts: Vec<usize> = if enc.len() <= 80 { (0..enc.len()).collect() } else { (0..24).map(|_| g.us(0, enc.len() - 1)).chain([0, 3, 4, 28, 29, 30, enc.len() - 1].into_iter().filter(|x| *x < enc.len())).collect() };
    c.nontrivial = !cuts.is_empty();
    for (name, consumes, rd) in readers.iter() {
        for n in cuts.iter().copied() {
            // offer the prefix, then exactly what was asked for, until done
            let mut have = n;
            loop {
                let mut cur = Src::new(&all[..lead + have], lead);
                let r = rd(&mut cur);
                let pos = cur.position();
                c.eval();
                match r {
                    St::Need(k) => {
                        ensure!(have < enc.len(), "{name}: asks for {k} bytes of a complete value; {desc}");
                        ensure!(k > 0, "{name}: not-enough-data with count 0 at {have} of {}; {desc}", enc.len());
                        ensure!(k as u128 <= (enc.len() - have) as u128, "{name}: asks for {k} bytes at {have} of {}; {desc}", enc.len());
                        ensure!(pos == lead, "{name}: source moved by {} on not-enough-data ({have} of {} bytes); {desc}", pos as i64 - lead as i64, enc.len());
                        have += k as usize;
                    }
                    St::Done(v) => {
                        ensure!(have == enc.len(), "{name}: succeeded with {have} of {} bytes; {desc}", enc.len());
                        ensure!(v == want, "{name}: wrong value after growing; {desc}");
                        let exp = if *consumes { end } else { lead };
                        ensure!(pos == exp, "{name}: source at {pos} instead of {exp} after success; {desc}");
                        break;
                    }
                    St::Fail(e) => return Err(format!("{name}: error '{e}' with {have} of {} bytes (started at {n}); {desc}", enc.len())),
                }
            }
        }
        // complete value followed by other bytes
        let mut more = all.clone();
        more.extend_from_slice(&follow);
        let mut cur = Src::new(&more[..], lead);
        match rd(&mut cur) {
            St::Done(v) => {
                ensure!(v == want, "{name}: wrong value; {desc}");
                let exp = if *consumes { end } else { lead };
                ensure!(cur.position() == exp, "{name}: source at {} instead of {exp} after success; {desc}", cur.position());
            }
            o => return Err(format!("{name}: {o:?} for a complete value followed by {tail} bytes; {desc}")),
        }
        // the source fails once, reading is repeated from the place where it has been left
        if !enc.is_empty() && what != 4 {
            for at in [0, g.us(0, enc.len() - 1), g.us(0, enc.len() - 1).min(g.us(0, 40))] {
                let mut cur = Src::new(&more[..], lead);
                let kind = *g.pick(&[std::io::ErrorKind::WouldBlock, std::io::ErrorKind::TimedOut, std::io::ErrorKind::Other, std::io::ErrorKind::Interrupted]);
                cur.fail = Some((at, kind));
                cur.step = if g.flag() { usize::MAX } else { g.us(1, 9) };
                let mut r = rd(&mut cur);
                c.eval();
                if cur.failed && matches!(r, St::Fail(_)) {
                    ensure!(cur.position() == lead, "{name}: source moved by {} when reading failed after {at} of {} bytes; {desc}", cur.position() as i64 - lead as i64, enc.len());
                    c.label("source failed");
                    r = rd(&mut cur);
                }
                match r {
                    St::Done(v) => {
                        ensure!(v == want, "{name}: wrong value after a failure of the source at {at}; {desc}");
                        let exp = if *consumes { end } else { lead };
                        ensure!(cur.position() == exp, "{name}: source at {} instead of {exp} after success; {desc}", cur.position());
                    }
                    o => return Err(format!("{name}: {o:?} for a complete value after a failure of the source ({kind:?}) at {at}; {desc}")),
                }
            }
        }
        // corrupted
        if !enc.is_empty() && what != 4 {
            for _ in 0..6 {
                let bad = corrupt(g, &enc);
                let mut m = all[..lead].to_vec();
                m.extend_from_slice(&bad);
                m.extend_from_slice(&follow);
                let mut cur = Src::new(&m[..], lead);
                let r = rd(&mut cur);
                c.eval();
                match r {
                    St::Fail(e) => ensure!(cur.position() == lead, "{name}: source moved by {} on error '{e}'; {desc} corrupted {}", cur.position() as i64 - lead as i64, hex(&bad)),
                    St::Need(k) => {
                        ensure!(k > 0, "{name}: zero shortfall");
                        ensure!(cur.position() == lead, "{name}: source moved by {} on not-enough-data; {desc} corrupted {}", cur.position() as i64 - lead as i64, hex(&bad))
                    }
                    St::Done(_) => {}
                }
            }
        }
    }
    Ok(())
}
