//! Storage helpers shared by P07-P11, P20.
#![allow(dead_code)]
use super::common::*;
use crate::engine::Gen;
use crate::gens;
use crate::io::Mem;
use crate::proto::*;
use crate::refc::*;

pub const CAP: usize = 500;

/// Packet number `n` of a history: small, and different from its neighbours.
pub fn numbered(g: &mut Gen, n: u64) -> Packet {
    match g.weighted(&[8, 2, 3, 1, 1]) {
        0 => Packet::new(vec![Block::BlkU8(BlkU8 { v: n as u8 }), Block::BlkScalars(scal(n))], None),
        1 => Packet::new(vec![], Some(Payload::Bytes(n.to_le_bytes().to_vec()))),
        2 => Packet::new(vec![Block::BlkTwin(BlkTwin { v: (n >> 8) as u8 })], Some(Payload::String(format!("packet {n}")))),
        3 => Packet::new(vec![], None),
        _ => gens::packet_small(g, 200),
    }
}
fn scal(n: u64) -> BlkScalars {
    BlkScalars { a: 1, b: 2, c: 3, d: n, e: 5, f: 6, g: 7, h: 8, i: 9, j: 10, k: 1.5, l: 2.5, m: n % 2 == 1 }
}

/// Cheap history: a few templates chosen by one choice each
pub struct Series {
    salt: u64,
    covered: bool,
}
impl Series {
    pub fn new(g: &mut Gen) -> Self {
        Series { salt: g.u(1000), covered: false }
    }
    /// packets whose content is covered by checksums
    pub fn covered(g: &mut Gen) -> Self {
        Series { salt: g.u(1000), covered: true }
    }
    pub fn packet(&self, n: u64) -> Packet {
        let mut s = self.salt.wrapping_mul(0x9E37_79B9).wrapping_add(n);
        let r = crate::engine::splitmix(&mut s);
        match r % 8 {
            0 => Packet::new(vec![], Some(Payload::Bytes((n ^ (self.salt << 32)).to_le_bytes()[..(4 + (r >> 8) % 5) as usize].to_vec()))),
            1 => Packet::new(vec![Block::BlkTwin(BlkTwin { v: (n >> 8) as u8 })], Some(Payload::String(format!("packet {n}")))),
            2 => Packet::new(vec![Block::BlkU8(BlkU8 { v: n as u8 }), Block::BlkScalars(scal(n))], None),
            3 => Packet::new(vec![Block::BlkFloat(BlkFloat { x: n as f64, y: 1.0 })], Some(Payload::PlCrc16(PlCrc16 { items: vec![n as u16; (r >> 16) as usize % 40] }))),
            4 | 5 if self.covered => Packet::new(vec![Block::BlkFloat(BlkFloat { x: n as f64, y: 2.0 })], None),
            6 if self.covered => Packet::new(vec![], None),
            _ if self.covered => Packet::new(vec![Block::BlkEnum(BlkEnum { head: n as u16, level: Level::On, tail: [n as u8; 5] })], None),
            _ => Packet::new(vec![Block::BlkNoCrc(BlkNoCrc { v: n, b: [3; 3] })], None),
        }
    }
}

pub fn insert_all(mem: &Mem, ps: &[Packet]) -> R {
    let mut w: Writer<Mem> = Writer::new(mem.handle()).map_err(|e| format!("opening for writing: {e}"))?;
    for p in ps {
        w.insert(gens::clone_packet(p)).map_err(|e| format!("insert: {e}"))?;
    }
    Ok(())
}

pub fn eq(a: &Packet, b: &Packet) -> bool {
    canon(a) == canon(b)
}

pub fn open<'a>(mem: &Mem) -> Result<Reader<'a, Mem>, brec::Error> {
    Reader::new(mem.handle())
}

/// An interesting number of packets, up to `max`.
pub fn amount(g: &mut Gen, max: usize) -> usize {
    let v = match g.weighted(&[4, 3, 4, 1]) {
        0 => g.us(0, 6),
        1 => g.us(0, 60),
        2 => {
            let k = g.us(1, (max / CAP).max(1));
            (k * CAP + g.us(0, 4)).saturating_sub(2)
        }
        _ => g.us(0, max),
    };
    v.min(max)
}
/// An interesting position among n
pub fn position(g: &mut Gen, n: usize) -> usize {
    match g.weighted(&[3, 3, 3, 1]) {
        0 => g.us(0, n.max(1) - 1),
        1 => {
            let k = g.us(0, n / CAP + 1);
            (k * CAP + g.us(0, 4)).saturating_sub(2)
        }
        2 => (n + g.us(0, 4)).saturating_sub(2),
        _ => *g.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 40, n + CAP]),
    }
}

/// Goes along an iterator step by step, partly passing over packets, until `stop` packets are got; `want` is what it should give.
/// Behind the last of them it ends, or tells that it is behind the end.
pub fn walk<I: Iterator<Item = Result<Packet, brec::Error>>>(g: &mut Gen, mut it: I, want: &[Packet], n: usize, stop: usize) -> R {
    let leaps = g.chance(1, 4);
    let (mut i, mut got) = (0, 0);
    while got < stop {
        let hint = it.size_hint();
        crate::ensure!(hint.0 <= n - i && hint.1.is_none_or(|h| h >= n - i), "at {i} of {n} the iterator announces {hint:?} more packets");
        let k = if leaps && g.chance(2, 3) {
            if g.chance(1, 8) {
                g.us(0, n + 2)
            } else {
                g.us(0, 4)
            }
        } else {
            0
        };
        let r = if k == 0 { it.next() } else { it.nth(k) };
        match r {
            Some(Ok(p)) => {
                crate::ensure!(k < n - i, "at {i} of {n}, {k} passed over: there is one more packet: {}", describe(&p));
                crate::ensure!(eq(&p, &want[i + k]), "at {i} of {n}, {k} passed over: a wrong packet: {}", describe(&p));
                i += k + 1;
                got += 1;
            }
            Some(Err(e)) => {
                crate::ensure!(k >= n - i && bounds(&e), "at {i} of {n}, {k} passed over: {e}");
                return Ok(());
            }
            None => {
                crate::ensure!(k >= n - i, "ended at {i} of {n}, {k} passed over");
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Asks the reader `queries` generated questions; `all` is what it should hold.
pub fn interrogate(g: &mut Gen, rd: &mut Reader<Mem>, all: &[Packet], queries: usize, evals: &mut u64) -> R {
    let n = all.len();
    let c = rd.count();
    crate::ensure!(c == n, "count is {c}, {n} packets were inserted");
    for _ in 0..queries {
        *evals += 1;
        match g.weighted(&[6, 1, 3, 3]) {
            0 => {
                let i = position(g, n);
                match rd.nth(i) {
                    Ok(Some(p)) => crate::ensure!(i < n && eq(&p, &all[i]), "nth({i}) of {n} returned {}", describe(&p)),
                    Ok(None) => crate::ensure!(i >= n, "nth({i}) of {n} returned nothing"),
                    Err(e) => crate::ensure!(i >= n && bounds(&e), "nth({i}) of {n} failed: {e}"),
                }
            }
            1 => {
                let stop = if g.flag() { g.us(0, n) } else { usize::MAX };
                let r = if g.flag() { walk(g, rd.iter(), all, n, stop) } else { walk(g, rd.filtered(), all, n, stop) };
                r.map_err(|e| format!("iteration over {n}: {e}"))?;
            }
            2 => {
                let from = position(g, n);
                let take = if g.chance(1, 4) { usize::MAX } else { g.us(0, 30) };
                match rd.seek(from) {
                    Ok(it) => walk(g, it, &all[from.min(n)..], n - from.min(n), take).map_err(|e| format!("iteration from {from} of {n}: {e}"))?,
                    Err(e) => crate::ensure!(from >= n && bounds(&e), "seek({from}) of {n} failed: {e}"),
                }
            }
            _ => {
                let from = position(g, n);
                let len = match g.weighted(&[4, 2, 1, 1]) {
                    0 => g.us(0, 20),
                    1 => g.us(480, 520),
                    2 => n,
                    _ => usize::MAX,
                };
                let k = n.saturating_sub(from).min(len);
                let stop = if g.chance(1, 4) { g.us(0, 30) } else { usize::MAX };
                let want = &all[from.min(n)..from.min(n) + k];
                let r = if g.chance(3, 4) { walk(g, rd.range(from, len), want, k, stop) } else { walk(g, rd.range_filtered(from, len), want, k, stop) };
                r.map_err(|e| format!("range({from}, {len}) of {n}: {e}"))?;
            }
        }
    }
    Ok(())
}

pub fn bounds(e: &brec::Error) -> bool {
    matches!(e, brec::Error::OutOfBounds(..) | brec::Error::EmptySource)
}
