use super::common::*;
use super::p03::corrupt;
use super::p04::valid_header_at;
use super::p16::{hostile, hostile_block, hostile_body, hostile_packet, hostile_payload};
use super::p22::file;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Chunked, Mem};
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use brec::{ExtractPayloadFrom, PacketHeader, PayloadHeader, ReadBlockFrom, ReadBlockFromSlice, TryExtractPayloadFrom, TryExtractPayloadFromBuffered};
use std::io::Cursor;

pub static CHECK: Check = Check {
    id: "P25",
    level: "exploration",
    rule: "a case is one packet, block or payload frame assembled from parts with valid checksums but inconsistent or unusual lengths, counts, flags, kinds or bodies (up to 258 blocks; followed by further valid blocks and payloads, so that running over an end finds something), given to every way of reading it: for packets the streaming, seekable, buffered and filtered reads, the stream reader, and access by index, iteration, filtered iteration of a storage holding it; all must give the same value or all refuse, and a packet read must end exactly at the end its header announces; one evaluation is one way of reading; non-trivial = the input is no plain encoding of a value, and at least its header or signature is valid",
    assumptions: &["a request for more data after all announced bytes were given counts as refusal"],
    quick: 5_000_000,
    thorough: 500_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

/// accepted value (canonical) and how many bytes were taken
type Verdict = Result<(Vec<u8>, usize), String>;

fn got(r: Got, pos: usize) -> Verdict {
    match r {
        Got::Packet(p) => Ok((canon(&p), pos)),
        Got::Need(n) => Err(format!("needs {n}")),
        Got::Error(e) => Err(e),
    }
}

fn agree(what: &str, all: &[(&str, Verdict)], input: &[u8], c: &mut Ctx) -> R {
    let show = |v: &Verdict| match v {
        Ok((v, n)) => format!("accepts {} ({n} bytes taken)", hex(v)),
        Err(e) => format!("refuses ({e})"),
    };
    let (n0, first) = &all[0];
    for (n, v) in all {
        c.eval();
        let same = match (first, v) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        ensure!(same, "{what}: {n0} {}, {n} {}; input {}", show(first), show(v), hex(input));
    }
    Ok(())
}

/// a payload frame whose length may not be that of the rest of the packet
fn frame(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 3) {
        return hostile_payload(g);
    }
    let p = gens::payload(g, 60);
    if g.flag() {
        return enc_payload(&p);
    }
    let mut body = hostile_body(g, &p);
    if g.chance(1, 3) {
        // more than the decoder needs
        let n = g.us(1, 9);
        body.extend(g.blob(n));
    }
    let (sig, crc) = (payload_sig(&p), payload_crc(&p, &body));
    let mut o = vec![sig.len() as u8];
    o.extend_from_slice(&sig);
    o.push(crc.len() as u8);
    o.extend_from_slice(&crc);
    o.extend_from_slice(&(body.len() as u32).to_le_bytes());
    o.extend_from_slice(&body);
    o
}

/// The packet, with what follows it in the source.
fn crafted(g: &mut Gen, c: &mut Ctx) -> Vec<u8> {
    let n = match g.weighted(&[6, 20, 2]) {
        0 => 0,
        1 => g.us(1, 4),
        _ => g.us(252, 258),
    };
    let parts: Vec<Vec<u8>> = if n > 4 {
        c.label("many blocks");
        (0..n).map(|i| enc_block(&Block::BlkU8(BlkU8 { v: i as u8 }))).collect()
    } else {
        (0..n).map(|_| if g.chance(1, 5) { hostile_block(g) } else { enc_block(&gens::block_small(g)) }).collect()
    };
    let blocks: Vec<u8> = parts.concat();
    let mut pl = if g.chance(1, 2) { frame(g) } else { Vec::new() };
    let mut flag = !pl.is_empty() as u8;
    let mut blen = blocks.len() as u64;
    let mut size = blen + pl.len() as u64;
    let what = g.weighted(&[3, 3, 3, 2, 2, 3, 2, 1, 1]);
    c.label(["consistent", "the end of blocks moved by blocks", "size moved by parts", "flag", "bytes behind", "the payload is blocks", "lengths", "any", "altered"][what]);
    match what {
        0 => {}
        1 => {
            // fewer or more blocks than there are before the payload
            let k = g.us(0, parts.len());
            blen = parts[..k].iter().map(|p| p.len() as u64).sum();
            if g.flag() {
                size = size.max(blen);
            } else {
                size = blen + pl.len() as u64;
            }
            if g.chance(1, 3) {
                blen = blen.wrapping_add(g.u(9)).wrapping_sub(4);
            }
        }
        2 => {
            let k = g.us(0, parts.len());
            size = parts[..k].iter().map(|p| p.len() as u64).sum::<u64>() + if g.flag() { pl.len() as u64 } else { 0 };
        }
        3 => flag = if g.chance(2, 3) { 1 - flag } else { g.u(255) as u8 },
        4 => {
            let n = g.us(1, 30);
            pl.extend(if g.flag() { g.blob(n) } else { enc_block(&gens::block_small(g)) });
            size = blen + pl.len() as u64;
        }
        5 => {
            // blocks go on where the payload should be
            pl = (0..g.us(1, 2)).flat_map(|_| enc_block(&gens::block_small(g))).collect();
            flag = g.u(1) as u8;
            size = if g.flag() { blen + pl.len() as u64 } else { blen };
            if g.flag() {
                blen += pl.len() as u64;
            }
        }
        6 => {
            if g.flag() {
                blen = hostile(g, blen);
            } else {
                size = hostile(g, size);
            }
        }
        7 => return hostile_packet(g),
        _ => {}
    }
    let mut v = enc_header(size, blen, flag);
    if flag > 1 {
        let crc = enc_header(size, blen, g.u(1) as u8);
        v[25..29].copy_from_slice(&crc[25..29]);
    }
    v.extend_from_slice(&blocks);
    v.extend_from_slice(&pl);
    if what == 8 && v.len() > 33 {
        let e = corrupt(g, &v[29..]);
        v.truncate(29);
        v.extend(e);
    }
    v
}

fn packet(g: &mut Gen, c: &mut Ctx) -> R {
    let mut d = crafted(g, c);
    if d.len() < 29 {
        return Ok(());
    }
    let size = u64::from_le_bytes(d[8..16].try_into().unwrap());
    let end = size.saturating_add(29);
    // what follows lets a read go on behind the end
    for _ in 0..g.us(0, 3) {
        match g.u(3) {
            0 => d.extend(enc_payload(&gens::payload(g, 30))),
            1 => {
                let n = g.us(0, 40);
                d.extend(g.blob(n));
            }
            _ => d.extend(enc_block(&gens::block_small(g))),
        }
    }
    if (1..d.len()).any(|i| valid_header_at(&d, i)) {
        c.label("discarded: second header");
        return Ok(());
    }
    c.nontrivial = valid_header_at(&d, 0);
    c.sample(|| hex(&d));
    let sizes = chunk_sizes(g);
    let mut all: Vec<(&str, Verdict)> = Vec::new();
    let mut src = Chunked::new(d.clone(), sizes.clone());
    let r = rd_stream(&mut src);
    all.push(("the streaming read", got(r, src.pos)));
    let mut cur = Cursor::new(&d[..]);
    let r = rd_seek(&mut cur);
    all.push(("the seekable read", got(r, cur.position() as usize)));
    let mut cur = Cursor::new(&d[..]);
    let r = rd_buf(&mut cur);
    all.push(("the buffered read", got(r, cur.position() as usize)));
    let mut cur = Cursor::new(&d[..]);
    let r = rd_filtered(&mut cur);
    all.push(("the filtered read", got(r, cur.position() as usize)));
    if all[0].1.is_ok() {
        c.label("accepted");
        ensure!(matches!(&all[0].1, Ok((_, n)) if *n as u64 == end), "the streaming read took {} bytes, the header announces {end}; input {}", src.pos, hex(&d));
    }
    // the stream reader tells nothing about positions; what follows may be foreign bytes
    let mut src = Chunked::new(d.clone(), sizes.clone());
    let run = run_reader(&mut src, d.len())?;
    let v = match run.packets.first() {
        None => Err("nothing delivered".to_string()),
        Some(p) => {
            let rest = d.len() as u64 - end.min(d.len() as u64);
            ensure!(run.packets.len() == 1, "the stream reader delivers {} packets out of one; input {}", run.packets.len(), hex(&d));
            ensure!(run.ignored.len() as u64 == rest, "the stream reader ignored {} bytes, {rest} follow the packet; input {}", run.ignored.len(), hex(&d));
            Ok((canon(p), end as usize))
        }
    };
    all.push(("the stream reader", v));
    // in a storage, at any place
    if end <= d.len() as u64 && g.chance(1, 4) {
        c.label("in a storage");
        let good: Vec<Packet> = (0..3u64).map(|i| super::store::numbered(g, i)).collect();
        let mut ps: Vec<Vec<u8>> = good.iter().map(enc_packet).collect();
        let at = g.us(0, 2);
        ps[at] = d[..end as usize].to_vec();
        let m = Mem::with(file(&ps));
        let mut rd = super::store::open(&m).map_err(|e| format!("opening the storage: {e}"))?;
        let one = |r: Option<Result<Packet, brec::Error>>| match r {
            Some(Ok(p)) => Ok((canon(&p), end as usize)),
            Some(Err(e)) => Err(e.to_string()),
            None => Err("the end".to_string()),
        };
        let r = match rd.nth(at) {
            Ok(Some(p)) => Some(Ok(p)),
            Ok(None) => None,
            Err(e) => Some(Err(e)),
        };
        all.push(("access by index", one(r)));
        all.push(("iteration", one(rd.iter().nth(at))));
        all.push(("iteration from a position", one(rd.seek(at).map_err(es)?.next())));
        all.push(("a range", one(rd.range(at, 1).next())));
        all.push(("filtered iteration", one(rd.filtered().nth(at))));
        all.push(("a filtered range", one(rd.range_filtered(at, 1).next())));
        // the others are not affected
        for (i, p) in good.iter().enumerate() {
            if i != at {
                let r = rd.nth(i);
                ensure!(matches!(&r, Ok(Some(x)) if same(x, p)), "packet {i} beside a crafted one at {at} is not returned; input {}", hex(&d));
            }
        }
    }
    agree("packet", &all, &d, c)
}

fn blk(r: Result<Block, brec::Error>, pos: usize) -> Verdict {
    r.map(|b| (enc_block(&b), pos)).map_err(es)
}
fn st<T>(r: Result<ReadStatus<T>, brec::Error>) -> Result<T, brec::Error> {
    match r? {
        ReadStatus::Success(v) => Ok(v),
        ReadStatus::NotEnoughData(n) => Err(brec::Error::NotEnoughData(n as usize)),
    }
}

fn block(g: &mut Gen, c: &mut Ctx) -> R {
    let mut d = hostile_block(g);
    if g.flag() {
        d.extend(hostile_block(g));
    }
    c.nontrivial = d.len() > 4;
    c.sample(|| hex(&d));
    let mut all = Vec::new();
    let mut cur = &d[..];
    let r = <Block as ReadFrom>::read(&mut cur);
    all.push(("the streaming read", blk(r, d.len() - cur.len())));
    let mut src = Chunked::new(d.clone(), chunk_sizes(g));
    let r = <Block as ReadBlockFrom>::read(&mut src, false);
    all.push(("the block read", blk(r, src.pos)));
    let mut cur = Cursor::new(&d[..]);
    let r = st(<Block as TryReadFrom>::try_read(&mut cur));
    all.push(("the seekable read", blk(r, cur.position() as usize)));
    let mut cur = Cursor::new(&d[..]);
    let r = st(<Block as TryReadFromBuffered>::try_read(&mut cur));
    all.push(("the buffered read", blk(r, cur.position() as usize)));
    let r = <BlockReferred as ReadBlockFromSlice>::read_from_slice(&d, false);
    let n = r.as_ref().map(|r| r.size() as usize).unwrap_or(0);
    all.push(("the view", blk(r.map(Block::from), n)));
    agree("block", &all, &d, c)
}

fn pay(r: Result<Payload, brec::Error>) -> Verdict {
    r.map(|p| (payload_canon(&p), 0)).map_err(es)
}

fn payload(g: &mut Gen, c: &mut Ctx) -> R {
    let mut d = frame(g);
    if g.flag() {
        let n = g.us(1, 20);
        d.extend(g.blob(n));
    }
    c.sample(|| hex(&d));
    let h = <PayloadHeader as ReadFrom>::read(&mut &d[..]);
    let hs = [
        ("the streaming read", h.as_ref().map(|h| (h.as_vec(), h.size())).map_err(es)),
        ("the seekable read", st(<PayloadHeader as TryReadFrom>::try_read(&mut Cursor::new(&d[..]))).map(|h| (h.as_vec(), h.size())).map_err(es)),
        ("the buffered read", st(<PayloadHeader as TryReadFromBuffered>::try_read(&mut Cursor::new(&d[..]))).map(|h| (h.as_vec(), h.size())).map_err(es)),
    ];
    agree("payload header", &hs, &d, c)?;
    let Ok(h) = h else { return Ok(()) };
    c.nontrivial = true;
    let b = &d[h.size()..];
    let all = [
        ("the streaming read", pay(<Payload as ExtractPayloadFrom<Payload>>::read(&mut Chunked::new(b.to_vec(), chunk_sizes(g)), &h))),
        ("the seekable read", pay(st(<Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut Cursor::new(b), &h)))),
        ("the buffered read", pay(st(<Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut Cursor::new(b), &h)))),
    ];
    agree("payload", &all, &d, c)
}

/// headers: any bytes behind the signature, with a checksum that mostly fits
fn header(g: &mut Gen, c: &mut Ctx) -> R {
    let (a, b, f) = (hostile(g, 40), hostile(g, 20), if g.flag() { g.u(2) as u8 } else { g.u(255) as u8 });
    let mut d = enc_header(a, b, f);
    match g.u(3) {
        0 => {}
        1 => {
            let crc = enc_header(a, b, g.u(1) as u8);
            d[25..29].copy_from_slice(&crc[25..29]);
        }
        _ => {
            let i = g.us(0, 28);
            d[i] ^= 1 << g.u(7);
        }
    }
    let n = g.us(0, 30);
    d.extend(g.blob(n));
    c.nontrivial = true;
    c.sample(|| hex(&d));
    let show = |h: PacketHeader, n: usize| (format!("{} {} {} {}", h.size, h.blocks_len, h.payload, h.crc).into_bytes(), n);
    let mut cur = &d[..];
    let r = <PacketHeader as ReadFrom>::read(&mut cur);
    let n0 = d.len() - cur.len();
    let mut c1 = Cursor::new(&d[..]);
    let r1 = st(<PacketHeader as TryReadFrom>::try_read(&mut c1));
    let mut c2 = Cursor::new(&d[..]);
    let r2 = st(<PacketHeader as TryReadFromBuffered>::try_read(&mut c2));
    let r3 = <PacketHeader as ReadBlockFromSlice>::read_from_slice(&d, false);
    let all = [
        ("the streaming read", r.map(|h| show(h, n0)).map_err(es)),
        ("the seekable read", r1.map(|h| show(h, c1.position() as usize)).map_err(es)),
        ("the buffered read", r2.map(|h| show(h, c2.position() as usize)).map_err(es)),
        ("the read from a slice", r3.map(|h| show(h, 29)).map_err(es)),
    ];
    agree("packet header", &all, &d, c)
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    match g.weighted(&[8, 2, 3, 1]) {
        0 => packet(g, c),
        1 => {
            c.label("block alone");
            block(g, c)
        }
        2 => {
            c.label("payload alone");
            payload(g, c)
        }
        _ => {
            c.label("header alone");
            header(g, c)
        }
    }
}
