use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::io::Chunked;
use crate::refc::{crc32, enc_header, hex};
use brec::prelude::*;
use brec::{ByteBlock, ExtractPayloadFrom, PayloadHeader, TryExtractPayloadFrom, TryExtractPayloadFromBuffered};
use std::io::Cursor;
use wide::{BlkA, BlkB, Block, Packet, Payload, KINDS, LENS};

pub static CHECK: Check = Check {
    id: "P18",
    level: "exploration",
    rule: "a case is a payload of one of 36 kinds (every pair of signature and checksum lengths; signatures share prefixes) or a built-in one with generated content, framed and read alone and inside packets by every path, then presented with a foreign signature, an altered checksum or body, and supported and unsupported lengths; non-trivial = the payload is not of the default 4/4 shape",
    assumptions: &["a payload kind announces its true checksum length in crc_size()"],
    quick: 400_000,
    thorough: 40_000_000,
    threads: 8,
    alloc_limit: 16 << 20,
    case,
};

type Seen = (usize, Vec<u8>);

/// header and payload of a frame by the three ways
fn read_frame(f: &[u8]) -> [Result<Option<Seen>, String>; 3] {
    let a = (|| {
        let mut cur = f;
        let h = <PayloadHeader as ReadFrom>::read(&mut cur).map_err(es)?;
        let p = <Payload as ExtractPayloadFrom<Payload>>::read(&mut cur, &h).map_err(es)?;
        Ok(Some(wide::look(&p)))
    })();
    let b = (|| {
        let mut cur = Cursor::new(f);
        let ReadStatus::Success(h) = <PayloadHeader as TryReadFrom>::try_read(&mut cur).map_err(es)? else { return Ok(None) };
        match <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut cur, &h).map_err(es)? {
            ReadStatus::Success(p) => Ok(Some(wide::look(&p))),
            _ => Ok(None),
        }
    })();
    let c = (|| {
        let mut cur = f;
        let ReadStatus::Success(h) = <PayloadHeader as TryReadFromBuffered>::try_read(&mut cur).map_err(es)? else { return Ok(None) };
        let mut cur = &f[h.size()..];
        match <Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut cur, &h).map_err(es)? {
            ReadStatus::Success(p) => Ok(Some(wide::look(&p))),
            _ => Ok(None),
        }
    })();
    [a, b, c]
}
const WAYS: [&str; 3] = ["streaming", "seekable", "buffered"];

fn packet_ways(data: &[u8], g: &mut Gen) -> Result<Vec<(&'static str, Result<Option<Seen>, String>, usize)>, String> {
    let seen = |p: &Packet| p.payload.as_ref().map(wide::look);
    let mut out = Vec::new();
    let mut src = Chunked::new(data.to_vec(), chunk_sizes(g));
    let r = <Packet as ReadFrom>::read(&mut src).map(|p| seen(&p)).map_err(es);
    out.push(("streaming", r, src.pos));
    let mut cur = Cursor::new(data);
    let r = match <Packet as TryReadFrom>::try_read(&mut cur) {
        Ok(ReadStatus::Success(p)) => Ok(seen(&p)),
        Ok(ReadStatus::NotEnoughData(n)) => Err(format!("needs {n}")),
        Err(e) => Err(es(e)),
    };
    out.push(("seekable", r, cur.position() as usize));
    let mut cur = Cursor::new(data);
    let r = match <Packet as TryReadFromBuffered>::try_read(&mut cur) {
        Ok(ReadStatus::Success(p)) => Ok(seen(&p)),
        Ok(ReadStatus::NotEnoughData(n)) => Err(format!("needs {n}")),
        Err(e) => Err(es(e)),
    };
    out.push(("buffered", r, cur.position() as usize));
    let mut cur = Cursor::new(data);
    let rules: wide::Rules = wide::Rules::default();
    let r = match Packet::filtered(&mut cur, &rules) {
        Ok(brec::LookInStatus::Accepted(_, p)) => Ok(seen(&p)),
        Ok(_) => Err("not accepted".into()),
        Err(e) => Err(es(e)),
    };
    out.push(("filtered", r, cur.position() as usize));
    let mut src = Chunked::new(data.to_vec(), chunk_sizes(g));
    let mut rd: wide::PacketBufReader<Chunked> = wide::PacketBufReader::new(&mut src);
    let mut r = Err("nothing delivered".to_string());
    for _ in 0..data.len() * 2 + 100 {
        match rd.read() {
            Ok(NextPacket::Found(p)) => {
                r = Ok(seen(&p));
                break;
            }
            Ok(NextPacket::NoData) => break,
            Ok(_) => {}
            Err(e) => {
                r = Err(es(e));
                break;
            }
        }
    }
    out.push(("stream reader", r, data.len()));
    Ok(out)
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let kind = g.us(0, KINDS - 1);
    let n = match g.weighted(&[3, 3, 1]) {
        0 => g.us(0, 8),
        1 => g.us(0, 200),
        _ => g.us(0, 6000),
    };
    let data = g.blob(n);
    let (s, k) = (LENS[kind / 6], LENS[kind % 6]);
    c.nontrivial = kind != 0;
    c.label(&format!("{s}/{k}"));
    c.sample(|| format!("signature {s} checksum {k} body {}", hex(&data)));
    let want = wide::frame(kind, &data);
    let hlen = want.len() - data.len();
    let id = format!("payload with {s}-byte signature, {k}-byte checksum and {n} bytes");
    // writing
    let mut p = wide::make(kind, data.clone());
    let mut outs = wide::write_as(kind, &data).map_err(|e| format!("{id}: {e}"))?;
    let mut o = Vec::new();
    brec::WriteMutTo::write_all(&mut p, &mut o).map_err(es)?;
    outs.push(o);
    let mut o = Vec::new();
    brec::WriteVectoredMutTo::write_vectored_all(&mut p, &mut o).map_err(es)?;
    outs.push(o);
    for o in &outs {
        ensure!(*o == want, "{id} is framed as {} instead of {}", hex(o), hex(&want));
        c.eval();
    }
    let ph = brec::PacketHeader::payload_size(&p).map_err(es)?;
    ensure!(ph as usize == want.len(), "{id}: announced size {ph}, written {}", want.len());
    let ss = PayloadHeader::ssize(&p).map_err(es)?;
    ensure!(ss == hlen, "{id}: announced header size {ss}, written {hlen}");
    let h = PayloadHeader::new(&p).map_err(es)?;
    ensure!(h.size() == hlen && h.as_vec() == want[..hlen], "{id}: header is {} instead of {}", hex(&h.as_vec()), hex(&want[..hlen]));
    // reading alone
    for (w, r) in WAYS.iter().zip(read_frame(&want)) {
        ensure!(r == Ok(Some((kind, data.clone()))), "{id}: {w} read gives {r:?}");
        c.eval();
    }
    for (w, r) in WAYS.iter().zip(wide::read_as(kind, &h, &want[hlen..])) {
        ensure!(matches!(&r, Ok(Some(d)) if *d == data), "{id}: {w} read of the kind itself gives {r:?}");
    }
    // another kind's reader refuses it
    let other = (kind + g.us(1, KINDS - 1)) % KINDS;
    for (w, r) in WAYS.iter().zip(wide::read_as(other, &h, &want[hlen..])) {
        ensure!(!matches!(&r, Ok(Some(_))), "{id}: {w} read as kind {other} accepts it");
        c.eval();
    }
    // damaged in place: signature, checksum, body
    for part in 0..3 {
        let (from, to) = [(1, 1 + s), (2 + s, 2 + s + k), (hlen, want.len())][part];
        if from == to {
            continue;
        }
        let mut bad = want.clone();
        let i = g.us(from, to - 1);
        bad[i] ^= 1 << g.u(7);
        for (w, r) in WAYS.iter().zip(read_frame(&bad)) {
            // another kind may own the altered signature; its checksum then differs in length or value
            ensure!(!matches!(r, Ok(Some(_))), "{id}: {w} read accepts it with an altered {} as {r:?}", ["signature", "checksum", "body"][part]);
            c.eval();
        }
    }
    // unsupported lengths are refused, supported but wrong ones never read as something else
    for at in [0, 1 + s] {
        let mut bad = want.clone();
        bad[at] = if g.flag() { *g.pick(&LENS) as u8 } else { g.u(255) as u8 };
        if bad[at] == want[at] {
            continue;
        }
        let supported = LENS.contains(&(bad[at] as usize));
        for (w, r) in WAYS.iter().zip(read_frame(&bad)) {
            ensure!(!matches!(r, Ok(Some(_))), "{id}: {w} read accepts length byte {} at {at}: {r:?}", bad[at]);
            ensure!(supported || r.is_err(), "{id}: {w} read does not refuse the unsupported length {} at {at}: {r:?}", bad[at]);
            c.eval();
        }
        ensure!(supported == ByteBlock::is_valid_capacity(bad[at]).is_ok(), "length {} taken for {}supported", bad[at], if supported { "un" } else { "" });
    }
    // cut anywhere: more data is asked for
    let cut = g.us(0, want.len() - 1);
    for (w, r) in WAYS.iter().zip(read_frame(&want[..cut])) {
        ensure!(!matches!(r, Ok(Some(_))), "{id}: {w} read accepts {cut} of {} bytes", want.len());
    }
    // in a packet
    let blocks: Vec<Block> = (0..g.us(0, 3)).map(|i| if i % 2 == 0 { Block::BlkA(BlkA { v: g.u(u32::MAX as u64) as u32 }) } else { Block::BlkB(BlkB { v: [i as u8; 7] }) }).collect();
    let nb = blocks.len();
    let pl = if g.chance(1, 8) { wide::make(36 + g.us(0, 1), b"plain".to_vec()) } else { p };
    let seen = wide::look(&pl);
    let mut pk = Packet::new(blocks, Some(pl));
    let mut e = Vec::new();
    if g.flag() {
        pk.write_all(&mut e).map_err(es)?;
    } else {
        pk.write_vectored_all(&mut e).map_err(es)?;
    }
    let size = u64::from_le_bytes(e[8..16].try_into().unwrap());
    ensure!(size as usize == e.len() - 29, "{id}: packet announces {size} bytes, {} follow", e.len() - 29);
    if seen.0 < KINDS {
        ensure!(e.ends_with(&want), "{id}: framed differently in a packet");
        let bl = e.len() - 29 - want.len();
        ensure!(e[..29] == enc_header(size, bl as u64, 1), "{id}: packet header is {}", hex(&e[..29]));
    }
    let end = e.len();
    let mut stream = e.clone();
    if g.flag() {
        // the next packet follows at once
        stream.extend_from_slice(&e);
    }
    for (w, r, pos) in packet_ways(&stream, g)? {
        ensure!(r == Ok(Some(seen.clone())), "{id} in a packet with {nb} blocks: {w} read gives {r:?}");
        ensure!(w == "stream reader" || pos == end, "{id} in a packet: {w} read ends at {pos} of {end}");
        c.eval();
    }
    let _ = crc32(&[]);
    // byte blocks of any length
    let n = g.us(0, 300);
    let v = g.blob(n);
    match ByteBlock::try_from(v.clone()) {
        Ok(b) => ensure!(LENS.contains(&n) && b.as_slice() == v && b.size() == n, "a byte block of {n} bytes holds {} bytes", b.size()),
        Err(_) => ensure!(!LENS.contains(&n), "a byte block of {n} bytes is refused"),
    }
    Ok(())
}
