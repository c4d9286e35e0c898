use super::common::*;
use super::p03::corrupt;
use super::p04::junk;
use super::p05::damaged;
use super::p11::SLOT;
use super::store::{numbered, CAP};
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Chunked, Mem};
use crate::proto::deep::er::{BlkPath, BlkPathReferred};
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use brec::{ExtractPayloadFrom, PacketHeader, PayloadHeader, ReadBlockFrom, ReadBlockFromSlice, TryExtractPayloadFrom, TryExtractPayloadFromBuffered};
use std::io::Cursor;

pub static CHECK: Check = Check {
    id: "P16",
    level: "exploration",
    rule: "a case is one hostile input - random, mutated, or assembled from blocks, payload frames, packet headers and storage slots with valid checksums and hostile lengths, counts, flags, bodies and capacities - given to every decoder (owned and borrowed blocks, packet and payload headers, payloads, packets by all ways, the stream reader, storage open, access, iteration, reload and writer open); each call must return, within bounded steps, without panic and without a single allocation over 256 KiB (4 MiB where a serde collection is decoded) plus 16 times the input; one evaluation is one decoder call; non-trivial = some decoder got past a signature (a value, a checksum error or a request for more data after it)",
    assumptions: &["arithmetic overflow counts as a panic (overflow checks are on)", "serde may reserve up to 1 MiB of elements for a collection"],
    quick: 1_000_000,
    thorough: 60_000_000,
    threads: 8,
    alloc_limit: 256 << 20,
    case,
};

/// A length, count or capacity an attacker would write where `real` belongs.
pub fn hostile(g: &mut Gen, real: u64) -> u64 {
    match g.weighted(&[4, 3, 3, 2, 2, 2, 2, 2]) {
        0 => real,
        1 => real.wrapping_add(g.range(1, 40)),
        2 => real.saturating_sub(g.range(1, 40)),
        3 => g.u(40),
        4 => u64::MAX - g.u(64),
        5 => (1u64 << g.u(63)).wrapping_sub(g.u(2)),
        6 => real.wrapping_mul(*g.pick(&[2u64, 256, 1 << 32])),
        _ => g.u(u64::MAX),
    }
}

fn with_limit<T>(c: &mut Ctx, what: &str, limit: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    crate::alloc::reset();
    let r = f();
    let big = crate::alloc::max_single();
    crate::alloc::reset();
    c.eval();
    ensure!(big <= limit, "{what} requested {big} bytes at once (limit {limit})");
    Ok(r)
}

/// blocks with valid checksums, also with bytes no value has
pub fn hostile_block(g: &mut Gen) -> Vec<u8> {
    let b = gens::block(g);
    let mut e = enc_block(&b);
    match g.weighted(&[3, 2, 1, 1]) {
        0 => e,
        1 => {
            // any field bytes, valid checksum: enum and bool bytes out of range, NaN ...
            let n = e.len();
            for _ in 0..g.us(1, 4) {
                let i = g.us(4, n - 5);
                e[i] = g.u(255) as u8;
            }
            let crc = crc32(&e[4..n - 4]).to_le_bytes();
            e[n - 4..].copy_from_slice(&crc);
            e
        }
        2 => corrupt(g, &e),
        _ => {
            let n = g.us(0, e.len());
            e.truncate(n);
            e
        }
    }
}

/// the bytes of a payload body whose inner lengths lie
pub fn hostile_body(g: &mut Gen, p: &Payload) -> Vec<u8> {
    let mut b = payload_body(p);
    match g.weighted(&[3, 4, 2, 1]) {
        0 => b,
        1 => {
            // an 8-byte or 4-byte little-endian length somewhere
            if b.len() >= 8 {
                let i = g.us(0, b.len() - 8);
                if g.flag() {
                    let v = hostile(g, u64::from_le_bytes(b[i..i + 8].try_into().unwrap()));
                    b[i..i + 8].copy_from_slice(&v.to_le_bytes());
                } else {
                    let v = hostile(g, u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as u64) as u32;
                    b[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
            } else if !b.is_empty() {
                let i = g.us(0, b.len() - 1);
                b[i] = g.u(255) as u8;
            }
            b
        }
        2 => {
            let n = g.us(0, 80);
            g.blob(n)
        }
        _ => {
            let n = g.us(0, b.len());
            b.truncate(n);
            b
        }
    }
}

/// a payload frame with valid checksum over a body that may lie, or lying lengths
pub fn hostile_payload(g: &mut Gen) -> Vec<u8> {
    let p = gens::payload(g, 60);
    let body = hostile_body(g, &p);
    let sig = payload_sig(&p);
    let crc = payload_crc(&p, &body);
    let lie = g.weighted(&[5, 1, 1, 3, 1]);
    let mut o = vec![sig.len() as u8];
    if lie == 1 {
        o[0] = if g.flag() { *g.pick(&[4u8, 8, 16, 32, 64, 128]) } else { g.u(255) as u8 };
    }
    o.extend_from_slice(&sig);
    o.push(if lie == 2 {
        if g.flag() {
            *g.pick(&[4u8, 8, 16, 32, 64, 128])
        } else {
            g.u(255) as u8
        }
    } else {
        crc.len() as u8
    });
    o.extend_from_slice(&crc);
    let len = if lie == 3 { hostile(g, body.len() as u64) as u32 } else { body.len() as u32 };
    o.extend_from_slice(&len.to_le_bytes());
    o.extend_from_slice(&body);
    if lie == 4 {
        let n = g.us(0, o.len());
        o.truncate(n);
    }
    o
}

pub fn hostile_packet(g: &mut Gen) -> Vec<u8> {
    let n = match g.weighted(&[20, 1]) {
        0 => g.us(0, 4),
        _ => g.us(250, 300),
    };
    let blocks: Vec<u8> = if n > 4 {
        (0..n).flat_map(|i| enc_block(&Block::BlkU8(BlkU8 { v: i as u8 }))).collect()
    } else {
        (0..n).flat_map(|_| if g.flag() { enc_block(&gens::block_small(g)) } else { hostile_block(g) }).collect()
    };
    let pl = if g.flag() { hostile_payload(g) } else { Vec::new() };
    let size = (blocks.len() + pl.len()) as u64;
    let (mut s, mut b, mut f) = (size, blocks.len() as u64, !pl.is_empty() as u8);
    if g.chance(2, 3) {
        match g.weighted(&[3, 3, 2, 3]) {
            0 => s = hostile(g, size),
            1 => b = hostile(g, b),
            2 => f = if g.flag() { 1 - f } else { g.u(255) as u8 },
            _ => {
                s = hostile(g, size);
                b = if g.flag() { hostile(g, b) } else { hostile(g, s) };
                f = g.u(1) as u8;
            }
        }
    }
    let mut v = enc_header(s, b, f);
    if f > 1 {
        // the checksum is that of the normalized flag
        let crc = enc_header(s, b, g.u(1) as u8);
        v[25..29].copy_from_slice(&crc[25..29]);
    }
    v.extend_from_slice(&blocks);
    v.extend_from_slice(&pl);
    v
}

fn enc_slot(cap: u64, lens: &[u64]) -> Vec<u8> {
    let mut o = brec::STORAGE_SLOT_SIG.to_vec();
    let mut f = cap.to_le_bytes().to_vec();
    for l in lens {
        f.extend_from_slice(&l.to_le_bytes());
    }
    o.extend_from_slice(&f);
    // the checksum covers capacity and lengths
    o.extend_from_slice(&crc32(&f).to_le_bytes());
    o
}

/// a storage with valid slot checksums, and lies in them
fn hostile_storage(g: &mut Gen) -> Vec<u8> {
    let mut o = Vec::new();
    let slots = g.us(1, 4);
    for k in 0..slots {
        let last = k + 1 == slots;
        let cap: u64 = match g.weighted(&[5, 2, 2, 1]) {
            0 => CAP as u64,
            1 => g.u(6),
            2 => *g.pick(&[CAP as u64 - 1, CAP as u64 + 1, 1, 0, 5000]),
            _ => hostile(g, CAP as u64),
        };
        let real = if g.chance(1, 12) { hostile(g, cap).min(6000) as usize } else { cap.min(6000) as usize };
        let n = if real == 0 {
            0
        } else if !last && g.chance(1, 2) {
            real
        } else {
            g.us(0, real.min(8))
        };
        let packets: Vec<Vec<u8>> = (0..n)
            .map(|i| {
                if n > 20 {
                    return vec![7u8; (i % 3) + 1];
                }
                match g.weighted(&[4, 2, 1]) {
                    0 => enc_packet(&numbered(g, i as u64)),
                    1 => hostile_packet(g),
                    _ => {
                        let n = g.us(1, 40);
                        g.blob(n)
                    }
                }
            })
            .collect();
        let mut lens = vec![0u64; real];
        for (i, p) in packets.iter().enumerate() {
            lens[i] = p.len() as u64;
        }
        if real > 0 {
            match g.weighted(&[3, 3, 1, 1, 1]) {
                0 => {}
                1 => {
                    let i = g.us(0, n.min(real - 1));
                    lens[i] = hostile(g, lens[i]);
                }
                2 => {
                    let i = g.us(0, real - 1);
                    lens[i] = hostile(g, lens[i]);
                }
                3 => {
                    // sums that leave the range of offsets
                    for _ in 0..g.us(2, 4) {
                        let i = g.us(0, (n + 2).min(real - 1));
                        lens[i] = u64::MAX / 2 - g.u(9000) + g.u(9000);
                    }
                }
                _ => {
                    let v = hostile(g, 9);
                    for l in lens.iter_mut() {
                        *l = v;
                    }
                }
            }
        }
        o.extend_from_slice(&enc_slot(cap, &lens));
        for p in packets {
            o.extend_from_slice(&p);
        }
        if g.chance(1, 10) {
            let j = hostile_packet(g);
            o.extend_from_slice(&j);
        }
    }
    match g.weighted(&[6, 1, 1]) {
        0 => o,
        1 => {
            let n = g.us(0, o.len());
            o.truncate(n);
            o
        }
        _ if o.len() >= 4 => corrupt(g, &o),
        _ => o,
    }
}

fn input(g: &mut Gen, c: &mut Ctx) -> (Vec<u8>, bool) {
    let k = g.weighted(&[3, 4, 6, 8, 3, 3, 5]);
    c.label(["random", "blocks", "payload frame", "packet", "damaged stream", "mutated stream", "storage"][k]);
    let v = match k {
        0 => {
            let n = g.us(0, 200);
            let mut v = g.blob(n);
            match g.u(3) {
                1 => v.splice(0..0, SIG8).for_each(drop),
                2 => v.splice(0..0, brec::STORAGE_SLOT_SIG).for_each(drop),
                _ => {}
            }
            v
        }
        1 => (0..g.us(1, 3)).flat_map(|_| hostile_block(g)).collect(),
        2 => hostile_payload(g),
        3 => (0..g.us(1, 3)).flat_map(|_| hostile_packet(g)).collect(),
        4 => {
            let mut v = Vec::new();
            for _ in 0..g.us(1, 4) {
                match g.u(2) {
                    0 => v.extend(damaged(g, c).0),
                    1 => v.extend(junk(g, c)),
                    _ => v.extend(hostile_packet(g)),
                }
            }
            v
        }
        5 => {
            let mut v: Vec<u8> = (0..g.us(1, 3)).flat_map(|_| enc_packet(&gens::packet_small(g, 60))).collect();
            for _ in 0..g.us(1, 6) {
                if v.len() < 4 {
                    break;
                }
                v = corrupt(g, &v);
            }
            v
        }
        _ => return (hostile_storage(g), true),
    };
    (v, false)
}

macro_rules! blocks {
    ($c:expr, $d:expr, $lim:expr, $hit:expr; $($t:ty, $r:ty);*) => { $({
        let d: &[u8] = $d;
        for skip in [false, true] {
            let r = with_limit($c, concat!(stringify!($t), " read"), $lim, || <$t as ReadBlockFrom>::read(&mut &d[..], skip).map(|_| ()))?;
            $hit |= !skip && r.is_ok();
            let r = with_limit($c, concat!(stringify!($t), " view"), $lim, || <$r as ReadBlockFromSlice>::read_from_slice(d, skip).map(|v| { let _: $t = v.into(); }))?;
            $hit |= !skip && r.is_ok();
        }
        let r = with_limit($c, concat!(stringify!($t), " seekable read"), $lim, || <$t as TryReadFrom>::try_read(&mut Cursor::new(d)))?;
        $hit |= r.is_ok();
        zero($d, &r)?;
        let r = with_limit($c, concat!(stringify!($t), " buffered read"), $lim, || <$t as TryReadFromBuffered>::try_read(&mut Cursor::new(d)))?;
        zero($d, &r)?;
    })* };
}

fn zero<T>(d: &[u8], r: &Result<ReadStatus<T>, brec::Error>) -> R {
    if let Ok(ReadStatus::NotEnoughData(n)) = r {
        ensure!(*n > 0, "zero bytes more are asked for ({} given)", d.len());
    }
    Ok(())
}

fn decoders(g: &mut Gen, c: &mut Ctx, d: &[u8]) -> R {
    let lim = (256 << 10) + 16 * d.len();
    let plim = (4 << 20) + 16 * d.len();
    let mut hit = false;
    if g.chance(2, 3) {
        blocks!(c, d, lim, hit; BlkU8, BlkU8Referred; BlkTwin, BlkTwinReferred; BlkBools, BlkBoolsReferred; BlkScalars, BlkScalarsReferred; BlkEnum, BlkEnumReferred;
            BlkBlobs, BlkBlobsReferred; BlkNoCrc, BlkNoCrcReferred; BlkFloat, BlkFloatReferred; BlkPath, BlkPathReferred; BlkBig, BlkBigReferred);
    }
    hit |= with_limit(c, "block", lim, || <Block as ReadFrom>::read(&mut &d[..]))?.is_ok();
    for skip in [false, true] {
        let _ = with_limit(c, "block", lim, || <Block as ReadBlockFrom>::read(&mut &d[..], skip).is_ok())?;
        let _ = with_limit(c, "block view", lim, || <BlockReferred as ReadBlockFromSlice>::read_from_slice(d, skip).map(Block::from).is_ok())?;
    }
    zero(d, &with_limit(c, "block", lim, || <Block as TryReadFrom>::try_read(&mut Cursor::new(d)))?)?;
    zero(d, &with_limit(c, "block", lim, || <Block as TryReadFromBuffered>::try_read(&mut Cursor::new(d)))?)?;
    // packet header
    let _ = with_limit(c, "packet header", lim, || <PacketHeader as ReadFrom>::read(&mut &d[..]).is_ok())?;
    let _ = with_limit(c, "packet header", lim, || <PacketHeader as ReadBlockFromSlice>::read_from_slice(d, g.flag()).is_ok())?;
    zero(d, &with_limit(c, "packet header", lim, || <PacketHeader as TryReadFrom>::try_read(&mut Cursor::new(d)))?)?;
    zero(d, &with_limit(c, "packet header", lim, || <PacketHeader as TryReadFromBuffered>::try_read(&mut Cursor::new(d)))?)?;
    let _ = with_limit(c, "header search", lim, || (PacketHeader::get_pos(d), PacketHeader::is_not_enought(d)))?;
    // payload header and body
    let h = with_limit(c, "payload header", lim, || <PayloadHeader as ReadFrom>::read(&mut &d[..]))?;
    zero(d, &with_limit(c, "payload header", lim, || <PayloadHeader as TryReadFrom>::try_read(&mut Cursor::new(d)))?)?;
    zero(d, &with_limit(c, "payload header", lim, || <PayloadHeader as TryReadFromBuffered>::try_read(&mut Cursor::new(d)))?)?;
    if let Ok(h) = h {
        hit = true;
        let n = h.size().min(d.len());
        let b = &d[n..];
        let _ = with_limit(c, "payload header bytes", lim, || h.as_vec())?;
        let _ = with_limit(c, "payload", plim, || <Payload as ExtractPayloadFrom<Payload>>::read(&mut &b[..], &h).is_ok())?;
        zero(d, &with_limit(c, "payload", plim, || <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut Cursor::new(b), &h))?)?;
        zero(d, &with_limit(c, "payload", plim, || <Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut Cursor::new(b), &h))?)?;
        // its own type
        macro_rules! own { ($($t:ty),*) => { $(
            let _ = with_limit(c, stringify!($t), plim, || <$t as ReadPayloadFrom<$t>>::read(&mut &b[..], &h).is_ok())?;
            zero(d, &with_limit(c, stringify!($t), plim, || <$t as TryReadPayloadFrom<$t>>::try_read(&mut Cursor::new(b), &h))?)?;
            zero(d, &with_limit(c, stringify!($t), plim, || <$t as TryReadPayloadFromBuffered<$t>>::try_read(&mut Cursor::new(b), &h))?)?;
        )* } }
        own!(PlStruct, PlEnum, PlMap, PlCrc16, PlManual, Vec<u8>, String);
    }
    // packets
    let sizes = chunk_sizes(g);
    let r = with_limit(c, "packet", plim, || <Packet as ReadFrom>::read(&mut &d[..]))?;
    hit |= !matches!(r, Err(brec::Error::SignatureDismatch));
    let _ = with_limit(c, "packet", plim, || <Packet as ReadFrom>::read(&mut Chunked::new(d.to_vec(), sizes.clone())).is_ok())?;
    for at in [0, g.us(0, d.len()) as u64, d.len() as u64 + 7] {
        let mut cur = Cursor::new(d);
        cur.set_position(at);
        zero(d, &with_limit(c, "packet", plim, || <Packet as TryReadFrom>::try_read(&mut cur))?)?;
        cur.set_position(at);
        zero(d, &with_limit(c, "packet", plim, || <Packet as TryReadFromBuffered>::try_read(&mut cur))?)?;
        cur.set_position(at);
        let mut rules = Rules::default();
        if g.flag() {
            rules.add_rule(Rule::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(|b: &[BlockReferred]| b.len() < 300)))).map_err(es)?;
        }
        if g.flag() {
            rules.add_rule(Rule::FilterByPayload(brec::RuleFnDef::Dynamic(Box::new(|b: &[u8]| b.len() < usize::MAX)))).map_err(es)?;
        }
        if let Ok(brec::LookInStatus::NotEnoughData(n)) = with_limit(c, "filtered packet", plim, || Packet::filtered(&mut cur, &rules))? {
            ensure!(n > 0, "zero bytes more are asked for by a filtered read");
        }
    }
    // stream reader: each call ends, and all of them together
    let mut src = Chunked::new(d.to_vec(), sizes.clone());
    let run = with_limit(c, "stream reader", plim, || run_reader(&mut src, d.len()))?.map_err(|e| format!("{e}; chunks {sizes:?}"))?;
    ensure!(run.ended, "the stream reader does not end");
    ensure!(run.ignored.len() <= d.len(), "{} bytes ignored of {}", run.ignored.len(), d.len());
    hit |= !run.packets.is_empty() || run.errors > 0;
    c.nontrivial |= hit;
    Ok(())
}

fn storage(g: &mut Gen, c: &mut Ctx, d: &[u8]) -> R {
    let lim = (4 << 20) + 16 * d.len();
    let mem = Mem::with(d.to_vec());
    mem.st.lock().unwrap().far = true;
    // a slot takes at least 20 bytes and stands for at most 500 packets by position
    let bound = |n: usize| (n / 20 + 2) * 500 + n;
    let mut max_items = bound(d.len());
    let opened = with_limit(c, "opening a storage", lim, || {
        let r: Result<Reader<Mem>, _> = Reader::new(mem.handle());
        r
    })?;
    c.nontrivial |= !matches!(opened, Err(brec::Error::SignatureDismatch));
    if let Ok(mut rd) = opened {
        c.label("storage opened");
        let n = rd.count();
        let rounds = if g.chance(1, 3) { 2 } else { 1 };
        for round in 0..rounds {
            for _ in 0..g.us(1, 5) {
                let i = match g.weighted(&[4, 1, 1]) {
                    0 => g.us(0, 12),
                    1 => g.us(0, n + 600),
                    _ => usize::MAX - g.us(0, 3),
                };
                let _ = with_limit(c, "nth", lim, || rd.nth(i).is_ok())?;
                let mut items = 0;
                let _ = with_limit(c, "seek", lim, || {
                    if let Ok(it) = rd.seek(i) {
                        items = it.take(max_items + 1).count();
                    }
                })?;
                ensure!(items <= max_items, "iteration from {i} does not end ({n} packets)");
                let len = if g.flag() { g.us(0, 20) } else { usize::MAX - g.us(0, 3) };
                let items = with_limit(c, "range", lim, || rd.range(i, len).take(max_items + 1).count())?;
                ensure!(items <= max_items, "range({i}, {len}) does not end ({n} packets)");
                let items = with_limit(c, "filtered range", lim, || rd.range_filtered(i, len).take(max_items + 1).count())?;
                ensure!(items <= max_items, "filtered range({i}, {len}) does not end ({n} packets)");
            }
            let items = with_limit(c, "iteration", lim, || rd.iter().take(max_items + 1).count())?;
            ensure!(items <= max_items, "iteration does not end ({n} packets)");
            let items = with_limit(c, "filtered iteration", lim, || rd.filtered().take(max_items + 1).count())?;
            ensure!(items <= max_items, "filtered iteration does not end ({n} packets)");
            if round + 1 < rounds {
                // the file changes under the reader: it grows, is cut or altered
                let mut st = mem.st.lock().unwrap();
                match g.u(3) {
                    0 => {
                        let add = hostile_storage(g);
                        st.data.extend_from_slice(&add);
                    }
                    1 => {
                        let l = g.us(0, st.data.len());
                        st.data.truncate(l);
                    }
                    2 => st.data = hostile_storage(g),
                    _ => {
                        if st.data.len() >= 4 {
                            let d = corrupt(g, &st.data);
                            st.data = d;
                        }
                    }
                }
                drop(st);
                let lim = (4 << 20) + 16 * mem.bytes().len();
                // what was known before stays reachable
                max_items = max_items.max(bound(mem.bytes().len() + d.len()));
                let _ = with_limit(c, "reload", lim, || rd.reload().is_ok())?;
                c.label("reloaded");
            }
        }
    }
    let mem = Mem::with(d.to_vec());
    mem.st.lock().unwrap().far = true;
    let _ = with_limit(c, "opening a storage for writing", lim, || {
        let w: Result<Writer<Mem>, _> = Writer::new(mem.handle());
        w.is_ok()
    })?;
    Ok(())
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let (d, st) = input(g, c);
    c.sample(|| hex(&d));
    if st {
        storage(g, c, &d)?;
        if g.chance(1, 8) {
            decoders(g, c, &d)?;
        }
    } else {
        decoders(g, c, &d)?;
        if g.chance(1, 8) {
            storage(g, c, &d)?;
        }
    }
    Ok(())
}
