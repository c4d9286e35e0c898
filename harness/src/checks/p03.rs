use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use std::io::Cursor;

pub static CHECK: Check = Check {
    id: "P03",
    level: "exploration",
    rule: "a case is a generated packet (checksummed blocks and payloads) and a set of corruptions of its bytes (all single-bit flips for short packets, or generated byte changes, bursts, swaps, moved bytes, truncations), each presented to every read path, plus single blocks and payloads; one evaluation is one corrupted input on all its read paths; non-trivial = the corrupted bytes differ from the original and the packet is not empty",
    assumptions: &["checksum collisions have probability 2^-32 per evaluation", "an alteration that yields a complete valid encoding of another value, checksum included, is not counted as corruption", "no_crc blocks and payloads are excluded: they are unprotected by definition"],
    quick: 200_000,
    thorough: 20_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

/// A corrupted copy that differs from the original.
pub fn corrupt(g: &mut Gen, e: &[u8]) -> Vec<u8> {
    let mut v = e.to_vec();
    let len = v.len();
    match g.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => {
            let i = g.us(0, len - 1);
            v[i] ^= 1 << g.u(7);
        }
        1 => {
            let i = g.us(0, len - 1);
            v[i] = v[i].wrapping_add(g.range(1, 255) as u8);
        }
        2 => {
            let i = g.us(0, len - 1);
            let n = g.us(1, 8.min(len - i));
            for x in v[i..i + n].iter_mut() {
                *x = x.wrapping_add(g.u(255) as u8);
            }
        }
        3 => {
            let i = g.us(0, len - 1);
            let j = g.us(0, len - 1);
            v.swap(i, j);
        }
        4 => {
            // exchange two neighbouring runs
            let n = g.us(1, (len / 2).min(8));
            let i = g.us(0, len - 2 * n);
            for k in 0..n {
                v.swap(i + k, i + n + k);
            }
        }
        _ => {
            let i = g.us(0, len - 1);
            let b = v.remove(i);
            let j = g.us(0, len - 1);
            v.insert(j, b);
        }
    }
    v
}

/// The altered bytes happen to be a complete valid encoding of the other value, checksums included
/// (e.g. zeros moved over the length and the checksum of an empty body): not a corruption any reader can see.
fn forged(bad: &[u8], valid: &[u8]) -> bool {
    !valid.is_empty() && bad.len() >= valid.len() && bad.windows(valid.len()).any(|w| w == valid)
}

/// Each part of the packet lies in the altered bytes as a complete valid encoding (the payload length is not
/// protected by any checksum, so the header's body size may disagree with it).
fn forged_packet(bad: &[u8], p: &Packet) -> bool {
    let mut blocks = Vec::new();
    for b in &p.blocks {
        blocks.extend_from_slice(&enc_block(b));
    }
    let blocks_len = blocks.len();
    if let Some(pl) = &p.payload {
        blocks.extend_from_slice(&enc_payload(pl));
    }
    (blocks.is_empty() || forged(bad, &blocks)) && (0..bad.len().saturating_sub(28)).any(|i| {
        let h = &bad[i..i + 29];
        let size = u64::from_le_bytes(h[8..16].try_into().unwrap());
        size >= blocks.len() as u64 && h == enc_header(size, blocks_len as u64, p.payload.is_some() as u8)
    })
}

fn judge(name: &str, got: Got, want: &[u8], bad: &[u8], good: &[u8]) -> R {
    if let Got::Packet(p) = got {
        ensure!(
            canon(&p) == want || forged_packet(bad, &p),
            "{name} read accepted corrupted bytes as a different packet: wrote {} read {}; corrupted at {:?}",
            hex(good),
            describe(&p),
            good.iter().zip(bad).enumerate().filter(|(_, (a, b))| a != b).map(|(i, (a, b))| (i, *a, *b)).take(8).collect::<Vec<_>>()
        );
    }
    Ok(())
}

fn all_paths(bad: &[u8], good: &[u8], want: &[u8], sizes: &[usize]) -> R {
    judge("streaming", rd_stream(&mut &bad[..]), want, bad, good)?;
    judge("seekable", rd_seek(&mut Cursor::new(bad)), want, bad, good)?;
    judge("buffered", rd_buf(&mut Cursor::new(bad)), want, bad, good)?;
    judge("filtered", rd_filtered(&mut Cursor::new(bad)), want, bad, good)?;
    let mut src = crate::io::Chunked::new(bad.to_vec(), sizes.to_vec());
    let run = run_reader(&mut src, bad.len())?;
    for p in run.packets {
        judge("stream reader", Got::Packet(p), want, bad, good)?;
    }
    Ok(())
}

macro_rules! concrete_reads {
    ($b:expr, $bad:expr, $($v:ident => $t:ty, $r:ty);*) => { match $b { $(
        Block::$v(_) => {
            let a = <$t as brec::ReadBlockFrom>::read(&mut &$bad[..], false).ok().map(Block::$v);
            let b = <$t as brec::TryReadFrom>::try_read(&mut Cursor::new($bad)).ok().and_then(|s| match s { ReadStatus::Success(x) => Some(Block::$v(x)), _ => None });
            let c = <$t as brec::TryReadFromBuffered>::try_read(&mut Cursor::new($bad)).ok().and_then(|s| match s { ReadStatus::Success(x) => Some(Block::$v(x)), _ => None });
            let d = <$r as brec::ReadBlockFromSlice>::read_from_slice($bad, false).ok().map(|x| Block::$v(x.into()));
            let e = if $bad.len() > 4 { <$t as brec::ReadBlockFrom>::read(&mut &$bad[4..], true).ok().map(Block::$v) } else { None };
            [a, b, c, d, e]
        } )* } };
}

fn block_alone(g: &mut Gen, c: &mut Ctx, b: &Block, e: &[u8]) -> R {
    let e = e.to_vec();
    let want = enc_block(b);
    for _ in 0..6 {
        let bad = corrupt(g, &e);
        if bad == e {
            continue;
        }
        c.eval();
        let bad = &bad[..];
        let outs = concrete_reads!(b, bad,
            BlkU8 => BlkU8, BlkU8Referred; BlkTwin => BlkTwin, BlkTwinReferred; BlkScalars => BlkScalars, BlkScalarsReferred;
            BlkBools => BlkBools, BlkBoolsReferred; BlkBlobs => BlkBlobs, BlkBlobsReferred; BlkBig => BlkBig, BlkBigReferred;
            BlkEnum => BlkEnum, BlkEnumReferred; BlkNoCrc => BlkNoCrc, BlkNoCrcReferred; BlkFloat => BlkFloat, BlkFloatReferred;
            CrateProtoDeepErBlkPath => crate::proto::deep::er::BlkPath, crate::proto::deep::er::BlkPathReferred);
        for (i, o) in outs.into_iter().enumerate() {
            let name = ["stream", "seekable", "buffered", "slice", "stream after signature"][i];
            if let Some(o) = o {
                ensure!(enc_block(&o) == want || forged(bad, &enc_block(&o)[4..]), "{name} block read accepted {} (from {}) as a different block {o:?}", hex(bad), hex(&e));
                // the signature is part of the protected data except when the caller skipped it
                ensure!(i == 4 || bad[..4] == e[..4], "{name} block read accepted a corrupted signature {} (from {})", hex(bad), hex(&e));
            }
        }
        // through the unified type
        let outs: Vec<Option<Block>> = vec![
            <Block as brec::ReadFrom>::read(&mut &bad[..]).ok(),
            <Block as brec::TryReadFrom>::try_read(&mut Cursor::new(bad)).ok().and_then(|s| if let ReadStatus::Success(x) = s { Some(x) } else { None }),
            <Block as brec::TryReadFromBuffered>::try_read(&mut Cursor::new(bad)).ok().and_then(|s| if let ReadStatus::Success(x) = s { Some(x) } else { None }),
            <BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(bad, false).ok().map(|x| x.into()),
        ];
        for o in outs.into_iter().flatten() {
            ensure!(enc_block(&o) == want || forged(bad, &enc_block(&o)), "unified block read accepted {} (from {}) as a different block {o:?}", hex(bad), hex(&e));
        }
    }
    Ok(())
}

fn payload_alone(g: &mut Gen, c: &mut Ctx, p: &Payload, e: &[u8]) -> R {
    let e = e.to_vec();
    let want = payload_canon(p);
    for _ in 0..6 {
        let bad = corrupt(g, &e);
        if bad == e {
            continue;
        }
        c.eval();
        let mut outs: Vec<(&str, Payload)> = Vec::new();
        let mut cur = &bad[..];
        if let Ok(h) = <brec::PayloadHeader as ReadFrom>::read(&mut cur) {
            if (h.len as usize) <= bad.len() {
                if let Ok(x) = <Payload as brec::ExtractPayloadFrom<Payload>>::read(&mut cur, &h) {
                    outs.push(("stream", x));
                }
            }
        }
        let mut cur = Cursor::new(&bad[..]);
        if let Ok(ReadStatus::Success(h)) = <brec::PayloadHeader as TryReadFrom>::try_read(&mut cur) {
            if let Ok(ReadStatus::Success(x)) = <Payload as brec::TryExtractPayloadFrom<Payload>>::try_read(&mut cur, &h) {
                outs.push(("seekable", x));
            }
        }
        let mut cur = &bad[..];
        if let Ok(ReadStatus::Success(h)) = <brec::PayloadHeader as TryReadFromBuffered>::try_read(&mut cur) {
            cur = &bad[h.size()..];
            if (h.len as usize) <= bad.len() {
                if let Ok(ReadStatus::Success(x)) = <Payload as brec::TryExtractPayloadFromBuffered<Payload>>::try_read(&mut cur, &h) {
                    outs.push(("buffered", x));
                }
            }
        }
        for (n, o) in outs {
            // unprotected kinds may be reached by rewriting the signature; a checksum of zeros would have to match too
            ensure!(payload_canon(&o) == want || forged(&bad, &enc_payload(&o)), "{n} payload read accepted corrupted frame {} (from {}) as {o:?}", hex(&bad), hex(&e));
        }
    }
    Ok(())
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let mut p = gens::packet_protected(g);
    // bytes of the library itself: it has to detect damages of what it has written
    let e = write_packet(&mut p, 0)?;
    let want = canon(&p);
    c.nontrivial = e.len() > 29;
    c.sample(|| format!("{} as {}", describe(&p), hex(&e)));
    let sizes = chunk_sizes(g);
    if e.len() <= 160 && g.chance(1, 5) {
        c.label("all single-bit flips");
        let mut bad = e.clone();
        for i in 0..e.len() * 8 {
            bad[i / 8] ^= 1 << (i % 8);
            all_paths(&bad, &e, &want, &sizes)?;
            bad[i / 8] ^= 1 << (i % 8);
            c.eval();
        }
    } else {
        for _ in 0..10 {
            let bad = corrupt(g, &e);
            if bad != e {
                all_paths(&bad, &e, &want, &sizes)?;
                c.eval();
            }
        }
        let cut = g.us(0, e.len() - 1);
        all_paths(&e[..cut], &e, &want, &sizes)?;
        ensure!(!matches!(rd_stream(&mut &e[..cut]), Got::Packet(_)), "a truncated packet ({cut} of {} bytes) was accepted", e.len());
        c.eval();
    }
    if let Some(b) = p.blocks.first() {
        let len = enc_block(b).len();
        ensure!(e.len() >= 29 + len, "the packet has {} bytes only", e.len());
        block_alone(g, c, b, &e[29..29 + len])?;
        c.label("block alone");
    }
    if let Some(pl) = &p.payload {
        let at = 29 + p.blocks.iter().map(|b| enc_block(b).len()).sum::<usize>();
        ensure!(e.len() > at, "the packet has {} bytes only", e.len());
        payload_alone(g, c, pl, &e[at..])?;
        c.label(&format!("payload kind {}", payload_kind(pl)));
    }
    Ok(())
}
