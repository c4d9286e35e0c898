use super::common::*;
use super::p03::corrupt;
use super::p04::junk;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::proto::*;
use crate::refc::*;

pub static CHECK: Check = Check {
    id: "P05",
    level: "exploration",
    rule: "a case is a stream of intact packets, damaged packets (corrupted anywhere, forged headers with valid checksum, unknown block or payload kinds, too many blocks, truncated tail) and foreign bytes, with a generated chunking; a reference scanner computes the intact packets outside regions claimed by valid headers of damaged ones; non-trivial = at least one damaged element and one intact packet after it",
    assumptions: &["checksum collisions have probability 2^-32 per damaged packet"],
    quick: 1_000_000,
    thorough: 100_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

fn header_at(d: &[u8], i: usize) -> Option<(u64, u64, bool)> {
    if d.len() < i + 29 || d[i..i + 8] != SIG8 {
        return None;
    }
    let mut f = d[i + 8..i + 25].to_vec();
    f[16] = (f[16] == 1) as u8;
    if crc32(&f).to_le_bytes() != d[i + 25..i + 29] {
        return None;
    }
    Some((u64::from_le_bytes(f[..8].try_into().unwrap()), u64::from_le_bytes(f[8..16].try_into().unwrap()), f[16] == 1))
}

/// A packet with valid header that no reader can accept, or a packet with broken header.
pub fn damaged(g: &mut Gen, c: &mut Ctx) -> (Vec<u8>, Packet) {
    let p = gens::packet_protected(g);
    let e = enc_packet(&p);
    let v = match g.weighted(&[4, 3, 2, 2, 2, 2, 1, 1]) {
        0 => {
            c.label("corrupted body");
            if e.len() > 30 {
                let mut v = e.clone();
                let bad = corrupt(g, &e[29..]);
                v[29..].copy_from_slice(&bad);
                v
            } else {
                let mut v = e.clone();
                v[25] ^= 1;
                v
            }
        }
        1 => {
            c.label("corrupted header");
            let mut v = e.clone();
            let i = g.us(0, 28);
            v[i] ^= 1 << g.u(7);
            v
        }
        2 => {
            c.label("unknown block kind");
            let blk = {
                let mut b = enc_block(&gens::block_small(g));
                b[0] ^= 0x5a;
                b[3] ^= 0xa5;
                b
            };
            let mut v = enc_header(blk.len() as u64, blk.len() as u64, 0);
            v.extend(blk);
            v
        }
        3 => {
            c.label("unknown payload kind");
            let mut pl = enc_payload(&gens::payload_kind(g, 0, 30));
            pl[1] ^= 0x77;
            pl[2] ^= 0x19;
            let b: Vec<u8> = p.blocks.iter().flat_map(enc_block).collect();
            let mut v = enc_header((b.len() + pl.len()) as u64, b.len() as u64, 1);
            v.extend(b);
            v.extend(pl);
            v
        }
        4 => {
            c.label("forged: blocks longer than body");
            let extra = g.range(1, 60);
            let b: Vec<u8> = p.blocks.iter().flat_map(enc_block).collect();
            let mut v = enc_header(b.len() as u64, b.len() as u64 + extra, g.u(1) as u8);
            v.extend(b);
            v
        }
        5 => {
            c.label("forged: block area does not end at a block");
            let b = enc_block(&gens::block_small(g));
            let cut = g.us(1, b.len() - 1);
            let mut v = enc_header(b.len() as u64, cut as u64, 0);
            v.extend(b);
            v
        }
        6 => {
            c.label("forged: payload flag without payload");
            let b: Vec<u8> = p.blocks.iter().flat_map(enc_block).collect();
            let rest = g.us(0, 8);
            let mut v = enc_header((b.len() + rest) as u64, b.len() as u64, 1);
            v.extend(b);
            v.extend(vec![0x33u8; rest]);
            v
        }
        _ => {
            c.label("more than 255 blocks");
            let n = g.us(256, 258);
            let b: Vec<u8> = (0..n).flat_map(|i| enc_block(&Block::BlkU8(BlkU8 { v: i as u8 }))).collect();
            let mut v = enc_header(b.len() as u64, b.len() as u64, 0);
            v.extend(b);
            v
        }
    };
    (v, p)
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let n = g.us(1, 7);
    let mut data: Vec<u8> = Vec::new();
    let mut intact: Vec<(usize, Vec<u8>, Packet)> = Vec::new();
    let mut desc = String::new();
    let mut hurt = false;
    for i in 0..n {
        match g.weighted(&[5, 4, 2]) {
            0 => {
                let p = gens::packet_small(g, 40);
                let e = enc_packet(&p);
                desc.push_str(&format!("ok({}) ", e.len()));
                c.nontrivial |= hurt;
                intact.push((data.len(), e.clone(), p));
                data.extend(e);
            }
            1 => {
                let (d, p) = damaged(g, c);
                // harmless changes (bytes swapped with equal ones) leave the packet readable
                intact.push((data.len(), enc_packet(&p), p));
                desc.push_str(&format!("bad({}) ", d.len()));
                hurt = true;
                data.extend(d);
            }
            _ => {
                let j = junk(g, c);
                desc.push_str(&format!("junk({}) ", j.len()));
                data.extend(j);
            }
        }
        if i + 1 == n && g.chance(1, 4) {
            c.label("cut at the end");
            let e = enc_packet(&gens::packet_protected(g));
            let cut = g.us(1, e.len() - 1);
            desc.push_str(&format!("cut({cut} of {}) ", e.len()));
            data.extend_from_slice(&e[..cut]);
        }
    }
    // reference scan
    let mut want: Vec<usize> = Vec::new();
    let mut maybe: Vec<usize> = Vec::new();
    let mut pos = 0;
    while pos + 29 <= data.len() {
        if let Some((size, _, _)) = header_at(&data, pos) {
            if let Some(k) = intact.iter().position(|(s, e, _)| *s == pos && data[pos..].starts_with(e)) {
                want.push(k);
                pos += intact[k].1.len();
                continue;
            }
            // a damaged packet whose header is still valid claims its region
            let end = (pos as u128 + 29 + size as u128).min(data.len() as u128) as usize;
            for (k, (s, _, _)) in intact.iter().enumerate() {
                if *s >= pos && *s < end {
                    maybe.push(k);
                }
            }
            pos = end.max(pos + 1);
        } else {
            pos += 1;
        }
    }
    let sizes = chunk_sizes(g);
    c.sample(|| format!("{desc} chunks {sizes:?}, {} expected", want.len()));
    if !maybe.is_empty() {
        c.label("region of a damaged packet covers intact ones");
    }
    let mut src = crate::io::Chunked::new(data.clone(), sizes.clone());
    let run = run_reader(&mut src, data.len()).map_err(|e| format!("{e}; stream {desc} chunks {sizes:?}"))?;
    // delivered packets are written ones, in order, and include all of `want`
    let canons: Vec<Vec<u8>> = intact.iter().map(|x| canon(&x.2)).collect();
    let due: Vec<usize> = (0..intact.len()).filter(|j| want.contains(j) || maybe.contains(j)).collect();
    // reach[i]: the first i delivered packets can be explained by the entries seen so far
    let mut reach = vec![false; run.packets.len() + 1];
    reach[0] = true;
    let got: Vec<Vec<u8>> = run.packets.iter().map(canon).collect();
    for j in due {
        for i in (0..reach.len()).rev() {
            let matched = i > 0 && reach[i - 1] && got[i - 1] == canons[j];
            reach[i] = matched || (reach[i] && !want.contains(&j));
        }
    }
    ensure!(
        reach[run.packets.len()],
        "delivered {:?} ({} errors), which is not the intact packets {want:?} in order (allowed besides: {maybe:?}); stream {desc} chunks {sizes:?}",
        run.packets.iter().map(describe).collect::<Vec<_>>(),
        run.errors
    );
    ensure!(run.ended, "no end");
    Ok(())
}
