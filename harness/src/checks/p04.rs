use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::proto::*;
use crate::refc::*;

pub static CHECK: Check = Check {
    id: "P04",
    level: "exploration",
    rule: "a case is a stream of 0-6 packets interleaved with foreign bytes (random, signature fragments, repeated half signatures, header prefixes, headers with a wrong checksum, block bytes) read through a source with a generated chunking; non-trivial = at least one packet and at least one foreign byte, or foreign bytes containing a signature fragment",
    assumptions: &["foreign bytes do not contain a complete packet header with a valid checksum (P05 covers that)"],
    quick: 1_000_000,
    thorough: 100_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

/// Foreign bytes without a valid header.
pub fn junk(g: &mut Gen, c: &mut Ctx) -> Vec<u8> {
    match g.weighted(&[3, 3, 2, 2, 2, 2, 1, 1]) {
        0 => {
            let n = g.us(1, 40);
            g.blob(n)
        }
        1 => {
            c.label("signature prefix");
            SIG8[..g.us(1, 8)].to_vec()
        }
        2 => {
            c.label("half signatures");
            let n = g.us(1, 6);
            (0..n).flat_map(|_| SIG8[..4].to_vec()).collect()
        }
        3 => {
            c.label("header prefix");
            let h = enc_header(g.u(200), g.u(100), g.u(1) as u8);
            h[..g.us(8, 28)].to_vec()
        }
        4 => {
            c.label("header with bad checksum");
            let mut h = enc_header(g.u(200), g.u(100), g.u(1) as u8);
            let i = g.us(8, 28);
            h[i] ^= g.range(1, 255) as u8;
            // the flag byte is read as "is it 1": 0 and 2..255 mean the same
            if i == 24 {
                h[25] ^= 1;
            }
            let n = g.us(0, 30);
            h.extend(g.blob(n));
            h
        }
        5 => {
            c.label("block bytes");
            enc_block(&gens::block_small(g))
        }
        6 => {
            c.label("long foreign run");
            let n = if g.chance(1, 100) { g.us(60_000, 300_000) } else { g.us(1000, 20000) };
            g.blob(n)
        }
        _ => {
            let n = g.us(1, 3);
            vec![SIG8[g.us(0, 7)]; n]
        }
    }
}

pub fn valid_header_at(d: &[u8], i: usize) -> bool {
    if d.len() < i + 29 || d[i..i + 8] != SIG8 {
        return false;
    }
    let mut f = d[i + 8..i + 25].to_vec();
    f[16] = (f[16] == 1) as u8;
    crc32(&f).to_le_bytes() == d[i + 25..i + 29]
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let n = g.us(0, 6);
    let mut data: Vec<u8> = Vec::new();
    let mut foreign: Vec<u8> = Vec::new();
    let mut starts = Vec::new();
    let mut ps: Vec<Packet> = Vec::new();
    let mut desc = String::new();
    for i in 0..=n {
        if g.chance(2, 3) {
            for _ in 0..g.us(1, 3) {
                let j = junk(g, c);
                desc.push_str(&format!("junk({}) ", j.len()));
                foreign.extend_from_slice(&j);
                data.extend_from_slice(&j);
            }
        }
        if i < n {
            let mut p = if g.chance(1, 30) { gens::packet(g) } else { gens::packet_small(g, 50) };
            if g.chance(1, 12) {
                // a packet travelling inside the payload of another one
                c.label("nested packet");
                let inner = enc_packet(&gens::packet_small(g, 10));
                p.payload = Some(Payload::Bytes(inner));
            }
            let e = enc_packet(&p);
            desc.push_str(&format!("packet({}) ", e.len()));
            starts.push((data.len(), data.len() + e.len()));
            data.extend_from_slice(&e);
            ps.push(p);
        }
    }
    // construction: junk can only form a valid header together with its neighbours by a checksum collision
    for i in 0..data.len() {
        if valid_header_at(&data, i) && !starts.iter().any(|(s, e)| (*s..*e).contains(&i)) {
            c.label("discarded: accidental header");
            return Ok(());
        }
    }
    c.nontrivial = !foreign.is_empty() && (n > 0 || c.labels.iter().any(|l| l.contains("signature")));
    let sizes = chunk_sizes(g);
    c.sample(|| format!("{desc} chunks {sizes:?}"));
    let mut src = crate::io::Chunked::new(data.clone(), sizes.clone());
    let run = run_reader(&mut src, data.len())?;
    ensure!(run.packets.len() == ps.len(), "{} of {} packets found; stream {desc} chunks {sizes:?} errors {}", run.packets.len(), ps.len(), run.errors);
    for (i, p) in run.packets.iter().enumerate() {
        ensure!(same(p, &ps[i]), "packet {i} differs; stream {desc} chunks {sizes:?}");
    }
    ensure!(run.errors == 0, "{} errors on a stream of valid packets and foreign bytes; {desc} chunks {sizes:?}", run.errors);
    if run.ignored != foreign {
        let at = run.ignored.iter().zip(&foreign).position(|(a, b)| a != b).unwrap_or(run.ignored.len().min(foreign.len()));
        return Err(format!("ignored bytes differ from the foreign bytes at {at}: {} reported, {} expected; stream {desc} chunks {sizes:?}", run.ignored.len(), foreign.len()));
    }
    ensure!(src.pos == data.len(), "reader stopped at {} of {}", src.pos, data.len());
    Ok(())
}
