use super::common::*;
use super::p10::{entry, fits, scan, Entry};
use super::store::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::Mem;
use crate::proto::*;
use crate::refc::*;

pub static CHECK: Check = Check {
    id: "P11",
    level: "exploration",
    rule: "a case is a storage of 1 to 1010 packets (some carrying a serialized packet in their payload) with generated alterations of slot tables (signature, capacity, length entries, checksum; bit flips, random bytes, swapped or shifted entries) or of packet bytes; opening, index access, iteration and scanning are compared with the list of packets whose bytes are intact; one evaluation is one altered file; non-trivial = the file differs from the original",
    assumptions: &["packets are covered by checksums", "alterations do not reproduce another valid checksum (probability 2^-32)"],
    quick: 40_000,
    thorough: 4_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

pub const SLOT: usize = 16 + CAP * 8 + 4;

/// Alters bytes of `d` in `r`; returns a description.
fn alter(g: &mut Gen, d: &mut [u8], at: usize, len: usize) -> String {
    let r = &mut d[at..at + len];
    match g.weighted(&[4, 3, 2, 1]) {
        0 => {
            let i = g.us(0, len - 1);
            let b = 1u8 << g.u(7);
            r[i] ^= b;
            format!("bit {b:#x} of byte {i}")
        }
        1 => {
            let i = g.us(0, len - 1);
            let x = g.range(1, 255) as u8;
            r[i] ^= x;
            format!("byte {i} ^ {x:#x}")
        }
        2 => {
            let i = g.us(0, len - 1);
            let n = g.us(1, 24.min(len - i));
            let b = g.blob(n);
            r[i..i + n].copy_from_slice(&b);
            format!("{n} bytes from {i}")
        }
        _ => {
            let i = g.us(0, len - 1);
            for x in &mut r[i..] {
                *x = 0;
            }
            format!("zeros from {i}")
        }
    }
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let s = Series::covered(g);
    let n = match g.weighted(&[4, 3, 2, 1]) {
        0 => g.us(1, 4),
        1 => g.us(5, 30),
        2 => CAP + g.us(0, 3) - 1,
        _ if g.chance(1, 20) => g.us(1011, 5000),
        _ => g.us(31, 1010),
    };
    let mut nested: Vec<Option<Entry>> = Vec::new();
    let mut ps: Vec<Packet> = Vec::new();
    for i in 0..n {
        nested.push(None);
        ps.push(match g.weighted(&[20, 2, 1]) {
            0 => s.packet(i as u64),
            1 => gens::packet_protected(g),
            _ => {
                let inner = gens::packet_protected(g);
                let e = enc_packet(&inner);
                nested[i] = Some(entry(inner, false));
                Packet::new(vec![], Some(Payload::Bytes(e)))
            }
        });
    }
    let mem = Mem::new();
    insert_all(&mem, &ps)?;
    let orig = mem.bytes();
    // where everything lies
    let encs: Vec<Vec<u8>> = ps.iter().map(enc_packet).collect();
    let mut slots = Vec::new();
    let mut spans = Vec::new();
    let mut off = 0;
    for (i, e) in encs.iter().enumerate() {
        if i % CAP == 0 {
            slots.push(off);
            off += SLOT;
        }
        spans.push((off, e.len()));
        off += e.len();
    }
    ensure!(off == orig.len(), "storage of {n} packets takes {} bytes, expected {off}", orig.len());
    for (i, (a, l)) in spans.iter().enumerate() {
        ensure!(orig[*a..*a + *l] == encs[i][..], "packet {i} of {n} is not at its place");
    }
    let base: Vec<Entry> = ps.iter().map(|p| entry(gens::clone_packet(p), true)).collect();
    let rounds = if n < 40 { 6 } else { 2 };
    for _ in 0..rounds {
        let mut d = orig.clone();
        let mut what: Vec<String> = Vec::new();
        let hurt_slots = g.chance(1, 2);
        let hurt_packets = !hurt_slots || g.chance(1, 5);
        if hurt_slots {
            for _ in 0..if g.chance(1, 4) { 2 } else { 1 } {
                let k = g.us(0, slots.len() - 1);
                let a = slots[k];
                let used = (n - k * CAP).min(CAP);
                let (x, l) = match g.weighted(&[2, 2, 3, 2, 2, 2]) {
                    0 => (0, 8),
                    1 => (8, 8),
                    2 => (16, used * 8),
                    3 => (16 + CAP * 8, 4),
                    4 => (0, SLOT),
                    _ => {
                        // entries moved around: every byte value stays
                        if used >= 2 {
                            let i = g.us(0, used - 1);
                            let j = g.us(0, CAP - 1);
                            for b in 0..8 {
                                d.swap(a + 16 + i * 8 + b, a + 16 + j * 8 + b);
                            }
                            what.push(format!("slot {k}: entries {i} and {j} swapped"));
                        }
                        (16 + 8 * (used - 1), 8)
                    }
                };
                let w = alter(g, &mut d, a + x, l);
                what.push(format!("slot {k} region {x}+{l}: {w}"));
            }
        }
        if hurt_packets {
            for _ in 0..g.us(1, 3) {
                let i = g.us(0, n - 1);
                let w = alter(g, &mut d, spans[i].0, spans[i].1);
                what.push(format!("packet {i}: {w}"));
            }
        }
        let desc = format!("{n} packets; {}", what.join("; "));
        if d == orig {
            continue;
        }
        c.eval();
        c.nontrivial = true;
        let meta_hurt = slots.iter().any(|a| d[*a..a + SLOT] != orig[*a..a + SLOT]);
        let intact: Vec<bool> = spans.iter().map(|(a, l)| d[*a..a + l] == orig[*a..a + l]).collect();
        c.label(match (meta_hurt, intact.iter().all(|x| *x)) {
            (true, true) => "slot table altered",
            (true, false) => "slot table and packets altered",
            _ => "packets altered",
        });
        c.sample(|| desc.clone());
        let m = Mem::with(d.clone());
        // scanning
        let got = scan(&d).map_err(|e| format!("{e}; {desc}"))?;
        let mut want: Vec<Entry> = Vec::new();
        for i in 0..n {
            want.push(Entry { done: intact[i], ..base[i].clone() });
            want.extend(nested[i].clone());
        }
        let want: Vec<&Entry> = want.iter().collect();
        ensure!(fits(&got, &want), "scanning gave {} packets, not exactly the intact ones in order; {desc}", got.len());
        // opening
        let rd = open(&m);
        let w: Result<Writer<Mem>, _> = Writer::new(m.handle());
        if meta_hurt {
            ensure!(matches!(rd, Err(brec::Error::DamagedSlot(_))), "a reader opened with {}; {desc}", rd.err().map_or("success".into(), |e| e.to_string()));
            ensure!(matches!(w, Err(brec::Error::DamagedSlot(_))), "a writer opened with {}; {desc}", w.err().map_or("success".into(), |e| e.to_string()));
            ensure!(m.bytes() == d, "opening changed the file; {desc}");
            continue;
        }
        ensure!(w.is_ok(), "a writer opened with {:?}; {desc}", w.err());
        let mut rd = rd.map_err(|e| format!("opening for reading: {e}; {desc}"))?;
        ensure!(rd.count() == n, "count is {} of {n}; {desc}", rd.count());
        let some: Vec<usize> = (0..n).filter(|i| n < 40 || !intact[*i] || g.chance(1, 20)).collect();
        for i in some {
            match rd.nth(i) {
                Ok(Some(p)) => ensure!(eq(&p, &ps[i]), "nth({i}) gave a packet that was not inserted there: {}; {desc}", describe(&p)),
                Ok(None) => return Err(format!("nth({i}) gave nothing; {desc}")),
                Err(e) => ensure!(!intact[i], "nth({i}) of an intact packet failed: {e}; {desc}"),
            }
        }
        let from = if g.flag() { 0 } else { g.us(0, n - 1) };
        let sought: Vec<Packet> = {
            match rd.seek(from) {
                Ok(it) => it.take(2 * n + 10).filter_map(|r| r.ok()).collect(),
                Err(e) => return Err(format!("seek({from}) failed: {e}; {desc}")),
            }
        };
        let runs: [Vec<Packet>; 3] = [
            rd.iter().take(2 * n + 10).filter_map(|r| r.ok()).collect(),
            sought,
            rd.filtered().take(2 * n + 10).filter_map(|r| r.ok()).collect(),
        ];
        let want: Vec<Entry> = (0..n).map(|i| Entry { done: intact[i], ..base[i].clone() }).collect();
        let want: Vec<&Entry> = want.iter().collect();
        for (k, run) in runs.iter().enumerate() {
            let name = ["iteration", "iteration from a position", "filtered iteration"][k];
            let start = if k == 1 { from } else { 0 };
            ensure!(fits(run, &want[start..]), "{name} (from {start}) gave {} packets, not exactly the intact ones in order; {desc}", run.len());
        }
    }
    Ok(())
}
