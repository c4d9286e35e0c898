use super::common::*;
use super::p04::junk;
use super::p05::damaged;
use super::store::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Chunked, Fault, Mem};
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use std::io::ErrorKind;
use std::sync::{Arc, Mutex};

pub static CHECK: Check = Check {
    id: "P20",
    level: "fault_enumeration",
    rule: "a case is either a stream of packets, foreign bytes and damaged packets read through a source that fails at generated calls with generated error kinds, compared with the same stream from a source that never fails; or a history of appends to a storage whose medium fails or stops half way at generated operations, and of packets which cannot be encoded, compared with the list of successful appends; non-trivial = at least one injected failure was reached and reported",
    assumptions: &["a failed read of the source takes no bytes from it", "the storage is inspected after a later append of the same writer has succeeded"],
    quick: 200_000,
    thorough: 20_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

const KINDS: [ErrorKind; 6] = [ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::ConnectionReset, ErrorKind::Interrupted, ErrorKind::Other, ErrorKind::UnexpectedEof];

fn run(src: &mut Chunked, len: usize, faults: usize) -> Result<(Vec<Packet>, Vec<u8>, usize), String> {
    let ignored: Arc<Mutex<Vec<u8>>> = Arc::default();
    let ig = ignored.clone();
    let mut packets = Vec::new();
    let mut io_errors = 0;
    let mut steps = 0;
    {
        let mut reader: PacketBufReader<Chunked> = PacketBufReader::new(src);
        reader.add_rule(Rule::Ignored(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| ig.lock().unwrap().extend_from_slice(b))))).map_err(es)?;
        loop {
            steps += 1;
            if steps > step_bound(len) + faults {
                return Err(format!("{steps} reads over {len} bytes without reaching the end"));
            }
            match reader.read() {
                Ok(NextPacket::Found(p)) => packets.push(p),
                Ok(NextPacket::NoData) => break,
                Ok(_) => {}
                Err(brec::Error::Io(_)) => io_errors += 1,
                Err(_) => {}
            }
        }
    }
    let ig = std::mem::take(&mut *ignored.lock().unwrap());
    Ok((packets, ig, io_errors))
}

fn stream(g: &mut Gen, c: &mut Ctx) -> R {
    let mut data = Vec::new();
    let mut desc = String::new();
    for _ in 0..g.us(1, 7) {
        let (n, b) = match g.weighted(&[5, 3, 2, 1]) {
            0 => ("ok", enc_packet(&gens::packet_small(g, 60))),
            1 => ("junk", junk(g, c)),
            2 => ("bad", damaged(g, c).0),
            _ => ("big", enc_packet(&gens::packet(g))),
        };
        desc.push_str(&format!("{n}({}) ", b.len()));
        data.extend(b);
    }
    if g.chance(1, 5) {
        let e = enc_packet(&gens::packet_small(g, 60));
        let n = g.us(1, e.len() - 1);
        data.extend_from_slice(&e[..n]);
        desc.push_str("cut");
    }
    let sizes = chunk_sizes(g);
    let mut good = Chunked::new(data.clone(), sizes.clone());
    let (p0, i0, _) = run(&mut good, data.len(), 0)?;
    let calls = good.call;
    let mut fail: Vec<(usize, ErrorKind)> = Vec::new();
    match g.weighted(&[3, 2, 1]) {
        0 => {
            for _ in 0..g.us(1, 4) {
                fail.push((g.us(0, calls), *g.pick(&KINDS)));
            }
        }
        1 => {
            // a run of failures
            let from = g.us(0, calls);
            for k in 0..g.us(1, 4) {
                fail.push((from + k, *g.pick(&KINDS)));
            }
        }
        _ => {
            // every other call
            let k = *g.pick(&KINDS);
            let odd = g.us(0, 1);
            fail = (0..(2 * calls + 4).min(4000)).filter(|i| i % 2 == odd).map(|i| (i, k)).collect();
        }
    }
    let mut bad = Chunked::new(data.clone(), sizes.clone());
    bad.fail = fail.clone();
    bad.budget += fail.len() * 2;
    let (p1, i1, errs) = run(&mut bad, data.len(), fail.len())?;
    let show: Vec<_> = fail.iter().take(6).collect();
    c.nontrivial = errs > 0;
    c.label(if errs > 0 { "stream: failure reported" } else { "stream: no failure reported" });
    c.sample(|| format!("stream {desc} chunks {sizes:?} failures {show:?}"));
    ensure!(
        p0.len() == p1.len() && p0.iter().zip(&p1).all(|(a, b)| same(a, b)),
        "a source failing at {show:?} ({errs} reported) delivers {:?} instead of {:?}; stream {desc} chunks {sizes:?}",
        p1.iter().map(describe).collect::<Vec<_>>(),
        p0.iter().map(describe).collect::<Vec<_>>()
    );
    ensure!(i0 == i1, "a source failing at {show:?}: {} bytes reported as ignored instead of {}; stream {desc} chunks {sizes:?}", i1.len(), i0.len());
    Ok(())
}

fn storage(g: &mut Gen, c: &mut Ctx) -> R {
    let ser = Series::new(g);
    let mem = Mem::new();
    // the history starts somewhere around a slot boundary, or in an empty storage
    let start = match g.weighted(&[4, 3, 1]) {
        0 => 0,
        1 => CAP - g.us(0, 4),
        _ if g.chance(1, 100) => CAP * g.us(3, 12) - g.us(0, 3),
        _ => CAP * 2 - g.us(0, 3),
    };
    let mut all: Vec<Packet> = (0..start as u64).map(|n| ser.packet(n)).collect();
    insert_all(&mem, &all)?;
    if g.chance(1, 3) {
        mem.st.lock().unwrap().max_write = g.us(1, 200);
    }
    let mut w: Writer<Mem> = Writer::new(mem.handle()).map_err(|e| format!("opening for writing: {e}"))?;
    let mut rd = if g.flag() && start > 0 { Some(open(&mem).map_err(|e| format!("opening: {e}"))?) } else { None };
    let mut clean = true;
    let mut desc = format!("start {start}: ");
    let steps = g.us(1, 14);
    let mut n = start as u64;
    for s in 0..=steps {
        let last = s == steps;
        let p = if g.chance(1, 6) { gens::packet_small(g, 300) } else { ser.packet(n) };
        n += 1;
        if !last && g.chance(1, 8) {
            // cannot be encoded: nothing should happen to the storage
            let n = g.us(0, 60);
            let how = g.us(1, 2) as u8;
            let mut p = gens::clone_packet(&p);
            p.payload = Some(Payload::PlManual(PlManual::broken(g.blob(n), how)));
            ensure!(w.insert(p).is_err(), "a packet with a payload which cannot be encoded is appended; {desc}");
            desc.push_str("unencodable ");
            c.nontrivial = true;
            c.label("storage: unencodable packet");
            if clean && g.chance(1, 3) {
                let mut fresh = open(&mem).map_err(|e| format!("opening after {desc}: {e}"))?;
                let mut ev = 0;
                interrogate(g, &mut fresh, &all, 2, &mut ev).map_err(|e| format!("{e}; after {desc}"))?;
            }
        }
        let failing = !last && g.chance(1, 2);
        if failing {
            let k = g.us(0, 8);
            let f = if g.flag() { Fault::Error } else { Fault::Partial(if g.flag() { g.us(0, 60) } else { g.us(0, 5000) }) };
            let mut st = mem.st.lock().unwrap();
            let at = st.ops + k;
            st.fail.push((at, f));
            desc.push_str(&format!("[{k}:{f:?}] "));
        }
        let fired0 = mem.st.lock().unwrap().fired;
        let r = w.insert(gens::clone_packet(&p));
        let fired = mem.st.lock().unwrap().fired - fired0;
        mem.st.lock().unwrap().fail.clear();
        match r {
            Ok(()) => {
                desc.push_str("ok ");
                all.push(p);
                clean = true;
            }
            Err(e) => {
                ensure!(fired > 0, "append fails with {e} though the medium did not fail; {desc}");
                desc.push_str("err ");
                clean = false;
                c.nontrivial = true;
                c.label("storage: failed append");
            }
        }
        if clean {
            if last || g.chance(1, 5) {
                let mut fresh = open(&mem).map_err(|e| format!("opening after {desc}: {e}"))?;
                let mut ev = 0;
                interrogate(g, &mut fresh, &all, 2, &mut ev).map_err(|e| format!("{e}; after {desc}"))?;
                for i in all.len().saturating_sub(16)..all.len() {
                    match fresh.nth(i) {
                        Ok(Some(p)) => ensure!(eq(&p, &all[i]), "packet {i} of {} is {} instead of {}; after {desc}", all.len(), describe(&p), describe(&all[i])),
                        Ok(None) => return Err(format!("packet {i} of {} is missing; after {desc}", all.len())),
                        Err(e) => return Err(format!("packet {i} of {}: {e}; after {desc}", all.len())),
                    }
                    c.eval();
                }
                if let Some(rd) = rd.as_mut() {
                    rd.reload().map_err(|e| format!("reload after {desc}: {e}"))?;
                    interrogate(g, rd, &all, 2, &mut ev).map_err(|e| format!("reloaded reader: {e}; after {desc}"))?;
                }
                // the file holds nothing else that scanning would find behind the last packet
                c.label("storage: inspected");
            }
            if !last && g.chance(1, 5) {
                w = Writer::new(mem.handle()).map_err(|e| format!("reopening for writing after {desc}: {e}"))?;
                desc.push_str("reopen ");
            }
        }
    }
    c.sample(|| desc.clone());
    Ok(())
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    if g.chance(2, 5) {
        storage(g, c)
    } else {
        stream(g, c)
    }
}
