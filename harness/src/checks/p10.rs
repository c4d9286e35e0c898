use super::common::*;
use super::store::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Chunked, Mem};
use crate::proto::*;
use crate::refc::*;

pub static CHECK: Check = Check {
    id: "P10",
    level: "fault_enumeration",
    rule: "a case is a history of appends (0 to 1010 packets, concentrated on slot boundaries), possibly already containing an earlier interrupted append, followed by one append whose write calls are recorded; crash images are made for every byte of that append (identical images once; when a new slot makes them thousands, every boundary and a random sample of the rest, and in one case in 40 with a short history all of them), and each image is reopened for reading, scanned, reopened for writing and appended to; one evaluation is one crash image; non-trivial = images strictly inside the append were examined",
    assumptions: &["content of packets is covered by checksums (no_crc blocks and payloads cannot be told from damaged ones)", "writes reach the medium in the order issued and each is a prefix of what was given (no reordering by the operating system)", "a gap left by seeking past the end reads as zeros, as in files"],
    quick: 1_500,
    thorough: 400_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

#[derive(Clone)]
pub struct Entry {
    pub p: std::sync::Arc<Packet>,
    pub k: std::sync::Arc<Vec<u8>>,
    /// its append completed
    pub done: bool,
}

pub fn entry(p: Packet, done: bool) -> Entry {
    let k = canon(&p);
    Entry { p: p.into(), k: k.into(), done }
}

fn explain(e: &[Entry]) -> String {
    let maybe: Vec<usize> = e.iter().enumerate().filter(|(_, e)| !e.done).map(|(i, _)| i).collect();
    format!("{} appended (interrupted: {maybe:?})", e.len())
}

/// `got` consists of all completed entries in order, and possibly interrupted ones at their place.
pub fn fits(got: &[Packet], want: &[&Entry]) -> bool {
    // entries that are alike are told apart by dynamic programming over positions
    let g: Vec<Vec<u8>> = got.iter().map(canon).collect();
    let mut cur = vec![0usize];
    for e in want {
        let mut nxt = Vec::with_capacity(2);
        for i in cur {
            if !e.done {
                nxt.push(i);
            }
            if i < g.len() && g[i] == *e.k {
                nxt.push(i + 1);
            }
        }
        nxt.dedup();
        cur = nxt;
    }
    cur.contains(&g.len())
}

pub fn scan(bytes: &[u8]) -> Result<Vec<Packet>, String> {
    let mut src = Chunked::new(bytes.to_vec(), vec![1 << 20]);
    Ok(run_reader(&mut src, bytes.len())?.packets)
}

/// Examines what a reader makes of the medium.  `last` is the append in question; returns the number of packets, or None when a damaged slot is reported.
fn examine(g: &mut Gen, mem: &Mem, known: &[Entry], last: Option<&Packet>) -> Result<Option<usize>, String> {
    let mut want: Vec<&Entry> = known.iter().collect();
    let extra;
    if let Some(p) = last {
        extra = entry(gens::clone_packet(p), false);
        want.push(&extra);
    }
    let c = known.len();
    let got = scan(&mem.bytes())?;
    ensure!(fits(&got, &want), "scanning recovers {} packets, not the completed ones: {:?}, wanted {:?}", got.len(), got.iter().rev().take(3).map(describe).collect::<Vec<_>>(), want.iter().rev().take(3).map(|e| describe(&e.p)).collect::<Vec<_>>());
    let mut rd = match open(mem) {
        Ok(rd) => rd,
        Err(brec::Error::DamagedSlot(_)) => return Ok(None),
        Err(e) => return Err(format!("opening fails otherwise than by a damaged slot: {e}")),
    };
    let n = rd.count();
    ensure!(n == c || (last.is_some() && n == c + 1), "count is {n} with {c} known");
    let probe: Vec<usize> = if c < 12 || g.chance(1, 8) { (0..c + 4).collect() } else { (0..8).map(|_| g.us(0, c - 1)).chain([0, c - 1, c, c + 1, c + 2, CAP - 1, CAP, 2 * CAP]).collect() };
    for i in probe {
        match rd.nth(i) {
            Ok(Some(p)) => ensure!(i < want.len() && eq(&p, &want[i].p), "nth({i}) returned {}, which was not appended there", describe(&p)),
            Ok(None) => ensure!(i >= c || !want[i].done, "nth({i}) returned nothing"),
            Err(e) => ensure!(i >= c || !want[i].done, "nth({i}) failed: {e}"),
        }
    }
    let got: Vec<Packet> = rd.iter().take(want.len() + 4).filter_map(|r| r.ok()).collect();
    ensure!(fits(&got, &want), "iteration gives {} packets, not the completed ones", got.len());
    if c > 0 {
        let from = position(g, c).min(c - 1);
        if want[from].done {
            let got: Vec<Packet> = match rd.seek(from) {
                Ok(it) => it.take(want.len() + 4).filter_map(|r| r.ok()).collect(),
                Err(e) => return Err(format!("seek({from}) failed: {e}")),
            };
            ensure!(fits(&got, &want[from..]), "iteration from {from} gives {} packets, not the completed ones", got.len());
            let len = g.us(1, 20);
            let to = (from + len).min(c);
            let got: Vec<Packet> = rd.range(from, len).take(len + 4).filter_map(|r| r.ok()).collect();
            let part: Vec<&Entry> = want[from..(from + len).min(want.len())].to_vec();
            // a missing packet ends or interrupts a range; nothing wrong may come out of it
            let firm = want[from..to].iter().all(|e| e.done);
            if firm {
                ensure!(fits(&got, &part), "range({from}, {len}) gives {} packets, not the completed ones", got.len());
            }
        }
    }
    Ok(Some(n))
}

/// Distinct contents of the medium while `log` is being applied to `base`, from the untouched one to the complete one.
fn images(base: &[u8], log: &[(u64, Vec<u8>)]) -> Vec<(usize, usize)> {
    let mut cur = base.to_vec();
    let mut out = vec![(0, 0)];
    for (w, (pos, data)) in log.iter().enumerate() {
        for (k, b) in data.iter().enumerate() {
            let at = *pos as usize + k;
            if at >= cur.len() {
                cur.resize(at + 1, 0);
                cur[at] = *b;
                out.push((w, k + 1));
            } else if cur[at] != *b {
                cur[at] = *b;
                out.push((w, k + 1));
            }
        }
    }
    out
}
fn image(base: &[u8], log: &[(u64, Vec<u8>)], at: (usize, usize)) -> Vec<u8> {
    let mut cur = base.to_vec();
    let mut put = |pos: u64, d: &[u8]| {
        let end = pos as usize + d.len();
        if cur.len() < end {
            cur.resize(end, 0);
        }
        cur[pos as usize..end].copy_from_slice(d);
    };
    for (pos, d) in &log[..at.0] {
        put(*pos, d);
    }
    if at.1 > 0 {
        put(log[at.0].0, &log[at.0].1[..at.1]);
    }
    cur
}

fn record(mem: &Mem, p: &Packet) -> Result<Vec<(u64, Vec<u8>)>, String> {
    let mut w: Writer<Mem> = Writer::new(mem.handle()).map_err(|e| format!("opening for writing: {e}"))?;
    mem.st.lock().unwrap().log = Some(Vec::new());
    w.insert(gens::clone_packet(p)).map_err(|e| format!("insert: {e}"))?;
    Ok(mem.st.lock().unwrap().log.take().unwrap())
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let s = Series::covered(g);
    let mem = Mem::new();
    if g.chance(1, 4) {
        mem.st.lock().unwrap().max_write = g.us(1, 700);
    }
    let mut known: Vec<Entry> = Vec::new();
    let mut serial = 0u64;
    let mut fresh = |g: &mut Gen| {
        serial += 1;
        if g.chance(1, 12) {
            gens::packet_protected(g)
        } else {
            s.packet(serial)
        }
    };
    let rounds = if g.chance(1, 3) { 2 } else { 1 };
    let mut desc = String::new();
    for round in 0..rounds {
        // completed appends
        let max = (if round == 0 { 1010 } else { 520 }) as usize;
        let k = match g.weighted(&[3, 2, 2, 3, 1]) {
            0 => 0,
            1 => 1,
            2 => g.us(2, 20),
            3 => {
                // up to just around the next slot boundary
                let room = CAP - known.len() % CAP;
                (room + g.us(0, 2)).saturating_sub(1)
            }
            _ => g.us(0, max),
        }
        .min(max);
        let k = if round == 0 && g.chance(1, 60) {
            c.label("many slots");
            (g.us(3, 12) * CAP + g.us(0, 3)).saturating_sub(2)
        } else {
            k
        };
        {
            let mut w: Writer<Mem> = Writer::new(mem.handle()).map_err(|e| format!("opening for writing: {e}; {desc}"))?;
            for _ in 0..k {
                let p = fresh(g);
                w.insert(gens::clone_packet(&p)).map_err(|e| format!("insert: {e}; {desc}"))?;
                known.push(entry(p, true));
            }
        }
        desc.push_str(&format!("{k} appended; "));
        // the append that gets interrupted
        let p = fresh(g);
        let base = mem.bytes();
        let log = record(&mem, &p).map_err(|e| format!("{e}; {desc}"))?;
        let all = images(&base, &log);
        c.label(if base.is_empty() {
            "first append"
        } else if all.len() > 3000 {
            "append opening a slot"
        } else {
            "append within a slot"
        });
        let pick: Vec<(usize, usize)> = if all.len() <= 60 || (g.chance(1, 40) && known.len() < 30) {
            if all.len() > 60 {
                c.label("all images of a long append");
            }
            all.clone()
        } else {
            let mut v: Vec<usize> = (0..3).chain(all.len() - 3..all.len()).collect();
            // around the end of each write call
            for (i, x) in all.iter().enumerate() {
                if i > 0 && x.0 != all[i - 1].0 && v.len() < 30 {
                    v.extend([i.saturating_sub(2), i - 1, i, (i + 1).min(all.len() - 1)]);
                }
            }
            for _ in 0..if known.len() > 100 { 8 } else { 30 } {
                v.push(g.us(0, all.len() - 1));
            }
            v.sort();
            v.dedup();
            v.into_iter().map(|i| all[i]).collect()
        };
        let extra_n = g.us(1, 3);
        let extra: Vec<Packet> = (0..extra_n).map(|_| fresh(g)).collect();
        for at in &pick {
            c.eval();
            c.nontrivial |= *at != all[0] && *at != *all.last().unwrap();
            let full = at == all.last().unwrap();
            let ctx = |e: String| format!("{e}; {} then an append stopped at byte {} of its write {} ({} of {} images); {desc}", explain(&known), at.1, at.0, all.iter().position(|x| x == at).unwrap(), all.len());
            let m = Mem::with(image(&base, &log, *at));
            let seen = examine(g, &m, &known, Some(&p)).map_err(ctx)?;
            if full {
                ensure!(seen == Some(known.len() + 1), "{}", ctx("the completed append is not there".into()));
            }
            let w: Result<Writer<Mem>, _> = Writer::new(m.handle());
            match (w, seen) {
                (Err(brec::Error::DamagedSlot(_)), None) => c.label("reported as damaged"),
                (Err(e), _) => return Err(ctx(format!("reader: {}, writer: {e}", if seen.is_some() { "accepted" } else { "damaged slot" }))),
                (Ok(_), None) => return Err(ctx("reader reports a damaged slot, writer accepts the file".into())),
                (Ok(mut w), Some(n)) => {
                    c.label("reopened");
                    let mut model: Vec<Entry> = known.clone();
                    if n > known.len() {
                        model.push(entry(gens::clone_packet(&p), false));
                    }
                    for x in &extra {
                        w.insert(gens::clone_packet(x)).map_err(|e| ctx(format!("append after reopening failed: {e}")))?;
                        model.push(entry(gens::clone_packet(x), true));
                    }
                    drop(w);
                    let k = examine(g, &m, &model, None).map_err(|e| ctx(format!("after {extra_n} more appends: {e}")))?;
                    ensure!(k == Some(model.len()), "{}", ctx(format!("after {extra_n} more appends the storage holds {k:?} packets instead of {}", model.len())));
                }
            }
        }
        c.sample(|| format!("{desc}{} crash images of an append of {} bytes in {} writes, {} examined", all.len(), log.iter().map(|x| x.1.len()).sum::<usize>(), log.len(), pick.len()));
        // continue from one of the images that are accepted
        let mut next = None;
        for _ in 0..4 {
            let at = all[g.us(0, all.len() - 1)];
            let m = Mem::with(image(&base, &log, at));
            if let Ok(rd) = open(&m) {
                next = Some((at, rd.count()));
                break;
            }
        }
        let Some((at, n)) = next else { break };
        let left = mem.st.lock().unwrap().max_write;
        {
            let mut st = mem.st.lock().unwrap();
            st.data = image(&base, &log, at);
            st.max_write = left;
        }
        if n > known.len() {
            let done = at == *all.last().unwrap();
            known.push(entry(p, done));
        }
        desc.push_str(&format!("append stopped at byte {} of write {}; ", at.1, at.0));
    }
    Ok(())
}
