use super::common::*;
use super::store::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Fault, Mem};
use crate::proto::*;
use crate::refc::*;

pub static CHECK: Check = Check {
    id: "P21",
    level: "fault_enumeration",
    rule: "a case is a history of appends (0 to about 1500 packets, concentrated on slot boundaries, several appends between two looks) whose write calls are recorded and applied to the medium piece by piece, stopping at generated points within and between the calls, while one or two readers stay open; at every stop a reader reloads, possibly with a failing read or seek, and is asked for packets; the number of packets a reader admits to must be its first count plus everything its reloads returned, must lie between the completed and the begun appends, must not change by a failed reload, and completed packets it knows must be returned unchanged; one evaluation is one reload; non-trivial = at least two reloads happened within an append or failed, and a later one saw growth",
    assumptions: &["content of packets is covered by checksums", "writes reach the medium in the order issued", "a gap left by seeking past the end reads as zeros, as in files"],
    quick: 10_000,
    thorough: 3_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

struct Live<'a> {
    rd: Reader<'a, Mem>,
    count: usize,
}

/// Questions to a reader that knows `count` packets; the first `done` are completed.
fn ask(g: &mut Gen, rd: &mut Reader<Mem>, all: &[Packet], done: usize, count: usize, settled: bool) -> R {
    ensure!(rd.count() == count, "count is {}, the reader was told about {count} packets", rd.count());
    let known = done.min(count);
    for _ in 0..g.us(1, 3) {
        match g.weighted(&[5, 1, 2, 2]) {
            0 => {
                let i = position(g, known);
                match rd.nth(i) {
                    Ok(Some(p)) => ensure!(i < count && eq(&p, &all[i]), "nth({i}) of {count} returned {}", describe(&p)),
                    Ok(None) => ensure!(i >= known, "nth({i}) of {count} returned nothing"),
                    Err(e) => ensure!(i >= known && (!settled || bounds(&e)), "nth({i}) of {count} failed: {e}"),
                }
            }
            1 => {
                for (i, r) in rd.iter().enumerate().take(known) {
                    match r {
                        Ok(p) => ensure!(eq(&p, &all[i]), "iteration returned a wrong packet at {i} of {count}: {}", describe(&p)),
                        Err(e) => return Err(format!("iteration failed at {i} of {count}, {done} are completed: {e}")),
                    }
                }
                let n = rd.iter().take(count + 3).filter(|r| r.is_ok()).count();
                ensure!(n >= known && n <= count, "iteration gives {n} packets of {count}, {done} are completed");
            }
            2 => {
                let from = position(g, known);
                match rd.seek(from) {
                    Ok(it) => {
                        let mut i = from;
                        for r in it.take(20) {
                            match r {
                                Ok(p) => ensure!(i < count && eq(&p, &all[i]), "iteration from {from} returned a wrong packet at {i} of {count}: {}", describe(&p)),
                                Err(e) => {
                                    ensure!(i >= known, "iteration from {from} failed at {i} of {count}: {e}");
                                    break;
                                }
                            }
                            i += 1;
                        }
                        ensure!(i >= known.min(from.saturating_add(20)), "iteration from {from} ended at {i} of {count}");
                    }
                    Err(e) => ensure!(from >= known, "seek({from}) of {count} failed: {e}"),
                }
            }
            _ => {
                let from = position(g, known);
                let len = g.us(0, 20);
                let mut i = from;
                for r in rd.range(from, len) {
                    match r {
                        Ok(p) => ensure!(i < count && i - from < len && eq(&p, &all[i]), "range({from}, {len}) returned a wrong packet at {i} of {count}: {}", describe(&p)),
                        Err(e) => {
                            ensure!(i >= known, "range({from}, {len}) failed at {i} of {count}: {e}");
                            break;
                        }
                    }
                    i += 1;
                }
                ensure!(i >= known.min(from.saturating_add(len)), "range({from}, {len}) ended at {i} of {count}");
            }
        }
    }
    Ok(())
}

fn put(mem: &Mem, pos: u64, d: &[u8]) {
    let mut st = mem.st.lock().unwrap();
    let end = pos as usize + d.len();
    if st.data.len() < end {
        st.data.resize(end, 0);
    }
    st.data[pos as usize..end].copy_from_slice(d);
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let s = Series::covered(g);
    // what the readers see, and what the writer has already written
    let mem = Mem::new();
    let shadow = Mem::new();
    if g.chance(1, 4) {
        shadow.st.lock().unwrap().max_write = g.us(1, 3000);
    }
    if g.chance(1, 4) {
        mem.st.lock().unwrap().max_read = g.us(1, 700);
    }
    let mut w: Writer<Mem> = Writer::new(shadow.handle()).map_err(es)?;
    let mut all: Vec<Packet> = Vec::new();
    let mut done = 0usize;
    let mut hist: Vec<String> = Vec::new();
    let mut insert = |g: &mut Gen, all: &mut Vec<Packet>| -> Result<Vec<(u64, Vec<u8>)>, String> {
        let p = if g.chance(1, 30) { gens::packet_protected(g) } else { s.packet(all.len() as u64) };
        shadow.st.lock().unwrap().log = Some(Vec::new());
        w.insert(gens::clone_packet(&p)).map_err(|e| format!("insert: {e}"))?;
        all.push(p);
        Ok(shadow.st.lock().unwrap().log.take().unwrap())
    };
    let mut readers: Vec<Live> = Vec::new();
    let start = match g.weighted(&[2, 2, 3]) {
        0 => 0,
        1 => g.us(0, 10),
        _ if g.chance(1, 40) => (CAP * g.us(3, 12) + g.us(0, 3)) - 2,
        _ => (CAP * g.us(1, 2) + g.us(0, 3)) - 2,
    };
    for _ in 0..start {
        for (p, d) in insert(g, &mut all)? {
            put(&mem, p, &d);
        }
        done += 1;
    }
    hist.push(format!("{start} appended"));
    readers.push(Live { rd: open(&mem).map_err(es)?, count: start });
    let rounds = g.us(1, 6);
    let mut stops = 0;
    let mut grown = false;
    for round in 0..=rounds {
        // appends completed unseen
        let jump = match g.weighted(&[3, 2, 2, 1]) {
            0 => 0,
            1 => g.us(1, 3),
            2 => ((CAP - all.len() % CAP) + g.us(0, 3)).saturating_sub(2),
            _ => g.us(0, 700),
        }
        .min(1500usize.saturating_sub(all.len()));
        for _ in 0..jump {
            for (p, d) in insert(g, &mut all)? {
                put(&mem, p, &d);
            }
            done += 1;
        }
        if jump > 0 {
            hist.push(format!("{jump} appended"));
        }
        // one append seen in progress
        let log = if round < rounds { insert(g, &mut all)? } else { Vec::new() };
        // (write, bytes of it) after which the readers look
        let mut looks: Vec<(usize, usize)> = (0..if log.is_empty() { 0 } else { g.us(1, 4) })
            .map(|_| {
                let i = g.us(0, log.len() - 1);
                let n = log[i].1.len();
                (i, match g.weighted(&[2, 2, 1]) {
                    0 => g.us(0, n),
                    1 => g.us(0, n.min(40)),
                    _ => n - g.us(0, n.min(20)),
                })
            })
            .collect();
        looks.sort();
        let mut at = (0usize, 0usize);
        let total = looks.len();
        for step in 0..=total {
            let last = step == total;
            let to = if last { (log.len(), 0) } else { looks[step] };
            while at < to {
                let end = if at.0 < to.0 { log[at.0].1.len() } else { to.1 };
                put(&mem, log[at.0].0 + at.1 as u64, &log[at.0].1[at.1..end]);
                at = if at.0 < to.0 { (at.0 + 1, 0) } else { to };
            }
            if last {
                done = all.len();
            }
            hist.push(if last { "append completed".into() } else { format!("append at byte {} of write {} of {}", at.1, at.0, log.len()) });
            let k = g.us(0, readers.len() - 1);
            let live = &mut readers[k];
            // a failing read or seek
            let faulty = g.chance(1, 4);
            if faulty {
                let mut st = mem.st.lock().unwrap();
                let n = st.ops + if g.flag() { g.us(0, 10) } else { g.us(0, 1100) };
                st.fail.push((n, Fault::Error));
                st.fired = 0;
            }
            c.eval();
            let got = live.rd.reload();
            let fired = {
                let mut st = mem.st.lock().unwrap();
                st.fail.clear();
                std::mem::take(&mut st.fired) > 0
            };
            let h = |e: String, hist: &[String]| format!("{e}; {}", hist.join(", "));
            match got {
                Ok(n) => {
                    hist.push(format!("reload of {k} gives {n}"));
                    live.count += n;
                    ensure!(live.count >= done && live.count <= all.len(), "{}", h(format!("the reader counts {} packets, {done} are completed and {} begun", live.count, all.len()), &hist));
                    grown |= n > 0 && stops > 0;
                }
                Err(e) => {
                    hist.push(format!("reload of {k} fails"));
                    ensure!(fired || (!last && matches!(e, brec::Error::DamagedSlot(_))), "{}", h(format!("reload failed: {e}"), &hist));
                }
            }
            if !last || fired {
                stops += 1;
            }
            let count = live.count;
            ask(g, &mut live.rd, &all, done, count, last).map_err(|e| h(e, &hist))?;
            if fired && g.flag() {
                // and it works again
                match live.rd.reload() {
                    Ok(n) => {
                        hist.push(format!("reload of {k} gives {n}"));
                        live.count += n;
                        ensure!(live.count >= done && live.count <= all.len(), "{}", h(format!("the reader counts {} packets, {done} are completed and {} begun", live.count, all.len()), &hist));
                        grown |= n > 0;
                    }
                    Err(e) => ensure!(!last && matches!(e, brec::Error::DamagedSlot(_)), "{}", h(format!("reload failed: {e}"), &hist)),
                }
                let count = live.count;
                ask(g, &mut live.rd, &all, done, count, last).map_err(|e| h(e, &hist))?;
            }
            // a failing access is forgotten
            if g.chance(1, 6) && live.count > 0 {
                let i = g.us(0, done.min(live.count).max(1) - 1);
                {
                    let mut st = mem.st.lock().unwrap();
                    let n = st.ops + g.us(0, 30);
                    st.fail.push((n, Fault::Error));
                    st.fired = 0;
                }
                let r = live.rd.nth(i);
                let fired = {
                    let mut st = mem.st.lock().unwrap();
                    st.fail.clear();
                    std::mem::take(&mut st.fired) > 0
                };
                match r {
                    Ok(Some(p)) => ensure!(eq(&p, &all[i]), "{}", h(format!("nth({i}) returned {}", describe(&p)), &hist)),
                    Ok(None) => ensure!(i >= done, "{}", h(format!("nth({i}) returned nothing"), &hist)),
                    Err(e) => ensure!(fired || i >= done, "{}", h(format!("nth({i}) failed: {e}"), &hist)),
                }
                if fired {
                    c.label("failed access");
                    if i < done {
                        match live.rd.nth(i) {
                            Ok(Some(p)) => ensure!(eq(&p, &all[i]), "{}", h(format!("nth({i}) after a failed one returned {}", describe(&p)), &hist)),
                            r => return Err(h(format!("nth({i}) after a failed one: {:?}", r.map(|p| p.is_some()).map_err(|e| e.to_string())), &hist)),
                        }
                    }
                }
            }
            if readers.len() < 2 && g.chance(1, 5) {
                match open(&mem) {
                    Ok(rd) => {
                        let count = rd.count();
                        hist.push(format!("open reader {} with {count}", readers.len()));
                        ensure!(count >= done && count <= all.len(), "{}", h(format!("the new reader counts {count} packets, {done} are completed"), &hist));
                        readers.push(Live { rd, count });
                    }
                    Err(e) => ensure!(!last && matches!(e, brec::Error::DamagedSlot(_)), "{}", h(format!("opening failed: {e}"), &hist)),
                }
            }
        }
    }
    for (k, live) in readers.iter_mut().enumerate() {
        c.eval();
        let n = live.rd.reload().map_err(|e| format!("final reload of {k} failed: {e}; {}", hist.join(", ")))?;
        live.count += n;
        grown |= n > 0;
        ensure!(live.count == all.len(), "the reader {k} was told about {} packets in total, {} were appended; {}", live.count, all.len(), hist.join(", "));
        interrogate(g, &mut live.rd, &all, 3, &mut c.evals).map_err(|e| format!("at the end, reader {k}: {e}; {}", hist.join(", ")))?;
        ensure!(live.rd.reload().map_err(es)? == 0, "reload with nothing new; {}", hist.join(", "));
    }
    c.nontrivial = stops >= 2 && grown;
    c.label(&format!("slots {}", all.len().div_ceil(CAP)));
    c.sample(|| hist.join(", "));
    Ok(())
}
