use super::common::*;
use super::store::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Late, Mem};
use crate::proto::*;

pub static CHECK: Check = Check {
    id: "P09",
    level: "exploration",
    rule: "a case is a history of appends (amounts around slot boundaries, sometimes several slots at once, now and then up to 24 or more than 256, by one or several writers in turn), reloads of one or two readers that stay open, and queries; each reload's result is compared with the number of packets appended since that reader last looked, each query with the list of inserted packets; one evaluation is one reload or query; non-trivial = at least two reloads saw growth",
    assumptions: &["appends are complete when reload is called; a medium that buffers written bytes hands them over when flushed, moved or dropped"],
    quick: 30_000,
    thorough: 3_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let s = Series::new(g);
    let mem = Mem::new();
    let mut all: Vec<Packet> = Vec::new();
    let mut hist: Vec<String> = Vec::new();
    // the medium of the writer may hold bytes back until it is flushed
    let late = g.chance(1, 3);
    let limit = if g.flag() { 1 << 13 } else { g.us(1, 20_000) };
    if late {
        c.label("written bytes are held back until flushed");
    }
    let mut w: Writer<Late> = Writer::new(Late::new(mem.handle(), late, limit)).map_err(es)?;
    let append_n = |k: usize, all: &mut Vec<Packet>, w: &mut Writer<Late>| -> Result<usize, String> {
        for _ in 0..k {
            let p = s.packet(all.len() as u64);
            w.insert(gens::clone_packet(&p)).map_err(|e| format!("insert: {e}"))?;
            all.push(p);
        }
        Ok(k)
    };
    let append = |g: &mut Gen, all: &mut Vec<Packet>, w: &mut Writer<Late>, max: usize| -> Result<usize, String> {
        let k = if g.chance(1, 3) {
            // exactly to, or just around, the next slot boundary
            let room = CAP - all.len() % CAP;
            (room + g.us(0, 2)).saturating_sub(1).min(max)
        } else {
            amount(g, max)
        };
        append_n(k, all, w)
    };
    let big = g.chance(1, 3);
    if g.chance(2, 3) {
        let k = append(g, &mut all, &mut w, if big { 1100 } else { 20 })?;
        hist.push(format!("append {k}"));
    }
    let mut readers: Vec<(Reader<Mem>, usize)> = vec![(open(&mem).map_err(es)?, all.len())];
    hist.push("open reader 0".into());
    let steps = g.us(2, 10);
    let mut grown = 0;
    for _ in 0..steps {
        match g.weighted(&[4, 4, 3, 1, 1]) {
            0 => {
                let room = 2600usize.saturating_sub(all.len());
                let k = if g.chance(1, 12_000) {
                    c.label("growth by more than 256 slots");
                    append_n(g.us(0, 1000) + 128_001, &mut all, &mut w)?
                } else if g.chance(1, 300) {
                    append_n(g.us(2, 24) * CAP + g.us(0, 4) - 2, &mut all, &mut w)?
                } else {
                    append(g, &mut all, &mut w, if big { 1100 } else { 520 }.min(room))?
                };
                hist.push(format!("append {k}"));
            }
            1 => {
                let i = g.us(0, readers.len() - 1);
                let (rd, seen) = &mut readers[i];
                hist.push(format!("reload {i}"));
                c.eval();
                let got = rd.reload().map_err(|e| format!("reload failed: {e}; {}", hist.join(", ")))?;
                let want = all.len() - *seen;
                ensure!(got == want, "reload returned {got}, {want} packets were appended since; {}", hist.join(", "));
                if want > 0 {
                    grown += 1;
                }
                *seen = all.len();
                let q = g.us(0, 4);
                interrogate(g, rd, &all, q, &mut c.evals).map_err(|e| format!("after reload: {e}; {}", hist.join(", ")))?;
                if g.chance(1, 3) {
                    let again = rd.reload().map_err(|e| format!("second reload failed: {e}; {}", hist.join(", ")))?;
                    ensure!(again == 0, "reload with nothing new returned {again}; {}", hist.join(", "));
                    interrogate(g, rd, &all, 2, &mut c.evals).map_err(|e| format!("after idle reload: {e}; {}", hist.join(", ")))?;
                }
            }
            2 => {
                let i = g.us(0, readers.len() - 1);
                let (rd, seen) = &mut readers[i];
                if *seen == all.len() {
                    let q = g.us(1, 4);
                    hist.push(format!("query {i}"));
                    interrogate(g, rd, &all, q, &mut c.evals).map_err(|e| format!("{e}; {}", hist.join(", ")))?;
                }
            }
            3 => {
                if readers.len() < 3 {
                    hist.push(format!("open reader {}", readers.len()));
                    readers.push((open(&mem).map_err(es)?, all.len()));
                }
            }
            _ => {
                hist.push("reopen writer".into());
                w = Writer::new(Late::new(mem.handle(), late, limit)).map_err(|e| format!("reopening the writer: {e}; {}", hist.join(", ")))?;
            }
        }
    }
    for (i, (rd, seen)) in readers.iter_mut().enumerate() {
        c.eval();
        let got = rd.reload().map_err(|e| format!("reload failed: {e}; {}", hist.join(", ")))?;
        ensure!(got == all.len() - *seen, "final reload of reader {i} returned {got}, {} packets were appended since; {}", all.len() - *seen, hist.join(", "));
        if got > 0 {
            grown += 1;
        }
        interrogate(g, rd, &all, 3, &mut c.evals).map_err(|e| format!("after final reload: {e}; {}", hist.join(", ")))?;
    }
    c.nontrivial = grown >= 2;
    c.label(&match all.len().div_ceil(CAP) {
        n @ 0..=6 => format!("slots {n}"),
        _ => "slots 7 and more".to_string(),
    });
    c.sample(|| hist.join(", "));
    Ok(())
}
