use super::common::*;
use super::store::*;
use crate::engine::{Check, Ctx, Gen};
use crate::io::Mem;
use crate::proto::*;

pub static CHECK: Check = Check {
    id: "P08",
    level: "exploration",
    rule: "a case is a history of 1-4 writing sessions (0 to 2100 packets in all, now and then 12000 or more than 131072, amounts concentrated around multiples of the slot capacity) followed by generated queries in any order: count, nth, full and partial iteration, iteration from a position, ranges, with positions around slot boundaries, the end and far beyond it; the list of inserted packets is the oracle; one evaluation is one query; non-trivial = at least 2 packets were inserted and reopening or a slot boundary was involved",
    assumptions: &["the medium is an in-memory Read + Write + Seek that may give and take fewer bytes than asked"],
    quick: 30_000,
    thorough: 3_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let s = Series::new(g);
    let mem = Mem::new();
    {
        let mut st = mem.st.lock().unwrap();
        if g.chance(1, 4) {
            st.max_write = g.us(1, 600);
        }
        if g.chance(1, 4) {
            st.max_read = g.us(40, 600);
        }
    }
    let sessions = g.us(1, 4);
    let big = g.chance(1, 3);
    let mut all: Vec<Packet> = Vec::new();
    let mut desc = Vec::new();
    for _ in 0..sessions {
        let k = if g.chance(1, 40_000) {
            // more packets than two bytes, and more slots than one byte, can tell
            c.label("more than 128000 packets");
            131_072 + g.us(0, 1200)
        } else if g.chance(1, 600) {
            g.us(5, 24) * CAP + g.us(0, 20)
        } else {
            amount(g, if big { 1100 } else { 12 }).min(2100usize.saturating_sub(all.len()))
        };
        let own: Vec<Packet> = (0..k)
            .map(|i| {
                let n = (all.len() + i) as u64;
                if g.chance(1, 40) { numbered(g, n) } else { s.packet(n) }
            })
            .collect();
        insert_all(&mem, &own)?;
        all.extend(own);
        desc.push(k);
        if g.chance(1, 3) {
            // look at it between sessions
            let mut rd = open(&mem).map_err(|e| format!("opening after {desc:?}: {e}"))?;
            interrogate(g, &mut rd, &all, 2, &mut c.evals).map_err(|e| format!("{e}; sessions {desc:?}"))?;
        }
    }
    c.nontrivial = all.len() >= 2 && (sessions > 1 || all.len() > CAP);
    c.label(&match all.len().div_ceil(CAP) {
        n @ 0..=5 => format!("slots {n}"),
        _ => "slots 6 and more".to_string(),
    });
    c.sample(|| format!("sessions inserted {desc:?} packets"));
    let mut rd = open(&mem).map_err(|e| format!("opening after {desc:?}: {e}"))?;
    let q = g.us(4, 16);
    interrogate(g, &mut rd, &all, q, &mut c.evals).map_err(|e| format!("{e}; sessions {desc:?}"))
}
