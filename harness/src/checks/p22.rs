use super::common::*;
use super::store::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Mem, Sparse};
use crate::proto::*;
use crate::refc::*;

pub static CHECK: Check = Check {
    id: "P22",
    level: "exploration",
    rule: "a case is a sequence of packets (0 to about 1500, concentrated on slot boundaries) which an independent encoder turns into a storage file; a generated first part of the file is either taken from the encoder or written by the library, the rest is appended by one or several writers in turn over a medium taking short writes, and the resulting bytes, compared after generated appends and at the end, must equal those of the encoder; the file of the encoder is then read by the library; one case in 12 has a sparse file with lengths of packets from 2 GiB to 8 PiB, which is appended to and read around the huge packets; one evaluation is one comparison of a file or one query; non-trivial = at least two writers took part or a slot boundary was crossed",
    assumptions: &["packets contain no hash maps (their order in bytes is not determined)"],
    quick: 30_000,
    thorough: 3_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

const SIG: [u8; 8] = [166, 177, 188, 199, 199, 188, 177, 166];

/// A storage as specified.
pub fn file(ps: &[Vec<u8>]) -> Vec<u8> {
    let mut o = Vec::new();
    for part in ps.chunks(CAP) {
        let mut table = (CAP as u64).to_le_bytes().to_vec();
        for i in 0..CAP {
            table.extend_from_slice(&(part.get(i).map_or(0, |p| p.len()) as u64).to_le_bytes());
        }
        o.extend_from_slice(&SIG);
        o.extend_from_slice(&table);
        o.extend_from_slice(&crc32(&table).to_le_bytes());
        for p in part {
            o.extend_from_slice(p);
        }
    }
    o
}

fn differ(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{} bytes instead of {}, the first difference is at {at}: {} instead of {}", got.len(), want.len(), hex(&got[at..(at + 16).min(got.len())]), hex(&want[at..(at + 16).min(want.len())]))
}

/// what a huge storage holds: packets or, standing for packets nobody asks for, their lengths
enum Item {
    Real(Vec<u8>, Packet),
    Huge(u64),
}
fn lay(items: &[Item], m: &Sparse) {
    let mut at = 0;
    for part in items.chunks(CAP) {
        let mut table = (CAP as u64).to_le_bytes().to_vec();
        for i in 0..CAP {
            let l = match part.get(i) {
                Some(Item::Real(e, _)) => e.len() as u64,
                Some(Item::Huge(l)) => *l,
                None => 0,
            };
            table.extend_from_slice(&l.to_le_bytes());
        }
        m.put(at, &SIG);
        m.put(at + 8, &table);
        m.put(at + 8 + table.len() as u64, &crc32(&table).to_le_bytes());
        at += 8 + table.len() as u64 + 4;
        for i in part {
            match i {
                Item::Real(e, _) => {
                    m.put(at, e);
                    at += e.len() as u64;
                }
                Item::Huge(l) => at += l,
            }
        }
        m.grow(at);
    }
}

/// A storage far larger than 4 GiB.
fn huge(g: &mut Gen, c: &mut Ctx) -> R {
    c.label("huge storage");
    let s = Series::new(g);
    let full = g.us(1, 3) * CAP;
    let n = full + g.us(0, 30);
    let mut items: Vec<Item> = (0..n).map(|i| s.packet(i as u64)).map(|p| Item::Real(enc_packet(&p), p)).collect();
    for _ in 0..g.us(1, 4) {
        // not the last one in the file
        let i = if g.chance(1, 3) { g.us(0, full / CAP - 1) * CAP + CAP - 2 } else { g.us(0, full - 2) };
        items[i] = Item::Huge(*g.pick(&[1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 5 << 30, 1 << 40, (1 << 53) + 1]) + g.u(100));
    }
    let m = Sparse::new();
    lay(&items, &m);
    let desc = format!("{n} packets, huge ones at {:?}", items.iter().enumerate().filter_map(|(i, x)| if let Item::Huge(l) = x { Some((i, *l)) } else { None }).collect::<Vec<_>>());
    c.sample(|| desc.clone());
    c.nontrivial = true;
    let mut rd: Reader<Sparse> = Reader::new(m.handle()).map_err(|e| format!("opening: {e}; {desc}"))?;
    ensure!(rd.count() == n, "count is {}; {desc}", rd.count());
    let mut add = 0;
    for _ in 0..g.us(0, 2) {
        let k = if g.chance(1, 6) { g.us(460, 510) } else { g.us(1, 6) };
        let mut w: Writer<Sparse> = Writer::new(m.handle()).map_err(|e| format!("opening for writing: {e}; {desc}"))?;
        for _ in 0..k {
            let p = s.packet(items.len() as u64);
            w.insert(gens::clone_packet(&p)).map_err(|e| format!("insert: {e}; {desc}"))?;
            items.push(Item::Real(enc_packet(&p), p));
        }
        add += k;
        let want = Sparse::new();
        lay(&items, &want);
        c.eval();
        let (a, b) = (m.content(), want.content());
        ensure!(a.0 == b.0, "after {add} appends the file has {} bytes instead of {}; {desc}", a.0, b.0);
        ensure!(a.1 == b.1, "after {add} appends the file differs, the first difference is in the 4 KiB at {:?}; {desc}", a.1.iter().zip(&b.1).find(|(x, y)| x != y).map(|(x, y)| (x.0, y.0)));
    }
    if g.flag() {
        rd = Reader::new(m.handle()).map_err(|e| format!("opening: {e}; {desc}"))?;
    } else {
        let r = rd.reload().map_err(|e| format!("reload: {e}; {desc}"))?;
        ensure!(r == add, "reload reports {r} of {add} new packets; {desc}");
    }
    ensure!(rd.count() == items.len(), "count is {} of {}; {desc}", rd.count(), items.len());
    for _ in 0..g.us(1, 10) {
        c.eval();
        let i = position(g, items.len());
        if i >= items.len() {
            let r = rd.nth(i);
            ensure!(!matches!(r, Ok(Some(_))), "nth({i}) of {} gives a packet; {desc}", items.len());
            continue;
        }
        // up to the next huge one
        let k = items[i..].iter().position(|x| matches!(x, Item::Huge(_))).unwrap_or(items.len() - i);
        if k == 0 {
            continue;
        }
        let take = g.us(1, 20).min(k);
        // iterators load what remains of a slot at once
        let whole = i + k == items.len() || (i + take - 1) / CAP < (i + k) / CAP;
        let how = if whole { g.u(2) } else { 0 };
        let got: Vec<_> = match how {
            0 => vec![rd.nth(i).map_err(|e| format!("nth({i}): {e}; {desc}"))?.ok_or_else(|| format!("nth({i}) of {} gives nothing; {desc}", items.len()))],
            1 => rd.seek(i).map_err(|e| format!("seek({i}): {e}; {desc}"))?.take(take).map(|r| r.map_err(|e| format!("from {i}: {e}; {desc}"))).collect(),
            _ => rd.range(i, take).map(|r| r.map_err(|e| format!("range from {i}: {e}; {desc}"))).collect(),
        };
        ensure!(got.len() == if how == 0 { 1 } else { take }, "{} packets instead of {take} from {i} on; {desc}", got.len());
        for (j, r) in got.into_iter().enumerate() {
            let p = r?;
            let Item::Real(_, want) = &items[i + j] else { unreachable!() };
            ensure!(eq(&p, want), "packet {} is wrong: {}; {desc}", i + j, describe(&p));
        }
    }
    Ok(())
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    if g.chance(1, 12) {
        return huge(g, c);
    }
    let s = Series::new(g);
    let max = if g.chance(1, 60) {
        8000
    } else if g.chance(1, 3) {
        1500
    } else {
        520
    };
    let n = amount(g, max);
    let all: Vec<Packet> = (0..n)
        .map(|i| {
            if (n < 60 && g.chance(1, 6)) || (n >= 60 && i % 97 == 5 && g.flag()) {
                let p = if n < 60 { gens::packet(g) } else { gens::packet_small(g, 500) };
                if !matches!(p.payload, Some(Payload::PlMap(_))) {
                    return p;
                }
            }
            s.packet(i as u64)
        })
        .collect();
    let enc: Vec<Vec<u8>> = all.iter().map(enc_packet).collect();
    let mem = Mem::new();
    let mut desc = format!("{n} packets; ");
    let mut i = 0;
    let mut writers = 0;
    if g.flag() {
        // the beginning is written by the encoder
        i = if g.flag() { g.us(0, n) } else { position(g, n).min(n) };
        mem.st.lock().unwrap().data = file(&enc[..i]);
        desc.push_str(&format!("{i} by the encoder; "));
        writers += (i > 0) as usize;
    }
    while i < n {
        if g.chance(1, 4) {
            mem.st.lock().unwrap().max_write = *g.pick(&[0, 1, 7, 100, 4011, 5000]);
        }
        let mut w: Writer<Mem> = Writer::new(mem.handle()).map_err(|e| format!("opening for writing: {e}; {desc}"))?;
        writers += 1;
        let k = match g.weighted(&[2, 2, 3]) {
            0 => g.us(0, 3),
            1 => g.us(0, n - i),
            _ => n - i,
        }
        .min(n - i);
        for p in &all[i..i + k] {
            w.insert(gens::clone_packet(p)).map_err(|e| format!("insert: {e}; {desc}"))?;
        }
        i += k;
        desc.push_str(&format!("{k} by a writer; "));
        if writers > 40 && i < n {
            for p in &all[i..] {
                w.insert(gens::clone_packet(p)).map_err(|e| format!("insert: {e}; {desc}"))?;
            }
            i = n;
        }
        if i == n || g.chance(1, 3) {
            c.eval();
            let want = file(&enc[..i]);
            let got = mem.bytes();
            ensure!(got == want, "after {i} appends the file has {}; {desc}", differ(&got, &want));
        }
    }
    c.nontrivial = writers > 1 || n > CAP;
    c.label(&format!("slots {}", n.div_ceil(CAP)));
    c.sample(|| desc.clone());
    // the other way: a file made by the encoder
    let m = Mem::with(file(&enc));
    if g.chance(1, 4) {
        m.st.lock().unwrap().max_read = *g.pick(&[1, 3, 500]);
    }
    let mut rd = open(&m).map_err(|e| format!("opening a file of the encoder: {e}; {desc}"))?;
    let q = g.us(1, 4);
    interrogate(g, &mut rd, &all, q, &mut c.evals).map_err(|e| format!("a file of the encoder: {e}; {desc}"))?;
    ensure!(m.bytes() == file(&enc), "reading changed the file");
    Ok(())
}
