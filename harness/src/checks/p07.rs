use super::common::*;
use super::p04::{junk, valid_header_at};
use super::store::{numbered, position, CAP};
use crate::engine::{fnv, splitmix, Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Chunked, Mem};
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use brec::RuleDefId;
use std::cell::RefCell;
use std::io::Cursor;

pub static CHECK: Check = Check {
    id: "P07",
    level: "exploration",
    rule: "a case is a list of packets, a history of adding, duplicating and removing rules (pseudo-random predicates over the true blocks, payload bytes and packet, as closures or plain functions) and a filtering reader: packet-wise filtered read, stream reader over a chunked source with foreign bytes, or storage reader (filtered, range_filtered, and the unfiltered accesses that must ignore rules); delivered packets and the log of consultations and payload decodings are compared with a model; one evaluation is one reading operation; non-trivial = at least one active rule rejected a packet and at least one packet was accepted",
    assumptions: &["rules are pure functions of what they are shown"],
    quick: 400_000,
    thorough: 40_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

/// 0 = by blocks, 1 = by payload, 2 = by packet; 3 = the payload was decoded
#[derive(Clone, Copy, Default, Debug)]
struct Pred {
    salt: u64,
    pct: u64,
}
impl Pred {
    fn ok(&self, h: u64) -> bool {
        let mut s = h ^ self.salt;
        splitmix(&mut s) % 100 < self.pct
    }
}
type Log = Vec<(u8, u64)>;
thread_local! {
    static LOG: RefCell<Log> = const { RefCell::new(Vec::new()) };
    static FIXED: RefCell<[Pred; 3]> = const { RefCell::new([Pred { salt: 0, pct: 0 }; 3]) };
}
fn note(kind: u8, h: u64) {
    LOG.with(|l| l.borrow_mut().push((kind, h)));
}
fn note_decode(b: &[u8]) {
    note(3, fnv(b));
}
fn take_log() -> Log {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub fn view_block(b: &BlockReferred<'_>) -> Block {
    match b {
        BlockReferred::BlkU8(x) => Block::BlkU8(BlkU8 { v: x.v }),
        BlockReferred::BlkTwin(x) => Block::BlkTwin(BlkTwin { v: x.v }),
        BlockReferred::BlkScalars(x) => Block::BlkScalars(BlkScalars { a: x.a, b: x.b, c: x.c, d: x.d, e: x.e, f: x.f, g: x.g, h: x.h, i: x.i, j: x.j, k: x.k, l: x.l, m: x.m }),
        BlockReferred::BlkBools(x) => Block::BlkBools(BlkBools { x: x.x, y: x.y, z: x.z }),
        BlockReferred::BlkBlobs(x) => Block::BlkBlobs(BlkBlobs { a: *x.a, b: x.b, c: *x.c, d: *x.d, e: x.e, f: x.f }),
        BlockReferred::BlkBig(x) => Block::BlkBig(BlkBig { id: x.id, data: *x.data }),
        BlockReferred::BlkEnum(x) => Block::BlkEnum(BlkEnum { head: x.head, level: x.level.clone(), tail: *x.tail }),
        BlockReferred::BlkNoCrc(x) => Block::BlkNoCrc(BlkNoCrc { v: x.v, b: *x.b }),
        BlockReferred::BlkFloat(x) => Block::BlkFloat(BlkFloat { x: x.x, y: x.y }),
        BlockReferred::CrateProtoDeepErBlkPath(x) => Block::CrateProtoDeepErBlkPath(crate::proto::deep::er::BlkPath { n: x.n, t: *x.t }),
    }
}
fn seen_blocks(bs: &[BlockReferred<'_>]) -> u64 {
    let mut o = vec![bs.len() as u8];
    for b in bs {
        o.extend(enc_block(&view_block(b)));
    }
    fnv(&o)
}
fn true_blocks(p: &Packet) -> u64 {
    let mut o = vec![p.blocks.len() as u8];
    for b in &p.blocks {
        o.extend(enc_block(b));
    }
    fnv(&o)
}

fn st_blocks(bs: &[BlockReferred<'_>]) -> bool {
    let h = seen_blocks(bs);
    note(0, h);
    FIXED.with(|f| f.borrow()[0].ok(h))
}
fn st_payload(b: &[u8]) -> bool {
    let h = fnv(b);
    note(1, h);
    FIXED.with(|f| f.borrow()[1].ok(h))
}
fn st_packet(p: &Packet) -> bool {
    let h = fnv(&canon(p));
    note(2, h);
    FIXED.with(|f| f.borrow()[2].ok(h))
}

/// Builds the rule; a plain function takes its predicate from `FIXED`.
fn rule<'a>(kind: usize, p: Pred, plain: bool, set: bool) -> Rule<'a> {
    if plain && set {
        FIXED.with(|f| f.borrow_mut()[kind] = p);
    }
    match (kind, plain) {
        (0, false) => Rule::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(move |bs: &[BlockReferred<'_>]| {
            let h = seen_blocks(bs);
            note(0, h);
            p.ok(h)
        }))),
        (0, true) => Rule::FilterByBlocks(brec::RuleFnDef::Static(st_blocks)),
        (1, false) => Rule::FilterByPayload(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| {
            let h = fnv(b);
            note(1, h);
            p.ok(h)
        }))),
        (1, true) => Rule::FilterByPayload(brec::RuleFnDef::Static(st_payload)),
        (_, false) => Rule::Filter(brec::RuleFnDef::Dynamic(Box::new(move |pk: &Packet| {
            let h = fnv(&canon(pk));
            note(2, h);
            p.ok(h)
        }))),
        _ => Rule::Filter(brec::RuleFnDef::Static(st_packet)),
    }
}
fn rule_id(kind: usize) -> RuleDefId {
    match kind {
        0 => RuleDefId::FilterByBlocks,
        1 => RuleDefId::FilterByPayload,
        _ => RuleDefId::Filter,
    }
}

type Active = [Option<Pred>; 3];

struct Known {
    blocks: u64,
    body: Option<u64>,
    whole: u64,
    /// decoding the payload is noted
    noted: bool,
}
fn known(p: &Packet) -> Known {
    Known { blocks: true_blocks(p), body: p.payload.as_ref().map(|x| fnv(&payload_body(x))), whole: fnv(&canon(p)), noted: matches!(p.payload, Some(Payload::PlManual(_))) }
}
/// What the rules should be shown for this packet, and the verdict.
fn judge(k: &Known, a: &Active, log: &mut Log) -> bool {
    if let Some(r) = a[0] {
        log.push((0, k.blocks));
        if !r.ok(k.blocks) {
            return false;
        }
    }
    if let (Some(r), Some(h)) = (a[1], k.body) {
        log.push((1, h));
        if !r.ok(h) {
            return false;
        }
    }
    if let (true, Some(h)) = (k.noted, k.body) {
        // only now is there a reason to parse the payload
        log.push((3, h));
    }
    if let Some(r) = a[2] {
        log.push((2, k.whole));
        if !r.ok(k.whole) {
            return false;
        }
    }
    true
}
fn squeeze(mut l: Log) -> Log {
    l.dedup();
    l
}
fn same_log(got: Log, want: Log, exact: bool) -> Result<(), String> {
    let got = squeeze(got);
    let want = squeeze(want);
    let n = got.len();
    if n > want.len() || got[..] != want[..n] || (exact && n != want.len()) {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(n.min(want.len()));
        return Err(format!(
            "rules were consulted differently from consultation {i} on (0 blocks, 1 payload, 2 packet, 3 is the decoding of a payload): {:?}, expected {:?}",
            &got[i..got.len().min(i + 3)],
            &want[i..want.len().min(i + 3)]
        ));
    }
    Ok(())
}

fn pred(g: &mut Gen) -> Pred {
    let pct = *g.pick(&[50, 80, 30, 100, 0, 95, 5]);
    Pred { salt: g.u(1 << 20), pct }
}

/// One generated change of the rule set.
enum Change {
    Add(usize, Pred, bool),
    Remove(usize),
}
fn change(g: &mut Gen) -> Change {
    let k = g.us(0, 2);
    if g.chance(1, 4) {
        Change::Remove(k)
    } else {
        Change::Add(k, pred(g), g.chance(1, 3))
    }
}

macro_rules! apply {
    ($g:expr, $target:expr, $active:expr, $hist:expr) => {{
        match change($g) {
            Change::Remove(k) => {
                $target.remove_rule(rule_id(k));
                $active[k] = None;
                $hist.push(format!("remove {k}"));
            }
            Change::Add(k, p, plain) => {
                let r = $target.add_rule(rule(k, p, plain, $active[k].is_none()));
                match ($active[k].is_some(), r) {
                    (false, Ok(())) => {
                        $active[k] = Some(p);
                        $hist.push(format!("add {k} {p:?}{}", if plain { " plain" } else { "" }));
                    }
                    (true, Err(brec::Error::RuleDuplicate)) => $hist.push(format!("duplicate {k}")),
                    (had, r) => return Err(format!("adding rule {k} (present: {had}) gave {r:?}; {}", $hist.join(", "))),
                }
            }
        }
    }};
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    ON_DECODE.with(|f| f.set(Some(note_decode)));
    take_log();
    let mut ps: Vec<Packet> = Vec::new();
    let n = g.us(0, 24);
    for i in 0..n {
        if i > 0 && g.chance(1, 8) {
            let k = g.us(0, i - 1);
            let again = gens::clone_packet(&ps[k]);
            // maps may be written in any order
            if !matches!(again.payload, Some(Payload::PlMap(_))) {
                ps.push(again);
                continue;
            }
        }
        let mut p = gens::packet_small(g, 40);
        if let Some(Payload::PlMap(_)) = p.payload {
            p.payload = Some(Payload::Bytes(vec![i as u8]));
        }
        ps.push(p);
    }
    match g.weighted(&[3, 4, 4]) {
        0 => wise(g, c, ps),
        1 => stream(g, c, ps),
        _ => storage(g, c, ps),
    }
}

fn wise(g: &mut Gen, c: &mut Ctx, ps: Vec<Packet>) -> R {
    c.label("packet-wise");
    let data: Vec<u8> = ps.iter().flat_map(enc_packet).collect();
    let mut src = Cursor::new(&data[..]);
    let mut rules: Rules = Rules::default();
    let mut active: Active = Default::default();
    let mut hist: Vec<String> = Vec::new();
    let (mut yes, mut no) = (0, 0);
    let mut sizes: Vec<(usize, usize)> = Vec::new();
    for (i, p) in ps.iter().enumerate() {
        while g.chance(if i == 0 { 3 } else { 1 }, 4) {
            apply!(g, rules, active, hist);
        }
        let mut want = Log::new();
        let ok = judge(&known(p), &active, &mut want);
        hist.push(format!("packet {i}"));
        c.eval();
        match Packet::filtered(&mut src, &rules) {
            Ok(brec::LookInStatus::Accepted(size, got)) => {
                sizes.push((size, enc_packet(p).len()));
                ensure!(ok, "packet {i} was accepted against the rules; {}", hist.join(", "));
                ensure!(same(&got, p), "packet {i} came out different: {}; {}", describe(&got), hist.join(", "));
                yes += 1;
            }
            Ok(brec::LookInStatus::Denied(size)) => {
                sizes.push((size, enc_packet(p).len()));
                ensure!(!ok, "packet {i} was denied although every rule accepts it; {}", hist.join(", "));
                no += 1;
            }
            Ok(brec::LookInStatus::NotEnoughData(k)) => return Err(format!("packet {i} is said to lack {k} bytes; {}", hist.join(", "))),
            Err(e) => return Err(format!("packet {i}: {e}; {}", hist.join(", "))),
        }
        same_log(take_log(), want, true).map_err(|e| format!("packet {i} ({}): {e}; {}", describe(p), hist.join(", ")))?;
    }
    // one way of counting, whatever the verdict: with the header of the packet or without it
    for full in [false, true] {
        if sizes.iter().all(|(a, b)| *a + if full { 0 } else { 29 } == *b) {
            c.nontrivial = yes > 0 && no > 0;
            c.sample(|| hist.join(", "));
            return Ok(());
        }
    }
    Err(format!("sizes reported for packets of {:?} bytes are {:?}; {}", sizes.iter().map(|s| s.1).collect::<Vec<_>>(), sizes.iter().map(|s| s.0).collect::<Vec<_>>(), hist.join(", ")))
}

fn stream(g: &mut Gen, c: &mut Ctx, ps: Vec<Packet>) -> R {
    c.label("stream");
    let mut data: Vec<u8> = Vec::new();
    let mut starts = Vec::new();
    for p in &ps {
        if g.chance(1, 5) {
            data.extend(junk(g, c));
        }
        let e = enc_packet(p);
        starts.push(data.len()..data.len() + e.len());
        data.extend(e);
    }
    if g.chance(1, 5) {
        data.extend(junk(g, c));
    }
    if (0..data.len()).any(|i| valid_header_at(&data, i) && !starts.iter().any(|r| r.contains(&i))) {
        c.label("discarded: accidental header");
        return Ok(());
    }
    let sizes = chunk_sizes(g);
    let len = data.len();
    let mut src = Chunked::new(data, sizes.clone());
    let mut rd: PacketBufReader<Chunked> = PacketBufReader::new(&mut src);
    let mut active: Active = Default::default();
    let mut hist: Vec<String> = vec![format!("{} packets, chunks {sizes:?}", ps.len())];
    let mut litter = false;
    let ks: Vec<Known> = ps.iter().map(known).collect();
    let (mut yes, mut no) = (0, 0);
    while g.chance(3, 4) {
        apply!(g, rd, active, hist);
    }
    let mut next = 0;
    let mut want = Log::new();
    let mut steps = 0;
    let mut skipped = 0;
    loop {
        steps += 1;
        ensure!(steps <= step_bound(len), "reader does not reach the end; {}", hist.join(", "));
        match rd.read() {
            Ok(NextPacket::Found(got)) => {
                c.eval();
                while next < ps.len() && !judge(&ks[next], &active, &mut want) {
                    next += 1;
                    no += 1;
                }
                ensure!(next < ps.len(), "a packet was delivered although no further one is accepted: {}; {}", describe(&got), hist.join(", "));
                ensure!(same(&got, &ps[next]), "delivered {}, expected packet {next} {}; {}", describe(&got), describe(&ps[next]), hist.join(", "));
                hist.push(format!("found {next}"));
                next += 1;
                yes += 1;
                same_log(take_log(), std::mem::take(&mut want), true).map_err(|e| format!("up to packet {}: {e}; {}", next - 1, hist.join(", ")))?;
                while g.chance(1, 6) {
                    apply!(g, rd, active, hist);
                }
                if g.chance(1, 10) {
                    // the rule about foreign bytes lives beside the filters
                    if litter {
                        rd.remove_rule(RuleDefId::Ignored);
                    } else {
                        rd.add_rule(Rule::Ignored(brec::RuleFnDef::Static(|_b: &[u8]| {}))).map_err(|e| format!("adding a rule for foreign bytes: {e}"))?;
                        ensure!(
                            matches!(rd.add_rule(Rule::Ignored(brec::RuleFnDef::Static(|_b: &[u8]| {}))), Err(brec::Error::RuleDuplicate)),
                            "a second rule for foreign bytes was not refused"
                        );
                    }
                    litter = !litter;
                    hist.push("litter rule".into());
                }
            }
            Ok(NextPacket::NoData) => break,
            Ok(NextPacket::Skipped) => skipped += 1,
            Ok(_) => {}
            Err(e) => return Err(format!("reader failed: {e}; {}", hist.join(", "))),
        }
    }
    while next < ps.len() {
        ensure!(!judge(&ks[next], &active, &mut want), "packet {next} {} was not delivered although every rule accepts it; {}", describe(&ps[next]), hist.join(", "));
        next += 1;
        no += 1;
    }
    same_log(take_log(), want, true).map_err(|e| format!("at the end: {e}; {}", hist.join(", ")))?;
    ensure!(skipped == no, "{skipped} packets were reported as skipped, the rules reject {no}; {}", hist.join(", "));
    c.nontrivial = yes > 0 && no > 0;
    c.sample(|| hist.join(", "));
    Ok(())
}

fn storage(g: &mut Gen, c: &mut Ctx, mut ps: Vec<Packet>) -> R {
    c.label("storage");
    if g.chance(1, 40) {
        c.label("storage of several slots");
        let n = CAP + g.us(0, CAP + 20);
        while ps.len() < n {
            let i = ps.len() as u64;
            let p = numbered(g, i);
            if !matches!(p.payload, Some(Payload::PlMap(_))) {
                ps.push(p);
            }
        }
    }
    let mem = Mem::new();
    super::store::insert_all(&mem, &ps)?;
    let mut rd = super::store::open(&mem).map_err(es)?;
    let ks: Vec<Known> = ps.iter().map(known).collect();
    let mut active: Active = Default::default();
    let mut hist: Vec<String> = vec![format!("{} packets", ps.len())];
    let (mut yes, mut no) = (0, 0);
    for _ in 0..g.us(1, 5) {
        while g.chance(2, 3) {
            apply!(g, rd, active, hist);
        }
        c.eval();
        take_log();
        let n = ps.len();
        let op = g.weighted(&[4, 4, 1, 1, 1, 1]);
        match op {
            0 | 1 => {
                let (from, len) = if op == 0 {
                    (0, if g.chance(1, 4) { g.us(0, n) } else { usize::MAX })
                } else {
                    (position(g, n), if g.chance(1, 4) { usize::MAX } else { g.us(0, n + 2) })
                };
                hist.push(if op == 0 { format!("filtered, first {len}") } else { format!("range_filtered({from}, {len})") });
                let mut got: Vec<Packet> = Vec::new();
                let mut fail = None;
                if op == 0 {
                    let mut it = rd.filtered();
                    while got.len() < len {
                        match it.next() {
                            None => break,
                            Some(Ok(p)) => got.push(p),
                            Some(Err(e)) => {
                                fail = Some(e);
                                break;
                            }
                        }
                    }
                } else {
                    for r in rd.range_filtered(from, len) {
                        match r {
                            Ok(p) => got.push(p),
                            Err(e) => {
                                fail = Some(e);
                                break;
                            }
                        }
                    }
                }
                if let Some(e) = fail {
                    return Err(format!("filtered iteration failed: {e}; {}", hist.join(", ")));
                }
                let mut want: Vec<usize> = Vec::new();
                let mut log = Log::new();
                let mut need = 0;
                for i in from.min(n)..n {
                    if judge(&ks[i], &active, &mut log) {
                        if want.len() < len {
                            want.push(i);
                            need = log.len();
                        }
                        yes += 1;
                    } else {
                        no += 1;
                    }
                }
                ensure!(
                    got.len() == want.len() && got.iter().zip(&want).all(|(p, i)| same(p, &ps[*i])),
                    "filtered iteration gave {} packets, expected those at {:?}; first difference at {:?}; {}",
                    got.len(),
                    &want[..want.len().min(20)],
                    got.iter().zip(&want).position(|(p, i)| !same(p, &ps[*i])),
                    hist.join(", ")
                );
                let seen = take_log();
                let full = want.len() < len;
                let head = squeeze(log[..need].to_vec()).len();
                ensure!(squeeze(seen.clone()).len() >= if len == 0 { 0 } else { head }, "rules were not consulted for every packet; {}", hist.join(", "));
                same_log(seen, log, full).map_err(|e| format!("{e}; {}", hist.join(", ")))?;
            }
            _ => {
                match op {
                    2 => {
                        hist.push("iter".into());
                        let got: Vec<Packet> = rd.iter().collect::<Result<_, _>>().map_err(|e| format!("iter: {e}; {}", hist.join(", ")))?;
                        ensure!(got.len() == n && got.iter().zip(&ps).all(|(a, b)| same(a, b)), "unfiltered iteration gave {} of {n} packets; {}", got.len(), hist.join(", "));
                    }
                    3 => {
                        let i = position(g, n);
                        hist.push(format!("nth {i}"));
                        let got = rd.nth(i).map_err(|e| format!("nth: {e}; {}", hist.join(", ")));
                        ensure!(if i < n { matches!(&got, Ok(Some(p)) if same(p, &ps[i])) } else { !matches!(got, Ok(Some(_))) }, "nth({i}) of {n} is wrong; {}", hist.join(", "));
                    }
                    4 => {
                        let from = g.us(0, n);
                        let len = g.us(0, n + 1);
                        hist.push(format!("range({from}, {len})"));
                        let got: Vec<Packet> = rd.range(from, len).collect::<Result<_, _>>().map_err(|e| format!("range: {e}; {}", hist.join(", ")))?;
                        ensure!(got.len() == len.min(n - from) && got.iter().zip(&ps[from..]).all(|(a, b)| same(a, b)), "range({from}, {len}) of {n} is wrong; {}", hist.join(", "));
                    }
                    _ => {
                        let from = g.us(0, n);
                        hist.push(format!("seek {from}"));
                        if from < n {
                            let got: Vec<Packet> = rd.seek(from).map_err(es)?.collect::<Result<_, _>>().map_err(|e| format!("seek: {e}; {}", hist.join(", ")))?;
                            ensure!(got.len() == n - from && got.iter().zip(&ps[from..]).all(|(a, b)| same(a, b)), "iteration from {from} of {n} is wrong; {}", hist.join(", "));
                        }
                    }
                }
                ensure!(take_log().iter().all(|x| x.0 == 3), "an unfiltered read consulted the rules; {}", hist.join(", "));
            }
        }
    }
    c.nontrivial = yes > 0 && no > 0;
    c.sample(|| hist.join(", "));
    Ok(())
}
