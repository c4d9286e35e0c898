use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::{Act, Script};
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use brec::{IoSlices, WriteMutTo, WritePayloadWithHeaderTo, WriteTo, WriteVectoredMutTo, WriteVectoredPayloadWithHeaderTo, WriteVectoredTo};

pub static CHECK: Check = Check {
    id: "P14",
    level: "exploration",
    rule: "a case is a generated packet, block (as enum and as struct), payload (as enum and as struct), packet header or slice list, a write mode (single or complete, plain or vectored) and a sink with a generated script of short counts, zero counts, failures and interruptions, with or without true vectored support; non-trivial = the sink did not take everything in one call",
    assumptions: &["the encoding is taken from the independent reference encoder", "a sink that reports an interruption may end a write with an error"],
    quick: 4_000_000,
    thorough: 300_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

fn script(g: &mut Gen, len: usize) -> (Vec<Act>, bool) {
    // long data goes in larger steps
    let k = 1 + len / 3000;
    let take = |g: &mut Gen| match g.weighted(&[3, 2, 2, 1]) {
        0 => Act::Take(g.us(1, 8) * k),
        1 => Act::Take(g.us(1, 40) * k),
        2 => Act::Take(g.us(1, len.max(1) + 1)),
        _ => Act::Take(k),
    };
    match g.weighted(&[3, 3, 3, 1]) {
        // always short
        0 => ((0..g.us(1, 5)).map(|_| take(g)).collect(), true),
        // ends with a refusal or a failure
        1 => {
            let mut v: Vec<Act> = (0..g.us(0, 6)).map(|_| take(g)).collect();
            v.push(if g.flag() { Act::Zero } else { Act::Fail });
            (v, false)
        }
        // all but a few bytes, then something
        2 => {
            let k = len.saturating_sub(g.us(0, 3)).max(1);
            let mut v = vec![Act::Take(k)];
            if g.flag() {
                v.push(take(g));
            }
            (v, false)
        }
        _ => {
            let mut v: Vec<Act> = (0..g.us(1, 4)).map(|_| take(g)).collect();
            v.insert(g.us(0, v.len() - 1), Act::Interrupted);
            (v, false)
        }
    }
}

enum Out {
    All(std::io::Result<()>),
    Some(std::io::Result<usize>),
}

const MODES: [&str; 4] = ["write_all", "write_vectored_all", "write", "write_vectored"];

macro_rules! by_mode {
    ($m:expr, $a:path, $va:path, $w:path, $vw:path, $x:expr, $s:expr) => {
        match $m {
            0 => Out::All($a($x, $s)),
            1 => Out::All($va($x, $s)),
            2 => Out::Some($w($x, $s)),
            _ => Out::Some($vw($x, $s)),
        }
    };
}

fn blk<T: WriteTo + WriteVectoredTo>(x: &T, m: usize, s: &mut Script) -> Out {
    by_mode!(m, WriteTo::write_all, WriteVectoredTo::write_vectored_all, WriteTo::write, WriteVectoredTo::write_vectored, x, s)
}
fn mutable<T: WriteMutTo + WriteVectoredMutTo>(x: &mut T, m: usize, s: &mut Script) -> Out {
    by_mode!(m, WriteMutTo::write_all, WriteVectoredMutTo::write_vectored_all, WriteMutTo::write, WriteVectoredMutTo::write_vectored, x, s)
}
fn pl<T>(x: &mut T, m: usize, s: &mut Script) -> Out
where
    T: WritePayloadWithHeaderTo + WriteVectoredPayloadWithHeaderTo,
{
    by_mode!(
        m,
        WritePayloadWithHeaderTo::write_all,
        WriteVectoredPayloadWithHeaderTo::write_vectored_all,
        WritePayloadWithHeaderTo::write,
        WriteVectoredPayloadWithHeaderTo::write_vectored,
        x,
        s
    )
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let what = g.weighted(&[4, 2, 2, 2, 2, 1, 2]);
    let mut mode = g.us(0, 3);
    let name: &str;
    let want: Vec<u8>;
    let vectored = !g.chance(1, 3);
    let mut sink;
    let out;
    macro_rules! mk {
        () => {{
            let (acts, cycle) = script(g, want.len());
            sink = Script::new(acts, cycle, vectored);
        }};
    }
    match what {
        0 => {
            name = "packet";
            let mut p = gens::packet(g);
            want = enc_packet(&p);
            mk!();
            out = mutable(&mut p, mode, &mut sink);
        }
        1 => {
            name = "block";
            let b = gens::block(g);
            want = enc_block(&b);
            mk!();
            out = blk(&b, mode, &mut sink);
        }
        2 => {
            name = "block struct";
            let b = gens::block(g);
            want = enc_block(&b);
            mk!();
            out = match &b {
                Block::BlkU8(x) => blk(x, mode, &mut sink),
                Block::BlkTwin(x) => blk(x, mode, &mut sink),
                Block::BlkScalars(x) => blk(x, mode, &mut sink),
                Block::BlkBools(x) => blk(x, mode, &mut sink),
                Block::BlkBlobs(x) => blk(x, mode, &mut sink),
                Block::BlkBig(x) => blk(x, mode, &mut sink),
                Block::BlkEnum(x) => blk(x, mode, &mut sink),
                Block::BlkNoCrc(x) => blk(x, mode, &mut sink),
                Block::BlkFloat(x) => blk(x, mode, &mut sink),
                Block::CrateProtoDeepErBlkPath(x) => blk(x, mode, &mut sink),
            };
        }
        3 => {
            name = "payload";
            let mut p = gens::payload(g, 4000);
            want = enc_payload(&p);
            mk!();
            out = mutable(&mut p, mode, &mut sink);
        }
        4 => {
            name = "payload struct";
            let mut p = gens::payload(g, 4000);
            want = enc_payload(&p);
            mk!();
            out = match &mut p {
                Payload::PlStruct(x) => pl(x, mode, &mut sink),
                Payload::PlEnum(x) => pl(x, mode, &mut sink),
                Payload::PlMap(x) => pl(x, mode, &mut sink),
                Payload::PlCrc16(x) => pl(x, mode, &mut sink),
                Payload::PlManual(x) => pl(x, mode, &mut sink),
                Payload::Bytes(x) => pl(x, mode, &mut sink),
                Payload::String(x) => pl(x, mode, &mut sink),
            };
        }
        5 => {
            name = "packet header";
            mode &= 2;
            let p = gens::packet(g);
            want = enc_packet(&p)[..29].to_vec();
            let h = brec::PacketHeader::new(&p.blocks, p.payload.as_ref()).map_err(es)?;
            mk!();
            out = if mode == 0 { Out::All(WriteTo::write_all(&h, &mut sink)) } else { Out::Some(WriteTo::write(&h, &mut sink)) };
        }
        _ => {
            name = "slices";
            mode = 1;
            let many = g.chance(1, 100);
            let parts: Vec<Vec<u8>> = (0..if many { g.us(900, 2500) } else { g.us(0, 8) })
                .map(|_| {
                    let n = if g.chance(1, 4) { 0 } else { g.us(0, if many { 4 } else { 40 }) };
                    g.blob(n)
                })
                .collect();
            want = parts.concat();
            let mut s = IoSlices::default();
            for p in &parts {
                if g.flag() {
                    s.add_slice(p);
                } else if g.flag() {
                    s.add_buffered(p.clone());
                } else {
                    let mut t = IoSlices::default();
                    t.add_slice(p);
                    s.append(t);
                }
            }
            mk!();
            out = Out::All(s.write_vectored_all(&mut sink));
        }
    }
    let m = MODES[mode];
    let acts = format!("{:?}{}", sink.acts, if sink.cycle { " repeating" } else { "" });
    c.nontrivial = sink.call > 1 || sink.got.len() < want.len();
    c.label(&format!("{name} {m}"));
    ensure!(
        sink.got.len() <= want.len() && sink.got[..] == want[..sink.got.len()],
        "{name} {m} to a sink {acts} (vectored {vectored}): delivered {} bytes that are not a prefix of the encoding ({} bytes)",
        sink.got.len(),
        want.len()
    );
    let interrupted = sink.acts.iter().take(sink.call).any(|a| matches!(a, Act::Interrupted));
    match out {
        Out::All(Ok(())) => {
            ensure!(sink.got == want, "{name} {m} to a sink {acts} (vectored {vectored}): succeeded with {} of {} bytes delivered", sink.got.len(), want.len());
            c.label("complete");
        }
        Out::All(Err(e)) => {
            ensure!(sink.failed || interrupted, "{name} {m} to a sink {acts} (vectored {vectored}): fails with {e} though the sink took bytes on every call ({} of {})", sink.got.len(), want.len());
            c.label("error");
        }
        Out::Some(Ok(n)) => {
            ensure!(n == sink.got.len(), "{name} {m} to a sink {acts} (vectored {vectored}): reports {n} bytes, the sink took {} of {}", sink.got.len(), want.len());
            c.label(if n == want.len() { "complete" } else { "short" });
        }
        Out::Some(Err(e)) => {
            ensure!(sink.failed || interrupted, "{name} {m} to a sink {acts} (vectored {vectored}): fails with {e} though the sink took bytes on every call ({} of {})", sink.got.len(), want.len());
            c.label("error");
        }
    }
    c.sample(|| format!("{name} of {} bytes, {m}, sink {acts}", want.len()));
    Ok(())
}
