use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use brec::{PayloadCrc, PayloadSignature, PayloadSize};

pub static CHECK: Check = Check {
    id: "P02",
    level: "exploration",
    rule: "a case is a generated packet, plus each of its blocks and its payload on their own, encoded by every write path and compared with an independent encoder; non-trivial = at least one block or a payload",
    assumptions: &["block and default payload signatures are taken from the public API; their values are not part of the specification"],
    quick: 1_000_000,
    thorough: 100_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

fn cmp(what: &str, got: &[u8], want: &[u8]) -> R {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{what}: bytes differ from the specification at offset {at} (lengths {} / {}): got ..{} expected ..{}",
        got.len(),
        want.len(),
        hex(&got[at..got.len().min(at + 16)]),
        hex(&want[at..want.len().min(at + 16)])
    ))
}

macro_rules! concrete {
    ($b:expr, $($v:ident),*) => { match $b { $(
        Block::$v(x) => {
            let mut o = Vec::new();
            brec::WriteTo::write_all(x, &mut o).map_err(es)?;
            let mut o2 = Vec::new();
            let n = brec::WriteTo::write(x, &mut o2).map_err(es)?;
            let mut o3 = Vec::new();
            brec::WriteVectoredTo::write_vectored_all(x, &mut o3).map_err(es)?;
            fn ss<T: brec::StaticSize>(_: &T) -> u64 { T::ssize() }
            (o, o2, o3, n, ss(x), brec::CrcU32::crc(x))
        } )* } };
}

pub fn check_block(b: &Block) -> R {
    let want = enc_block(b);
    let mut o = Vec::new();
    b.write_all(&mut o).map_err(es)?;
    cmp("block write_all", &o, &want)?;
    o.clear();
    let n = b.write(&mut o).map_err(es)?;
    cmp("block write", &o, &want)?;
    ensure!(n == want.len(), "block write reports {n} of {}", want.len());
    o.clear();
    let n = b.write_vectored(&mut o).map_err(es)?;
    cmp("block write_vectored", &o, &want)?;
    ensure!(n == want.len(), "block write_vectored reports {n} of {}", want.len());
    o.clear();
    b.write_vectored_all(&mut o).map_err(es)?;
    cmp("block write_vectored_all", &o, &want)?;
    o.clear();
    for s in b.slices().map_err(es)?.get() {
        o.extend_from_slice(&s);
    }
    cmp("block slices", &o, &want)?;
    ensure!(b.size() as usize == want.len(), "block size() {} but {} bytes", b.size(), want.len());
    let (o1, o2, o3, n, ss, crc) = concrete!(b, BlkU8, BlkTwin, BlkScalars, BlkBools, BlkBlobs, BlkBig, BlkEnum, BlkNoCrc, BlkFloat, CrateProtoDeepErBlkPath);
    cmp("concrete block write_all", &o1, &want)?;
    cmp("concrete block write", &o2, &want)?;
    cmp("concrete block write_vectored_all", &o3, &want)?;
    ensure!(n == want.len() && ss as usize == want.len(), "concrete block sizes {n}/{ss} for {} bytes", want.len());
    cmp("block crc()", &crc, &want[want.len() - 4..])
}

pub fn check_payload(p: &mut Payload) -> R {
    let want = enc_payload(p);
    let body = payload_body(p);
    let mut o = Vec::new();
    brec::WriteMutTo::write_all(p, &mut o).map_err(es)?;
    cmp("payload write_all", &o, &want)?;
    o.clear();
    let n = brec::WriteMutTo::write(p, &mut o).map_err(es)?;
    cmp("payload write", &o, &want)?;
    ensure!(n == want.len(), "payload write reports {n} of {}", want.len());
    o.clear();
    let n = brec::WriteVectoredMutTo::write_vectored(p, &mut o).map_err(es)?;
    cmp("payload write_vectored", &o, &want)?;
    ensure!(n == want.len(), "payload write_vectored reports {n} of {}", want.len());
    o.clear();
    brec::WriteVectoredMutTo::write_vectored_all(p, &mut o).map_err(es)?;
    cmp("payload write_vectored_all", &o, &want)?;
    o.clear();
    for s in brec::WriteVectoredMutTo::slices(p).map_err(es)?.get() {
        o.extend_from_slice(&s);
    }
    cmp("payload slices", &o, &want)?;
    let hlen = want.len() - body.len();
    let h = brec::PayloadHeader::new(p).map_err(es)?;
    cmp("payload header as_vec", &h.as_vec(), &want[..hlen])?;
    ensure!(h.size() == hlen, "payload header size() {} but {hlen} bytes", h.size());
    ensure!(h.payload_len() == body.len(), "payload_len {} but {} bytes", h.payload_len(), body.len());
    let ss = brec::PayloadHeader::ssize(p).map_err(es)?;
    ensure!(ss == hlen, "PayloadHeader::ssize announces {ss} bytes but the header has {hlen}");
    let sz = PayloadSize::size(p).map_err(es)?;
    ensure!(sz as usize == body.len(), "payload size() {sz} but {} bytes", body.len());
    let ps = brec::PacketHeader::payload_size(p).map_err(es)?;
    ensure!(ps as usize == want.len(), "PacketHeader::payload_size {ps} but {} bytes", want.len());
    ensure!(p.sig().as_slice() == payload_sig(p), "payload sig() differs");
    ensure!(PayloadCrc::crc(p).map_err(es)?.as_slice() == payload_crc(p, &body), "payload crc() differs");
    Ok(())
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let mut p = gens::packet(g);
    c.nontrivial = !p.blocks.is_empty() || p.payload.is_some();
    c.sample(|| describe(&p));
    let want = enc_packet(&p);
    for path in 0..=WRITE_PATHS {
        let got = write_packet(&mut p, path)?;
        cmp(["packet write_all", "packet write", "packet write_vectored_all", "packet slices"][path as usize], &got, &want)?;
        c.eval();
    }
    let mut o = Vec::new();
    let n = p.write_vectored(&mut o).map_err(es)?;
    // a single vectored write may be short only if the sink takes less than offered; Vec takes all
    cmp("packet write_vectored", &o, &want)?;
    ensure!(n == want.len(), "packet write_vectored reports {n} of {}", want.len());
    let h = brec::PacketHeader::new(&p.blocks, p.payload.as_ref()).map_err(es)?;
    ensure!(h.size as usize == want.len() - 29, "header size {} for {} bytes", h.size, want.len());
    ensure!(h.payload == p.payload.is_some(), "header payload flag wrong");
    let mut o = Vec::new();
    brec::WriteTo::write_all(&h, &mut o).map_err(es)?;
    cmp("packet header write_all", &o, &want[..29])?;
    o.clear();
    let n = brec::WriteTo::write(&h, &mut o).map_err(es)?;
    ensure!(n == 29, "packet header write reports {n}");
    cmp("packet header write", &o, &want[..29])?;
    ensure!(<brec::PacketHeader as brec::StaticSize>::ssize() == 29, "header ssize");
    for b in p.blocks.iter().take(12) {
        check_block(b)?;
        c.eval();
    }
    if let Some(pl) = p.payload.as_mut() {
        c.label(&format!("payload kind {}", payload_kind(pl)));
        check_payload(pl)?;
        c.eval();
    }
    Ok(())
}
