//! Independent reference encoder of the documented wire format, plus frame layout helpers.
use crate::proto::*;

pub const SIG8: [u8; 8] = [236, 37, 94, 136, 236, 37, 94, 136];

/// bit-by-bit CRC-32 (IEEE), table built at first use
pub fn crc32(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[i as usize] = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

fn sig_of(b: &Block) -> [u8; 4] {
    fn s<T: brec::SignatureU32>() -> [u8; 4] {
        *T::sig()
    }
    match b {
        Block::BlkU8(..) => s::<BlkU8Referred>(),
        Block::BlkTwin(..) => s::<BlkTwinReferred>(),
        Block::BlkScalars(..) => s::<BlkScalarsReferred>(),
        Block::BlkBools(..) => s::<BlkBoolsReferred>(),
        Block::BlkBlobs(..) => s::<BlkBlobsReferred>(),
        Block::BlkBig(..) => s::<BlkBigReferred>(),
        Block::BlkEnum(..) => s::<BlkEnumReferred>(),
        Block::BlkNoCrc(..) => s::<BlkNoCrcReferred>(),
        Block::BlkFloat(..) => s::<BlkFloatReferred>(),
        Block::CrateProtoDeepErBlkPath(..) => s::<crate::proto::deep::er::BlkPathReferred>(),
    }
}

pub fn block_fields(b: &Block) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::new();
    macro_rules! le { ($($x:expr),*) => { $( o.extend_from_slice(&$x.to_le_bytes()); )* } }
    match b {
        Block::BlkU8(x) => o.push(x.v),
        Block::BlkTwin(x) => o.push(x.v),
        Block::BlkScalars(x) => {
            le!(x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i, x.j, x.k.to_bits(), x.l.to_bits());
            o.push(if x.m { 1 } else { 0 });
        }
        Block::BlkBools(x) => {
            o.push(if x.x { 1 } else { 0 });
            o.push(if x.y { 1 } else { 0 });
            le!(x.z);
        }
        Block::BlkBlobs(x) => {
            o.extend_from_slice(&x.a);
            le!(x.b);
            o.extend_from_slice(&x.c);
            o.extend_from_slice(&x.d);
            le!(x.e, x.f.to_bits());
        }
        Block::BlkBig(x) => {
            le!(x.id);
            o.extend_from_slice(&x.data);
        }
        Block::BlkEnum(x) => {
            le!(x.head);
            o.push(match x.level {
                Level::Off => 0,
                Level::On => 7,
                Level::Max => 255,
            });
            o.extend_from_slice(&x.tail);
        }
        Block::BlkNoCrc(x) => {
            le!(x.v);
            o.extend_from_slice(&x.b);
        }
        Block::BlkFloat(x) => {
            le!(x.x.to_bits(), x.y.to_bits());
        }
        Block::CrateProtoDeepErBlkPath(x) => {
            le!(x.n);
            o.extend_from_slice(&x.t);
        }
    }
    o
}

pub fn enc_block(b: &Block) -> Vec<u8> {
    let f = block_fields(b);
    let mut o = sig_of(b).to_vec();
    o.extend_from_slice(&f);
    let crc = if matches!(b, Block::BlkNoCrc(..)) { 0 } else { crc32(&f) };
    o.extend_from_slice(&crc.to_le_bytes());
    o
}

/// canonical bytes of a payload's content (map order does not matter)
pub fn payload_canon(p: &Payload) -> Vec<u8> {
    match p {
        Payload::PlMap(m) => {
            let mut v: Vec<_> = m.m.iter().collect();
            v.sort();
            let mut o = vec![3u8];
            o.extend_from_slice(&brec::bincode::serialize(&v).unwrap());
            o
        }
        p => {
            let mut o = vec![payload_kind(p)];
            o.extend_from_slice(&payload_body(p));
            o
        }
    }
}

pub fn payload_kind(p: &Payload) -> u8 {
    match p {
        Payload::PlStruct(..) => 1,
        Payload::PlEnum(..) => 2,
        Payload::PlMap(..) => 3,
        Payload::PlCrc16(..) => 4,
        Payload::PlManual(..) => 5,
        Payload::Bytes(..) => 6,
        Payload::String(..) => 7,
    }
}

pub fn payload_body(p: &Payload) -> Vec<u8> {
    match p {
        Payload::PlStruct(x) => brec::bincode::serialize(x).unwrap(),
        Payload::PlEnum(x) => brec::bincode::serialize(x).unwrap(),
        Payload::PlMap(x) => brec::bincode::serialize(x).unwrap(),
        Payload::PlCrc16(x) => brec::bincode::serialize(x).unwrap(),
        Payload::PlManual(x) => x.data.iter().map(|b| b ^ 0xA5).collect(),
        Payload::Bytes(x) => x.clone(),
        Payload::String(x) => x.as_bytes().to_vec(),
    }
}

pub fn payload_sig(p: &Payload) -> Vec<u8> {
    use brec::StaticPayloadSignature as S;
    match p {
        Payload::PlStruct(_) => PlStruct::ssig().as_slice().to_vec(),
        Payload::PlEnum(_) => PlEnum::ssig().as_slice().to_vec(),
        Payload::PlMap(_) => PlMap::ssig().as_slice().to_vec(),
        Payload::PlCrc16(_) => PlCrc16::ssig().as_slice().to_vec(),
        Payload::PlManual(_) => SIG64.to_vec(),
        Payload::Bytes(_) => <Vec<u8> as S>::ssig().as_slice().to_vec(),
        Payload::String(_) => <String as S>::ssig().as_slice().to_vec(),
    }
}

pub fn payload_crc(p: &Payload, body: &[u8]) -> Vec<u8> {
    match p {
        Payload::PlMap(_) => vec![0; 4],
        Payload::PlCrc16(_) => sum16(body).to_vec(),
        _ => crc32(body).to_le_bytes().to_vec(),
    }
}

/// frame of a payload; for maps `body` must be given as serialized by the value at hand
pub fn enc_payload(p: &Payload) -> Vec<u8> {
    let body = payload_body(p);
    let sig = payload_sig(p);
    let crc = payload_crc(p, &body);
    let mut o = vec![sig.len() as u8];
    o.extend_from_slice(&sig);
    o.push(crc.len() as u8);
    o.extend_from_slice(&crc);
    o.extend_from_slice(&(body.len() as u32).to_le_bytes());
    o.extend_from_slice(&body);
    o
}

pub fn enc_header(size: u64, blocks_len: u64, payload: u8) -> Vec<u8> {
    let mut f = size.to_le_bytes().to_vec();
    f.extend_from_slice(&blocks_len.to_le_bytes());
    f.push(payload);
    let mut o = SIG8.to_vec();
    o.extend_from_slice(&f);
    o.extend_from_slice(&crc32(&f).to_le_bytes());
    o
}

pub fn enc_packet(p: &Packet) -> Vec<u8> {
    let blocks: Vec<u8> = p.blocks.iter().flat_map(enc_block).collect();
    let pl = p.payload.as_ref().map(enc_payload);
    let size = blocks.len() + pl.as_ref().map_or(0, |p| p.len());
    let mut o = enc_header(size as u64, blocks.len() as u64, pl.is_some() as u8);
    o.extend_from_slice(&blocks);
    if let Some(p) = pl {
        o.extend_from_slice(&p);
    }
    o
}

/// content identity of a packet (independent of map order)
pub fn canon(p: &Packet) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::new();
    o.extend_from_slice(&(p.blocks.len() as u32).to_le_bytes());
    for b in &p.blocks {
        o.extend_from_slice(&enc_block(b));
    }
    match &p.payload {
        None => o.push(0),
        Some(p) => {
            o.push(1);
            o.extend_from_slice(&payload_canon(p));
        }
    }
    o
}

pub fn describe(p: &Packet) -> String {
    let mut o = String::from("[");
    for b in p.blocks.iter().take(4) {
        let e = enc_block(b);
        let name = format!("{b:?}");
        let name = name.split('(').next().unwrap_or("?").to_string();
        o.push_str(&format!("{name}:{} ", hex(&e[4..e.len().min(14)])));
    }
    if p.blocks.len() > 4 {
        o.push_str(&format!("..{} blocks ", p.blocks.len()));
    }
    o.push(']');
    if let Some(pl) = &p.payload {
        let b = payload_body(pl);
        o.push_str(&format!(" payload kind {} body {} bytes", payload_kind(pl), b.len()));
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
