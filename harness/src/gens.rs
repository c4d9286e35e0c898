//! Generators of protocol values.
use crate::engine::Gen;
use crate::proto::*;
use crate::proto::deep::er::BlkPath;

fn arr<const N: usize>(g: &mut Gen) -> [u8; N] {
    let v = g.blob(N);
    let mut a = [0u8; N];
    a.copy_from_slice(&v);
    a
}
fn f32v(g: &mut Gen) -> f32 {
    match g.weighted(&[2, 1, 1, 1, 1, 3]) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::from_bits(0x7fc00000 | g.u(0x3fffff) as u32),
        3 => f32::from_bits(0xff800000),
        4 => f32::from_bits(1),
        _ => f32::from_bits(g.u(u32::MAX as u64) as u32),
    }
}
fn f64v(g: &mut Gen) -> f64 {
    match g.weighted(&[2, 1, 1, 1, 1, 3]) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::from_bits(0x7ff8000000000000 | g.u(0x7ffffffffffff)),
        3 => f64::from_bits(0xfff0000000000000),
        4 => f64::from_bits(1),
        _ => f64::from_bits(g.u(u64::MAX)),
    }
}

pub fn block_kind(g: &mut Gen, kind: usize) -> Block {
    match kind {
        0 => Block::BlkU8(BlkU8 { v: g.u(255) as u8 }),
        1 => Block::BlkTwin(BlkTwin { v: g.u(255) as u8 }),
        2 => Block::BlkBools(BlkBools { x: g.flag(), y: g.flag(), z: g.bits(16) as u16 }),
        3 => Block::BlkScalars(BlkScalars {
            a: g.bits(8) as u8,
            b: g.bits(16) as u16,
            c: g.bits(32) as u32,
            d: g.bits(64) as u64,
            e: g.bits(128),
            f: g.bits(8) as u8 as i8,
            g: g.bits(16) as u16 as i16,
            h: g.bits(32) as u32 as i32,
            i: g.bits(64) as u64 as i64,
            j: g.bits(128) as i128,
            k: f32v(g),
            l: f64v(g),
            m: g.flag(),
        }),
        4 => Block::BlkEnum(BlkEnum {
            head: g.bits(16) as u16,
            level: match g.u(2) {
                0 => Level::Off,
                1 => Level::On,
                _ => Level::Max,
            },
            tail: arr(g),
        }),
        5 => Block::BlkBlobs(BlkBlobs { a: arr(g), b: g.bits(16) as u16, c: arr(g), d: arr(g), e: g.bits(32) as u32 as i32, f: f32v(g) }),
        6 => Block::BlkNoCrc(BlkNoCrc { v: g.bits(64) as u64, b: arr(g) }),
        7 => Block::BlkFloat(BlkFloat { x: f64v(g), y: f32v(g) }),
        8 => Block::CrateProtoDeepErBlkPath(BlkPath { n: g.bits(64) as u64 as i64, t: arr(g) }),
        _ => Block::BlkBig(BlkBig { id: g.bits(32) as u32, data: arr(g) }),
    }
}
pub const BLOCK_KINDS: usize = 10;

pub fn block(g: &mut Gen) -> Block {
    let k = g.weighted(&[6, 5, 5, 5, 5, 5, 4, 4, 4, 1]);
    block_kind(g, k)
}
/// blocks fully covered by their checksum
pub fn block_crc(g: &mut Gen) -> Block {
    let k = g.weighted(&[6, 5, 5, 5, 5, 5, 0, 4, 4, 1]);
    block_kind(g, k)
}
/// small blocks only
pub fn block_small(g: &mut Gen) -> Block {
    let k = g.weighted(&[8, 3, 3, 1, 3, 1, 3, 2, 2]);
    block_kind(g, k)
}

pub fn string(g: &mut Gen, max: usize) -> String {
    let n = g.us(0, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push(match g.weighted(&[6, 2, 1, 1]) {
            0 => (b'a' + g.u(25) as u8) as char,
            1 => 'é',
            2 => '\u{1F600}',
            _ => '\0',
        });
    }
    s
}

pub fn payload_kind(g: &mut Gen, kind: usize, max: usize) -> Payload {
    match kind {
        0 => {
            let n = g.us(0, max);
            Payload::Bytes(g.blob(n))
        }
        1 => {
            let m = max.min(40);
            Payload::String(string(g, m))
        }
        2 => {
            let n = g.us(0, (max / 4).min(200));
            let c = g.blob(n * 4).chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
            Payload::PlStruct(PlStruct { a: g.bits(64) as u64, b: string(g, 12), c, d: if g.flag() { Some(g.bits(16) as u16 as i16) } else { None }, e: f64v(g), f: (g.u(255) as u8, g.flag()) })
        }
        3 => Payload::PlEnum(match g.u(3) {
            0 => PlEnum::Unit,
            1 => PlEnum::Num(g.bits(128) as i128),
            2 => PlEnum::Text(string(g, 20)),
            _ => {
                let n = g.us(0, max.min(400));
                PlEnum::Rec { x: f32v(g), y: g.blob(n) }
            }
        }),
        4 => {
            let n = g.us(0, max);
            Payload::PlManual(PlManual::new(g.blob(n)))
        }
        5 => {
            let n = g.us(0, (max / 2).min(300));
            Payload::PlCrc16(PlCrc16 { items: g.blob(n * 2).chunks(2).map(|c| u16::from_le_bytes(c.try_into().unwrap())).collect() })
        }
        _ => {
            let n = g.us(0, 5);
            Payload::PlMap(PlMap { m: (0..n).map(|i| (format!("{}{}", string(g, 3), i), g.bits(16) as u16)).collect() })
        }
    }
}
pub const PAYLOAD_KINDS: usize = 7;
pub fn payload(g: &mut Gen, max: usize) -> Payload {
    let k = g.weighted(&[4, 3, 3, 3, 3, 3, 2]);
    payload_kind(g, k, max)
}
/// payloads covered by a checksum
pub fn payload_crc(g: &mut Gen, max: usize) -> Payload {
    let k = g.weighted(&[4, 3, 3, 3, 3, 3]);
    payload_kind(g, k, max)
}

pub fn packet(g: &mut Gen) -> Packet {
    let n = match g.weighted(&[10, 30, 6, 1]) {
        0 => 0,
        1 => g.us(1, 6),
        2 => g.us(7, 30),
        _ => g.us(250, 255),
    };
    let blocks = if n > 40 && g.chance(1, 6) {
        // blocks of more than 64 KiB together
        let base = block_kind(g, 9);
        (0..g.us(13, 40))
            .map(|i| {
                let mut b = base.clone();
                if let Block::BlkBig(x) = &mut b {
                    x.id = x.id.wrapping_add(i as u32);
                }
                b
            })
            .collect()
    // many blocks made of several slices each
    } else if n > 40 && g.flag() {
        let base = block_kind(g, 5);
        (0..n)
            .map(|i| {
                let mut b = base.clone();
                if let Block::BlkBlobs(x) = &mut b {
                    x.b = x.b.wrapping_add(i as u16);
                }
                b
            })
            .collect()
    } else {
        (0..n).map(|_| if n > 40 { block_small(g) } else { block(g) }).collect()
    };
    let pl = if g.chance(3, 5) {
        let max = match g.weighted(&[40, 20, 9, 1]) {
            0 => 64,
            1 => 600,
            2 => 20000,
            _ => 140000,
        };
        Some(payload(g, max))
    } else {
        None
    };
    Packet::new(blocks, pl)
}
/// small packet: at most 3 small blocks and a payload of at most `max` bytes
pub fn packet_small(g: &mut Gen, max: usize) -> Packet {
    let n = g.us(0, 3);
    let blocks = (0..n).map(|_| block_small(g)).collect();
    let pl = if g.chance(1, 2) { Some(payload(g, max)) } else { None };
    Packet::new(blocks, pl)
}
/// every byte but lengths of payloads is protected
pub fn packet_protected(g: &mut Gen) -> Packet {
    let n = g.us(0, 4);
    let blocks = (0..n).map(|_| block_crc(g)).collect();
    let pl = if g.chance(1, 2) { Some(payload_crc(g, 60)) } else { None };
    Packet::new(blocks, pl)
}

/// Cheap tiny packet for long histories.
pub fn packet_tiny(g: &mut Gen, n: u64) -> Packet {
    match g.weighted(&[6, 2, 2, 1]) {
        0 => Packet::new(vec![Block::BlkU8(BlkU8 { v: n as u8 }), Block::CrateProtoDeepErBlkPath(BlkPath { n: n as i64, t: [7; 9] })], None),
        1 => Packet::new(vec![], Some(Payload::Bytes(n.to_le_bytes().to_vec()))),
        2 => Packet::new(vec![Block::BlkTwin(BlkTwin { v: (n >> 8) as u8 })], Some(Payload::String(format!("packet {n}")))),
        _ => Packet::new(vec![], None),
    }
}

pub fn clone_packet(p: &Packet) -> Packet {
    Packet::new(p.blocks.clone(), p.payload.clone())
}
