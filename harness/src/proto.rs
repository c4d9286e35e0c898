//! The protocol under test: every field type, attribute and payload flavour of the library.
#![allow(dead_code)]
use brec::prelude::*;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Level {
    Off,
    On,
    Max,
}
impl TryFrom<u8> for Level {
    type Error = String;
    fn try_from(v: u8) -> Result<Self, String> {
        match v {
            0 => Ok(Level::Off),
            7 => Ok(Level::On),
            255 => Ok(Level::Max),
            x => Err(format!("{x} is not a level")),
        }
    }
}
impl From<&Level> for u8 {
    fn from(v: &Level) -> u8 {
        match v {
            Level::Off => 0,
            Level::On => 7,
            Level::Max => 255,
        }
    }
}

#[block]
#[derive(Debug, Clone)]
pub struct BlkU8 {
    pub v: u8,
}
/// same layout as BlkU8
#[block]
#[derive(Debug, Clone)]
pub struct BlkTwin {
    pub v: u8,
}
#[block]
#[derive(Debug, Clone)]
pub struct BlkScalars {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: u128,
    pub f: i8,
    pub g: i16,
    pub h: i32,
    pub i: i64,
    pub j: i128,
    pub k: f32,
    pub l: f64,
    pub m: bool,
}
#[block]
#[derive(Debug, Clone)]
pub struct BlkBools {
    pub x: bool,
    pub y: bool,
    pub z: u16,
}
#[block]
#[derive(Debug, Clone)]
pub struct BlkBlobs {
    pub a: [u8; 1],
    pub b: u16,
    pub c: [u8; 33],
    pub d: [u8; 100],
    pub e: i32,
    pub f: f32,
}
#[block]
#[derive(Debug, Clone)]
pub struct BlkBig {
    pub id: u32,
    pub data: [u8; 5000],
}
#[block]
#[derive(Debug, Clone)]
pub struct BlkEnum {
    pub head: u16,
    pub level: Level,
    pub tail: [u8; 5],
}
#[block(no_crc)]
#[derive(Debug, Clone)]
pub struct BlkNoCrc {
    pub v: u64,
    pub b: [u8; 3],
}
#[block]
#[derive(Debug, Clone)]
pub struct BlkFloat {
    pub x: f64,
    pub y: f32,
}

#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct PlStruct {
    pub a: u64,
    pub b: String,
    pub c: Vec<u32>,
    pub d: Option<i16>,
    pub e: f64,
    pub f: (u8, bool),
}
#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub enum PlEnum {
    Unit,
    Num(i128),
    Text(String),
    Rec { x: f32, y: Vec<u8> },
}
#[payload(bincode, no_crc)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct PlMap {
    pub m: HashMap<String, u16>,
}
/// bincode body, own 16-byte checksum
#[payload(bincode, no_auto_crc)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct PlCrc16 {
    pub items: Vec<u16>,
}
pub fn sum16(body: &[u8]) -> [u8; 16] {
    let mut h = 0x6c62272e07bb014262b821756295c58du128;
    for b in body {
        h = (h ^ *b as u128).wrapping_mul(0x0000000001000000000000000000013B);
    }
    h.to_le_bytes()
}
impl brec::PayloadCrc for PlCrc16 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> {
        Ok(brec::ByteBlock::Len16(sum16(&brec::PayloadEncode::encode(self)?)))
    }
    fn crc_size() -> usize {
        16
    }
}
pub const SIG64: [u8; 64] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45,
    46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 200,
];
/// hand-written codec (body is xor-masked), long signature, borrowed encoding kept alongside
#[payload(no_default_sig, no_auto_crc, hooks)]
#[derive(Debug, Clone)]
pub struct PlManual {
    pub data: Vec<u8>,
    encoded: Vec<u8>,
    broken: u8,
}
impl PlManual {
    pub fn new(data: Vec<u8>) -> Self {
        let encoded = data.iter().map(|b| b ^ 0xA5).collect();
        Self { data, encoded, broken: 0 }
    }
    /// cannot be encoded: 1 - only the codec fails, 2 - the size isn't known either
    pub fn broken(data: Vec<u8>, how: u8) -> Self {
        Self { broken: how, ..Self::new(data) }
    }
    fn fit(&self, level: u8) -> std::io::Result<()> {
        if self.broken >= level { Err(std::io::Error::other("cannot be encoded")) } else { Ok(()) }
    }
}
impl brec::PayloadHooks for PlManual {}
impl brec::PayloadSignature for PlManual {
    fn sig(&self) -> brec::ByteBlock {
        brec::ByteBlock::Len64(SIG64)
    }
}
impl brec::StaticPayloadSignature for PlManual {
    fn ssig() -> brec::ByteBlock {
        brec::ByteBlock::Len64(SIG64)
    }
}
impl brec::PayloadEncode for PlManual {
    fn encode(&self) -> std::io::Result<Vec<u8>> {
        self.fit(1)?;
        Ok(self.encoded.clone())
    }
}
impl brec::PayloadEncodeReferred for PlManual {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> {
        self.fit(1)?;
        Ok(Some(&self.encoded))
    }
}
thread_local! {
    /// told about every body `PlManual` is asked to decode
    pub static ON_DECODE: std::cell::Cell<Option<fn(&[u8])>> = const { std::cell::Cell::new(None) };
}
impl brec::PayloadDecode<PlManual> for PlManual {
    fn decode(buf: &[u8]) -> std::io::Result<PlManual> {
        if let Some(f) = ON_DECODE.with(|f| f.get()) {
            f(buf);
        }
        Ok(PlManual::new(buf.iter().map(|b| b ^ 0xA5).collect()))
    }
}
impl brec::PayloadSize for PlManual {
    fn size(&self) -> std::io::Result<u64> {
        self.fit(2)?;
        Ok(self.encoded.len() as u64)
    }
}
impl brec::PayloadCrc for PlManual {}

pub mod deep {
    pub mod er {
        use brec::prelude::*;
        #[block(path = crate::proto::deep::er)]
        #[derive(Debug, Clone)]
        pub struct BlkPath {
            pub n: i64,
            pub t: [u8; 9],
        }
    }
}

brec::generate!();
