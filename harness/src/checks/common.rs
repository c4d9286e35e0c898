//! Read and write paths shared by the checks.
#![allow(dead_code)]
use crate::engine::Gen;
use crate::io::Chunked;
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use std::io::{Cursor, Read};
use std::sync::{Arc, Mutex};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub enum Got {
    Packet(Packet),
    Need(u64),
    Error(String),
}

pub fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

/// Serialize by one of the write paths.
pub fn write_packet(p: &mut Packet, path: u64) -> Result<Vec<u8>, String> {
    let mut o = Vec::new();
    match path {
        0 => p.write_all(&mut o).map_err(es)?,
        1 => {
            let n = p.write(&mut o).map_err(es)?;
            if n != o.len() {
                return Err(format!("write reported {n} bytes, sink took {}", o.len()));
            }
        }
        2 => p.write_vectored_all(&mut o).map_err(es)?,
        _ => {
            for s in p.slices().map_err(es)?.get() {
                o.extend_from_slice(&s);
            }
        }
    }
    Ok(o)
}
pub const WRITE_PATHS: u64 = 3;

pub fn rd_stream<T: Read>(src: &mut T) -> Got {
    match <Packet as ReadFrom>::read(src) {
        Ok(p) => Got::Packet(p),
        Err(e) => Got::Error(e.to_string()),
    }
}
pub fn rd_seek(src: &mut Cursor<&[u8]>) -> Got {
    match <Packet as TryReadFrom>::try_read(src) {
        Ok(ReadStatus::Success(p)) => Got::Packet(p),
        Ok(ReadStatus::NotEnoughData(n)) => Got::Need(n),
        Err(e) => Got::Error(e.to_string()),
    }
}
pub fn rd_buf<T: std::io::BufRead>(src: &mut T) -> Got {
    match <Packet as TryReadFromBuffered>::try_read(src) {
        Ok(ReadStatus::Success(p)) => Got::Packet(p),
        Ok(ReadStatus::NotEnoughData(n)) => Got::Need(n),
        Err(e) => Got::Error(e.to_string()),
    }
}
pub fn rd_filtered(src: &mut Cursor<&[u8]>) -> Got {
    let rules: Rules = Rules::default();
    match Packet::filtered(src, &rules) {
        Ok(brec::LookInStatus::Accepted(_, p)) => Got::Packet(p),
        Ok(brec::LookInStatus::Denied(_)) => Got::Error("denied without rules".into()),
        Ok(brec::LookInStatus::NotEnoughData(n)) => Got::Need(n as u64),
        Err(e) => Got::Error(e.to_string()),
    }
}

/// What a stream reader run produced, in order.
#[derive(Default)]
pub struct StreamRun {
    pub packets: Vec<Packet>,
    pub ignored: Vec<u8>,
    pub errors: usize,
    pub skipped: usize,
    pub steps: usize,
    pub ended: bool,
}

pub fn step_bound(len: usize) -> usize {
    len * 4 + 2000
}

/// Drive a PacketBufReader until NoData.
pub fn run_reader<T: Read>(src: &mut T, len: usize) -> Result<StreamRun, String> {
    let mut out = StreamRun::default();
    let ignored: Arc<Mutex<Vec<u8>>> = Arc::default();
    let ig = ignored.clone();
    {
        let mut reader: PacketBufReader<T> = PacketBufReader::new(src);
        reader
            .add_rule(Rule::Ignored(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| ig.lock().unwrap().extend_from_slice(b)))))
            .map_err(es)?;
        let bound = step_bound(len);
        loop {
            out.steps += 1;
            if out.steps > bound {
                return Err(format!("stream reader made {} calls over {} bytes without reaching the end of data ({} packets, {} errors so far)", out.steps, len, out.packets.len(), out.errors));
            }
            match reader.read() {
                Ok(NextPacket::Found(p)) => out.packets.push(p),
                Ok(NextPacket::NoData) => {
                    out.ended = true;
                    break;
                }
                Ok(NextPacket::Skipped) => out.skipped += 1,
                Ok(NextPacket::NotFound) | Ok(NextPacket::NotEnoughData(_)) => {}
                Err(_) => out.errors += 1,
            }
        }
    }
    out.ignored = Arc::try_unwrap(ignored).map(|m| m.into_inner().unwrap()).unwrap_or_default();
    Ok(out)
}

pub fn chunk_sizes(g: &mut Gen) -> Vec<usize> {
    match g.weighted(&[3, 2, 2, 3, 2]) {
        0 => vec![1 << 20],
        1 => vec![1],
        2 => vec![g.us(1, 40)],
        3 => (0..g.us(2, 6)).map(|_| g.us(1, 64)).collect(),
        _ => (0..g.us(2, 4)).map(|_| g.us(1, 9000)).collect(),
    }
}

pub fn chunked(g: &mut Gen, data: &[u8]) -> Chunked {
    let s = chunk_sizes(g);
    Chunked::new(data.to_vec(), s)
}

pub fn same(a: &Packet, b: &Packet) -> bool {
    canon(a) == canon(b)
}
