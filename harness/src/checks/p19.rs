use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::io::Chunked;
use crate::proto::deep::er::{BlkPath, BlkPathReferred};
use crate::proto::*;
use crate::refc::*;
use brec::prelude::*;
use brec::{CrcU32, ReadBlockFrom, ReadBlockFromSlice};
use std::io::Cursor;

pub static CHECK: Check = Check {
    id: "P19",
    level: "exploration",
    rule: "a case is a block encoding - intact, altered with or without a recomputed checksum, with unusual bool and enum bytes, with another block's signature, cut at any length or followed by other bytes - read as a borrowed view and as an owned block, with the signature present and already skipped, and through the unified type by 5 ways; non-trivial = the input is at least a signature long",
    assumptions: &["a bool byte other than 0 and 1 may be accepted or refused, but alike everywhere"],
    quick: 3_000_000,
    thorough: 200_000_000,
    threads: 8,
    alloc_limit: 16 << 20,
    case,
};

/// the outcome of reading a block: its encoding, more data wanted, or refused
#[derive(Debug, Clone, PartialEq)]
enum O {
    Block(Vec<u8>),
    Short,
    Refused,
}
fn kind_of_err(e: &brec::Error) -> O {
    match e {
        brec::Error::NotEnoughData(..) | brec::Error::NotEnoughtSignatureData(..) => O::Short,
        brec::Error::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => O::Short,
        _ => O::Refused,
    }
}

struct Outs {
    /// stream, slice, seekable, buffered; then with the signature skipped: stream, slice
    o: [O; 6],
    /// position after a successful seekable / buffered / stream read
    moved: [usize; 4],
}

fn st<T>(r: Result<ReadStatus<T>, brec::Error>, f: impl Fn(T) -> Block) -> O {
    match r {
        Ok(ReadStatus::Success(x)) => O::Block(enc_block(&f(x))),
        Ok(ReadStatus::NotEnoughData(_)) => O::Short,
        Err(e) => kind_of_err(&e),
    }
}

/// Do all byte arrays of the view lie in the input?
fn borrows(b: &BlockReferred<'_>, input: &[u8]) -> bool {
    let range = input.as_ptr_range();
    let within = |x: &[u8]| x.is_empty() || (x.as_ptr() >= range.start && x.as_ptr_range().end <= range.end);
    match b {
        BlockReferred::BlkBlobs(x) => within(x.a) && within(x.c) && within(x.d),
        BlockReferred::BlkBig(x) => within(x.data),
        BlockReferred::BlkEnum(x) => within(x.tail),
        BlockReferred::BlkNoCrc(x) => within(x.b),
        BlockReferred::CrateProtoDeepErBlkPath(x) => within(x.t),
        _ => true,
    }
}

macro_rules! concrete {
    ($k:expr, $data:expr, $sizes:expr, $($i:expr => $v:ident, $t:ty, $r:ty);*) => { match $k { $( $i => {
        let data: &[u8] = $data;
        let own = |x: $t| Block::$v(x);
        let mut src = Chunked::new(data.to_vec(), $sizes.clone());
        let a = match <$t as ReadBlockFrom>::read(&mut src, false) { Ok(x) => O::Block(enc_block(&own(x))), Err(e) => kind_of_err(&e) };
        let rest: &[u8] = if data.len() >= 4 { &data[4..] } else { &[] };
        let mut src2 = Chunked::new(rest.to_vec(), $sizes.clone());
        let e = match <$t as ReadBlockFrom>::read(&mut src2, true) { Ok(x) => O::Block(enc_block(&own(x))), Err(e) => kind_of_err(&e) };
        let mut c1 = Cursor::new(data);
        let c = st(<$t as TryReadFrom>::try_read(&mut c1), own);
        let mut c2 = Cursor::new(data);
        let d = st(<$t as TryReadFromBuffered>::try_read(&mut c2), own);
        let mut views = Vec::new();
        for skip in [false, true] {
            let input = if skip { rest } else { data };
            views.push(match <$r as ReadBlockFromSlice>::read_from_slice(input, skip) {
                Ok(v) => {
                    let crc = CrcU32::crc(&v);
                    let un = BlockReferred::$v(v);
                    let size = brec::Size::size(&un);
                    let seen = super::p07::view_block(&un);
                    ensure!(borrows(&un, input), "a byte array in the view of {} is a copy", hex(input));
                    let BlockReferred::$v(v) = un else { unreachable!() };
                    let conv: $t = v.into();
                    let ocrc = CrcU32::crc(&conv);
                    let osize = <$t as brec::StaticSize>::ssize();
                    let conv = own(conv);
                    ensure!(enc_block(&seen) == enc_block(&conv), "the view of {} shows {seen:?}, converting it gives {conv:?}", hex(input));
                    ensure!(crc == ocrc, "checksum of the view {crc:?}, of the block {ocrc:?} for {}", hex(input));
                    ensure!(size == osize && osize == brec::Size::size(&conv), "size of the view {size}, of the block {osize}");
                    O::Block(enc_block(&conv))
                }
                Err(e) => kind_of_err(&e),
            });
        }
        let v1 = views.pop().unwrap();
        let v0 = views.pop().unwrap();
        Outs { o: [a, v0, c, d, e, v1], moved: [src.pos, c1.position() as usize, c2.position() as usize, src2.pos] }
    } )* _ => unreachable!() } };
}

fn concrete(k: usize, data: &[u8], sizes: &Vec<usize>) -> Result<Outs, String> {
    Ok(concrete!(k, data, sizes,
        0 => BlkU8, BlkU8, BlkU8Referred; 1 => BlkTwin, BlkTwin, BlkTwinReferred; 2 => BlkBools, BlkBools, BlkBoolsReferred;
        3 => BlkScalars, BlkScalars, BlkScalarsReferred; 4 => BlkEnum, BlkEnum, BlkEnumReferred; 5 => BlkBlobs, BlkBlobs, BlkBlobsReferred;
        6 => BlkNoCrc, BlkNoCrc, BlkNoCrcReferred; 7 => BlkFloat, BlkFloat, BlkFloatReferred;
        8 => CrateProtoDeepErBlkPath, BlkPath, BlkPathReferred; 9 => BlkBig, BlkBig, BlkBigReferred))
}

fn sig(k: usize) -> [u8; 4] {
    let mut g = Gen::replay(vec![]);
    enc_block(&gens::block_kind(&mut g, k))[..4].try_into().unwrap()
}
fn size(k: usize) -> usize {
    let mut g = Gen::replay(vec![]);
    enc_block(&gens::block_kind(&mut g, k)).len()
}

struct Table {
    sig: Vec<[u8; 4]>,
    size: Vec<usize>,
}
fn table() -> &'static Table {
    static T: std::sync::OnceLock<Table> = std::sync::OnceLock::new();
    T.get_or_init(|| Table { sig: (0..gens::BLOCK_KINDS).map(sig).collect(), size: (0..gens::BLOCK_KINDS).map(size).collect() })
}

/// What the specification says about reading `data` as kind `k`; None where it is silent.
fn oracle(k: usize, data: &[u8], skip: bool) -> Option<O> {
    let t = table();
    let size = if skip { t.size[k] - 4 } else { t.size[k] };
    if !skip {
        if data.len() < 4 {
            return Some(O::Short);
        }
        if data[..4] != t.sig[k] {
            return Some(O::Refused);
        }
    }
    if data.len() < size {
        return Some(O::Short);
    }
    let f = &data[if skip { 0 } else { 4 }..size - 4];
    let crc = &data[size - 4..size];
    let bools: &[usize] = match k {
        2 => &[0, 1],
        3 => &[f.len() - 1],
        _ => &[],
    };
    if bools.iter().any(|i| f[*i] > 1) {
        return None;
    }
    if k == 4 && ![0, 7, 255].contains(&f[2]) {
        return Some(O::Refused);
    }
    let want = if k == 6 { [0; 4] } else { crc32(f).to_le_bytes() };
    Some(if crc == want {
        let mut e = t.sig[k].to_vec();
        e.extend_from_slice(f);
        e.extend_from_slice(crc);
        O::Block(e)
    } else {
        O::Refused
    })
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let kind = g.weighted(&[4, 4, 6, 6, 6, 5, 4, 4, 4, 1]);
    let b = gens::block_kind(g, kind);
    let e = enc_block(&b);
    let mut data = e.clone();
    let fix = |data: &mut Vec<u8>| {
        let n = data.len();
        let crc = if kind == 6 { [0; 4] } else { crc32(&data[4..n - 4]).to_le_bytes() };
        data[n - 4..].copy_from_slice(&crc);
    };
    let how = g.weighted(&[5, 4, 5, 3, 2, 1]);
    c.label(["intact", "altered", "altered, checksum recomputed", "unusual bool or enum byte", "other signature", "random"][how]);
    match how {
        0 => {}
        1 => data = super::p03::corrupt(g, &data),
        2 => {
            for _ in 0..g.us(1, 4) {
                let i = g.us(4, data.len() - 5);
                data[i] = g.u(255) as u8;
            }
            fix(&mut data);
        }
        3 => {
            let at: Vec<usize> = match kind {
                2 => vec![4, 5],
                3 => vec![data.len() - 5],
                4 => vec![6],
                _ => vec![g.us(4, data.len() - 5)],
            };
            for i in at {
                if g.chance(2, 3) {
                    data[i] = g.u(255) as u8;
                }
            }
            // checksum over the raw bytes, over the bytes a bool would be stored as, or the old one
            match g.u(2) {
                0 => {}
                1 => fix(&mut data),
                _ => {
                    let mut norm = data.clone();
                    if kind == 2 {
                        norm[4] = (norm[4] != 0) as u8;
                        norm[5] = (norm[5] != 0) as u8;
                    }
                    if kind == 3 {
                        let i = norm.len() - 5;
                        norm[i] = (norm[i] != 0) as u8;
                    }
                    fix(&mut norm);
                    let n = data.len();
                    data[n - 4..].copy_from_slice(&norm[n - 4..]);
                }
            }
        }
        4 => {
            let k2 = g.us(0, gens::BLOCK_KINDS - 1);
            data[..4].copy_from_slice(&table().sig[k2]);
        }
        _ => {
            let n = g.us(0, 60);
            data = g.blob(n);
        }
    }
    match g.weighted(&[4, 2, 2]) {
        0 => {}
        1 => {
            let n = g.us(0, data.len());
            data.truncate(n);
            c.label("cut");
        }
        _ => {
            let n = g.us(1, 40);
            data.extend_from_slice(&g.blob(n));
            c.label("followed by other bytes");
        }
    }
    let sizes = chunk_sizes(g);
    c.nontrivial = data.len() >= 4;
    c.sample(|| format!("kind {kind}: {}", hex(&data)));
    let names = ["stream read", "view", "seekable read", "buffered read", "stream read after the signature", "view after the signature"];
    let kinds: Vec<usize> = if g.flag() { vec![kind] } else { vec![kind, g.us(0, gens::BLOCK_KINDS - 2)] };
    for k in kinds {
        let o = concrete(k, &data, &sizes)?;
        let full = oracle(k, &data, false);
        let skip = if data.len() >= 4 { oracle(k, &data[4..], true) } else { None };
        for i in 0..6 {
            let want = if i < 4 { &full } else { &skip };
            let base = if i < 4 { 0 } else { 4 };
            if i >= 4 && data.len() < 4 {
                continue;
            }
            // acceptance and content agree with each other, and with the specification where it speaks
            let same = match (&o.o[i], &o.o[base]) {
                (O::Block(a), O::Block(b)) => a == b,
                (O::Block(_), _) | (_, O::Block(_)) => false,
                _ => true,
            };
            ensure!(same, "kind {k}: {} gives {:?}, {} gives {:?} for {}", names[base], o.o[base], names[i], o.o[i], hex(&data));
            if let Some(w) = want {
                match (w, &o.o[i]) {
                    (O::Block(a), O::Block(b)) => ensure!(a == b, "kind {k}: {} gives {} instead of {}", names[i], hex(b), hex(a)),
                    (O::Block(_), x) => return Err(format!("kind {k}: {} answers {x:?} for the valid block {}", names[i], hex(&data))),
                    (x, O::Block(b)) => return Err(format!("kind {k}: {} gives {} where {x:?} is due for {}", names[i], hex(b), hex(&data))),
                    _ => {}
                }
            }
            c.eval();
        }
        if matches!(o.o[0], O::Block(_)) {
            let s = table().size[k];
            ensure!(o.moved == [s, s, s, s - 4], "kind {k}: reads of a block of {s} bytes consumed {:?}", o.moved);
            c.label("accepted");
        }
    }
    // unified type
    let t = table();
    let which = if data.len() >= 4 { (0..gens::BLOCK_KINDS).find(|k| data[..4] == t.sig[*k]) } else { None };
    let want = match which {
        Some(k) => concrete(k, &data, &sizes)?.o[0].clone(),
        None if data.len() < 4 => O::Short,
        None => O::Refused,
    };
    let mut s1 = Chunked::new(data.clone(), sizes.clone());
    let mut s2 = Chunked::new(data.clone(), sizes);
    let mut c1 = Cursor::new(&data[..]);
    let mut c2 = Cursor::new(&data[..]);
    let ok = |r: Result<Block, brec::Error>| match r {
        Ok(b) => O::Block(enc_block(&b)),
        Err(e) => kind_of_err(&e),
    };
    let outs = [
        ("streaming read", ok(<Block as ReadFrom>::read(&mut s1))),
        ("streaming block read", ok(<Block as ReadBlockFrom>::read(&mut s2, false))),
        ("seekable read", st(<Block as TryReadFrom>::try_read(&mut c1), |b| b)),
        ("buffered read", st(<Block as TryReadFromBuffered>::try_read(&mut c2), |b| b)),
        ("view", ok(<BlockReferred as ReadBlockFromSlice>::read_from_slice(&data, false).map(|b| b.into()))),
    ];
    for (n, o) in &outs {
        let same = match (o, &want) {
            (O::Block(a), O::Block(b)) => a == b,
            (O::Block(_), _) | (_, O::Block(_)) => false,
            _ => true,
        };
        ensure!(same, "unified {n} gives {o:?} where {want:?} is due (kind {which:?}) for {}", hex(&data));
        c.eval();
    }
    if let (O::Block(_), Some(k)) = (&want, which) {
        let s = t.size[k];
        let moved = [s1.pos, s2.pos, c1.position() as usize, c2.position() as usize];
        ensure!(moved == [s; 4], "unified reads of a block of {s} bytes consumed {moved:?}");
    }
    Ok(())
}
