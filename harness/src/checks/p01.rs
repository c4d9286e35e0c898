use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::gens;
use crate::proto::*;
use crate::refc::*;
use std::io::Cursor;

pub static CHECK: Check = Check {
    id: "P01",
    level: "exploration",
    rule: "a case is 1-6 generated packets (0-255 blocks of 10 kinds over all field types with edge-biased values, 7 payload kinds, up to 140 kB, a few of 16 to 17 MiB) serialized back to back and read by 6 read paths with generated chunkings; non-trivial = at least one packet has both blocks and a payload, or at least 2 packets",
    assumptions: &["payloads with a checksum do not contain maps (documented limitation)"],
    quick: 400_000,
    thorough: 40_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    let n = match g.weighted(&[3, 3, 1]) {
        0 => 1,
        1 => g.us(2, 3),
        _ => g.us(4, 6),
    };
    let mut ps = Vec::new();
    let mut data = Vec::new();
    let mut ends = Vec::new();
    for _ in 0..n {
        let mut p = gens::packet(g);
        if g.chance(1, 100_000) {
            // more than three bytes of a length can tell
            let n = (1 << 24) + g.us(0, 1 << 20);
            p.payload = Some(Payload::Bytes(g.blob(n)));
            c.label("payload over 16 MiB");
        }
        let path = g.u(WRITE_PATHS);
        data.extend_from_slice(&write_packet(&mut p, path)?);
        ends.push(data.len());
        ps.push(p);
    }
    let want: Vec<Vec<u8>> = ps.iter().map(canon).collect();
    c.nontrivial = n > 1 || ps.iter().any(|p| !p.blocks.is_empty() && p.payload.is_some());
    for p in &ps {
        c.label(match p.blocks.len() {
            0 => "no blocks",
            1..=6 => "1-6 blocks",
            7..=249 => "7-249 blocks",
            255 => "255 blocks",
            _ => "250-254 blocks",
        });
        if let Some(p) = &p.payload {
            c.label(&format!("payload kind {}", payload_kind(p)));
        }
    }
    c.sample(|| ps.iter().map(describe).collect::<Vec<_>>().join(" | "));

    // streaming read from a chunked source
    let mut src = chunked(g, &data);
    for (i, w) in want.iter().enumerate() {
        match rd_stream(&mut src) {
            Got::Packet(p) => ensure!(canon(&p) == *w, "streaming read: packet {i} differs: wrote {} read {}", describe(&ps[i]), describe(&p)),
            Got::Need(k) => return Err(format!("streaming read: packet {i}: needs {k}")),
            Got::Error(e) => return Err(format!("streaming read: packet {i} {}: {e}", describe(&ps[i]))),
        }
        ensure!(src.pos == ends[i], "streaming read consumed up to {} instead of {}", src.pos, ends[i]);
        c.eval();
    }
    ensure!(!matches!(rd_stream(&mut src), Got::Packet(_)), "streaming read produced a packet from nothing");
    // cursor based paths
    for path in 0..4 {
        let name = ["seekable", "buffered", "filtered", "buffered slice"][path];
        let mut cur = Cursor::new(&data[..]);
        let mut slice = &data[..];
        for (i, w) in want.iter().enumerate() {
            let got = match path {
                0 => rd_seek(&mut cur),
                1 => rd_buf(&mut cur),
                2 => rd_filtered(&mut cur),
                _ => rd_buf(&mut slice),
            };
            match got {
                Got::Packet(p) => ensure!(canon(&p) == *w, "{name} read: packet {i} differs: wrote {} read {}", describe(&ps[i]), describe(&p)),
                Got::Need(k) => return Err(format!("{name} read: packet {i}: asks for {k} more bytes of a complete packet {}", describe(&ps[i]))),
                Got::Error(e) => return Err(format!("{name} read: packet {i} {}: {e}", describe(&ps[i]))),
            }
            let pos = if path == 3 { data.len() - slice.len() } else { cur.position() as usize };
            ensure!(pos == ends[i], "{name} read: source left at {pos} instead of {}", ends[i]);
            c.eval();
        }
        let got = match path {
            0 => rd_seek(&mut cur),
            1 => rd_buf(&mut cur),
            2 => rd_filtered(&mut cur),
            _ => rd_buf(&mut slice),
        };
        ensure!(!matches!(got, Got::Packet(_)), "{name} read produced a packet from nothing");
    }
    // stream reader
    let mut src = chunked(g, &data);
    let run = run_reader(&mut src, data.len())?;
    ensure!(run.errors == 0, "stream reader: {} errors on valid packets", run.errors);
    ensure!(run.packets.len() == ps.len(), "stream reader delivered {} of {} packets", run.packets.len(), ps.len());
    for (i, p) in run.packets.iter().enumerate() {
        ensure!(canon(p) == want[i], "stream reader: packet {i} differs: wrote {} read {}", describe(&ps[i]), describe(p));
        c.eval();
    }
    ensure!(run.ignored.is_empty(), "stream reader ignored {} bytes of a pure stream", run.ignored.len());
    Ok(())
}
