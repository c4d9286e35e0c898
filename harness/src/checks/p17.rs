use super::common::*;
use super::p12::{scratch, Scratch};
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use brec::Sensor;
use std::fs::OpenOptions;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub static CHECK: Check = Check {
    id: "P17",
    level: "exploration",
    rule: "a case is a file growing under a generated history - step by step with generated acknowledgements (none, partial, full, beyond the end, backwards), or concurrently from 1-3 writer threads with generated chunk sizes and pauses against a consumer with generated acknowledgement behaviour - observed through the real sensor on a real file; non-trivial = at least two wake-ups were received",
    assumptions: &["the consumer acknowledges a wake-up after receiving it", "a notification of the operating system arrives within 15 s", "thread schedules are those the machine produces; they are not enumerated"],
    quick: 30_000,
    thorough: 3_000_000,
    threads: 8,
    alloc_limit: 64 << 20,
    case,
};

const LONG: Duration = Duration::from_secs(15);

fn absent(ms: u64) -> Duration {
    Duration::from_micros(ms * 1000)
}

fn stepwise(g: &mut Gen, c: &mut Ctx) -> R {
    let dir = Scratch(scratch("sensor"));
    let path = dir.0.join("s.bin");
    let mut size = 0u64;
    std::fs::write(&path, b"").map_err(es)?;
    let (sensor, rx) = Sensor::new(&path).map_err(|e| format!("sensor: {e}"))?;
    let mut f = OpenOptions::new().append(true).open(&path).map_err(es)?;
    let mut acked = 0u64;
    // a wake-up not acknowledged yet
    let mut pending: Option<u64> = None;
    let mut wakes = 0;
    let mut desc = String::new();
    let mut reached = vec![0u64];
    for _ in 0..g.us(2, 8) {
        match g.weighted(&[5, 5, 2]) {
            0 => {
                let n = if g.chance(1, 12) { *g.pick(&[1u64 << 31, (1 << 32) - 1, 1 << 32, 5 << 30]) + g.u(50) } else { g.range(1, 300) };
                if n > 300 {
                    // a hole, which takes no place
                    f.set_len(size + n).map_err(es)?;
                    c.label("growth by more than 2 GiB");
                } else {
                    f.write_all(&vec![7; n as usize]).map_err(es)?;
                }
                size += n;
                reached.push(size);
                desc.push_str(&format!("+{n} "));
            }
            1 => {
                if let Some(w) = pending {
                    ensure!(rx.try_recv().is_err(), "a second wake-up before the first one is acknowledged; {desc}");
                    let (until, what) = match g.weighted(&[5, 3, 2, 1]) {
                        0 => (w, "woken size"),
                        1 => (g.u(w), "part"),
                        2 => (size, "all"),
                        _ => (size + g.range(1, 200), "beyond"),
                    };
                    sensor.processed(until).map_err(|e| format!("processed: {e}"))?;
                    acked = acked.max(until);
                    pending = None;
                    desc.push_str(&format!("ack {until} ({what}) "));
                } else if acked >= size && g.flag() {
                    // everything is acknowledged: going back changes nothing
                    let back = g.u(acked);
                    if let Ok(w) = rx.try_recv() {
                        return Err(format!("a wake-up with size {} though {acked} of {size} bytes are acknowledged; {desc}", w.size));
                    }
                    sensor.processed(back).map_err(|e| format!("processed: {e}"))?;
                    desc.push_str(&format!("ack back {back} "));
                    c.label("backwards");
                    if let Ok(w) = rx.recv_timeout(absent(2)) {
                        return Err(format!("acknowledging {back} after {acked} of {size} bytes issued a wake-up with size {}; {desc}", w.size));
                    }
                }
            }
            _ => {
                // nothing more may come while a wake-up is pending or everything is acknowledged
                if pending.is_some() || acked >= size {
                    if let Ok(w) = rx.recv_timeout(absent(g.range(1, 3))) {
                        return Err(format!("an unexpected wake-up with size {} (pending {pending:?}, acknowledged {acked} of {size}); {desc}", w.size));
                    }
                }
            }
        }
        if pending.is_none() && size > acked {
            let w = rx.recv_timeout(LONG).map_err(|_| format!("no wake-up within {LONG:?} though {acked} of {size} bytes are acknowledged; {desc}"))?;
            ensure!(reached.contains(&w.size), "a wake-up with size {} the file never had ({reached:?}); {desc}", w.size);
            ensure!(w.size > acked, "a wake-up with size {} though {acked} bytes are acknowledged; {desc}", w.size);
            pending = Some(w.size);
            wakes += 1;
            desc.push_str(&format!("wake {} ", w.size));
            c.eval();
        }
    }
    c.nontrivial = wakes >= 2;
    c.sample(|| desc);
    drop(sensor);
    Ok(())
}

fn concurrent(g: &mut Gen, c: &mut Ctx) -> R {
    let dir = Scratch(scratch("sensor"));
    let path = dir.0.join("s.bin");
    std::fs::write(&path, b"").map_err(es)?;
    let (sensor, rx) = Sensor::new(&path).map_err(|e| format!("sensor: {e}"))?;
    let writers = g.us(1, 3);
    let begun = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let left = Arc::new(AtomicU64::new(writers as u64));
    let stop = Arc::new(AtomicBool::new(false));
    let mut total = 0u64;
    let mut hs = Vec::new();
    for _ in 0..writers {
        let n = g.us(1, 120);
        let size = g.us(1, 64);
        let pause = match g.weighted(&[3, 2, 1]) {
            0 => 0,
            1 => g.us(1, 40),
            _ => g.us(1, 300),
        };
        total += (n * size) as u64;
        let (path, begun, done, left, stop) = (path.clone(), begun.clone(), done.clone(), left.clone(), stop.clone());
        hs.push(std::thread::spawn(move || {
            let mut f = OpenOptions::new().append(true).open(path).expect("append");
            for _ in 0..n {
                if stop.load(SeqCst) {
                    break;
                }
                begun.fetch_add(size as u64, SeqCst);
                f.write_all(&vec![9; size]).expect("write");
                done.fetch_add(size as u64, SeqCst);
                if pause > 0 {
                    let t = Instant::now();
                    while t.elapsed() < Duration::from_micros(pause as u64) {
                        std::hint::spin_loop();
                    }
                }
            }
            left.fetch_sub(1, SeqCst);
        }));
    }
    let partial = g.chance(1, 2);
    let slow = if g.chance(1, 3) { g.us(1, 200) } else { 0 };
    let mut told = 0u64;
    let mut acked = 0u64;
    let mut wakes = 0;
    let res = (|| -> R {
        loop {
            if acked >= total {
                break;
            }
            let w = rx.recv_timeout(LONG).map_err(|_| format!("no wake-up within {LONG:?} though {acked} of {} bytes are acknowledged (last wake-up told {told}, after {wakes} wake-ups)", done.load(SeqCst)))?;
            wakes += 1;
            let max = begun.load(SeqCst);
            ensure!(w.size <= max, "a wake-up with size {} when at most {max} bytes were written", w.size);
            ensure!(w.size > acked, "wake-up {wakes} with size {} though {acked} bytes are acknowledged", w.size);
            told = told.max(w.size);
            if slow > 0 {
                std::thread::sleep(Duration::from_micros(slow as u64));
            }
            if let Ok(w2) = rx.try_recv() {
                return Err(format!("a second wake-up ({}) before wake-up {wakes} ({}) is acknowledged", w2.size, w.size));
            }
            let until = if partial && wakes % 3 == 1 && wakes < 300 { acked + (w.size - acked) / 2 } else { w.size };
            sensor.processed(until).map_err(|e| format!("processed: {e}"))?;
            acked = acked.max(until);
            c.evals += 1;
        }
        Ok(())
    })();
    stop.store(true, SeqCst);
    for h in hs {
        let _ = h.join();
    }
    res?;
    ensure!(told == total, "all is acknowledged, but the largest size told was {told} of {total}");
    if let Ok(w) = rx.recv_timeout(absent(2)) {
        return Err(format!("a wake-up with size {} after all {total} bytes were acknowledged", w.size));
    }
    c.nontrivial = wakes >= 2;
    c.label("concurrent");
    c.sample(|| format!("{writers} writers, {total} bytes, {wakes} wake-ups, partial {partial}, pause {slow} us"));
    let _ = left.load(SeqCst);
    Ok(())
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    if g.flag() {
        concurrent(g, c)
    } else {
        stepwise(g, c)
    }
}
