//! Choice-recording property engine: generation, parallel execution, shrinking, supervision, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of choices of one case.  Every random decision goes through `u`.
pub struct Gen {
    rng: Option<u64>,
    pub choices: Vec<u64>,
    pos: usize,
    pub sink: Option<std::fs::File>,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Gen { rng: Some(seed), choices: Vec::new(), pos: 0, sink: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Gen { rng: None, choices, pos: 0, sink: None }
    }
    pub fn used(&self) -> Vec<u64> {
        self.choices[..self.pos.min(self.choices.len())].to_vec()
    }
    /// A choice in 0..=max; small values are the simple ones.
    pub fn u(&mut self, max: u64) -> u64 {
        let v = if let Some(s) = self.rng.as_mut() {
            let r = splitmix(s);
            let v = if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 };
            self.choices.push(v);
            if let Some(f) = self.sink.as_mut() {
                let _ = f.write_all(&v.to_le_bytes());
            }
            v
        } else {
            self.choices.get(self.pos).copied().unwrap_or(0).min(max)
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.u(hi - lo)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.u(1) == 1
    }
    /// true with probability n/d; shrinks to false
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.u(d - 1) >= d - n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.u(xs.len() as u64 - 1) as usize;
        &xs[i]
    }
    /// index chosen by weight; first entries are the simple ones
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.u(total - 1);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= *x;
        }
        w.len() - 1
    }
    /// `len` bytes from two choices
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        match self.weighted(&[1, 1, 1, 4]) {
            0 => vec![0; len],
            1 => vec![0xff; len],
            2 => (0..len).map(|i| i as u8).collect(),
            _ => {
                let mut s = self.u(u32::MAX as u64).wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5151;
                let mut v = Vec::with_capacity(len + 8);
                while v.len() < len {
                    v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
                }
                v.truncate(len);
                v
            }
        }
    }
    /// integer with a bias to edges, of `bits` bits
    pub fn bits(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.weighted(&[2, 2, 1, 1, 4]) {
            0 => 0,
            1 => self.u(255) as u128 & mask,
            2 => mask,
            3 => (1u128 << (bits - 1)).wrapping_sub(self.u(1) as u128) & mask,
            _ => {
                let lo = self.u(u64::MAX) as u128;
                let hi = if bits > 64 { self.u(u64::MAX) as u128 } else { 0 };
                (lo | (hi << 64)) & mask
            }
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub evals: u64,
    pub labels: Vec<String>,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub known: Vec<String>,
}
impl Ctx {
    pub fn label(&mut self, s: &str) {
        if !self.labels.iter().any(|x| x == s) {
            self.labels.push(s.to_string());
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) { cut -= 1; }
                s.truncate(cut);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}

pub type CaseFn = fn(&mut Gen, &mut Ctx) -> Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    /// largest single allocation tolerated within a case
    pub alloc_limit: usize,
    pub case: CaseFn,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false);
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        if !quiet {
            default(info);
        }
    }));
}

/// The last panic message of this thread (used by checks that catch panics themselves).
pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

pub fn run_case(check: &Check, gen: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    crate::alloc::reset();
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (check.case)(gen, ctx)));
    QUIET.with(|q| q.set(false));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(take_panic()),
    };
    if r.is_ok() {
        let big = crate::alloc::max_single();
        if big > check.alloc_limit {
            return Err(format!("a single allocation of {big} bytes was requested (limit {})", check.alloc_limit));
        }
    }
    r
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut s = seed.wrapping_mul(0xD1342543DE82EF95) ^ fnv(id.as_bytes()) ^ idx.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut s);
    splitmix(&mut s)
}

fn shrink(check: &Check, start: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let mut best = start;
    let mut bmsg = msg;
    let t0 = Instant::now();
    let mut budget = 4000u32;
    let try_one = |cand: Vec<u64>, best: &mut Vec<u64>, bmsg: &mut String, budget: &mut u32| -> bool {
        if *budget == 0 || t0.elapsed().as_secs() > 40 {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        let mut g = Gen::replay(cand);
        let mut c = Ctx::default();
        if let Err(m) = run_case(check, &mut g, &mut c) {
            let used = g.used();
            if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                *best = used;
                *bmsg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = best.len() / 2;
        while size > 0 && budget > 0 {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_one(c, &mut best, &mut bmsg, &mut budget) {
                    i += size.max(1);
                }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && budget > 0 {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_one(c, &mut best, &mut bmsg, &mut budget) {
                    let mut lo = 0;
                    while i < best.len() && best[i] - lo > 1 && budget > 0 {
                        let mid = lo + (best[i] - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if !try_one(c, &mut best, &mut bmsg, &mut budget) {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    (best, bmsg)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

#[derive(Default)]
struct Acc {
    cases: u64,
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    fail: Option<(u64, Vec<u64>, String)>,
}

fn cpu_ms(clock: libc::clockid_t) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec * 1000 + ts.tv_nsec / 1_000_000
}

pub const CPU_LIMIT_MS: i64 = 60_000;
const EXIT_HANG: i32 = 97;

struct Slot {
    idx: AtomicU64,
    start_ms: AtomicI64,
    clock: AtomicI64,
}

fn hang_monitor(slots: Arc<Vec<Slot>>, journal: Option<PathBuf>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for s in slots.iter() {
            let st = s.start_ms.load(SeqCst);
            let ck = s.clock.load(SeqCst);
            if st >= 0 && ck != 0 {
                let idx = s.idx.load(SeqCst);
                let used = cpu_ms(ck as libc::clockid_t) - st;
                if used > CPU_LIMIT_MS && s.idx.load(SeqCst) == idx && s.start_ms.load(SeqCst) == st {
                    if let Some(j) = &journal {
                        let _ = std::fs::write(j.join("hang"), idx.to_string());
                    }
                    eprintln!("case {idx} used more than {CPU_LIMIT_MS} ms of processor time");
                    unsafe { libc::_exit(EXIT_HANG) };
                }
            }
        }
    });
}

/// Runs all cases in this process and writes evidence.  Returns the exit code.
pub fn worker(check: &'static Check, tier: &str, journal: &Path) -> i32 {
    let t0 = Instant::now();
    let seed = env_seed();
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { check.thorough } else { check.quick });
    let cap_s: u64 = if tier == "thorough" { 4 * 3600 } else { 420 };
    let nthreads = check.threads;
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let acc = Arc::new(Mutex::new(Acc::default()));
    let jf = Arc::new(std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(journal.join("journal")).expect("journal"));
    let slots: Arc<Vec<Slot>> = Arc::new((0..nthreads).map(|_| Slot { idx: AtomicU64::new(0), start_ms: AtomicI64::new(-1), clock: AtomicI64::new(0) }).collect());
    hang_monitor(slots.clone(), Some(journal.to_path_buf()));
    let mut hs = Vec::new();
    for t in 0..nthreads {
        let (next, stop, acc, jf, slots) = (next.clone(), stop.clone(), acc.clone(), jf.clone(), slots.clone());
        let id = check.id;
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut clk: libc::clockid_t = 0;
            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
            slots[t].clock.store(clk as i64, SeqCst);
            let mut local = Acc::default();
            loop {
                if stop.load(SeqCst) || t0.elapsed().as_secs() > cap_s {
                    break;
                }
                let idx = next.fetch_add(1, SeqCst);
                if idx >= total {
                    break;
                }
                let _ = jf.write_all_at(&(idx + 1).to_le_bytes(), t as u64 * 8);
                slots[t].idx.store(idx, SeqCst);
                slots[t].start_ms.store(cpu_ms(clk), SeqCst);
                let mut g = Gen::random(case_seed(seed, id, idx));
                let mut c = Ctx { want_sample: idx < 3 || idx % (total / 12).max(1) == 0, ..Default::default() };
                let r = run_case(check, &mut g, &mut c);
                slots[t].start_ms.store(-1, SeqCst);
                local.cases += 1;
                local.evals += c.evals.max(1);
                if c.nontrivial {
                    let mut h = 0xcbf29ce484222325u64;
                    for x in &g.choices {
                        h = (h ^ *x).wrapping_mul(0x100000001b3).rotate_left(17);
                    }
                    local.nontrivial.insert(h);
                }
                for l in c.labels {
                    *local.labels.entry(l).or_default() += 1;
                }
                if let Some(s) = c.sample {
                    local.samples.push(format!("case {idx}: {s}"));
                }
                if let Err(m) = r {
                    stop.store(true, SeqCst);
                    if local.fail.as_ref().map_or(true, |f| idx < f.0) {
                        local.fail = Some((idx, g.used(), m));
                    }
                }
            }
            let _ = jf.write_all_at(&0u64.to_le_bytes(), t as u64 * 8);
            let mut a = acc.lock().unwrap();
            a.cases += local.cases;
            a.evals += local.evals;
            a.nontrivial.extend(local.nontrivial);
            for (k, v) in local.labels {
                *a.labels.entry(k).or_default() += v;
            }
            a.samples.extend(local.samples);
            if let Some(f) = local.fail {
                if a.fail.as_ref().map_or(true, |x| f.0 < x.0) {
                    a.fail = Some(f);
                }
            }
        }).expect("spawn"));
    }
    for h in hs {
        h.join().expect("join");
    }
    let mut a = std::mem::take(&mut *acc.lock().unwrap());
    a.samples.sort_by_key(|s| s.split(':').next().and_then(|x| x[5..].parse::<u64>().ok()));
    a.samples.truncate(12);
    let mut code = 0;
    if let Some((idx, choices, msg)) = a.fail.take() {
        // the shrinker runs on its own big-stack thread
        let (best, bmsg) = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || shrink(check, choices, msg)).unwrap().join().unwrap()
        });
        report(check.id, tier, seed, idx, &best, &bmsg);
        code = 1;
    }
    evidence(check, tier, seed, &a, t0.elapsed().as_secs_f64(), code);
    code
}

fn report(id: &str, tier: &str, seed: u64, idx: u64, choices: &[u64], msg: &str) {
    let dir = verif_dir().join("evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.json"));
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"case\":{},\"message\":{},\"choices\":[{}]}}\n",
        jstr(id), jstr(tier), seed, idx, jstr(msg), ch.join(",")
    );
    std::fs::write(&path, body).expect("replay file");
    println!("{id}: case {idx} (seed {seed}): {msg}");
    println!("VIOLATION property={id} replay={}", path.display());
    let _ = std::io::stdout().flush();
}

fn evidence(check: &Check, tier: &str, seed: u64, a: &Acc, wall: f64, violations: i32) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let labels: Vec<String> = a.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let samples: Vec<String> = a.samples.iter().map(|s| jstr(s)).collect();
    let assume: Vec<String> = check.assumptions.iter().map(|s| jstr(s)).collect();
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":{},\"generated_cases\":{},\"distinct_nontrivial\":{},\"rule\":{},\"classes\":{{{}}},\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(check.id), jstr(tier), seed, jstr(check.level), a.evals, a.cases, a.nontrivial.len(), jstr(check.rule),
        labels.join(","), samples.join(","), assume.join(","), wall, violations
    );
    std::fs::write(dir.join(format!("{}.json", check.id)), body).expect("evidence");
    println!("{} {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", check.id, tier, a.cases, a.evals, a.nontrivial.len(), wall);
}

/// Runs one case alone in this process (used by the supervisor after a crash, and for replay).
pub fn one(check: &'static Check, choices: Vec<u64>) -> i32 {
    run_alone(check, Gen::replay(choices))
}
fn run_alone(check: &'static Check, mut g: Gen) -> i32 {
    let slots: Arc<Vec<Slot>> = Arc::new(vec![Slot { idx: AtomicU64::new(0), start_ms: AtomicI64::new(-1), clock: AtomicI64::new(0) }]);
    hang_monitor(slots.clone(), None);
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut clk: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
        slots[0].clock.store(clk as i64, SeqCst);
        slots[0].start_ms.store(cpu_ms(clk), SeqCst);
        let mut c = Ctx::default();
        match run_case(check, &mut g, &mut c) {
            Ok(()) => 0,
            Err(m) => {
                println!("{}: {m}", check.id);
                1
            }
        }
    }).unwrap().join().unwrap()
}

/// Re-runs a case in a child that writes each choice to a file as it draws it.
fn dump_choices(check: &Check, idx: u64, dir: &Path) -> Option<(Vec<u64>, String)> {
    let exe = std::env::current_exe().ok()?;
    let f = dir.join("choices");
    let _ = std::fs::remove_file(&f);
    let st = Command::new(exe).arg("dump").arg(check.id).arg(idx.to_string()).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
    let data = std::fs::read(&f).ok()?;
    let ch = data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let why = match (st.signal(), st.code()) {
        (Some(s), _) => format!("process killed by signal {s} (abort, stack overflow or memory)"),
        (_, Some(EXIT_HANG)) => format!("case does not finish within {} s of processor time", CPU_LIMIT_MS / 1000),
        (_, Some(0)) => return None,
        (_, Some(1)) => "fails when run alone".to_string(),
        (_, c) => format!("process ended with {c:?}"),
    };
    Some((ch, why))
}

/// Child side of `dump_choices`.
pub fn dump(check: &'static Check, idx: u64, file: &str) -> i32 {
    let seed = env_seed();
    let mut g = Gen::random(case_seed(seed, check.id, idx));
    g.sink = Some(std::fs::File::create(file).expect("dump file"));
    run_alone(check, g)
}

fn one_status(check: &Check, choices: &[u64], dir: &Path) -> Option<String> {
    let f = dir.join("one.choices");
    let data: Vec<u8> = choices.iter().flat_map(|c| c.to_le_bytes()).collect();
    std::fs::write(&f, data).ok()?;
    let exe = std::env::current_exe().ok()?;
    let st = Command::new(exe).arg("one").arg(check.id).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
    match (st.signal(), st.code()) {
        (Some(s), _) => Some(format!("process killed by signal {s} (abort, stack overflow or memory)")),
        (_, Some(0)) => None,
        (_, Some(EXIT_HANG)) => Some(format!("case does not finish within {} s of processor time", CPU_LIMIT_MS / 1000)),
        _ => Some("fails".into()),
    }
}

/// Parent: runs the worker as a child and turns a crash of the child into a violation.
pub fn supervise(check: &'static Check, tier: &str) -> i32 {
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let _ = std::fs::remove_file(verif_dir().join(format!("evidence/{}.json", check.id)));
    let exe = std::env::current_exe().expect("exe");
    let t0 = Instant::now();
    let st = Command::new(&exe).arg("worker").arg(check.id).arg(tier).arg(&dir).env("VH_SCRATCH", &dir).status().expect("worker");
    let code = match (st.signal(), st.code()) {
        (None, Some(c @ (0 | 1))) => c,
        _ => {
            eprintln!("worker ended with {st:?}; looking for the case");
            let mut cand: Vec<u64> = Vec::new();
            if let Ok(h) = std::fs::read_to_string(dir.join("hang")) {
                if let Ok(i) = h.trim().parse() {
                    cand.push(i);
                }
            }
            if cand.is_empty() {
                let data = std::fs::read(dir.join("journal")).unwrap_or_default();
                cand = data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v > 0).map(|v| v - 1).collect();
                cand.sort();
            }
            let mut res = 2;
            for idx in cand {
                if let Some((mut choices, why)) = dump_choices(check, idx, &dir) {
                    if why.contains("signal") {
                        // shrink by whole processes, small budget
                        let mut n = 0;
                        let mut size = choices.len() / 2;
                        while size > 0 && n < 120 && t0.elapsed().as_secs() < 600 {
                            let mut i = 0;
                            while i + size <= choices.len() && n < 120 {
                                let mut c = choices.clone();
                                c.drain(i..i + size);
                                n += 1;
                                if one_status(check, &c, &dir).is_some_and(|w| w.contains("signal")) {
                                    choices = c;
                                } else {
                                    i += size;
                                }
                            }
                            size /= 2;
                        }
                    }
                    report(check.id, tier, env_seed(), idx, &choices, &why);
                    let a = Acc { cases: idx, evals: idx, ..Default::default() };
                    evidence(check, tier, env_seed(), &a, t0.elapsed().as_secs_f64(), 1);
                    res = 1;
                    break;
                }
            }
            if res == 2 {
                eprintln!("the crash was not reproduced by any single case");
            }
            res
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Replays a replay file.
pub fn replay(check: &'static Check, file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let a = s.find("\"choices\":[").expect("choices") + 11;
    let b = s[a..].find(']').unwrap() + a;
    let ch: Vec<u64> = s[a..b].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    one(check, ch)
}
