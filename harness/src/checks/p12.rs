use super::common::*;
use crate::engine::{Check, Ctx, Gen};
use crate::ensure;
use crate::proto::*;
use crate::refc::*;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub static CHECK: Check = Check {
    id: "P12",
    level: "exploration",
    rule: "a case is a history of opens (without timeout, with timeouts and polling intervals), inserts, closes, waiting opens released by closing or by killing the holder, simultaneous opens, and SIGKILLs, opens of other, damaged, repaired and impossible storages, by threads of this process and by separate processes on one file in a scratch directory; a model of who holds the lock decides each result, waiting times are measured, and the final file is compared with the list of inserted packets; one evaluation is one open; non-trivial = at least one open met a held lock",
    assumptions: &["advisory locks of the file system holding the scratch directory work", "an open without timeout answers within 3 s, one with a timeout within 20 s after it, and a waiting one within 20 s after the release (scheduling allowance)"],
    quick: 4_000,
    thorough: 200_000,
    threads: 24,
    alloc_limit: 64 << 20,
    case,
};

const GRACE: Duration = Duration::from_secs(20);
const PROMPT: Duration = Duration::from_secs(3);

pub fn numbered(n: u64) -> Packet {
    Packet::new(vec![Block::BlkU8(BlkU8 { v: n as u8 })], if n % 3 == 0 { None } else { Some(Payload::String(format!("packet {n}"))) })
}

#[derive(Debug, Clone, PartialEq)]
enum Res {
    Ok,
    Locked,
    Timeout,
    Other(String),
}
fn classify<T>(r: &Result<T, brec::Error>) -> Res {
    match r {
        Ok(_) => Res::Ok,
        Err(brec::Error::FileIsLocked(_)) => Res::Locked,
        Err(brec::Error::TimeoutToWaitLockedFile(_)) => Res::Timeout,
        Err(e) => Res::Other(e.to_string()),
    }
}
/// (timeout, interval) in ms
type How = (Option<u64>, Option<u64>);
fn do_open(path: &Path, how: How, builder: bool) -> Result<FileStorage<'static>, brec::Error> {
    let ms = Duration::from_millis;
    if builder {
        let mut o = brec::FileStorageOptions::new(path);
        if let Some(t) = how.0 {
            o = o.timeout(ms(t));
        }
        if let Some(i) = how.1 {
            o = o.interval(ms(i));
        }
        o.open()
    } else {
        FileStorage::new(path, how.0.map(ms), how.1.map(ms))
    }
}

// ---------------------------------------------------------------- child processes

/// `harness lockzygote`: starts children on request; it never holds a lock itself, so nothing is inherited while they start.
pub fn zygote() -> i32 {
    unsafe { libc::signal(libc::SIGCHLD, libc::SIG_IGN) };
    let exe = std::env::current_exe().expect("exe");
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        match Command::new(&exe).arg("lockchild").arg(l.trim()).stdin(Stdio::null()).spawn() {
            Ok(c) => println!("{}", c.id()),
            Err(_) => println!("0"),
        }
        let _ = std::io::stdout().flush();
    }
    0
}

/// `harness lockchild SOCKET`: one actor.
pub fn child(sock: &str) -> i32 {
    let s = UnixStream::connect(sock).expect("socket");
    let mut out = s.try_clone().expect("clone");
    let mut held: Option<FileStorage<'static>> = None;
    for l in BufReader::new(s).lines() {
        let Ok(l) = l else { break };
        let w: Vec<&str> = l.splitn(5, ' ').collect();
        let ans = match w[0] {
            "open" => {
                let opt = |s: &str| s.parse::<u64>().ok();
                let t = Instant::now();
                let r = do_open(Path::new(w[4]), (opt(w[1]), opt(w[2])), w[3] == "b");
                let el = t.elapsed().as_micros();
                let k = classify(&r);
                if let Ok(h) = r {
                    held = Some(h);
                }
                match k {
                    Res::Ok => format!("ok {el}"),
                    Res::Locked => format!("locked {el}"),
                    Res::Timeout => format!("timeout {el}"),
                    Res::Other(e) => format!("other {el} {e}"),
                }
            }
            "insert" => match held.as_mut().unwrap().insert(numbered(w[1].parse().unwrap())) {
                Ok(()) => "ok".into(),
                Err(e) => format!("err {e}"),
            },
            "drop" => {
                held = None;
                "ok".into()
            }
            _ => break,
        };
        if writeln!(out, "{ans}").is_err() {
            break;
        }
    }
    0
}

struct Zygote {
    _p: Child,
    w: ChildStdin,
    r: BufReader<ChildStdout>,
}
fn zyg() -> &'static Mutex<Zygote> {
    static Z: OnceLock<Mutex<Zygote>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut p = Command::new(std::env::current_exe().unwrap()).arg("lockzygote").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("zygote");
        let w = p.stdin.take().unwrap();
        let r = BufReader::new(p.stdout.take().unwrap());
        Mutex::new(Zygote { _p: p, w, r })
    })
}

struct Remote {
    pid: i32,
    w: UnixStream,
    r: BufReader<UnixStream>,
}
impl Remote {
    fn start(dir: &Path, n: u64) -> Remote {
        let path = dir.join(format!("s{n}"));
        let l = UnixListener::bind(&path).expect("bind");
        let pid = {
            let mut z = zyg().lock().unwrap();
            writeln!(z.w, "{}", path.display()).expect("zygote");
            let mut s = String::new();
            z.r.read_line(&mut s).expect("zygote");
            s.trim().parse::<i32>().expect("pid")
        };
        assert!(pid > 0, "child did not start");
        let (s, _) = l.accept().expect("accept");
        s.set_read_timeout(Some(Duration::from_secs(90))).unwrap();
        Remote { pid, w: s.try_clone().unwrap(), r: BufReader::new(s) }
    }
    fn send(&mut self, c: &str) -> Result<(), String> {
        writeln!(self.w, "{c}").map_err(es)
    }
    fn recv(&mut self) -> Result<String, String> {
        let mut s = String::new();
        match self.r.read_line(&mut s) {
            Ok(n) if n > 0 => Ok(s.trim_end().to_string()),
            Ok(_) => Err("the child process ended".into()),
            Err(e) => Err(format!("no answer from the child process: {e}")),
        }
    }
    fn kill(&mut self) {
        unsafe { libc::kill(self.pid, libc::SIGKILL) };
        let t = Instant::now();
        while unsafe { libc::kill(self.pid, 0) } == 0 && t.elapsed() < GRACE {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}
impl Drop for Remote {
    fn drop(&mut self) {
        unsafe { libc::kill(self.pid, libc::SIGKILL) };
    }
}

// ---------------------------------------------------------------- local actors

enum Cmd {
    Open(PathBuf, How, bool),
    Insert(u64),
    Drop,
}
struct Local {
    w: mpsc::Sender<Cmd>,
    r: mpsc::Receiver<(Res, Duration)>,
}
impl Local {
    fn start() -> Local {
        let (w, rx) = mpsc::channel::<Cmd>();
        let (tx, r) = mpsc::channel();
        std::thread::spawn(move || {
            let mut held: Option<FileStorage<'static>> = None;
            for c in rx {
                let t = Instant::now();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match c {
                    Cmd::Open(p, how, b) => {
                        let r = do_open(&p, how, b);
                        let el = t.elapsed();
                        let k = classify(&r);
                        if let Ok(h) = r {
                            held = Some(h);
                        }
                        (k, el)
                    }
                    Cmd::Insert(n) => (classify(&held.as_mut().unwrap().insert(numbered(n))), t.elapsed()),
                    Cmd::Drop => {
                        held = None;
                        (Res::Ok, t.elapsed())
                    }
                }))
                .unwrap_or((Res::Other("panic".into()), t.elapsed()));
                if tx.send(res).is_err() {
                    break;
                }
            }
        });
        Local { w, r }
    }
}

enum Actor {
    Local(Local),
    Remote(Remote),
}
impl Actor {
    fn ask_open(&mut self, path: &Path, how: How, b: bool) -> Result<(), String> {
        match self {
            Actor::Local(l) => l.w.send(Cmd::Open(path.to_path_buf(), how, b)).map_err(es),
            Actor::Remote(r) => {
                let o = |v: Option<u64>| v.map_or("-".to_string(), |v| v.to_string());
                r.send(&format!("open {} {} {} {}", o(how.0), o(how.1), if b { "b" } else { "n" }, path.display()))
            }
        }
    }
    fn answer(&mut self, limit: Duration) -> Result<(Res, Duration), String> {
        match self {
            Actor::Local(l) => l.r.recv_timeout(limit).map_err(|_| format!("no answer within {limit:?}")),
            Actor::Remote(r) => {
                r.w.set_read_timeout(Some(limit)).map_err(es)?;
                let s = r.recv()?;
                let mut p = s.splitn(3, ' ');
                let k = p.next().unwrap_or("");
                let el = Duration::from_micros(p.next().and_then(|x| x.parse().ok()).unwrap_or(0));
                Ok((
                    match k {
                        "ok" => Res::Ok,
                        "locked" => Res::Locked,
                        "timeout" => Res::Timeout,
                        _ => Res::Other(s.clone()),
                    },
                    el,
                ))
            }
        }
    }
    fn silent(&mut self, d: Duration) -> Result<(), String> {
        // gives an answer only if one is there too early
        match self {
            Actor::Local(l) => match l.r.recv_timeout(d) {
                Ok(r) => Err(format!("{:?} after {:?}", r.0, r.1)),
                Err(_) => Ok(()),
            },
            Actor::Remote(r) => {
                r.w.set_read_timeout(Some(d)).map_err(es)?;
                let mut s = String::new();
                match r.r.read_line(&mut s) {
                    Ok(n) if n > 0 => Err(s.trim_end().to_string()),
                    Ok(_) => Err("the child process ended".into()),
                    Err(_) => Ok(()),
                }
            }
        }
    }
    fn insert(&mut self, n: u64) -> Result<(), String> {
        match self {
            Actor::Local(l) => l.w.send(Cmd::Insert(n)).map_err(es)?,
            Actor::Remote(r) => r.send(&format!("insert {n}"))?,
        }
        match self.answer(GRACE)? {
            (Res::Ok, _) => Ok(()),
            (r, _) => Err(format!("insert: {r:?}")),
        }
    }
    fn release(&mut self) -> Result<(), String> {
        match self {
            Actor::Local(l) => l.w.send(Cmd::Drop).map_err(es)?,
            Actor::Remote(r) => r.send("drop")?,
        }
        self.answer(GRACE).map(|_| ())
    }
}

pub struct Scratch(pub PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn scratch(name: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("{name}-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

fn case(g: &mut Gen, c: &mut Ctx) -> R {
    zyg();
    let dir = Scratch(scratch("p12"));
    std::fs::create_dir_all(dir.0.join("sub")).map_err(es)?;
    let name = *g.pick(&["data.bin", "data", "a.b.brec", "данные.bin", "data.lock", ".data", "a b.bin"]);
    let path = dir.0.join(name);
    let alias = dir.0.join("sub").join("..").join(name);
    if g.chance(1, 6) {
        // left over by an earlier run
        std::fs::write(path.with_extension("lock"), b"").map_err(es)?;
    }
    let mut actors: Vec<Actor> = Vec::new();
    let remotes = g.us(0, 2);
    let locals = g.us(if remotes < 2 { 2 - remotes } else { 0 }, 3);
    let mut serial = 0;
    for _ in 0..locals {
        actors.push(Actor::Local(Local::start()));
    }
    for _ in 0..remotes {
        serial += 1;
        actors.push(Actor::Remote(Remote::start(&dir.0, serial)));
    }
    let who = |i: usize| if i < locals { format!("thread {i}") } else { format!("process {i}") };
    let mut holder: Option<usize> = None;
    let mut inserted: u64 = 0;
    let mut hist: Vec<String> = Vec::new();
    let mut contended = false;
    let how_wait = |g: &mut Gen| -> How { (Some(g.range(0, 60)), if g.flag() { None } else { Some(g.range(1, 30)) }) };
    let steps = g.us(3, 10);
    for _ in 0..steps {
        let a = g.us(0, actors.len() - 1);
        let b = g.flag();
        let p = if g.chance(1, 5) { &alias } else { &path };
        let trail = |h: &[String]| h.join(", ");
        match (g.weighted(&[5, 4, 3, 2, 1, 1, 1]), holder) {
            // an open
            (0, h) | (1, h) if h != Some(a) => {
                let how: How = if g.flag() { (None, if g.chance(1, 3) { Some(g.range(1, 100)) } else { None }) } else { how_wait(g) };
                hist.push(format!("{} opens {how:?}", who(a)));
                c.eval();
                actors[a].ask_open(p, how, b)?;
                let (r, el) = actors[a].answer(Duration::from_millis(how.0.unwrap_or(0)) + GRACE).map_err(|e| format!("{e}; {}", trail(&hist)))?;
                match (h, how.0) {
                    (None, _) => {
                        ensure!(r == Res::Ok, "opening failed with {r:?} although nobody holds the storage; {}", trail(&hist));
                        holder = Some(a);
                    }
                    (Some(k), None) => {
                        contended = true;
                        ensure!(r == Res::Locked, "{r:?} although {} holds the storage and no timeout was given; {}", who(k), trail(&hist));
                        ensure!(el < PROMPT, "refusing took {el:?} without a timeout; {}", trail(&hist));
                    }
                    (Some(k), Some(t)) => {
                        contended = true;
                        ensure!(r == Res::Timeout, "{r:?} although {} holds the storage; {}", who(k), trail(&hist));
                        ensure!(el >= Duration::from_millis(t), "gave up after {el:?} although the timeout is {t} ms; {}", trail(&hist));
                    }
                }
            }
            // inserts or closing by the holder
            (0 | 1, Some(_)) | (2, Some(_)) => {
                let h = holder.unwrap();
                let k = g.us(0, 3);
                for _ in 0..k {
                    actors[h].insert(inserted).map_err(|e| format!("{e}; {}", trail(&hist)))?;
                    inserted += 1;
                }
                hist.push(format!("{} inserts {k}", who(h)));
                if g.chance(1, 2) {
                    actors[h].release().map_err(|e| format!("{e}; {}", trail(&hist)))?;
                    hist.push(format!("{} closes", who(h)));
                    holder = None;
                }
            }
            // a waiting open released by closing or killing the holder
            (3, Some(h)) if h != a => {
                c.label("waiting open");
                let how: How = (Some(30_000), Some(g.range(1, 20)));
                let d = Duration::from_millis(g.range(0, 40));
                contended = true;
                c.eval();
                hist.push(format!("{} opens and waits", who(a)));
                actors[a].ask_open(p, how, b)?;
                actors[a].silent(d + Duration::from_millis(1)).map_err(|e| format!("a waiting open ended with {e} while {} holds the storage; {}", who(h), trail(&hist)))?;
                if h >= locals && g.flag() {
                    c.label("holder killed");
                    if let Actor::Remote(r) = &mut actors[h] {
                        r.kill();
                    }
                    hist.push(format!("{} is killed", who(h)));
                    serial += 1;
                    actors[h] = Actor::Remote(Remote::start(&dir.0, serial));
                } else {
                    actors[h].release().map_err(|e| format!("{e}; {}", trail(&hist)))?;
                    hist.push(format!("{} closes", who(h)));
                }
                let (r, _) = actors[a].answer(GRACE + GRACE).map_err(|e| format!("{e}; {}", trail(&hist)))?;
                ensure!(r == Res::Ok, "a waiting open ended with {r:?} after the holder was gone; {}", trail(&hist));
                holder = Some(a);
            }
            // killing the holder
            (4, Some(h)) if h >= locals => {
                c.label("holder killed");
                if let Actor::Remote(r) = &mut actors[h] {
                    r.kill();
                }
                serial += 1;
                actors[h] = Actor::Remote(Remote::start(&dir.0, serial));
                hist.push(format!("{} is killed", who(h)));
                holder = None;
            }
            // everybody at once
            (2 | 3 | 4, None) => {
                let wait = g.flag();
                let how: How = if wait { (Some(30_000), Some(g.range(1, 10))) } else { (None, None) };
                c.label(if wait { "all wait at once" } else { "all try at once" });
                hist.push(format!("all open at once {how:?}"));
                for x in actors.iter_mut() {
                    c.eval();
                    x.ask_open(p, how, b)?;
                }
                if !wait {
                    let mut won = Vec::new();
                    for (i, x) in actors.iter_mut().enumerate() {
                        match x.answer(GRACE).map_err(|e| format!("{e}; {}", trail(&hist)))? {
                            (Res::Ok, _) => won.push(i),
                            (Res::Locked, _) => contended = true,
                            (r, _) => return Err(format!("{} got {r:?}; {}", who(i), trail(&hist))),
                        }
                    }
                    ensure!(won.len() == 1, "{} of {} simultaneous opens succeeded; {}", won.len(), actors.len(), trail(&hist));
                    holder = Some(won[0]);
                } else {
                    contended |= actors.len() > 1;
                    // each in turn gets it, inserts and closes
                    let mut left: Vec<usize> = (0..actors.len()).collect();
                    let t = Instant::now();
                    while !left.is_empty() {
                        let mut got = None;
                        while got.is_none() {
                            ensure!(t.elapsed() < GRACE + GRACE, "{} waiting opens are not served; {}", left.len(), trail(&hist));
                            for i in &left {
                                if let Err(e) = actors[*i].silent(Duration::from_millis(1)) {
                                    ensure!(e.to_lowercase().starts_with("ok"), "{} got {e}; {}", who(*i), trail(&hist));
                                    got = Some(*i);
                                    break;
                                }
                            }
                        }
                        let i = got.unwrap();
                        left.retain(|x| *x != i);
                        for k in &left {
                            if let Err(e) = actors[*k].silent(Duration::from_millis(2)) {
                                return Err(format!("{} got {e} while {} holds the storage; {}", who(*k), who(i), trail(&hist)));
                            }
                        }
                        actors[i].insert(inserted).map_err(|e| format!("{e}; {}", trail(&hist)))?;
                        inserted += 1;
                        hist.push(format!("{} inserts 1 and closes", who(i)));
                        actors[i].release().map_err(|e| format!("{e}; {}", trail(&hist)))?;
                    }
                }
            }
            // a directory
            (5, _) => {
                hist.push("open a directory".into());
                let r = do_open(&dir.0.join("sub"), if b { (None, None) } else { (Some(5), None) }, b);
                ensure!(matches!(r, Err(brec::Error::PathIsNotFile(_))), "opening a directory gave {:?}; {}", classify(&r), trail(&hist));
                ensure!(dir.0.join("sub").is_dir(), "the directory is gone");
            }
            // other storages: one beside, one that is damaged and one that cannot be
            (6, h) => {
                let how: How = if g.flag() { (None, None) } else { (Some(g.range(0, 5)), Some(1)) };
                hist.push(format!("other storages opened {how:?}"));
                c.eval();
                c.label(if h.is_some() { "other storage while locked" } else { "other storage" });
                let other = dir.0.join(*g.pick(&["other.bin", "other", "da", "data2.bin", "sub/data.bin", "sub/other.bin"]));
                let lone = do_open(&other, how, b);
                ensure!(classify(&lone) == Res::Ok, "opening {} gave {:?} although only another storage is open; {}", other.display(), classify(&lone), trail(&hist));
                let twice = do_open(&other, how, !b);
                ensure!(classify(&twice) == if how.0.is_some() { Res::Timeout } else { Res::Locked }, "opening {} for the second time gave {:?}; {}", other.display(), classify(&twice), trail(&hist));
                drop(lone);
                let bad = dir.0.join("damaged.bin");
                let mut bytes = super::p22::file(&[enc_packet(&numbered(1))]);
                let i = g.us(16, bytes.len().min(4020) - 1);
                let good = bytes[i];
                bytes[i] ^= 0x55;
                std::fs::write(&bad, &bytes).map_err(es)?;
                for _ in 0..2 {
                    let r = do_open(&bad, how, b);
                    ensure!(matches!(classify(&r), Res::Other(_)), "opening a damaged storage, which nobody holds, gave {:?}; {}", classify(&r), trail(&hist));
                }
                // repaired, it opens at once
                bytes[i] = good;
                std::fs::write(&bad, &bytes).map_err(es)?;
                let r = do_open(&bad, how, !b);
                ensure!(classify(&r) == Res::Ok, "opening a repaired storage, which nobody holds, gave {:?}; {}", classify(&r), trail(&hist));
                drop(r);
                let none = do_open(&dir.0.join("none").join("x.bin"), how, b);
                ensure!(matches!(classify(&none), Res::Other(_)), "opening a storage in a directory that does not exist gave {:?}; {}", classify(&none), trail(&hist));
            }
            _ => {}
        }
    }
    if let Some(h) = holder {
        if g.flag() {
            // still locked to the end
            if let Some(i) = (0..actors.len()).find(|i| *i != h) {
                c.eval();
                actors[i].ask_open(&path, (None, None), false)?;
                let (r, _) = actors[i].answer(GRACE).map_err(|e| format!("{e}; {}", hist.join(", ")))?;
                ensure!(r == Res::Locked, "final open gave {r:?} although {} holds the storage; {}", who(h), hist.join(", "));
                contended = true;
            }
        }
        actors[h].release().map_err(|e| format!("{e}; {}", hist.join(", ")))?;
    }
    drop(actors);
    // what is in the file
    if inserted > 0 {
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&path).map_err(es)?;
        let mut rd: Reader<std::fs::File> = Reader::new(f).map_err(|e| format!("reading the file: {e}; {}", hist.join(", ")))?;
        ensure!(rd.count() == inserted as usize, "the file holds {} packets, {inserted} were inserted; {}", rd.count(), hist.join(", "));
        for (i, r) in rd.iter().enumerate() {
            let p = r.map_err(|e| format!("packet {i}: {e}; {}", hist.join(", ")))?;
            ensure!(same(&p, &numbered(i as u64)), "packet {i} is {}; {}", describe(&p), hist.join(", "));
        }
    }
    c.nontrivial = contended;
    c.sample(|| hist.join(", "));
    Ok(())
}
