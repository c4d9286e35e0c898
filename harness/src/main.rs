mod alloc;
mod checks;
mod engine;
mod gens;
mod io;
mod proto;
mod refc;

#[global_allocator]
static A: alloc::Tracking = alloc::Tracking;

fn main() {
    engine::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown check {id}");
        std::process::exit(2)
    });
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => engine::supervise(find(&a[2]), a.get(3).map_or("quick", |s| s)),
        Some("worker") => engine::worker(find(&a[2]), &a[3], std::path::Path::new(&a[4])),
        Some("one") => {
            let d = std::fs::read(&a[3]).expect("choices");
            engine::one(find(&a[2]), d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        }
        Some("dump") => engine::dump(find(&a[2]), a[3].parse().unwrap(), &a[4]),
        Some("replay") => engine::replay(find(&a[2]), &a[3]),
        Some("lockzygote") => checks::p12::zygote(),
        Some("lockchild") => checks::p12::child(&a[2]),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: harness run|replay ID [quick|thorough|FILE]");
            2
        }
    };
    std::process::exit(code);
}
