#!/usr/bin/env python3
"""P24: the same laws as in P15, for every combination of the features of the library.

  feat.py run quick|thorough
  feat.py replay FILE
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import model, progen
from progen import VERIF, WS, Trouble, log, put

RULE = ("a case is a generated protocol definition built with one of the 8 combinations of the features build, bincode and locked_storage (every run has all 8) and run against the codec laws, "
        "whose expected encodings come from an independent encoder and do not depend on the features; with locked_storage also a history of locked appends; "
        "an evaluation is one compiled definition or one generated value taken through all read and write paths; non-trivial = the definition has a block and a payload")
COMBOS = [[f for i, f in enumerate(("build", "bincode", "locked_storage")) if k >> i & 1] for k in range(8)]
LOCKED = '''
    {
        let mut path = std::path::PathBuf::from(std::env::var("PG_SCRATCH").unwrap());
        path.push(format!("locked-{}.bin", std::process::id()));
        let mut wants = Vec::new();
        for round in 0..3 {
            let mut w: pg::FileStorage = rt::brec::FileStorageOptions::new(&path).open().expect("locked storage");
            for _ in 0..5 {
                let (b, mut bytes) = pg_sample_block(&mut run.rng);
                wants.push(bytes);
                w.insert(pg::Packet::new(vec![b], None)).expect("insert");
            }
            let again: std::result::Result<pg::FileStorage, _> = rt::brec::FileStorageOptions::new(&path).open();
            assert!(matches!(again, Err(rt::brec::Error::FileIsLocked(_))), "storage is not locked");
            drop(w);
            let mut rd: pg::Reader<std::fs::File> = pg::Reader::new(std::fs::File::open(&path).unwrap()).expect("reader");
            let got: Vec<Vec<u8>> = rd.iter().map(|p| pg_canon_block(&p.expect("packet").blocks[0])).collect();
            assert!(got == wants, "locked storage holds {} packets of {}, or others", got.len(), wants.len());
            run.evals += 1;
        }
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(path.with_extension("lock"));
    }
'''


def definition(seed, feats):
    p = model.Gen(seed, []).proto()
    if "bincode" not in feats:
        p["payloads"] = [q for q in p["payloads"] if q["kind"] == "manual"]
    p["setup"] = "build" in feats
    p["feats"] = feats
    return model.normalise(p)


def text(p):
    t = model.emit(p)
    if "locked_storage" in p["feats"] and p["blocks"] and (p["payloads"] or not p["no_default"]):
        t = t.replace("    run.done();\n}", LOCKED + "    run.done();\n}", 1)
    return t


def crate(name, p):
    d = os.path.join(WS, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    dep = '\n[build-dependencies]\nbrec = { path = "/repo/brec", features = ["build"] }\n' if p["setup"] else ""
    serde = 'serde = { version = "1.0", features = ["derive"] }\n' if "bincode" in p["feats"] else ""
    put(os.path.join(d, "Cargo.toml"), f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "{p["edition"]}"\npublish = false\n\n[dependencies]\n'
        f'brec = {{ path = "/repo/brec", features = {json.dumps(p["feats"])} }}\n{serde}rt = {{ path = "../rt", default-features = false }}\n' + dep)
    put(os.path.join(d, "build.rs"), "fn main() {\n    " + ("brec::build_setup();" if p["setup"] else 'println!("cargo:rerun-if-changed=build.rs");') + "\n}\n")
    put(os.path.join(d, "src", "main.rs"), text(p))


def trial(groups, seed, cases):
    """groups: {combination number: [definitions]}; results in the same shape. One cargo call per combination: features are united within a call."""
    names = {k: [f"c_f{k}{i:02}" for i in range(len(ps))] for k, ps in groups.items()}
    for k, ps in groups.items():
        for n, p in zip(names[k], ps):
            crate(n, p)
    out = {}
    try:
        for k in groups:
            built = progen.build(names[k])
            def go(i):
                n = names[k][i]
                if built[n]:
                    return {"fail": built[n], "evals": 0}
                return progen.execute(n, seed * 1000003 + k * 100 + i, cases)
            with ThreadPoolExecutor(8) as ex:
                out[k] = list(ex.map(go, range(len(names[k]))))
    finally:
        progen.drop([n for ns in names.values() for n in ns])
    return out


def main_run(tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence", "P24.json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    per, cases = (4, 40) if tier == "quick" else (60, 150)
    if os.environ.get("VERIF_CASES"):
        per = max(1, int(os.environ["VERIF_CASES"]) // 8)
    progen.SCRATCH = tempfile.mkdtemp(prefix="vh-P24-")
    code = done = evals = 0
    texts, labels, samples = set(), {}, []
    try:
        progen.setup()
        if not progen.base():
            log("the library does not build")
            return 2
        step = min(per, 20)
        for at in range(0, per, step):
            groups = {k: [definition(f"feat{seed}/{k}/{at + i}", f) for i in range(min(step, per - at))] for k, f in enumerate(COMBOS)}
            for k in groups:
                # one of each with everything
                i = 0
                while at == 0 and not (groups[k][0]["blocks"] and (groups[k][0]["payloads"] or "bincode" not in COMBOS[k])):
                    i += 1
                    groups[k][0] = definition(f"feat{seed}/{k}/x{i}", COMBOS[k])
            try:
                res = trial(groups, seed * 31 + at, cases)
            except subprocess.TimeoutExpired:
                log("building took too long")
                return 2
            fails = []
            for k, ps in groups.items():
                for p, r in zip(ps, res[k]):
                    done += 1
                    evals += 1 + r["evals"]
                    labels["+".join(COMBOS[k]) or "none"] = labels.get("+".join(COMBOS[k]) or "none", 0) + 1
                    if p["blocks"] and (p["payloads"] or not p["no_default"]):
                        texts.add(hash(text(p)))
                        if len(samples) < 8 and p is ps[0]:
                            samples.append({"features": COMBOS[k], "definition": progen.describe(p)})
                    if r["fail"]:
                        fails.append((progen.size(p), k, p, r["fail"]))
            if fails:
                fails.sort(key=lambda x: x[0])
                _, k, p, msg = fails[0]
                log(f"{len(fails)} fail: " + "; ".join(f"{COMBOS[x[1]]}: {x[3][:150]}" for x in fails[:10]))
                p, msg = shrink(k, p, seed, cases, msg, 60 if tier == "quick" else 240)
                d = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                json.dump({"property": "P24", "features": COMBOS[k], "combination": k, "seed": seed, "cases": cases, "message": msg, "definition": p, "program": text(p)},
                          open(os.path.join(d, "P24.json"), "w"), indent=1, ensure_ascii=False)
                print(f"P24: features {COMBOS[k]}: {msg}")
                print("VIOLATION property=P24 replay=evidence/replay/P24.json")
                code = 1
                break
        wall = time.time() - t0
        json.dump({"property": "P24", "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": evals, "generated_cases": done, "distinct_nontrivial": len(texts), "rule": RULE, "classes": labels, "samples": samples},
                   "assumptions": ["as for P15"], "wall_s": round(wall, 2), "violations": code}, open(ev, "w"), ensure_ascii=False)
        print(f"P24 {tier}: {done} definitions, {evals} evaluations, {len(texts)} distinct non-trivial, {wall:.1f} s")
        return code
    except Trouble as e:
        log(str(e))
        return 2
    finally:
        shutil.rmtree(progen.SCRATCH, ignore_errors=True)


def shrink(k, p, seed, cases, msg, budget):
    t0, tried = time.time(), set()
    while time.time() - t0 < budget:
        cand = []
        for q in progen.candidates(p):
            q["setup"] = p["setup"]
            q = model.normalise(q)
            t = json.dumps(q, sort_keys=True)
            if t not in tried and progen.size(q) < progen.size(p):
                cand.append(q)
        cand = sorted(cand, key=progen.size)[:8]
        if not cand:
            break
        tried |= {json.dumps(q, sort_keys=True) for q in cand}
        try:
            res = trial({k: cand}, seed, cases)[k]
        except (Trouble, subprocess.TimeoutExpired):
            break
        bad = [(progen.size(q), i) for i, (q, r) in enumerate(zip(cand, res)) if r["fail"]]
        if bad:
            p, msg = cand[min(bad)[1]], res[min(bad)[1]]["fail"]
    return p, msg


def main_replay(f):
    d = json.load(open(f))
    progen.SCRATCH = tempfile.mkdtemp(prefix="vh-P24-")
    try:
        progen.setup()
        if not progen.base():
            return 2
        r = trial({d["combination"]: [d["definition"]]}, d["seed"], d["cases"])[d["combination"]][0]
        print(r["fail"] or "holds")
        return 1 if r["fail"] else 0
    finally:
        shutil.rmtree(progen.SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "run":
        sys.exit(main_run(a[1]))
    if a[0] == "replay":
        sys.exit(main_replay(a[1]))
