#!/usr/bin/env python3
"""P15: random protocol definitions are turned into programs, built against /repo and run.

  progen.py run quick|thorough       the check
  progen.py replay FILE              builds and runs one definition again
  progen.py show SEED                prints a program
"""
import json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import model

VERIF = os.path.dirname(HERE)
WS = os.path.join(VERIF, "target", "progen")
SCRATCH = None
RULE = ("a case is a generated protocol definition (blocks, enums, payloads, modules, directives, generator parameters) that is compiled and whose "
        "program checks the codec laws on generated values; non-trivial = at least two blocks or payloads of its own, or a type in a module or with a path directive; "
        "an evaluation is one compiled definition or one generated value taken through all read and write paths")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update({"CARGO_TARGET_DIR": os.path.join(WS, "t"), "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0", "RUSTFLAGS": "", "RUSTC_WRAPPER": ""})
    return e


def setup():
    os.makedirs(WS, exist_ok=True)
    for d in os.listdir(WS):
        if d.startswith("c_"):
            shutil.rmtree(os.path.join(WS, d))
    rt = os.path.join(WS, "rt")
    os.makedirs(os.path.join(rt, "src"), exist_ok=True)
    for f in ("Cargo.toml", "src/lib.rs"):
        put(os.path.join(rt, f), open(os.path.join(HERE, "rt", f)).read())
    members()
    lock = os.path.join(WS, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), lock)
    bins = os.path.join(WS, "t", "debug")
    if os.path.isdir(bins):
        for f in os.listdir(bins):
            if f.startswith("c_"):
                os.remove(os.path.join(bins, f)) if os.path.isfile(os.path.join(bins, f)) else None


def members():
    ms = ["rt"] + sorted(d for d in os.listdir(WS) if d.startswith("c_"))
    put(os.path.join(WS, "Cargo.toml"), '[workspace]\nresolver = "2"\nmembers = ' + json.dumps(ms) + '\n[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n'
        '[profile.dev.package."*"]\nopt-level = 1\n[profile.dev.package.rt]\nopt-level = 2\n')


def put(path, text):
    """Writes a file unless it has this content already (times of files matter to cargo)."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)


def crate(name, p):
    text = p["raw"] if "raw" in p else model.emit(p)
    d = os.path.join(WS, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    dep = '\n[build-dependencies]\nbrec = { path = "/repo/brec", features = ["build"] }\n' if p["setup"] else ""
    put(os.path.join(d, "Cargo.toml"), f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "{p["edition"]}"\npublish = false\n\n[dependencies]\n'
        'brec = { path = "/repo/brec", features = ["bincode", "locked_storage"] }\nserde = { version = "1.0", features = ["derive"] }\nrt = { path = "../rt" }\n' + dep)
    put(os.path.join(d, "build.rs"), "fn main() {\n    " + ("brec::build_setup();" if p["setup"] else 'println!("cargo:rerun-if-changed=build.rs");') + "\n}\n")
    put(os.path.join(d, "src", "main.rs"), text)


def drop(names):
    for n in names:
        shutil.rmtree(os.path.join(WS, n), ignore_errors=True)
        t = os.path.join(WS, "t", "debug")
        for sub in ("", "deps", "build", ".fingerprint"):
            b = os.path.join(t, sub)
            if os.path.isdir(b):
                for f in os.listdir(b):
                    if f == n or f.startswith(n + "-") or f.startswith(n + "."):
                        q = os.path.join(b, f)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.remove(q)


def cargo(args, timeout):
    members()
    return subprocess.run(["cargo"] + args, cwd=WS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)


def base():
    """Builds the library and the runtime; nothing can be said about the property when this fails."""
    for attempt in (1, 2):
        r = cargo(["build", "--offline", "-p", "rt"], 800)
        if r.returncode == 0:
            return True
        if attempt == 1:
            # a lock file made for another tree
            try:
                os.remove(os.path.join(WS, "Cargo.lock"))
            except OSError:
                pass
    log(r.stderr[-6000:])
    return False


def build(names, timeout=800):
    """Returns {crate: None or the compiler's messages}."""
    args = ["build", "--offline", "--keep-going", "--message-format=json-diagnostic-short"]
    for n in names:
        args += ["-p", n]
    r = cargo(args, timeout)
    ok, msgs = set(), {n: [] for n in names}
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            n = os.path.basename(m["executable"])
            ok.add(n)
        elif m.get("reason") == "compiler-message":
            n = m.get("target", {}).get("name")
            if n in msgs and m["message"].get("level") == "error":
                msgs[n].append(m["message"].get("rendered") or m["message"].get("message", ""))
    out = {}
    for n in names:
        out[n] = None if n in ok else "does not compile: " + (" | ".join(x.strip() for x in msgs[n])[:1500] or r.stderr[-600:].replace("\n", " "))
    if r.returncode != 0 and all(out[n] is None for n in names):
        raise Trouble("cargo failed without a failing program: " + r.stderr[-800:])
    for n in names:
        if out[n] and not msgs[n]:
            raise Trouble("no verdict about " + n + ": " + r.stderr[-800:])
        if out[n] and any(w in out[n] for w in ("No space left", "Cannot allocate", "(signal: 9")):
            raise Trouble(out[n])
    return out


class Trouble(Exception):
    pass


def execute(name, seed, cases):
    e = dict(os.environ)
    e.update({"PG_SEED": str(seed), "PG_CASES": str(cases), "PG_SCRATCH": SCRATCH})
    exe = os.path.join(WS, "t", "debug", name)
    try:
        r = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=240)
    except subprocess.TimeoutExpired:
        return {"fail": "the program does not end within 240 s", "evals": 0, "sigs": [], "psigs": []}
    out = {"fail": None, "evals": 0, "sigs": [], "psigs": []}
    for line in r.stdout.splitlines():
        w = line.split(" ", 2)
        if w[0] == "FAIL":
            out["fail"] = line[5:]
        elif w[0] == "SIG":
            out["sigs"].append((w[2], w[1]))
        elif w[0] == "PSIG":
            out["psigs"].append((w[2], w[1]))
        elif w[0] == "EVALS":
            out["evals"] = int(w[1])
    if r.returncode != 0 and not out["fail"]:
        out["fail"] = f"the program ended with {r.returncode}: {r.stderr[-300:]}"
    if not out["fail"]:
        for what in ("sigs", "psigs"):
            seen = {}
            for k, s in out[what]:
                if s in seen and seen[s] != k:
                    out["fail"] = f"{seen[s]} and {k} have the same signature {s}"
                seen[s] = k
    return out


def trial(models, seed, cases, prefix="c_"):
    """Builds and runs definitions; returns their results (`fail` None when everything held)."""
    names = [f"{prefix}{i:04}" for i in range(len(models))]
    for n, p in zip(names, models):
        crate(n, p)
    built = build(names)
    def go(i):
        n = names[i]
        if built[n]:
            return {"fail": built[n], "evals": 0, "sigs": [], "psigs": []}
        return execute(n, seed * 1000003 + i, cases)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, range(len(names))))
    drop(names)
    return res


def candidates(p):
    """Smaller definitions."""
    c = lambda: json.loads(json.dumps(p))
    for what in ("blocks", "payloads"):
        for i in range(len(p[what])):
            q = c()
            q[what].pop(i)
            yield q
    if len(p["blocks"]) > 2:
        for half in (0, 1):
            q = c()
            n = len(q["blocks"]) // 2
            q["blocks"] = q["blocks"][:n] if half else q["blocks"][n:]
            yield q
    for i, b in enumerate(p["blocks"]):
        if len(b["fields"]) > 1:
            for half in (0, 1):
                q = c()
                f = q["blocks"][i]["fields"]
                n = len(f) // 2
                q["blocks"][i]["fields"] = f[:n] if half else f[n:]
                yield q
        for j in range(len(b["fields"])):
            if len(b["fields"]) <= 6:
                q = c()
                q["blocks"][i]["fields"].pop(j)
                yield q
        simple = {"derives": [], "before": False, "split": False, "vis": "pub", "link": "import", "repr": "", "methods": False, "no_crc": False, "attr_full": True, "mod": "", "flip": False}
        for k, v in simple.items():
            if b[k] != v:
                q = c()
                q["blocks"][i][k] = v
                yield q
        for j, f in enumerate(b["fields"]):
            for k, v in {"vis": "pub", "doc": False, "lit": 0, "ty": "u8", "name": f"f{j}"}.items():
                if f[k] != v:
                    q = c()
                    q["blocks"][i]["fields"][j][k] = v
                    yield q
    for i, x in enumerate(p["payloads"]):
        for k, v in {"derives": [], "vis": "pub", "link": "import", "repr": "", "methods": False, "flav": "auto", "own_sig": False, "hooks": False, "mod": "", "split": False, "serde_short": False, "attr_full": True}.items():
            if x[k] != v:
                q = c()
                q["payloads"][i][k] = v
                yield q
        for j in range(len(x["fields"])):
            if x["kind"] in ("struct", "tuple") and len(x["fields"]) > 1:
                q = c()
                q["payloads"][i]["fields"].pop(j)
                yield q
    for k, v in {"pd": None, "consts": [], "alias_result": False, "site": "", "no_default": False, "enums": [], "mods": [""], "setup": False, "trailing": False, "edition": "2021", "reexport": "pub use"}.items():
        if p[k] != v:
            q = c()
            q[k] = v
            yield q


def shrink(p, seed, cases, msg, budget):
    t0 = time.time()
    rng = random.Random(7)
    best, tried = p, {json.dumps(p, sort_keys=True)}
    rounds = 0
    while time.time() - t0 < budget:
        cand = []
        for q in candidates(best):
            q = model.normalise(q)
            k = json.dumps(q, sort_keys=True)
            if k not in tried and size(q) < size(best):
                cand.append(q)
        if not cand:
            break
        cand.sort(key=size)
        cand = cand[:3] + rng.sample(cand[3:], min(5, len(cand) - 3)) if len(cand) > 8 else cand
        for q in cand:
            tried.add(json.dumps(q, sort_keys=True))
        rounds += 1
        try:
            res = trial(cand, seed, cases, "c_s")
        except (Trouble, subprocess.TimeoutExpired):
            break
        bad = [(size(q), i) for i, (q, r) in enumerate(zip(cand, res)) if r["fail"]]
        if bad:
            i = min(bad)[1]
            best, msg = cand[i], res[i]["fail"]
    return best, msg, rounds


def size(p):
    return len(json.dumps(p))


def shared_pool(seed):
    """Families of blocks, definitions of which differ slightly; they are spread over programs."""
    out = []
    for i in range(8):
        g = model.Gen(f"shared{seed}/{i}", [])
        b = g.block(f"Shared{i}", "", [])
        out += model.family(g, b["name"], b["fields"], b["no_crc"])
    return out


def report(p, seed, cases, msg, note):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "P15.json")
    json.dump({"property": "P15", "seed": seed, "cases": cases, "message": msg, "note": note, "definition": p, "program": model.emit(p)}, open(f, "w"), indent=1, ensure_ascii=False)
    print("P15:", msg)
    print(model.emit(p)[:3000])
    print(f"VIOLATION property=P15 replay={os.path.relpath(f, VERIF)}")


def describe(p):
    return {"blocks": [model.key(b) + (" in " + b["mod"] if b["mod"] else "") + (" by " + b["link"] if model.pathfor(p, b) else "") + (" no_crc" if b["no_crc"] else "") for b in p["blocks"]][:6],
            "payloads": [q["name"] + ":" + q["kind"] + "/" + q["flav"] for q in p["payloads"]], "generator": p["site"] or "root", "no_default_payload": p["no_default"], "payloads_derive": p["pd"]}


def main_run(tier):
    global SCRATCH
    import tempfile
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence", "P15.json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    SCRATCH = tempfile.mkdtemp(prefix="vh-P15-")
    total, batch, cases = (96, 96, 60) if tier == "quick" else (3000, 150, 150)
    if os.environ.get("VERIF_CASES"):
        total = int(os.environ["VERIF_CASES"])
        batch = min(batch, total)
    code = 0
    try:
        setup()
        if not base():
            log("the library does not build")
            return 2
        pool = shared_pool(seed)
        evals = done = 0
        hashes, labels, samples = set(), {}, []
        keys, owners = {}, {}
        n = 0
        while n < total and code == 0:
            ms = [model.Gen(f"{seed}/{n + i}", pool).proto() for i in range(min(batch, total - n))]
            try:
                res = trial(ms, seed * 7919 + n, cases)
            except subprocess.TimeoutExpired:
                log("building took too long")
                return 2
            n += len(ms)
            fails = [i for i, r in enumerate(res) if r["fail"]]
            for p, r in zip(ms, res):
                done += 1
                evals += 1 + r["evals"]
                for l in model.labels(p):
                    labels[l] = labels.get(l, 0) + 1
                if model.nontrivial(p):
                    hashes.add(hash(json.dumps(p, sort_keys=True)))
                if len(samples) < 6 and model.nontrivial(p):
                    samples.append(describe(p))
                for k, s in r["sigs"]:
                    if not fails and k.startswith("Shared") and owners.setdefault(s, k) != k:
                        r["fail"] = f"{owners[s]} in one program and {k} in another have the same signature {s}"
                    if not fails and keys.setdefault(k, s) != s:
                        r["fail"] = f"{k} has the signature {keys[k]} in one program and {s} in another"
            fails = [i for i, r in enumerate(res) if r["fail"]]
            if fails:
                i = min(fails, key=lambda i: size(ms[i]))
                msg = res[i]["fail"]
                log(f"{len(fails)} of {len(ms)} definitions fail; shrinking one: {msg[:300]}")
                if "in one program" in msg:  # takes two programs
                    best, rounds = ms[i], 0
                else:
                    best, msg, rounds = shrink(ms[i], seed * 7919, cases, msg, 90 if tier == "quick" else 240)
                report(best, seed, cases, msg, f"shrunk in {rounds} rounds; {len(fails)} of {len(ms)} definitions of the batch failed")
                code = 1
        known = findings(code == 0)
        wall = time.time() - t0
        json.dump({"property": "P15", "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": evals, "generated_cases": done, "distinct_nontrivial": len(hashes), "rule": RULE, "classes": labels, "samples": samples,
                                "distinct_block_definitions": len(keys)},
                   "assumptions": ["enums used as fields implement Debug", "derive macros named by all payloads are in scope of the generator",
                                   "the generator is invoked after all definitions of its crate"],
                   "wall_s": round(wall, 2), "violations": code}, open(ev, "w"), ensure_ascii=False)
        print(f"P15 {tier}: {done} definitions, {evals} evaluations, {len(hashes)} distinct non-trivial, {wall:.1f} s")
        return code
    except Trouble as e:
        log(str(e))
        return 2
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def findings(run):
    """Known findings: each is tried, and announced while it still fails."""
    f = os.path.join(HERE, "findings.json")
    if not run or not os.path.exists(f):
        return
    items = json.load(open(f))
    names = [f"c_k{i}" for i in range(len(items))]
    for n, it in zip(names, items):
        crate(n, {"edition": "2021", "setup": False, "raw": it["program"]})
    built = build(names)
    for n, it in zip(names, items):
        bad = built[n] is not None or execute(n, 1, 1)["fail"]
        if bad:
            print(f"KNOWN-FINDING: property=P15 {it['what']}")
    drop(names)


def main_replay(f):
    global SCRATCH
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="vh-P15-")
    try:
        d = json.load(open(f))
        setup()
        if not base():
            return 2
        r = trial([d["definition"]], d["seed"] * 7919, d["cases"], "c_r")[0]
        print(r["fail"] or "holds")
        return 1 if r["fail"] else 0
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "run":
        sys.exit(main_run(a[1]))
    if a[0] == "replay":
        sys.exit(main_replay(a[1]))
    if a[0] == "prebuild":
        setup()
        sys.exit(0 if base() else 1)
    if a[0] == "show":
        print(model.emit(model.Gen(f"{a[1]}", shared_pool(1)).proto()))
