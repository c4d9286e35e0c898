#!/usr/bin/env python3
"""P23: definitions outside of what is supported are turned into programs; each must be refused by the
compiler with an explanation at the definition, while its twin - the same program with a supported
definition in the same place - must compile.

  neg.py run quick|thorough
  neg.py replay FILE
  neg.py show SEED
"""
import json, os, random, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import progen
from progen import VERIF, WS, Trouble, log, put

RULE = ("a case is a pair of generated programs which differ in one place: one has an unsupported definition, directive or setting there (about 110 sorts, with generated names, "
        "neighbours, places, modules and visibilities), the other a supported one; the first must be refused without a panic of the macro and, where the macro can tell, with an error "
        "of the macro positioned at the definition; the second must compile; an evaluation is one compiled program; all cases are non-trivial, distinct by the text of the refused program")

PRIM = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "[u8; 1]", "[u8; 33]", "[u8; 0]"]
NAMES = ["alpha", "beta", "value", "id", "len", "ts", "level", "kind", "data", "x", "y9", "_pad", "crc", "sig", "buf", "src", "payload", "block"]

# what a field may not be: (type, who refuses it, helpers in front of the definition)
# "m": the macro itself refuses it, "r": the compiler does when it gets to the generated code
FIELDS = [
    ("&'static u8", "m", ""), ("&'static [u8]", "m", ""), ("&'static str", "m", ""), ("&'static [u8; 4]", "m", ""), ("&'static mut u8", "m", ""),
    ("(u8, u16)", "m", ""), ("()", "m", ""), ("(u32)", "m", ""), ("*const u8", "m", ""), ("fn() -> u8", "m", ""), ("Box<dyn Fn()>", "m", ""),
    ("[u16; 4]", "m", ""), ("[i8; 4]", "m", ""), ("[bool; 2]", "m", ""), ("[f32; 3]", "m", ""), ("[u64; 1]", "m", ""), ("[[u8; 2]; 2]", "m", ""), ("[Kind; 2]", "m", "enum"),
    ("[&'static u8; 2]", "m", ""),
    ("[u8; N]", "m", "pub const N: usize = 4;"), ("[u8; 2 + 2]", "m", ""), ("[u8; lens::N]", "m", "pub mod lens { pub const N: usize = 4; }"), ("[u8; { 4 }]", "m", ""),
    ("[u8; 'a' as usize]", "m", ""), ("[u8; size_of::<u32>()]", "m", "use std::mem::size_of;"), ("[u8; 99999999999999999999999]", "m", ""),
    ("Vec<u8>", "m", ""), ("Option<u8>", "m", ""), ("Box<u8>", "m", ""), ("Box<[u8]>", "m", ""), ("std::string::String", "m", ""), ("std::primitive::u8", "m", ""), ("::core::primitive::u32", "m", ""),
    ("core::num::NonZeroU8", "m", ""), ("HashMap<u8, u8>", "m", "use std::collections::HashMap;"), ("kinds::Kind", "m", "enumk"), ("std::marker::PhantomData<u8>", "m", ""),
    ("String", "r", ""), ("NonZeroU8", "r", "use std::num::NonZeroU8;"), ("char", "r", ""), ("usize", "r", ""), ("isize", "r", ""), ("str", "r", ""),
    ("Id", "r", "pub type Id = u32;"), ("Byte", "r", "pub type Byte = u8;"), ("Nowhere", "r", ""), ("Other", "r", "#[derive(Debug, Clone, Copy, PartialEq)] pub struct Other { pub a: u8 }"),
    ("OneWay", "r", "#[derive(Debug, Clone, Copy, PartialEq)] pub enum OneWay { A } impl From<&OneWay> for u8 { fn from(_: &OneWay) -> u8 { 0 } }"),
    ("Back", "r", "#[derive(Debug, Clone, Copy, PartialEq)] pub enum Back { A } impl TryFrom<u8> for Back { type Error = String; fn try_from(_: u8) -> std::result::Result<Self, String> { Ok(Back::A) } }"),
    ("Wide", "r", "#[derive(Debug, Clone, Copy, PartialEq)] pub enum Wide { A } impl TryFrom<u16> for Wide { type Error = String; fn try_from(_: u16) -> std::result::Result<Self, String> { Ok(Wide::A) } } "
                  "impl From<&Wide> for u16 { fn from(_: &Wide) -> u16 { 0 } }"),
]
KIND = ("#[derive(Debug, Clone, Copy, PartialEq)] pub enum Kind { A, B }\nimpl TryFrom<u8> for Kind { type Error = String; fn try_from(v: u8) -> std::result::Result<Self, String> "
        "{ match v { 0 => Ok(Kind::A), 1 => Ok(Kind::B), _ => Err(String::from(\"unknown\")) } } }\nimpl From<&Kind> for u8 { fn from(v: &Kind) -> u8 { *v as u8 } }")
HELP = {"enum": KIND, "enumk": "pub mod kinds {\n" + KIND + "\n}"}

# the whole item: (text with {N} for its name, who refuses it, name exists as a type)
BFORMS = [
    ("pub enum {N} {{ A, B }}", "m"), ("pub enum {N} {{ A {{ x: u8 }}, B(u16) }}", "m"), ("pub union {N} {{ pub a: u8, pub b: i8 }}", "m"), ("pub struct {N}(pub u8);", "m"), ("pub struct {N}(pub u8, pub [u8; 4]);", "m"),
    ("pub struct {N};", "m"), ("pub struct {N}();", "m"), ("pub struct {N}<T> {{ pub a: u8, pub b: T }}", "m"), ("pub struct {N}<'a> {{ pub a: &'a u8 }}", "m"), ("pub struct {N}<const M: usize> {{ pub a: [u8; M] }}", "m"),
    ("pub struct {N}<T: Copy = u8> {{ pub a: T }}", "m"), ("pub fn {N}() {{}}", "m"), ("pub trait {N} {{}}", "m"), ("pub mod {N} {{}}", "m"), ("pub type {N} = u8;", "m"), ("pub const {N}: u8 = 1;", "m"),
    ("pub struct {N} {{ pub __sig: [u8; 4] }}", "m"), ("pub struct {N} {{ pub a: u8, pub __crc: [u8; 4] }}", "m"), ("pub struct {N} {{ __crc: u32, pub a: u8 }}", "m"), ("pub struct {N} {{ pub a: u8, __sig: u8, pub b: u8 }}", "m"),
    ("pub struct {N} {{ pub a: u8, pub a: u8 }}", "r"),
]
PFORMS = [
    ("pub union {N} {{ pub a: u8, pub b: i8 }}", "m"), ("#[derive(serde::Serialize, serde::Deserialize)]\npub struct {N}<T> {{ pub b: T }}", "m"), ("pub struct {N}<'a> {{ pub a: &'a u8 }}", "m"),
    ("#[derive(serde::Serialize, serde::Deserialize)]\npub enum {N}<T> {{ A(T), B }}", "m"), ("pub struct {N}<const M: usize> {{ pub a: [u8; M] }}", "m"), ("pub fn {N}() {{}}", "m"), ("pub trait {N} {{}}", "m"),
    ("pub type {N} = u8;", "m"), ("pub struct {N} {{ pub a: u8 }}", "r"), ("#[derive(serde::Serialize)]\npub struct {N} {{ pub a: u8 }}", "r"), ("#[derive(serde::Deserialize)]\npub struct {N} {{ pub a: u8 }}", "r"),
    ("#[derive(serde::Serialize, serde::Deserialize)]\npub struct {N} {{ pub a: std::rc::Weak<u8> }}", "r"),
]
# directives; {P} is a path to a module
DIRS = [
    ('"no_crc"', "m"), ("5", "m"), ("path = 5", "m"), ("path = true", "m"), ("path = {P} + {P}", "m"), ("path = {P}()", "m"), ("path = [{P}]", "m"), ("crc = no", "m"), ("no_crc = true", "m"), ('no_crc = "yes"', "m"),
    ("module = {P}", "m"), ("PATH = {P}", "m"), ("path::to = {P}", "m"), ("path({P})", "m"), ("no_crc()", "m"), ("no_crc no_crc", "m"), ("no_crc;", "m"), ("path = ", "m"), ("= {P}", "m"), ("path == {P}", "m"), ("!no_crc", "m"),
    ("|x| x", "m"), ("{{ no_crc }}", "m"), ("no-crc", "m"), ("&{P}", "m"), ("no_crc, 1", "m"), ("1, no_crc", "m"), ("path = {P}, crc = 1", "m"),
    ("nocrc", "r"), ("no_crcs", "r"), ("NO_CRC", "r"), ("path", "r"), ("crate::nowhere", "r"), ("path = crate::nowhere", "r"), ('path = "crate::nowhere"', "r"),
]
# manual pieces a directive asks for are missing
PFLAGS = [("bincode, no_auto_crc", "r"), ("bincode, no_default_sig", "r"), ("bincode, hooks", "r"), ("bincod", "r"), ("bincode = true", "m"), ('"bincode"', "m"), ("bincode, hooks = 1", "m"), ("bincode, no_auto_crc()", "m")]
SETS = [
    ("foo", "m"), ("no_default_payloads", "m"), ("no_default", "m"), ("NoDefaultPayload", "m"), ("payloads_derive", "m"), ("payloads_derive = 5", "m"), ("payloads_derive = Debug", "m"), ("payloads_derive = b\"Debug\"", "m"),
    ("payloads_derive = 'D'", "m"), ("payloads_derive = [\"Debug\"]", "m"), ("payloads_derive = \"1bad\"", "m"), ("payloads_derive = \"Debug Clone\"", "m"), ("payloads_derive = \"Debug, 5\"", "m"), ("payload_derive = \"Debug\"", "m"),
    ("derive = \"Debug\"", "m"), ("\"Debug\"", "m"), ("5", "m"), ("no_default_payload = true", "m"), ("no_default_payload = \"yes\"", "m"), ("payloads_derive(\"Debug\")", "m"), ("cfg::no_default_payload", "m"),
    ("no_default_payload()", "m"), ("no_default_payload no_default_payload", "m"), ("a::payloads_derive = \"Debug\"", "m"), ("!no_default_payload", "m"), ("no_default_payload, foo", "m"), ("foo, no_default_payload", "m"),
    ("payloads_derive = \"Debug\", 7", "m"), ("payloads_derive = \"Nowhere\"", "r"), ("payloads_derive = \"nowhere::Debug\"", "r"),
]
PLACES = ["hidden", "wrong path", "private", "twice", "no build script"]


class Case:
    """bad and good are texts of programs, lines the place of the offender, by who refuses it."""


def fillers(r, used, n):
    out = []
    for _ in range(n):
        nm = name(r, used)
        fs = ", ".join(f"pub {f}: {r.choice(PRIM)}" for f in r.sample(NAMES, r.randint(1, 4)))
        if r.random() < 0.6:
            out.append(f"#[brec::block]\n#[derive(Debug, Clone, PartialEq)]\npub struct {nm} {{ {fs} }}")
        else:
            out.append(f"#[brec::payload(bincode)]\n#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]\npub struct {nm} {{ pub v: Vec<{r.choice(['u8', 'u32', 'String'])}> }}")
    return out


def name(r, used):
    while True:
        n = r.choice("ABCDEFGHJKLMNPQRSUVWXYZ") + "".join(r.choice("abcdeoiuklmnrst") for _ in range(r.randint(2, 7)))
        if n not in used and n not in ("Box", "Kind", "Wide", "Back", "Other", "Byte"):
            used.add(n)
            return n


def sorts():
    """All sorts of offenders, in a fixed order."""
    out = [("field", i) for i in range(len(FIELDS))] + [("block form", i) for i in range(len(BFORMS))] + [("payload form", i) for i in range(len(PFORMS))]
    out += [("block directive", i) for i in range(len(DIRS))] + [("payload directive", i) for i in range(len(DIRS) + len(PFLAGS))] + [("setting", i) for i in range(len(SETS))]
    return out + [("place", i) for i in range(len(PLACES))]


def make(seed, sort):
    r = random.Random(f"{seed}/{sort}")
    used = set()
    what, i = sort
    before, after = fillers(r, used, r.randint(0, 2)), fillers(r, used, r.randint(0, 1))
    nm = name(r, used)
    mod = r.choice(["", "", "defs", "deep::er"])
    help_ = ""
    settings = r.choice([[], [], ['payloads_derive = "Debug"']])
    by = "m"
    derive = "#[derive(Debug, Clone, PartialEq)]\n"
    sd = "#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]\n"
    kind = "block"
    build = True
    link = None
    block = lambda dirs, fs: f"#[brec::block{dirs}]\n{derive}pub struct {nm} {{ {fs} }}"
    pay = lambda dirs, fs="pub v: Vec<u8>": f"#[brec::payload{dirs}]\n{sd}pub struct {nm} {{ {fs} }}"
    label = what
    mp = "crate::" + mod if mod else None
    if what == "field":
        ty, by, h = FIELDS[i]
        help_ = HELP.get(h, h)
        names = r.sample(NAMES, r.randint(1, 5))
        at = r.randrange(len(names))
        f = lambda t: ", ".join(f"{r2.choice(['pub ', 'pub ', ''])}{n}: {t if j == at else r2.choice(PRIM)}" for j, n in enumerate(names))
        r2 = random.Random(f"{seed}f")
        bad = block("", f(ty))
        r2 = random.Random(f"{seed}f")
        good = block("", f(r.choice(PRIM)))
        label = "field " + ty
    elif what in ("block form", "payload form"):
        form, by = (BFORMS if what == "block form" else PFORMS)[i]
        kind = what.split()[0]
        if kind == "payload":
            flag = "(bincode)" if "derive" in form else r.choice(["", "(bincode)"])
            bad, good = f"#[brec::payload{flag}]\n" + form.format(N=nm), pay("(bincode)")
        else:
            bad, good = "#[brec::block]\n" + form.format(N=nm), block("", "pub a: u8, pub b: [u8; 4]")
        label = what + ": " + form
    elif what == "block directive":
        d, by = DIRS[i]
        mod = mod or "defs"
        mp = "crate::" + mod
        bad = block("(" + d.format(P=mp) + ")", "pub a: u16")
        good = block(r.choice(["(no_crc)", "", f"(path = {mp})", f"({mp}, no_crc)", f'(path = "{mp}")', "(no_crc,)"]), "pub a: u16")
        link = "path" if mp in good.split("\n")[0] else None
        label = "block directive: " + d
    elif what == "payload directive":
        kind = "payload"
        d, by = (DIRS + PFLAGS)[i]
        mod = mod or "defs"
        mp = "crate::" + mod
        d = d.format(P=mp)
        bad = pay("(" + (d if i >= len(DIRS) else "bincode, " + d if r.random() < 0.5 or by == "r" else d + ", bincode") + ")")
        good = pay(r.choice(["(bincode)", f"(bincode, path = {mp})", "(bincode, no_crc)", f'(bincode, path = "{mp}", no_crc)']))
        link = "path" if mp in good.split("\n")[0] else None
        label = "payload directive: " + (DIRS + PFLAGS)[i][0]
    elif what == "setting":
        st, by = SETS[i]
        bad = good = block("", "pub a: u16")
        label = "setting: " + st
    else:
        by = "r"
        label = "place: " + PLACES[i]
        mod = mod or "defs"
        mp = "crate::" + mod
        bad, good = block("", "pub a: u16"), block("", "pub a: u16")
        if r.random() < 0.4:
            kind = "payload"
            bad = good = pay("(bincode)")
        if PLACES[i] == "wrong path":
            ins = lambda p: f"(bincode, path = {p})" if kind == "payload" else f"(path = {p})"
            mk = (lambda d: pay(d)) if kind == "payload" else (lambda d: block(d, "pub a: u16"))
            bad, good, link = mk(ins("crate")), mk(ins(mp)), "path"
        elif PLACES[i] == "private":
            bad = bad.replace("pub struct", "struct")
    use = r.choice(["use brec::prelude::*;\n", ""]) if kind == "block" or what == "place" else ""

    def program(item, st, isbad):
        head = ["#![allow(warnings)]"]
        head += [use.strip()] if use else []
        body = []
        start = None
        lines = []
        def addl(t):
            lines.extend(t.split("\n"))
        for t in head + before:
            addl(t)
        if mod:
            for m in mod.split("::"):
                addl(f"pub mod {m} {{")
            if use:
                addl(use.strip())
        if help_:
            addl(help_)
        start = len(lines) + 1
        addl(item)
        end = len(lines)
        if mod:
            for m in mod.split("::"):
                addl("}")
        for t in after:
            addl(t)
        bare = isbad and what == "place" and PLACES[i] == "hidden"
        own = link == "path" and (not isbad or what == "place")
        if mod and not bare and not own:
            addl(f"pub use crate::{mod}::{nm};")
            if kind == "block":
                addl(f"pub use crate::{mod}::{nm}Referred;")
        g = f"brec::generate!({', '.join(st)});"
        gl = len(lines) + 1
        addl(g)
        if isbad and what == "place" and PLACES[i] == "twice":
            addl(g)
        addl("fn main() {}")
        if what == "setting":
            start = end = gl
        return "\n".join(lines) + "\n", start, end

    c = Case()
    c.label, c.by, c.what, c.sort = label, by, what, sort
    bst = settings
    if what == "setting":
        bst = [SETS[i][0]]
        settings = r.choice([[], ["no_default_payload"], ['payloads_derive = "Debug"'], ['payloads_derive = "Debug, Clone"']])
        # derives of all payloads are taken over, a name given twice is fine
    c.bad, c.a, c.b = program(bad, bst, True)
    c.good, _, _ = program(good, settings, False)
    c.badbuild = not (what == "place" and PLACES[i] == "no build script")
    return c


def crate(nm, text, build=True):
    d = os.path.join(WS, nm)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    put(os.path.join(d, "Cargo.toml"), f'[package]\nname = "{nm}"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n' + ("" if build else "build = false\n") +
        '\n[dependencies]\nbrec = { path = "/repo/brec", features = ["bincode", "locked_storage"] }\nserde = { version = "1.0", features = ["derive"] }\n')
    if build:
        put(os.path.join(d, "build.rs"), 'fn main() { println!("cargo:rerun-if-changed=build.rs"); }\n')
    put(os.path.join(d, "src", "main.rs"), text)


def compile_all(names, timeout=800):
    """{crate: list of errors (message, code, [(first, last line)])}; an empty list means that it compiled."""
    args = ["build", "--offline", "--keep-going", "--message-format=json"]
    for n in names:
        args += ["-p", n]
    r = progen.cargo(args, timeout)
    ok, msgs = set(), {n: [] for n in names}
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            ok.add(os.path.basename(m["executable"]))
        elif m.get("reason") == "compiler-message" and m["message"].get("level", "").startswith("error"):
            n = m.get("target", {}).get("name")
            if n in msgs:
                d = m["message"]
                spans = []
                for s in d.get("spans", []):
                    while s:
                        if s["file_name"].endswith("main.rs"):
                            spans.append((s["line_start"], s["line_end"]))
                        s = (s.get("expansion") or {}).get("span")
                text = d["message"] + " " + " ".join(c["message"] for c in d.get("children", []))
                msgs[n].append((text, (d.get("code") or {}).get("code"), spans))
    for n in names:
        if n not in ok and not msgs[n]:
            raise Trouble("no verdict about " + n + ": " + r.stderr[-800:])
        if any(w in t for t, _, _ in msgs[n] for w in ("No space left", "Cannot allocate")):
            raise Trouble(msgs[n][0][0])
    return {n: [] if n in ok else msgs[n] for n in names}


def judge(c, bad, good):
    if good:
        return "the supported definition in the same place does not compile: " + " | ".join(t for t, _, _ in good)[:600]
    if not bad:
        return "it compiles although it is not supported"
    for t, _, _ in bad:
        if "panicked" in t:
            return "the macro panics: " + t[:300]
    if c.by == "m":
        here = [t for t, code, spans in bad if code is None and any(a <= c.b and b >= c.a for a, b in spans) and not t.startswith("aborting")]
        if not here:
            return "no error of the macro at the definition; the errors are: " + " | ".join(f"{t} {s}" for t, _, s in bad)[:600]
    return None


def trial(cases):
    names = []
    for i, c in enumerate(cases):
        crate(f"c_n{i:04}b", c.bad, c.badbuild)
        crate(f"c_n{i:04}g", c.good)
        names += [f"c_n{i:04}b", f"c_n{i:04}g"]
    try:
        res = compile_all(names)
    finally:
        progen.drop(names)
    return [judge(c, res[f"c_n{i:04}b"], res[f"c_n{i:04}g"]) for i, c in enumerate(cases)]


def shrink(c, seed):
    """Tries the same sort with other seeds and keeps the shortest program that fails."""
    try:
        cand = [make(f"{seed}/s{k}", c.sort) for k in range(24)]
        res = trial(cand)
    except (Trouble, subprocess.TimeoutExpired):
        return c, None
    bad = sorted((len(x.bad), k) for k, (x, m) in enumerate(zip(cand, res)) if m)
    return (cand[bad[0][1]], res[bad[0][1]]) if bad and bad[0][0] < len(c.bad) else (c, None)


def main_run(tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence", "P23.json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    rounds = 1 if tier == "quick" else 12
    if os.environ.get("VERIF_CASES"):
        rounds = max(1, int(os.environ["VERIF_CASES"]) // len(sorts()))
    code, done, texts, labels, samples = 0, 0, set(), {}, []
    try:
        progen.setup()
        if not progen.base():
            log("the library does not build")
            return 2
        for k in range(rounds):
            cases = [make(f"{seed}/{k}", s) for s in sorts()]
            try:
                res = trial(cases)
            except subprocess.TimeoutExpired:
                log("building took too long")
                return 2
            done += len(cases)
            for c in cases:
                texts.add(hash(c.bad))
                l = c.what + (" (macro)" if c.by == "m" else " (compiler)")
                labels[l] = labels.get(l, 0) + 1
            if k == 0:
                samples = [{"sort": c.label, "refused": c.bad[:600]} for c in cases[::29]]
            bad = [i for i, m in enumerate(res) if m]
            if bad:
                i = min(bad, key=lambda i: len(cases[i].bad))
                c, msg = cases[i], res[i]
                log(f"{len(bad)} of {len(cases)} fail: " + "; ".join(f"{cases[j].label}: {res[j][:200]}" for j in bad[:40]))
                c2, m2 = shrink(c, seed)
                if m2:
                    c, msg = c2, m2
                d = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                json.dump({"property": "P23", "sort": c.label, "message": msg, "refused": c.bad, "twin": c.good, "lines": [c.a, c.b], "by": c.by, "build": c.badbuild},
                          open(os.path.join(d, "P23.json"), "w"), indent=1, ensure_ascii=False)
                print(f"P23: {c.label}: {msg}\n{c.bad}")
                print("VIOLATION property=P23 replay=evidence/replay/P23.json")
                code = 1
                break
        wall = time.time() - t0
        json.dump({"property": "P23", "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": 2 * done, "generated_cases": done, "distinct_nontrivial": len(texts), "rule": RULE, "classes": labels, "samples": samples, "sorts": len(sorts())},
                   "assumptions": ["errors without a code come from the macro or the parser"], "wall_s": round(wall, 2), "violations": code}, open(ev, "w"), ensure_ascii=False)
        print(f"P23 {tier}: {done} cases, {2 * done} evaluations, {len(texts)} distinct non-trivial, {wall:.1f} s")
        return code
    except Trouble as e:
        log(str(e))
        return 2


def main_replay(f):
    d = json.load(open(f))
    c = Case()
    c.bad, c.good, (c.a, c.b), c.by, c.badbuild = d["refused"], d["twin"], d["lines"], d["by"], d["build"]
    progen.setup()
    if not progen.base():
        return 2
    m = trial([c])[0]
    print(m or "holds")
    return 1 if m else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "run":
        sys.exit(main_run(a[1]))
    if a[0] == "replay":
        sys.exit(main_replay(a[1]))
    if a[0] == "show":
        for s in sorts():
            c = make(a[1], s)
            print("=====", c.label, c.by, c.a, c.b)
            print(c.bad)
            print("----- twin")
            print(c.good)
