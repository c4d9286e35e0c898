"""Random protocol definitions and their Rust programs."""
import random, json, hashlib

SCALARS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16,
           "f32": 4, "f64": 8, "bool": 1}
FIELD_NAMES = ["a", "b", "id", "value", "data", "crc", "sig", "buf", "src", "offset", "block", "blk", "hasher", "slices", "len",
               "size", "pos", "required", "bytes", "reader", "writer", "buffer", "dst", "skip_sig", "sig_buf", "start_pos",
               "r#type", "r#match", "r#fn", "r#gen", "_reserved", "__body", "__buf", "body", "err", "e", "v", "x1", "CamelField", "UPPER", "T",
               "needed", "n", "read", "write", "std", "brec", "core", "crc32", "field_with_a_rather_long_name_which_goes_on", "größe", "bool_", "u8_", "self_",
               "variant", "payload", "packet", "header", "result", "output", "temp", "flags", "kind", "level", "sig_len", "referred", "name", "path"]
BLOCK_NAMES = ["Alpha", "Beta", "Gamma", "Meta", "Sensor", "Wake", "Error", "Header", "Rule", "Slot", "Status", "Timestamp", "GPS", "A", "B1",
               "X_Y", "Version", "Data", "Cfg", "Event", "Result", "Size", "Position", "LogLine", "Measure", "Sig", "Crc", "ReadStatus", "PacketHeader",
               "NextPacket", "MyBlock", "BlockA", "Option1", "Float64", "U8", "Blob", "Key", "Index", "Trace", "Frame", "Aa", "AA", "Buf", "Level3", "IoSlices", "Peek"]
PAYLOAD_NAMES = ["Greeting", "Report", "Doc", "Tree", "Img", "Chunk", "Command", "Reply", "Person", "Order", "Blob2", "Text", "Num", "JSON", "Cell",
                 "ByteBlock", "PayloadHeader", "State", "Snapshot", "P", "Q7", "Letter", "Bundle", "Job", "Ack", "Nack"]
MODS = ["alpha", "beta", "msgs", "blocks", "payloads", "v1", "inner", "deep", "types", "r#mod", "data", "core_types", "x"]
DERIVES = ["Debug", "Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Default"]
CONSTS = ["VERSION", "SENSOR", "ALPHA", "DATA", "A", "SIG", "CRC", "LEN", "VALUE", "EVENT"]
SIGLENS = [4, 8, 16, 32, 64, 128]
PTYPES = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "String", "Vec<u8>", "Vec<u32>", "Vec<String>",
          "Option<u16>", "Option<String>", "(u8, String)", "(i64, bool)", "[u8; 7]", "Vec<Option<i16>>", "Box<u32>", "std::collections::BTreeMap<u8, String>"]


def nohash(ty):
    return "f32" in ty or "f64" in ty


class Gen:
    def __init__(self, seed, shared):
        self.r = random.Random(seed)
        self.shared = shared

    def chance(self, p):
        return self.r.random() < p

    def ident(self, pool, used):
        for _ in range(60):
            n = self.r.choice(pool)
            if self.chance(0.25):
                n = n + str(self.r.randint(0, 99)) if not n.startswith("r#") else n
            if n not in used:
                used.add(n)
                return n
        n = "z%d" % self.r.randint(0, 10**6) if pool is FIELD_NAMES else "Z%d" % self.r.randint(0, 10**6)
        used.add(n)
        return n

    def blob(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4096, 5000] if self.chance(0.5) else [1, 2, 3, 4, 8, 16])
        return n

    def field(self, used, enums):
        r = self.r
        k = r.random()
        if k < 0.55 or (k > 0.85 and not enums):
            ty = r.choice(list(SCALARS))
        elif k < 0.85:
            ty = "blob:%d" % self.blob()
        else:
            ty = "enum:" + r.choice(enums)
        return {"name": self.ident(FIELD_NAMES, used), "ty": ty, "vis": r.choice(["pub", "pub", "pub", "", "pub(crate)", "pub(super)", "in"]),
                "lit": r.randint(0, 5), "doc": self.chance(0.1)}

    def enum(self, name):
        r = self.r
        n = r.choice([1, 2, 3, 4, 8])
        vals = r.sample([0, 1, 2, 3, 7, 8, 16, 31, 64, 100, 127, 128, 200, 254, 255], n)
        full = self.chance(0.7)
        return {"name": name, "vals": vals, "full": full, "rest": self.chance(0.15), "into": r.choice(["ref", "ref", "ref+own"])}

    def derives_for(self, full, floats, big, enums_min, has_default_enum=True):
        r = self.r
        if enums_min:
            return r.choice([["Debug"], []])
        pool = ["Debug", "Clone", "PartialEq"]
        out = [d for d in pool if self.chance(0.7)]
        if self.chance(0.4) and "Clone" not in out:
            out.append("Clone")
        if "Clone" in out and self.chance(0.4):
            out.append("Copy")
        if "PartialEq" in out:
            if self.chance(0.4):
                out.append("PartialOrd")
            if not floats and self.chance(0.5):
                out.append("Eq")
                if "PartialOrd" in out and self.chance(0.5):
                    out.append("Ord")
        if not floats and self.chance(0.3):
            out.append("Hash")
        if not big and self.chance(0.3):
            out.append("Default")
        r.shuffle(out)
        return out

    def block(self, name, mod, enums):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 13, 30] if self.chance(0.9) else [64])
        used = set()
        fields = [self.field(used, [e["name"] for e in enums]) for _ in range(n)]
        return self.finish({"name": name, "mod": mod, "fields": fields}, enums)

    def finish(self, b, enums):
        r = self.r
        fields = b["fields"]
        used_enums = {f["ty"][5:] for f in fields if f["ty"].startswith("enum:")}
        emin = any((not e["full"]) for e in enums if e["name"] in used_enums)
        floats = any(f["ty"] in ("f32", "f64") for f in fields)
        big = any(f["ty"].startswith("blob:") and int(f["ty"][5:]) > 32 for f in fields)
        b.setdefault("no_crc", self.chance(0.15))
        b["derives"] = self.derives_for(True, floats, big, emin)
        b["before"] = self.chance(0.12)
        b["split"] = self.chance(0.15)
        b["vis"] = r.choice(["pub", "pub", "pub", "pub(crate)", "", "pub(super)"])
        b["link"] = r.choice(["import", "import", "import", "kw", "direct", "str", "rel", "glob"])
        b["attr_full"] = self.chance(0.3)
        b["repr"] = r.choice(["", "", "", "", "C", "Cdoc", "align(8)", "C, align(16)", "align(64), C", "Rust"] + (["transparent"] if n1(fields) else []))
        b["methods"] = self.chance(0.15)
        b["flip"] = self.chance(0.5)
        return b

    def payload(self, name, mod):
        r = self.r
        kind = r.choice(["struct", "struct", "enum", "tuple", "unit", "newtype", "manual", "genericless"])
        flav = r.choice(["auto", "auto", "auto", "no_crc", "no_auto_crc"])
        fields = [r.choice(PTYPES) for _ in range({"struct": r.randint(0, 6), "enum": 0, "tuple": r.randint(2, 4), "unit": 0, "newtype": 1, "manual": 1, "genericless": 2}[kind])]
        if kind == "manual":
            fields = ["Vec<u8>"]
        if kind == "genericless":
            kind = "struct"
        variants = []
        if kind == "enum":
            for i in range(r.choice([1, 2, 3, 5])):
                variants.append([r.choice(["unit", "tuple", "rec"]), [r.choice(PTYPES) for _ in range(r.randint(1, 3))]])
        alltys = fields + [t for v in variants for t in v[1]]
        floats = any(nohash(t) for t in alltys)
        heap = any(t not in SCALARS and not t.startswith("[") and t not in ("Option<u16>", "(i64, bool)") for t in alltys)
        d = []
        if self.chance(0.8):
            d.append("Debug")
        if self.chance(0.7):
            d.append("Clone")
            if not heap and self.chance(0.5):
                d.append("Copy")
        if self.chance(0.6):
            d.append("PartialEq")
            if not floats and self.chance(0.5):
                d.append("Eq")
                if self.chance(0.4):
                    d += ["PartialOrd", "Ord"]
        if not floats and self.chance(0.3):
            d.append("Hash")
        if kind != "enum" and self.chance(0.25):
            d.append("Default")
        r.shuffle(d)
        return {"name": name, "mod": mod, "kind": kind, "flav": flav, "fields": fields, "variants": variants, "derives": d,
                "crc_len": r.choice(SIGLENS), "own_sig": self.chance(0.2), "sig_len": r.choice(SIGLENS), "sig_salt": r.randint(0, 2**32),
                "hooks": self.chance(0.2), "vis": r.choice(["pub", "pub", "pub", "pub(crate)", "pub(super)", ""]),
                "link": r.choice(["import", "import", "import", "kw", "direct", "str", "rel", "glob"]), "serde_first": self.chance(0.5),
                "repr": r.choice(["", "", "", "C", "align(8)"] + (["u8", "i64"] + (["C, u16"] if any(v[0] != "unit" for v in variants) else []) if kind == "enum" else ["C, align(32)", "Rust"])),
                "serde_short": self.chance(0.2), "attr_full": self.chance(0.3), "methods": self.chance(0.15), "flip": self.chance(0.5), "split": self.chance(0.15)}

    def proto(self):
        r = self.r
        shape = r.choice(["full"] * 8 + ["blocks", "payloads", "defaults", "blocks_nd", "payloads_nd", "full_nd", "full_nd", "empty"])
        nb = 0 if shape in ("payloads", "defaults", "payloads_nd", "empty") else r.choice([1, 1, 2, 3, 4, 6, 9] if self.chance(0.93) else [40])
        np = 0 if shape in ("blocks", "defaults", "blocks_nd", "empty") else r.choice([1, 1, 2, 3, 5])
        nd = shape in ("blocks_nd", "payloads_nd", "full_nd", "empty")
        used_mods = set()
        mods = [""]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            parent = r.choice(mods)
            if parent.count("::") >= 2:
                continue
            n = r.choice(MODS)
            m = (parent + "::" if parent else "") + n
            if m not in mods:
                mods.append(m)
        p = {"edition": r.choice(["2021", "2024"]), "mods": mods, "site": r.choice(["", "", "", "proto", "outer::proto"]), "glob_prelude": self.chance(0.5),
             "enums": [], "blocks": [], "payloads": [], "no_default": nd, "alias_result": self.chance(0.1), "reexport": r.choice(["pub use", "use", "pub(crate) use"]),
             "consts": [c for c in CONSTS if self.chance(0.1)], "setup": self.chance(0.06), "trailing": self.chance(0.1)}
        names = {m: set() for m in mods}
        for m in mods:
            for c in p["consts"]:
                names[m].add(c)
        gl = {"Block", "Packet", "Payload"}
        ename = set()
        for i in range(r.choice([0, 0, 1, 2, 3])):
            m = r.choice(mods)
            n = r.choice(["Level", "Kind", "Mode", "Color", "Unit", "Flag"]) + r.choice(["", "", "1", "X"])
            if n in ename:
                continue
            ename.add(n)
            e = self.enum(n)
            e["mod"] = m
            p["enums"].append(e)
        for i in range(nb):
            m = r.choice(mods)
            n = self.ident(BLOCK_NAMES, gl)
            p["blocks"].append(self.block(n, m, p["enums"]))
        # relatives: the same name or the same fields, slightly changed
        if nb and self.chance(0.35):
            base = r.choice(p["blocks"])
            for _ in range(r.choice([1, 1, 2, 3])):
                c = json.loads(json.dumps(base))
                self.mutate(c, gl, p["enums"])
                self.finish(c, p["enums"])
                if c["name"] == base["name"]:
                    # such are told apart by their modules
                    m = r.choice(["kin", "kin::kin2", "other"])
                    for x in (m.rpartition("::")[0], m):
                        if x and x not in mods:
                            mods.append(x)
                            names[x] = set(p["consts"])
                    c["mod"] = m
                    c["link"] = r.choice(["kw", "str", "direct"])
                p["blocks"].append(c)
        # definitions shared between programs
        if nb and self.shared and self.chance(0.7):
            for _ in range(r.choice([1, 4, 6, 8])):
                c = json.loads(json.dumps(r.choice(self.shared)))
                if c["name"] not in gl:
                    gl.add(c["name"])
                    c["mod"] = r.choice(mods)
                    p["blocks"].append(self.finish(c, p["enums"]))
        for i in range(np):
            m = r.choice(mods)
            n = self.ident(PAYLOAD_NAMES, gl)
            p["payloads"].append(self.payload(n, m))
        r.shuffle(p["blocks"])
        p["pd"] = self.payload_derives(p)
        return normalise(p)

    def payload_derives(self, p):
        """Derives named by payloads_derive: such that every payload supports."""
        if not self.chance(0.4):
            return None
        ok = ["Debug", "Clone", "PartialEq", "Eq", "Hash"]
        for q in p["payloads"]:
            ok = [d for d in ok if d in q["derives"]]
        if p["no_default"] and not p["payloads"]:
            ok = []
        if "Eq" in ok and "PartialEq" not in ok:
            ok.remove("Eq")
        out = [d for d in ok if self.chance(0.6)]
        if "Eq" in out and "PartialEq" not in out:
            out.append("PartialEq")
        return out or None

    def mutate(self, b, gl, enums):
        r = self.r
        f = b["fields"]
        k = r.choice(["name", "field", "type", "swap", "drop", "add"])
        b["flavour"] = "relative"
        if k == "name" or (k in ("field", "type", "drop") and not f) or (k == "swap" and len(f) < 2):
            b["name"] = self.ident(BLOCK_NAMES, gl)
            return
        if k == "field":
            x = r.choice(f)
            x["name"] = self.ident(FIELD_NAMES, {y["name"] for y in f})
        elif k == "type":
            x = r.choice(f)
            same = {"u32": ["i32", "f32", "blob:4"], "i32": ["u32", "f32"], "f32": ["u32", "blob:4"], "u8": ["i8", "bool", "blob:1"], "bool": ["u8", "i8"],
                    "i8": ["u8", "bool"], "u64": ["i64", "f64", "blob:8"], "i64": ["u64", "f64"], "f64": ["u64", "blob:8"], "u16": ["i16", "blob:2"], "i16": ["u16"],
                    "u128": ["i128", "blob:16"], "i128": ["u128"]}.get(x["ty"])
            others = [e["name"] for e in enums if "enum:" + e["name"] != x["ty"]]
            if not same and x["ty"].startswith("enum:"):
                same = ["enum:" + n for n in others] + ["u8"]
            if not same:
                n = int(x["ty"][5:]) if x["ty"].startswith("blob:") else 0
                same = ["blob:%d" % (n + 1), "u8"]
            x["ty"] = r.choice(same)
        elif k == "swap":
            i = r.randrange(len(f) - 1)
            f[i], f[i + 1] = f[i + 1], f[i]
        elif k == "drop":
            f.pop(r.randrange(len(f)))
        else:
            f.insert(r.randint(0, len(f)), self.field({y["name"] for y in f}, []))


SAME = {"u32": ["i32", "f32", "blob:4"], "u8": ["i8", "bool", "blob:1"], "bool": ["u8"], "u64": ["i64", "f64", "blob:8"], "i64": ["u64"], "f64": ["u64"], "f32": ["i32"],
        "u16": ["i16", "blob:2"], "i16": ["u16"], "u128": ["i128", "blob:16"], "i128": ["u128"], "i8": ["u8"], "i32": ["u32"]}


def family(g, name, fields, no_crc):
    """A block and its close relatives."""
    fields = [f for f in fields if not f["ty"].startswith("enum:")][:6]
    used = {f["name"] for f in fields}
    while len(fields) < 3:
        fields.append(g.field(used, []))
    fields[g.r.randrange(3)]["ty"] = "blob:%d" % g.blob()
    out = []

    def add(n, fs):
        if len({f["name"] for f in fs}) == len(fs):
            out.append({"name": n, "mod": "", "fields": json.loads(json.dumps(fs)), "no_crc": no_crc})

    add(name, fields)
    add(name + "x", fields)
    add(name, [])
    add(name + "x", [])
    for i, f in enumerate(fields):
        w = [dict(x) for x in fields]
        w[i]["name"] = g.ident(FIELD_NAMES, set(used))
        add(name, w)
        if not f["name"].startswith("r#"):
            w = [dict(x) for x in fields]
            w[i]["name"] = f["name"] + "_"
            add(name, w)
        n = int(f["ty"][5:]) if f["ty"].startswith("blob:") else 0
        for t in SAME.get(f["ty"], ["blob:%d" % (n + 1), "blob:%d" % (n + 10), "blob:%d" % (n * 10 + 1)]):
            w = [dict(x) for x in fields]
            w[i]["ty"] = t
            add(name, w)
        add(name, fields[:i] + fields[i + 1:])
        if i + 1 < len(fields):
            add(name, fields[:i] + [fields[i + 1], f] + fields[i + 2:])
    add(name, fields + [g.field(set(used), [])])
    add(name, [g.field(set(used), [])] + fields)
    seen, keep = set(), []
    for b in out:
        if key(b) not in seen:
            seen.add(key(b))
            keep.append(b)
    return keep


def key(b):
    """What the signature depends on, per documentation (paths aside)."""
    return b["name"] + "{" + ",".join(f["name"] + ":" + f["ty"] for f in b["fields"]) + "}"


def camel(seg):
    seg = seg.strip()
    if seg.startswith("r#"):
        seg = seg[2:]
    return seg[:1].upper() + seg[1:]


def pathfor(p, x):
    """The module path named by a directive, or None when the type is imported."""
    link = x["link"]
    m = x["mod"]
    if link in ("import", "glob"):
        return None
    if link == "rel" and p["site"] == "" and m:
        return m
    return "crate::" + m if m else "crate"


def fullname(p, x):
    path = pathfor(p, x)
    if path is None:
        segs = [x["name"]]
    else:
        segs = path.split("::") + [x["name"]]
    return "".join(camel(s) for s in segs)


def under(site, mod):
    """Is `site` the module `mod` or inside of it?"""
    return mod == "" or site == mod or site.startswith(mod + "::")


def visible(x, p):
    """Visibility allowed for the type: it must be reachable from the generator."""
    v, m, s = x["vis"], x["mod"], p["site"]
    if v == "pub(super)" and m == "":
        v = "pub"
    if v == "" and not under(s, m):
        v = "pub(crate)"
    if v == "pub(super)":
        parent = m.rpartition("::")[0]
        if not under(s, parent):
            v = "pub(crate)"
    return v


def normalise(p):
    """Make the definition legal: unique names of types in modules, unique variants, visible types."""
    sitemods = set()
    s = p["site"]
    while s:
        sitemods.add(s)
        s = s.rpartition("::")[0]
    mods = [m for m in p["mods"]]
    for m in sorted(sitemods):
        if m not in mods:
            mods.append(m)
    p["mods"] = mods
    reserved = {"Block", "BlockReferred", "Packet", "Payload", "Reader", "Writer", "Rules", "Rule", "RuleFnDef", "PacketBufReader", "FileStorage", "Bytes", "String"}
    fulls = set(["Bytes", "String"])
    permod = {m: set(p["consts"]) for m in mods}
    for e in list(p["enums"]):
        if e["mod"] not in permod or e["name"] in permod[e["mod"]]:
            p["enums"].remove(e)
        else:
            permod[e["mod"]].add(e["name"])
    # names imported into the place of the generator
    site = set()
    if p["site"] in permod:
        site = permod[p["site"]]
    site |= reserved
    enames = {e["name"] for e in p["enums"]}
    for what in ("blocks", "payloads"):
        keep = []
        for x in p[what]:
            if x["mod"] not in permod:
                x["mod"] = ""
            x["vis"] = visible(x, p)
            if x["vis"] == "" and x["mod"] != p["site"]:
                pass
            if x["link"] == "direct" and pathfor(p, x) in ("no_crc", "bincode", "hooks"):
                x["link"] = "kw"
            if what == "blocks":
                x["fields"] = [f for f in x["fields"] if not f["ty"].startswith("enum:") or f["ty"][5:] in enames]
                if "PartialEq" in x["derives"] and any(f["ty"].startswith("enum:") for f in x["fields"]):
                    pass
            full = fullname(p, x)
            tn = [x["name"]] + ([x["name"] + "Referred"] if what == "blocks" else [])
            if full in fulls or full + "Referred" in fulls or any(t in permod[x["mod"]] for t in tn) or any(t in enames for t in tn):
                continue
            if pathfor(p, x) is None and x["mod"] != p["site"] and any(t in site for t in tn):
                continue
            if x["mod"] == p["site"] and any(t in site for t in tn):
                continue
            # the names of types by which the program of the check refers to modules
            fulls.add(full)
            for t in tn:
                permod[x["mod"]].add(t)
                if pathfor(p, x) is None:
                    site.add(t)
            keep.append(x)
        p[what] = keep
    # equal definitions in different modules: a known finding, tried apart
    seen, keep = set(), []
    for b in p["blocks"]:
        if key(b) not in seen:
            seen.add(key(b))
            keep.append(b)
    p["blocks"] = keep
    if p["alias_result"] and any(x["name"] == "Result" for x in p["blocks"] + p["payloads"]):
        p["alias_result"] = False
    if p["no_default"] and not p["payloads"]:
        p["pd"] = None
    return p


LITS = [lambda n: str(n), lambda n: str(n), lambda n: hex(n), lambda n: "%dusize" % n, lambda n: "0b" + bin(n)[2:], lambda n: f"{n:_}"]


def rty(f):
    ty = f["ty"]
    if ty.startswith("blob:"):
        return "[u8; %s]" % LITS[f["lit"]](int(ty[5:]))
    if ty.startswith("enum:"):
        return ty[5:]
    return ty


def fsize(ty):
    if ty.startswith("blob:"):
        return int(ty[5:])
    if ty.startswith("enum:"):
        return 1
    return SCALARS[ty]


def fieldvis(v, mod):
    if v == "in":
        return "pub(in crate)" if mod == "" else "pub(in crate::%s)" % mod.split("::")[0]
    if v == "pub(super)" and mod == "":
        return "pub"
    return v


def emit_enum(e):
    d = "Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default" if e["full"] else "Debug"
    o = []
    o.append(f"#[derive({d})]\npub enum {e['name']} {{")
    for i, v in enumerate(e["vals"]):
        if i == 0 and e["full"]:
            o.append("    #[default]")
        o.append(f"    V{v},")
    if e["rest"]:
        o.append("    Rest(u8),")
    o.append("}")
    o.append(f"impl TryFrom<u8> for {e['name']} {{\n    type Error = String;\n    fn try_from(v: u8) -> std::result::Result<Self, String> {{\n        match v {{")
    for v in e["vals"]:
        o.append(f"            {v} => Ok(Self::V{v}),")
    o.append("            v => " + ("Ok(Self::Rest(v))," if e["rest"] and len(e["vals"]) < 256 else "Err(format!(\"{v} is unknown\")),"))
    o.append("        }\n    }\n}")
    arms = "".join(f"            {e['name']}::V{v} => {v},\n" for v in e["vals"]) + (f"            {e['name']}::Rest(v) => *v,\n" if e["rest"] else "")
    o.append(f"impl From<&{e['name']}> for u8 {{\n    fn from(v: &{e['name']}) -> u8 {{\n        match v {{\n{arms}        }}\n    }}\n}}")
    if e["into"] == "ref+own":
        o.append(f"impl From<{e['name']}> for u8 {{\n    fn from(v: {e['name']}) -> u8 {{\n        u8::from(&v)\n    }}\n}}")
    # values for the check
    n = len(e["vals"])
    arms = "".join(f"            {i} => {e['name']}::V{v},\n" for i, v in enumerate(e["vals"]))
    rest = ""
    if e["rest"]:
        free = [x for x in range(256) if x not in e["vals"]]
        rest = f"        if r.below(3) == 0 {{ return {e['name']}::Rest([{', '.join(map(str, free[:40]))}][r.below({min(40, len(free))})]); }}\n"
    first = e["vals"][0]
    o.append(f"impl {e['name']} {{\n    pub fn pg_sample(r: &mut rt::Rng) -> Self {{\n{rest}        match r.below({n}) {{\n{arms}            _ => {e['name']}::V{first},\n        }}\n    }}")
    arms = "".join(f"            {e['name']}::V{v} => {v},\n" for v in e["vals"]) + (f"            {e['name']}::Rest(v) => *v,\n" if e["rest"] else "")
    o.append(f"    pub fn pg_byte(&self) -> u8 {{\n        match self {{\n{arms}        }}\n    }}\n}}")
    return "\n".join(o)


def directive(p, x, flags):
    args = list(flags)
    path = pathfor(p, x)
    if path is not None:
        a = {"kw": f"path = {path}", "direct": path, "str": f'path = "{path}"', "rel": f"path = {path}"}[x["link"]]
        if x["flip"]:
            args.insert(0, a)
        else:
            args.append(a)
    return "(" + ", ".join(args) + ("," if args and p["trailing"] else "") + ")" if args else ""


def n1(fields):
    return len(fields) == 1


def derive_lines(d, split):
    if not d:
        return []
    if split and len(d) > 1:
        return [f"#[derive({', '.join(d[:1])})]", f"#[derive({', '.join(d[1:])})]"]
    return [f"#[derive({', '.join(d)})]"]


def emit_block(p, b):
    o = []
    attr = "brec::block" if b["attr_full"] or not p["glob_prelude"] else "block"
    mac = f"#[{attr}{directive(p, b, ['no_crc'] if b['no_crc'] else [])}]"
    dl = derive_lines(b["derives"], b["split"])
    lines = []
    if b["repr"]:
        lines.append(f"#[repr({'C' if b['repr'] == 'Cdoc' else b['repr']})]")
    if b["repr"] == "Cdoc":
        lines.append("/// A block, documented")
    lines.append("#[allow(dead_code)]")
    o += dl + [mac] + lines if b["before"] else [mac] + lines + dl
    o.append(f"{b['vis']} struct {b['name']} {{".strip())
    for f in b["fields"]:
        if f["doc"]:
            o.append("    /// A field")
        o.append(f"    {fieldvis(f['vis'], b['mod'])} {f['name']}: {rty(f)},".replace("     ", "    "))
    o.append("}")
    if b["methods"]:
        o.append(f"impl {b['name']} {{\n    pub fn size(&self) -> usize {{ 1 }}\n    pub fn crc(&self) -> String {{ String::new() }}\n    pub fn write(&self) {{}}\n    pub fn slices(&self) -> u8 {{ 0 }}\n    pub fn ssize() -> bool {{ true }}\n    pub fn sig() -> u8 {{ 0 }}\n    pub fn read() {{}}\n}}")
    # model
    samp, body = [], []
    for f in b["fields"]:
        n, ty = f["name"], f["ty"]
        if ty.startswith("blob:"):
            samp.append(f"{n}: r.arr()")
            body.append(f"o.extend_from_slice(&self.{n});")
        elif ty.startswith("enum:"):
            samp.append(f"{n}: {ty[5:]}::pg_sample(r)")
            body.append(f"o.push(self.{n}.pg_byte());")
        elif ty == "bool":
            samp.append(f"{n}: r.bool()")
            body.append(f"o.push(if self.{n} {{ 1 }} else {{ 0 }});")
        elif ty in ("f32", "f64"):
            samp.append(f"{n}: {ty}::from_bits(r.bits() as u{ty[1:]})")
            body.append(f"o.extend_from_slice(&self.{n}.to_bits().to_le_bytes());")
        else:
            samp.append(f"{n}: r.bits() as {ty}")
            body.append(f"o.extend_from_slice(&self.{n}.to_le_bytes());")
    size = sum(fsize(f["ty"]) for f in b["fields"])
    o.append(f"impl rt::Model for {b['name']} {{\n    const KEY: &'static str = {json.dumps(key(b), ensure_ascii=False)};\n    const NO_CRC: bool = {str(b['no_crc']).lower()};\n    const BODY: usize = {size};\n"
             f"    fn sample(r: &mut rt::Rng) -> Self {{\n        {b['name']} {{ {', '.join(samp)} }}\n    }}\n"
             f"    fn body(&self) -> Vec<u8> {{\n        let mut o: Vec<u8> = Vec::new();\n        {' '.join(body)}\n        o\n    }}\n}}")
    return "\n".join(o)


def emit_payload(p, q):
    o = []
    attr = "brec::payload" if q["attr_full"] or not p["glob_prelude"] else "payload"
    manual = q["kind"] == "manual"
    flags = [] if manual else ["bincode"]
    flav = q["flav"]
    if manual:
        if flav == "no_crc":
            flags.append("no_crc")
    elif flav != "auto":
        flags.append(flav)
    if q["own_sig"] or manual and q["own_sig"]:
        flags.append("no_default_sig")
    if q["hooks"]:
        flags.append("hooks")
    serde = [] if manual else (["Serialize", "Deserialize"] if q["serde_short"] else ["serde::Serialize", "serde::Deserialize"])
    d = serde + q["derives"] if q["serde_first"] else q["derives"] + serde
    o.append(f"#[{attr}{directive(p, q, flags)}]")
    if q["repr"]:
        o.append(f"#[repr({q['repr']})]")
    o += derive_lines(d, q["split"])
    n = q["name"]
    v = q["vis"]
    fs = q["fields"]
    if q["kind"] in ("struct", "manual"):
        o.append(f"{v} struct {n} {{ {', '.join(f'pub f{i}: {t}' for i, t in enumerate(fs))} }}".strip())
        samp = f"{n} {{ {', '.join(f'f{i}: Val::sample(r)' for i, _ in enumerate(fs))} }}"
        put = " ".join(f"self.f{i}.put(&mut o);" for i, _ in enumerate(fs))
    elif q["kind"] in ("tuple", "newtype"):
        o.append(f"{v} struct {n}({', '.join('pub ' + t for t in fs)});".strip())
        samp = f"{n}({', '.join('Val::sample(r)' for _ in fs)})"
        put = " ".join(f"self.{i}.put(&mut o);" for i, _ in enumerate(fs))
    elif q["kind"] == "unit":
        o.append(f"{v} struct {n};".strip())
        samp, put = n, ""
    else:
        vs, sa, pu = [], [], []
        for i, (k, ts) in enumerate(q["variants"]):
            if k == "unit":
                vs.append(f"V{i}")
                sa.append(f"{i} => {n}::V{i}")
                pu.append(f"{n}::V{i} => {{ {i}u32.put(&mut o); }}")
            elif k == "tuple":
                vs.append(f"V{i}({', '.join(ts)})")
                sa.append(f"{i} => {n}::V{i}({', '.join('Val::sample(r)' for _ in ts)})")
                pu.append(f"{n}::V{i}({', '.join(f'x{j}' for j, _ in enumerate(ts))}) => {{ {i}u32.put(&mut o); {' '.join(f'x{j}.put(&mut o);' for j, _ in enumerate(ts))} }}")
            else:
                vs.append(f"V{i} {{ {', '.join(f'x{j}: {t}' for j, t in enumerate(ts))} }}")
                sa.append(f"{i} => {n}::V{i} {{ {', '.join(f'x{j}: Val::sample(r)' for j, _ in enumerate(ts))} }}")
                pu.append(f"{n}::V{i} {{ {', '.join(f'x{j}' for j, _ in enumerate(ts))} }} => {{ {i}u32.put(&mut o); {' '.join(f'x{j}.put(&mut o);' for j, _ in enumerate(ts))} }}")
        o.append(f"{v} enum {n} {{ {', '.join(vs)} }}".strip())
        sa[-1] = sa[-1].replace(f"{len(sa) - 1} =>", "_ =>", 1)
        samp = f"match r.below({len(sa)}) {{ {', '.join(sa)} }}"
        put = f"match self {{ {' '.join(pu)} }}"
    if manual:
        put = "o.extend(self.f0.iter().map(|b| b ^ 0x5a));"
    own_crc = manual and flav in ("no_crc", "no_auto_crc") or flav == "no_auto_crc"
    if flav == "no_crc":
        want = "vec![0; 4]"
    elif flav == "no_auto_crc":
        want = f"rt::sum(body, {q['crc_len']})"
    else:
        want = "rt::crc32(body).to_le_bytes().to_vec()"
    checked = "false" if flav == "no_crc" else "true"
    o.append(f"impl rt::PModel for {n} {{\n    const KEY: &'static str = {json.dumps(n)};\n    const CHECKED: bool = {checked};\n"
             f"    fn sample(r: &mut rt::Rng) -> Self {{\n        use rt::Val;\n        {samp}\n    }}\n"
             f"    fn body(&self) -> Vec<u8> {{\n        use rt::Val;\n        let mut o: Vec<u8> = Vec::new();\n        {put}\n        o\n    }}\n"
             f"    fn want_crc(body: &[u8]) -> Vec<u8> {{ {want} }}\n}}")
    if flav == "no_auto_crc":
        o.append(f"impl brec::PayloadCrc for {n} {{\n    fn crc(&self) -> std::io::Result<brec::ByteBlock> {{ Ok(rt::byte_block(&rt::sum(&brec::PayloadEncode::encode(self)?, {q['crc_len']}))) }}\n    fn crc_size() -> usize {{ {q['crc_len']} }}\n}}")
    elif manual:
        if flav == "no_crc":
            o.append(f"impl brec::PayloadCrc for {n} {{\n    fn crc(&self) -> std::io::Result<brec::ByteBlock> {{ Ok(brec::ByteBlock::Len4([0; 4])) }}\n    fn crc_size() -> usize {{ 4 }}\n}}")
        else:
            o.append(f"impl brec::PayloadCrc for {n} {{}}")
    if manual:
        o.append(f"impl brec::PayloadEncode for {n} {{\n    fn encode(&self) -> std::io::Result<Vec<u8>> {{ Ok(self.f0.iter().map(|b| b ^ 0x5a).collect()) }}\n}}\n"
                 f"impl brec::PayloadEncodeReferred for {n} {{\n    fn encode(&self) -> std::io::Result<Option<&[u8]>> {{ Ok(None) }}\n}}\n"
                 f"impl brec::PayloadDecode<{n}> for {n} {{\n    fn decode(buf: &[u8]) -> std::io::Result<{n}> {{ Ok({n} {{ f0: buf.iter().map(|b| b ^ 0x5a).collect() }}) }}\n}}\n"
                 f"impl brec::PayloadSize for {n} {{\n    fn size(&self) -> std::io::Result<u64> {{ Ok(self.f0.len() as u64) }}\n}}")
    if q["own_sig"]:
        h = b""
        i = 0
        while len(h) < q["sig_len"]:
            h += hashlib.sha256(b"%d/%d" % (q["sig_salt"], i)).digest()
            i += 1
        arr = ", ".join(str(x) for x in h[:q["sig_len"]])
        o.append(f"impl brec::PayloadSignature for {n} {{\n    fn sig(&self) -> brec::ByteBlock {{ brec::ByteBlock::Len{q['sig_len']}([{arr}]) }}\n}}\n"
                 f"impl brec::StaticPayloadSignature for {n} {{\n    fn ssig() -> brec::ByteBlock {{ brec::ByteBlock::Len{q['sig_len']}([{arr}]) }}\n}}")
    if q["hooks"]:
        o.append(f"impl brec::PayloadHooks for {n} {{}}")
    if q["methods"]:
        o.append(f"impl {n} {{\n    pub fn size(&self) -> usize {{ 1 }}\n    pub fn crc(&self) -> String {{ String::new() }}\n    pub fn sig(&self) {{}}\n    pub fn slices(&self) -> u8 {{ 0 }}\n    pub fn crc_size() -> bool {{ true }}\n}}")
    return "\n".join(o)


def common_derives(xs):
    """Derives a definition names for all of its blocks or payloads (the ones in front of the macro are not seen)."""
    if not xs:
        return []
    out = [d for d in DERIVES if all(d in x["derives"] and not x.get("before") for x in xs)]
    return [d for d in out if d != "Default"]


BOUND = {"Debug": "std::fmt::Debug", "Clone": "Clone", "Copy": "Copy", "PartialEq": "PartialEq", "Eq": "Eq", "PartialOrd": "PartialOrd", "Ord": "Ord", "Hash": "std::hash::Hash"}


def glob_mods(p):
    """Modules whose items may be imported by a glob without ambiguity."""
    if p["glob_prelude"] or p["alias_result"] or p["consts"]:
        return []
    cand = sorted({x["mod"] for x in p["blocks"] + p["payloads"] if x["link"] == "glob" and x["mod"] not in ("", p["site"])
                   and not under(p["site"], x["mod"])})
    cand = [m for m in cand if all(x["vis"] == "pub" for x in p["blocks"] + p["payloads"] if x["mod"] == m)]
    names = {}
    for x in p["blocks"] + p["payloads"] + p["enums"]:
        names.setdefault(x["name"], set()).add(x["mod"])
        names.setdefault(x["name"] + "Referred", set()).add(x["mod"])
    for m in p["mods"]:
        names.setdefault(m.rpartition("::")[2], set()).add(m.rpartition("::")[0])
    reserved = ("Block", "BlockReferred", "Packet", "Payload", "Reader", "Writer", "Rules", "Rule", "RuleFnDef", "PacketBufReader", "FileStorage", "Result", "Option", "String", "Vec", "Size", "brec", "rt", "std")
    return [m for m in cand if all(len(s) == 1 and n not in reserved for n, s in names.items() if m in s)]


def emit(p):
    """The text of main.rs."""
    tree = {m: [] for m in p["mods"]}
    for e in p["enums"]:
        tree[e["mod"]].append(emit_enum(e))
    for b in p["blocks"]:
        tree[b["mod"]].append(emit_block(p, b))
    for q in p["payloads"]:
        tree[q["mod"]].append(emit_payload(p, q))

    def path(m, n):
        return "crate::" + (m + "::" if m else "") + n

    # the site of the generator
    site = p["site"]
    gen = []
    globs = glob_mods(p)
    for m in globs:
        gen.append(f"pub use crate::{m}::*;")
    shorts = any(q["serde_short"] and q["kind"] != "manual" for q in p["payloads"])
    for what in ("blocks", "payloads"):
        for x in p[what]:
            if pathfor(p, x) is None and x["mod"] != site and not (x["link"] == "glob" and x["mod"] in globs):
                vis = p["reexport"]
                if x["vis"] != "pub":
                    vis = "use"
                names = [x["name"]] + ([x["name"] + "Referred"] if what == "blocks" else [])
                for n in names:
                    gen.append(f"{vis} {path(x['mod'], n)};")
    args = []
    if p["no_default"]:
        args.append("no_default_payload")
    if p["pd"]:
        args.append('payloads_derive = "%s"' % ", ".join(p["pd"]))
    gen.append(f"brec::generate!({', '.join(args)});")

    def emit_mod(m, depth):
        o = []
        if p["glob_prelude"]:
            o.append("use brec::prelude::*;")
        if p["alias_result"]:
            o.append("pub type Result<T> = std::result::Result<T, String>;")
        if shorts and (m == site or any(q["mod"] == m and q["serde_short"] and q["kind"] != "manual" for q in p["payloads"])):
            o.append("use serde::{Serialize, Deserialize};")
        for c in p["consts"]:
            o.append(f"pub const {c}: u16 = 7;")
        # enums in use
        need = {f["ty"][5:] for b in p["blocks"] if b["mod"] == m for f in b["fields"] if f["ty"].startswith("enum:")}
        for e in p["enums"]:
            if e["name"] in need and e["mod"] != m:
                o.append(f"use {path(e['mod'], e['name'])};")
        o += tree[m]
        kids = [k for k in p["mods"] if k.rpartition("::")[0] == m and k != ""]
        # the module of the generator comes last
        kids.sort(key=lambda k: under(site, k))
        for k in kids:
            o.append(f"pub mod {k.rpartition('::')[2]} {{\n{emit_mod(k, depth + 1)}\n}}")
        if m == site:
            o += gen
            o.append("//PG_MAIN")
        return "\n".join(o)

    has_b = bool(p["blocks"])
    has_p = bool(p["payloads"]) or not p["no_default"]
    pg = "crate::" + site if site else "crate"
    main = ["pub fn pg_main() {", f"    use {pg} as pg;", "    let mut run = rt::Run::from_env();"]
    for b in p["blocks"]:
        v = fullname(p, b)
        main.append(f"    rt::block_laws!(&mut run, {path(b['mod'], b['name'])}, {path(b['mod'], b['name'])}Referred, pg, {v});")
        off = 0
        for f in b["fields"]:
            if f["ty"].startswith("enum:"):
                e = next(e for e in p["enums"] if e["name"] == f["ty"][5:])
                if not e["rest"]:
                    bad = next(x for x in (9, 99, 5, 250) if x not in e["vals"])
                    main.append(f"    rt::enum_laws!(&mut run, {path(b['mod'], b['name'])}, {path(b['mod'], b['name'])}Referred, pg, {off}, {bad});")
            off += fsize(f["ty"])
    if has_p:
        for q in p["payloads"]:
            main.append(f"    rt::payload_laws!(&mut run, {path(q['mod'], q['name'])}, pg, {fullname(p, q)});")
        if not p["no_default"]:
            main.append("    rt::payload_laws!(&mut run, Vec<u8>, pg, Bytes);")
            main.append("    rt::payload_laws!(&mut run, String, pg, String);")
    fns = []
    if has_b:
        arms, samp = [], []
        for i, b in enumerate(p["blocks"]):
            v, t = fullname(p, b), path(b["mod"], b["name"])
            arms.append(f"        pg::Block::{v}(x) => rt::frame(x, *<{t}Referred as brec::SignatureU32>::sig()),")
            samp.append(f"        {i if i + 1 < len(p['blocks']) else '_'} => pg::Block::{v}(<{t} as rt::Model>::sample(r)),")
        # exhaustive: there is no other variant
        fns.append("fn pg_canon_block(b: &pg::Block) -> Vec<u8> {\n    match b {\n" + "\n".join(arms) + "\n    }\n}")
        fns.append(f"fn pg_sample_block(r: &mut rt::Rng) -> (pg::Block, Vec<u8>) {{\n    let b = match r.below({len(samp)}) {{\n" + "\n".join(samp) + "\n    };\n    let w = pg_canon_block(&b);\n    (b, w)\n}")
        for d in common_derives(p["blocks"]):
            fns.append(f"const _: () = {{ fn has<T: {BOUND[d]}>() {{}} fn block() {{ has::<pg::Block>() }} }};")
    if has_p:
        arms, samp = [], []
        allp = [(fullname(p, q), path(q["mod"], q["name"])) for q in p["payloads"]]
        if not p["no_default"]:
            allp += [("Bytes", "Vec<u8>"), ("String", "String")]
        for i, (v, t) in enumerate(allp):
            arms.append(f"        pg::Payload::{v}(x) => rt::payload_frame::<{t}>(x),")
            samp.append(f"        {i if i + 1 < len(allp) else '_'} => pg::Payload::{v}(<{t} as rt::PModel>::sample(r)),")
        fns.append("fn pg_canon_payload(b: &pg::Payload) -> Vec<u8> {\n    match b {\n" + "\n".join(arms) + "\n    }\n}")
        fns.append(f"fn pg_sample_payload(r: &mut rt::Rng) -> (pg::Payload, Vec<u8>) {{\n    let b = match r.below({len(samp)}) {{\n" + "\n".join(samp) + "\n    };\n    let w = pg_canon_payload(&b);\n    (b, w)\n}")
        ds = common_derives(p["payloads"])
        if not p["no_default"]:
            ds = [d for d in ds if d != "Copy"]
        for d in sorted(set(ds) | set(p["pd"] or [])):
            fns.append(f"const _: () = {{ fn has<T: {BOUND[d]}>() {{}} fn payload() {{ has::<pg::Payload>() }} }};")
    if has_b and has_p:
        main.append("    rt::packet_laws!(&mut run, pg, pg_sample_block, pg_sample_payload, pg_canon_block, pg_canon_payload);")
    main.append("    run.done();\n}")
    fns = [f if f.startswith("const") else f.replace("{\n", f"{{\n    use {pg} as pg;\n", 1) for f in fns]
    fns = [f.replace("fn block() {", f"fn block() {{ use {pg} as pg;").replace("fn payload() {", f"fn payload() {{ use {pg} as pg;") for f in fns]
    sig = lambda f: f.replace("&pg::Block)", f"&{pg}::Block)").replace("&pg::Payload)", f"&{pg}::Payload)").replace("(pg::Block,", f"({pg}::Block,").replace("(pg::Payload,", f"({pg}::Payload,")
    tail = "\n".join(map(sig, fns)) + "\n" + "\n".join(main)
    return "#![allow(warnings)]\n" + emit_mod("", 0).replace("//PG_MAIN", tail) + f"\nfn main() {{\n    rt::on_big_stack({pg}::pg_main)\n}}\n"


def nontrivial(p):
    """At least two blocks or payloads of the user's own, or a module, or a directive."""
    x = p["blocks"] + p["payloads"]
    return len(x) >= 2 or any(pathfor(p, y) for y in x) or any(y["mod"] for y in x)


def labels(p):
    out = set()
    for b in p["blocks"]:
        out.add("block path " + (b["link"] if pathfor(p, b) else "import"))
        if b["no_crc"]:
            out.add("block no_crc")
        if not b["fields"]:
            out.add("block without fields")
        if b.get("flavour"):
            out.add("relative of a block")
        if b["methods"]:
            out.add("block with methods of its own")
        out.add("block visibility " + (b["vis"] or "private"))
        for f in b["fields"]:
            out.add("field " + f["ty"].split(":")[0])
    for q in p["payloads"]:
        out.add("payload " + q["kind"])
        out.add("payload " + q["flav"])
        out.add("payload path " + (q["link"] if pathfor(p, q) else "import"))
        if q["own_sig"]:
            out.add("payload no_default_sig")
        if q["hooks"]:
            out.add("payload hooks")
    if p["no_default"]:
        out.add("no_default_payload")
    if p["pd"]:
        out.add("payloads_derive")
    if p["site"]:
        out.add("generator in a module")
    if not p["blocks"]:
        out.add("no blocks")
    if not p["payloads"]:
        out.add("no payloads")
    out.add("edition " + p["edition"])
    return out
