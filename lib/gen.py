"""Random schemas in the form lib/model.py describes."""
import model
from model import BASE, by_name, le8, M64

TYPES = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]


def rand_width(rng, full):
    k = rng.random()
    if k < .12:
        return 1
    if k < .3:
        return full
    if k < .4:
        return max(1, full - 1)
    if k < .5:
        return min(full, rng.choice((7, 8, 9, 15, 16, 17, 31, 32, 33, 57, 63)))
    return rng.randint(1, full)


def rand_const(rng, w, s):
    """A number a constant may have that fits w bits (one bit: a flag 0/1, or -1 when signed)."""
    if s:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        lo, hi = 0, (1 << w) - 1
    return rng.choice((lo, hi, 0, max(lo, -1), min(hi, 1), rng.randint(lo, hi), rng.randint(lo, hi)))


def rand_enum(rng, name):
    t = rng.choice(TYPES[1:])
    full, s = BASE[t]
    w = min(rng.choice((1, 2, 3, 4, 5, 7, 8)), full)
    if s and w == 1:
        w = 2
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    vals, cur, used = [], 0, set()
    for i in range(rng.randint(1, min(6, 1 << w))):
        explicit = rng.random() < .5 or not (lo <= cur <= hi) or cur in used
        if explicit:
            free = [v for v in range(lo, hi + 1) if v not in used]
            cur = rng.choice((free[0], free[-1], rng.choice(free)))
        used.add(cur)
        vals.append(("%s_V%d" % (name.upper(), i), cur if explicit else None))
        cur += 1
    return {"name": name, "type": t, "width": None if w == full and rng.random() < .5 else w, "values": vals}


def rand_struct(rng, m, name, nfields=None, enums=True, opts=True, rng_field=False, maxbits=400, prefix=None, opt_only=False):
    fs = []
    n = nfields or rng.choice((1, 1, 2, 3, 4, 5, 6, 8))
    bits = 0
    for i in range(n):
        f = {"name": "%sf%d" % (prefix or "", i)}
        k = rng.random()
        if enums and m["enums"] and k < .18:
            e = rng.choice(m["enums"])
            ew = e["width"] or BASE[e["type"]][0]
            f["enum"] = e["name"]
            f["type"] = e["type"]
            f["width"] = ew if rng.random() < .5 else None
        else:
            f["type"] = t = rng.choice(TYPES)
            full = BASE[t][0]
            w = rand_width(rng, full)
            f["width"] = None if w == full and rng.random() < .6 else w
            if opts and k > (.25 if opt_only else .7):
                c = {"name": "C_%s_%d" % (name, i), "type": t, "value": rand_const(rng, f["width"] or full, BASE[t][1])}
                m["consts"].append(c)
                f["opt"] = c["name"]
        w = model.field_info(m, f)[0]
        if bits + w > maxbits:
            break
        bits += w
        fs.append(f)
    if not fs:
        fs = [{"name": "f0", "type": "u8", "width": None}]
    if rng_field:
        cand = [f for f in fs if not f.get("enum") and not f.get("opt") and not BASE[f["type"]][1] and f["type"] != "bool"]
        if not cand:
            t = rng.choice(("u8", "u16", "u32", "u64"))
            f = {"name": "rr", "type": t, "width": rand_width(rng, BASE[t][0])}
            fs.insert(rng.randrange(len(fs) + 1), f)
            cand = [f]
        rng.choice(cand)["range"] = "span_%s" % name.lower()
    return {"name": name, "fields": fs}


def wide_structs(rng, m):
    """Every type at its default width in one struct, a struct of many words, an enumeration filling its type."""
    m["enums"].append({"name": "EW", "type": "i8", "width": None, "values": [("EW_V%d" % i, v) for i, v in enumerate((-128, -1, 0, 1, 127))]})
    ts = TYPES + ["EW", "EW"]
    rng.shuffle(ts)
    fs = [{"name": "f%d" % i, "type": "i8", "enum": t, "width": None} if t == "EW" else {"name": "f%d" % i, "type": t, "width": None} for i, t in enumerate(ts)]
    m["structs"].append({"name": "W0", "fields": fs})
    fs, k = [], 0
    for i in range(14):
        t = rng.choice(("u64", "i64"))
        fs.append({"name": "f%d" % i, "type": t, "width": rng.choice((None, 64, 63, 59, 33))})
        if rng.random() < .3:
            fs.append({"name": "g%d" % i, "type": rng.choice(("bool", "i8", "u16")), "width": 1 if rng.random() < .5 else None})
    m["structs"].append({"name": "W1", "fields": fs})


def rand_structs(rng, n, ns="n", nranges=0, wide=False, **kw):
    """A model with n structs S0.. and nranges structs R0.. holding a range field."""
    m = {"ns": ns, "consts": [], "enums": [rand_enum(rng, "E%d" % i) for i in range(3)], "structs": [], "archives": []}
    for i in range(n):
        m["structs"].append(rand_struct(rng, m, "S%d" % i, **kw))
    for i in range(nranges):
        m["structs"].append(rand_struct(rng, m, "R%d" % i, rng_field=True, **kw))
    if wide:
        wide_structs(rng, m)
    return m


def decl(m):
    """The schema's declarations, for specifications that derive the layout themselves."""
    return {"structs": {s["name"]: [{"name": f["name"], "type": f.get("enum") or f["type"], "isenum": bool(f.get("enum")), "width": f.get("width") or 0} for f in s["fields"]] for s in m["structs"]},
            "enums": {e["name"]: {"type": e["type"], "width": e.get("width") or 0} for e in m["enums"]}}


def rand_archives(rng, m, subs=2, maxres=6):
    """Archives A0 (leaf) .. and Arch over the model's structs: every resource kind, optional or not, nested."""
    plain = [s["name"] for s in m["structs"] if not model.has_range(s)]
    allst = [s["name"] for s in m["structs"]]
    m["archives"] = []
    for i in range(subs + 1):
        last = i == subs
        res = []
        kinds = ["inst", "vec", "multi", "raw"] * 3
        rng.shuffle(kinds)
        kinds = kinds[:rng.randint(2, maxres)]
        if last:
            kinds = ["inst", "vec", "multi", "raw", "vec"] + kinds[:2] + ["arch"] * (1 + (subs > 1))
        elif m["archives"] and rng.random() < .7:
            kinds.append("arch")
        for k, kind in enumerate(kinds):
            r = {"name": "%s%d%s" % (rng.choice(("r", "res_", "some_long_name_", "x")), k, rng.choice(("", "", "", "_index", "_schema", "_archive"))), "kind": kind, "opt": rng.random() < .4}
            if kind == "inst":
                r["types"] = [rng.choice(plain)]
            elif kind == "vec":
                r["types"] = [rng.choice(allst)]
            elif kind == "multi":
                r["types"] = rng.sample(plain, rng.randint(1, min(4, len(plain))))
                r["width"] = rng.choice((16, 17, 24, 31, 32, 33, 40, 63, 64))
            elif kind == "arch":
                r["arch"] = rng.choice(m["archives"])["name"]
            if not r["opt"]:
                del r["opt"]
            res.append(r)
        m["archives"].append({"name": "Arch" if last else "A%d" % i, "res": res})
    return m


def rand_world(rng, n=8, nranges=2, ns="n", **kw):
    return rand_archives(rng, rand_structs(rng, n, ns=ns, nranges=nranges, maxbits=200, **kw))
