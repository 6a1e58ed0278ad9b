"""C06: limits of explicit references; cases around every limit, judged by LimitsTrace.tla."""
import json, os, struct
import vf, model, gen, cppdrv, fdlib
from fdlib import *

CFG = """SPECIFICATION Spec
CONSTANTS Most = %d
Names = {%s}
INVARIANTS Meaning EmptyOpens
PROPERTIES Refused
CHECK_DEADLOCK FALSE
"""


def rand_refs(rng, m, widths):
    """Add reference fields and explicit references among the archives of a model; returns the references as data."""
    for i in range(3):
        fs = [{"name": "ref%d" % k, "type": rng.choice([t for t, b in (("u64", 64), ("u32", 32), ("i64", 64), ("i32", 32), ("i16", 16)) if w <= b]), "width": w} for k, w in enumerate(rng.sample(widths, min(len(widths), 4)))]
        fs.insert(rng.randrange(len(fs)), {"name": "other", "type": "u16", "width": rng.randint(1, 16)})
        m["structs"].append({"name": "Ref%d" % i, "fields": fs})
    e = rng.choice(m["enums"])
    m["structs"][-1]["fields"].append({"name": "eref", "enum": e["name"], "type": e["type"], "width": None})
    m["structs"][-2]["fields"].append({"name": "bref", "type": "bool", "width": 1})
    out = []
    sm = by_name(m["structs"])
    for a in m["archives"]:
        for k in range(rng.randint(1, 2)):
            a["res"].append(dict({"name": "src%d" % k, "kind": rng.choice(("vec", "vec", "multi", "inst")), "types": [rng.choice(("Ref0", "Ref1", "Ref2"))], "width": 32}, **({"opt": True} if rng.random() < .3 else {})))
        rng.shuffle(a["res"])
    for a in m["archives"]:
        for r in a["res"]:
            rs = [t for t in r.get("types", []) if t.startswith("Ref")]
            if not rs:
                continue
            seen = set()
            for _ in range(rng.randint(1, 4)):
                s = sm[rng.choice(rs)]
                f = rng.choice([x for x in s["fields"] if x["name"] != "other"])
                ta = a if rng.random() < .8 else rng.choice(m["archives"])
                t = rng.choice(ta["res"])
                if (f["name"], ta["name"], t["name"]) in seen:
                    continue
                seen.add((f["name"], ta["name"], t["name"]))
                path = t["name"] if ta is a and rng.random() < .6 else (".%s.%s.%s" % (m["ns"], ta["name"], t["name"]) if rng.random() < .5 else "%s.%s" % (ta["name"], t["name"]))
                r.setdefault("refs", []).append(("%s.%s" % (s["name"], f["name"]), path))
                out.append({"s": s["name"], "f": s["fields"].index(f) + 1, "arch": ta["name"], "res": t["name"]})
    return out


class World:
    def __init__(self, c, i, widths, nest=2):
        rng = c.rng
        self.c, self.i = c, i
        self.m = m = gen.rand_structs(rng, 3, ns=rng.choice(("n", "a.b")), nranges=1, maxbits=60)
        gen.rand_archives(rng, m, subs=nest, maxres=4)
        self.refs = rand_refs(rng, m, widths)
        self.text = model.text(m)
        self.json = dict(model.tla(m), refs=self.refs)
        self.exe = self.sch = None

    def build(self):
        try:
            self.exe, self.sch = vf.parallel([lambda: cppdrv.program("limits%d" % self.i, self.m), lambda: Schemas(self.m)])
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            self.c.violation("a valid schema does not produce working code", {"schema": self.text, "error": str(e)[-1500:]}, key="generate")

    def widths_of(self, a, n):
        sm = by_name(self.m["structs"])
        return [w for w in (model.field_info(self.m, sm[x["s"]]["fields"][x["f"] - 1])[0] for x in self.refs if x["arch"] == a and x["res"] == n) if w < 64]


def size_near(rng, ws, cap):
    """A size around one of the limits, or a small one."""
    if ws and rng.random() < .85:
        w = rng.choice(ws) if rng.random() < .3 else min(ws)
        if w <= cap:
            return max(0, (1 << w) + rng.choice((-1, 0, 0, 1, 1, 2, 7)))
    return rng.choice((0, 1, 2, 3, 9))


def content(rng, w, arch, cap, keep=None):
    """Sizes for an archive; at most one or two resources near a limit, the others small."""
    out = {}
    rs = by_name(w.m["archives"])[arch]["res"]
    hot = set(x["name"] for x in rng.sample(rs, min(len(rs), rng.choice((1, 1, 2, 9)))))
    for r in rs:
        if r.get("opt") and rng.random() < .25 and r["name"] not in hot:
            continue
        if r["kind"] == "arch":
            out[r["name"]] = content(rng, w, r["arch"], cap)
        elif r["kind"] == "inst":
            out[r["name"]] = 1
        else:
            ws = w.widths_of(arch, r["name"])
            n = size_near(rng, ws, cap) if r["name"] in hot else rng.choice((0, 1, 2))
            if ws and r["name"] not in hot:
                n = min(n, 1 << min(ws))
            out[r["name"]] = n
    return out


def sparse(path, payload):
    """A stored resource of `payload` zero bytes, without occupying them."""
    with open(path, "wb") as f:
        f.write(struct.pack("<Q", payload))
        f.truncate(payload + 16)


def write(w, arch, cont, root, rust=False):
    os.makedirs(root, exist_ok=True)
    m, sch = w.m, w.sch
    sm = by_name(m["structs"])
    sparse(os.path.join(root, arch + ".archive"), 0)
    open(os.path.join(root, arch + ".archive.schema"), "w").write(sch.text["S:%s." % arch])
    rs = res_of(m, arch)
    for n, v in cont.items():
        r = rs[n]
        p = os.path.join(root, n)
        if r["kind"] == "arch":
            write(w, r["arch"], v, p, rust)
            continue
        open(p + ".schema", "w").write(sch.text["S:%s.%s" % (arch, n)])
        if r["kind"] == "multi":
            open(p + "_index.schema", "w").write(sch.text["I:%s.%s" % (arch, n)])
            sparse(p + "_index", (v + 1) * ((r["width"] + 7) // 8))
            sparse(p, 0)
        elif r["kind"] == "raw":
            sparse(p, v)
        else:
            s = sm[r["types"][0]]
            size = (model.struct_bits(m, s) + 7) // 8
            sparse(p, size * (1 if r["kind"] == "inst" else v + 1 if model.has_range(s) and (v or rust) else v))


def pair(n):
    return [n >> 16, n & 0xffff]


def tla_content(w, arch, cont):
    rs = res_of(w.m, arch)
    return {n: ({"sub": tla_content(w, rs[n]["arch"], v)} if rs[n]["kind"] == "arch" else {"n": pair(v)}) for n, v in cont.items()}


def tla_shown(w, arch, res):
    rs = res_of(w.m, arch)
    out = {}
    for n, v in res.items():
        if v is None or isinstance(v, dict) and not v["open"]:
            continue
        out[n] = {"sub": tla_shown(w, rs[n]["arch"], v["res"])} if rs[n]["kind"] == "arch" else {"n": pair(v)}
    return out


def mc(c, w):
    names = [a["name"] for a in w.m["archives"] if 1 <= len([r for r in a["res"] if r["kind"] in ("vec", "multi", "raw")]) <= c.pick(4, 5)]
    if names:
        r = vf.tlc("LimitsMC", CFG % (5, ", ".join('"%s"' % n for n in names)), workers=2, extra_files={"model.json": json.dumps(w.json)}, timeout=600)
        c.add_tlc(r, "Limits/%d" % w.i)


def plan(c):
    """widths of referring fields and the largest size (as a power of two) to try"""
    return [([1, 2, 3, 4, 7, 8], 16), ([9, 12, 15, 16, 17, 31, 32, 33, 36], 36)] if c.quick else \
        [([1, 2, 3, 4, 5, 6, 7, 8], 16)] * 4 + [([8, 9, 10, 12, 15, 16, 17, 20], 20)] * 3 + [([31, 32, 33, 34, 40, 63, 64, 16, 24], 40)] * 4


def c06(c):
    rng = c.rng
    plans = plan(c)
    ws = [World(c, i, p[0]) for i, p in enumerate(plans)]
    root = vf.scratch("c06")
    vf.parallel([f for w in ws for f in (w.build, lambda w=w: mc(c, w))], n=6)
    for w, p in zip(ws, plans):
        if not w.exe:
            continue
        cases = []
        for i in range(c.pick(150, 1200)):
            arch = rng.choice(w.m["archives"][::-1])["name"]
            cases.append((arch, content(rng, w, arch, p[1]), os.path.join(root, "%d-%d" % (w.i, i))))
        for arch, cont, d in cases:
            write(w, arch, cont, d)
        recs = []
        for (arch, cont, d), a in zip(cases, cppdrv.run_jobs(w.exe, [["store s file " + d, "probe s " + arch] for arch, cont, d in cases], ways=6)):
            bad = [x for x in a if "crash" in x or "err" in x]
            if bad:
                c.violation("crash" if "crash" in bad[0] else "error", {"arch": arch, "content": cont, "answer": bad[0], "schema": w.text}, key="crash")
                continue
            x = a[1]["probe"]
            recs.append({"lang": "cpp", "arch": arch, "content": tla_content(w, arch, cont), "open": x["open"], "cast": x["cast"], "res": tla_shown(w, arch, x.get("res", {}))})
        c.count("archives opened", len(recs))
        c.count("archives that open", sum(r["open"] for r in recs))
        c.sample({"arch": cases[0][0], "sizes": cases[0][1], "references": w.refs[:6]})
        vf.validate(c, "LimitsTrace", recs, name="archives with references", ways=4, extra={"model.json": json.dumps(w.json)}, key=lambda r: r["arch"])


CHECKS = {"C06": c06}
