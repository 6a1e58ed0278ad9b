"""C03: array views, slices, iterators and equality; histories from ViewsGen.tla, judged by ViewsTrace.tla."""
import json, os
import vf, model, gen, cppdrv, fdlib, layout
from fdlib import *
from layout import World, jvs, nbytes, opt_bytes

CFG = """SPECIFICATION %s
CONSTANTS Counts = {%s}
Overlap = %s
MaxOps = %d
EmitFrom = %d
INVARIANTS Emit Inside Hidden %s
CHECK_DEADLOCK FALSE
"""
CLASS = {"icmp": "c", "iderefs": "d", "iaddeq": "m", "isubeq": "m", "iinc": "m", "idec": "m"}


def generate(c, plan):
    def one(i, p):
        counts, rng_, ops, sim = p
        return vf.tlc("ViewsGen", CFG % ("SpecRandom" if sim else "Spec", counts, "TRUE" if rng_ else "FALSE", ops, ops + 1, "" if sim else "Split Compose SubOf"), workers=1 if sim else 4,
                      simulate=sim, depth=ops + 2, seed=c.seed + i, timeout=800)
    res = vf.parallel([lambda i=i, p=p: one(i, p) for i, p in enumerate(plan)], n=4)
    out = []
    for p, r in zip(plan, res):
        c.add_tlc(r, "Views/%s/%s/%d%s" % (p[0].replace(",", "_"), p[1], p[2], "/random" if p[3] else ""))
        out += [(p[1], e["hist"]) for e in r.emitted]
    return out


def signed(u):
    return u


def view_rec(v):
    return {"n": v["n"], "nb": v["nb"], "empty": v["empty"], "ok": v["ok"], "el": [jvs(e) for e in v["el"]], "it": [jvs(e) for e in v["it"]], "post": [jvs(e) for e in v["post"]],
            "rev": [jvs(e) for e in v["rev"]], "ends": [jvs(e) for e in v["ends"]], "span": le8(v["span"]), "rg": [jvs(e) for e in v["rg"]]}


def job(rng, m, s, hist):
    """Driver lines of one history over struct s, and the function that makes records of the answers."""
    n, z = s["name"], nbytes(m, s)
    lines = ["B %s reset" % n]
    ops = []
    for o in hist:
        o = dict(o)
        k = o["op"]
        if k == "wload":
            b = b"".join(opt_bytes(rng, m, s) for _ in range(o["count"])) + bytes(rng.randrange(256) for _ in range(rng.randrange(z)))
            o["b"] = list(b)
            lines.append("B %s wload %s %s" % (n, o["id"], b.hex() or "-"))
        else:
            lines.append(" ".join(["B", n, k, o["id"]] + [str(o[x]) for x in ("src", "a", "b") if x in o]))
        ops.append(o)

    def recs(answers):
        out = [{"op": ["init", "init"], "s": n}]
        for o, a in zip(ops, answers[1:]):
            k = o["op"]
            o["op"] = [CLASS.get(k, k[0]), k]
            if k[0] == "w":
                o["got"] = view_rec(a["view"])
            elif k == "icmp":
                o["diff"], o["cmp"] = le8(a["diff"]), a["cmp"]
            elif k == "iderefs":
                o["el"] = [jvs(e) for e in a["el"]]
            elif k in CLASS:
                o["self"] = a["self"]
            out.append(o)
        return out
    return lines, recs


def pack(m, s, vals):
    n = at = 0
    for f, v in zip(s["fields"], vals):
        w = model.field_info(m, f)[0]
        n |= (v & ((1 << w) - 1)) << at
        at += w
    return n.to_bytes(nbytes(m, s), "little")


def eq_job(rng, m, s, per):
    """Pairs of elements that are equal or differ in one bit of one field (or in everything)."""
    n = s["name"]
    lines, pairs = [], []
    for i in range(per):
        a = rand_vals(rng, m, n, nones=False)
        b = list(a)
        if i % 3:
            k = rng.choice((0, len(b) - 1, rng.randrange(len(b))))
            w = model.field_info(m, s["fields"][k])[0]
            b[k] ^= 1 << rng.choice((0, w - 1, rng.randrange(w)))
        pairs.append((pack(m, s, a), pack(m, s, b)))
        lines.append("B %s eq %s %s" % (n, pairs[-1][0].hex(), pairs[-1][1].hex()))

    def recs(answers):
        return [{"op": ["init", "init"], "s": n}] + [{"op": ["eq", "eq"], "x": list(x), "y": list(y), "eq": a["eq"], "ne": a["ne"], "hash": a["hash"]} for (x, y), a in zip(pairs, answers)]
    return lines, recs


def c03(c):
    q = c.quick
    rng = c.rng
    plan = [("0,1,2", False, 2, None), ("0,1,2,3", True, 2, None), ("1", False, 3, None) if q else ("1,2", False, 3, None),
            ("0,1,3,6", False, 24, 120 if q else 2000), ("0,1,2,4,7", True, 24, 80 if q else 2000)]
    ws = layout.setup(c, c.pick(1, 6), 10, 4)
    hs = vf.parallel([lambda: generate(c, plan)] + [w.build for w in ws], n=4)[0]
    ws = [w for w in ws if w.exe]
    if not ws:
        return
    c.count("histories generated", len(hs))
    lim = c.pick(1500, 30000)
    if len(hs) > lim:
        rng.shuffle(hs)
        hs.sort(key=lambda h: len(h[1]) < 10)
        hs = hs[:lim]
    jobs = [[] for _ in ws]
    for i, (r, h) in enumerate(hs):
        k = i % len(ws)
        m = ws[k].m
        s = rng.choice([x for x in m["structs"] if model.has_range(x) == r])
        jobs[k].append(job(rng, m, s, h))
    for w, j in zip(ws, jobs):
        j += [eq_job(rng, w.m, s, c.pick(12, 100)) for s in w.m["structs"]]
    recs = [w.run(j) for w, j in zip(ws, jobs)]
    c.count("histories replayed", len(hs))
    c.sample({"history": hs[0][1]})
    c.sample({"history": hs[-1][1]})
    vf.parallel([lambda w=w, r=r: vf.validate(c, "ViewsTrace", r, name="view operations", ways=max(2, 8 // len(ws)), extra=w.extra, start=lambda x: x["op"][0] == "init",
                                              key=lambda x: x["op"][1]) for w, r in zip(ws, recs)])


CHECKS = {"C03": c03}
