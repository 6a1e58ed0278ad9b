"""C01: vectors, structs and growing vectors; histories from ContainersGen.tla, judged by ContainersTrace.tla."""
import json, os
import vf, model, gen, cppdrv, fdlib, layout, views
from fdlib import *
from layout import jvs, nbytes

CFG = """SPECIFICATION %s
CONSTANTS MaxOps = %d
EmitFrom = %d
MaxLen = %d
Ids = %d
Names = {%s}
Kinds = {%s}
INVARIANTS Emit Sized Padding
PROPERTIES Frame1 OneElement
CHECK_DEADLOCK FALSE
"""


CPP_OPS = ("vnew", "vcopy", "vassign", "vmove", "vgrow", "vset", "vback", "vfront", "vresize", "vreserve", "vpop", "vcpel", "vfroms",
           "snew", "sset", "scopy", "sfromv", "seq", "xnew", "xgrow", "xclose")
RS_OPS = ("vnew", "vdefault", "vclear", "vreserve", "vgrow", "vset")


def rand_sets(rng, m, s, n):
    """Assignments: all fields, some, one, none."""
    out = []
    for i in range(n):
        vals = rand_vals(rng, m, s["name"])
        ks = list(range(len(vals)))
        if i % 3 == 1:
            ks = rng.sample(ks, rng.randint(0, len(ks)))
        elif i % 3 == 2:
            ks = ks[-1:] if i % 2 else ks[:1]
        out.append([[k + 1, jv(vals[k])] for k in ks])
    return out


def sets_tok(sets):
    return "%d %s" % (len(sets), " ".join("%d %s" % (k - 1, "none" if v == [] else val8(v)) for k, v in sets))


def generate(c, m, plan, kinds=CPP_OPS):
    sets = {s["name"]: rand_sets(c.rng, m, s, 6) for s in m["structs"]}
    mj = json.dumps(dict(model.tla(m), sets=sets))
    tiny = json.dumps(dict(model.tla(m), sets={k: v[:1] + v[2:3] for k, v in sets.items()}))

    def one(i, p):
        names, ops, mlen, ids, sim = p
        return vf.tlc("ContainersGen", CFG % ("SpecRandom" if sim else "Spec", ops, ops, mlen, ids, ", ".join('"%s"' % n for n in names), ", ".join('"%s"' % k for k in kinds)), workers=1 if sim else 4,
                      simulate=sim, depth=ops + 1, seed=c.seed + i, timeout=800, extra_files={"model.json": mj if sim else tiny})
    res = vf.parallel([lambda i=i, p=p: one(i, p) for i, p in enumerate(plan)], n=6)
    out = []
    for p, r in zip(plan, res):
        c.add_tlc(r, "Containers/%s/%d%s" % (p[0][0] if len(p[0]) == 1 else "%d structs" % len(p[0]), p[1], "/random" if p[4] else ""))
        out += r.emitted
    return out


def job(m, e):
    n = e["s"]
    lines = ["B %s reset" % n]
    for o in e["hist"]:
        k = o["op"]
        a = [o["id"]]
        if k in ("vcopy", "vassign", "vmove", "scopy", "seq"):
            a += [o["src"]]
        elif k in ("vnew", "vresize", "vreserve"):
            a += [str(o["n"]) if k != "vnew" or o["n"] else "-"]
        elif k == "vset":
            a += [str(o["i"]), sets_tok(o["sets"])]
        elif k in ("vgrow", "vback", "vfront", "sset", "xgrow"):
            a += [sets_tok(o["sets"])]
        elif k == "vcpel":
            a += [str(o["i"]), o["src"], str(o["j"])]
        elif k == "vfroms":
            a += [str(o["i"]), o["src"]]
        elif k == "sfromv":
            a += [o["src"], str(o["i"])]
        lines.append(" ".join(["B", n, k] + a))

    def vec(a):
        return {"n": a["n"], "nb": a["nb"], "b": layout.hexl(a["hex"]), "el": [jvs(x) for x in a["el"]], "elm": [jvs(x) for x in a["elm"]], "ends": [jvs(x) for x in a["ends"]], "view": views.view_rec(a["view"])}

    def recs(answers):
        out = [{"op": "init", "s": n}]
        for o, a in zip(e["hist"], answers[1:]):
            o = dict(o)
            o["kind"] = k = o["op"][0]
            if o["op"] == "seq":
                o.update(eq=a["eq"], ne=a["ne"], hash=a["hash"])
            elif k == "v":
                o["got"] = vec(a)
            elif k == "s":
                o["got"] = {"b": layout.hexl(a["hex"]), "get": jvs(a["get"]), "getm": jvs(a["getm"])}
            elif o["op"] == "xclose":
                o.update(b=layout.hexl(a["hex"]), view=views.view_rec(a["view"]), read=[views.view_rec(a["read"])] if a["read"] else [])
            else:
                o.update(n=a["n"], empty=a["empty"])
            out.append(o)
        return out
    return lines, recs


PERIOD = 192


def big_struct(rng, name, size):
    """A structure of exactly `size` bytes whose pattern repeats every 192 elements (no field wider than 6 bits)."""
    fs, left = [], size * 8
    while left:
        w = min(left, rng.randint(1, 6))
        t = rng.choice([x for x in gen.TYPES if x != "bool" or w == 1])
        fs.append({"name": "f%d" % len(fs), "type": t, "width": w})
        left -= w
    return {"name": name, "fields": fs}


def big_job(s, count):
    n = s["name"]
    lines = ["B %s reset" % n, "B %s xnew x" % n, "B %s xpat x %d" % (n, count), "B %s xbig x %d" % (n, PERIOD), "B %s reset" % n]

    def recs(answers):
        a = answers[3]
        return [{"op": "init", "s": n}, {"op": "big", "kind": "b", "count": count, "period": PERIOD, "ok": a["ok"], "size": a["n"], "empty": a["empty"], "vn": a["vn"], "vnb": a["vnb"], "bytes": a["bytes"],
                                         "head": layout.hexl(a["head"]), "tail": layout.hexl(a["tail"]), "first": layout.hexl(a["first"]), "repeats": a["repeats"], "same": a["same"]}]
    return lines, recs


LIMIT = 32 * 1024 * 1024


def c01(c):
    q = c.quick
    rng = c.rng
    ws = [layout.World(c, i, "n", 8, 2, maxbits=180) for i in range(c.pick(1, 5))]
    sizes = [1, 3, 8, 13] if q else [1, 2, 3, 5, 7, 8, 13, 16, 31, 50]
    for z in sizes:
        s = big_struct(rng, "Big%d" % z, z)
        ws[0].m["structs"].append(s)
    small = {"name": "Tiny", "fields": [{"name": "a", "type": "i8", "width": 5}, {"name": "b", "type": "u16", "width": 6}]}
    for w in ws:
        w.m["structs"].append(small)
        w.m["archives"] = []
        w.text = model.text(w.m)
        w.extra = {"model.json": json.dumps(dict(model.tla(w.m), decl=gen.decl(w.m)))}
    box = {}

    def hist(i):
        m = ws[i].m
        names = [s["name"] for s in m["structs"] if not s["name"].startswith("Big")]
        plan = [(names, 20, 4, 2, 200 if q else 2500)]
        if i == 0:
            plan += [(["Tiny"], 3 if q else 4, 2, 2, None), (["R0"], 3 if q else 4, 2, 2, None)]
        box[i] = generate(c, m, plan)
    vf.parallel([lambda i=i: hist(i) for i in range(len(ws))] + [w.build for w in ws], n=6)
    recs = []
    for i, w in enumerate(ws):
        if not w.exe:
            recs.append([])
            continue
        hs = box[i]
        lim = c.pick(2500, 30000)
        if len(hs) > lim:
            rng.shuffle(hs)
            hs.sort(key=lambda h: len(h["hist"]) < 10)
            hs = hs[:lim]
        jobs = [job(w.m, e) for e in hs]
        if i == 0:
            sm = by_name(w.m["structs"])
            for z in sizes:
                per = LIMIT // z + 1
                for count in ([0, per + 5, 2 * per + 1000] if z == 3 else [per, 2 * per + 3] if z == 8 else [per - 1, per + 1]) if q else [0, 1, per - 8, per - 1, per, per + 1, 2 * per, 2 * per + 1, 2 * per + 777]:
                    jobs.append(big_job(sm["Big%d" % z], count))
        recs.append(w.run(jobs))
        c.count("histories replayed", len(hs))
        c.sample({"struct": hs[0]["s"], "history": [o["op"] for o in hs[0]["hist"]]})
    vf.parallel([lambda w=w, r=r: vf.validate(c, "ContainersTrace", r, name="container operations", ways=max(2, 8 // len(ws)), extra=w.extra, start=lambda x: x["op"] == "init",
                                              key=lambda x: x["op"]) for w, r in zip(ws, recs)])


CHECKS = {"C01": c01}
