"""C02: multivectors; histories from MultiGen.tla, judged by MultiTrace.tla in C++ and Python."""
import json
import vf, model, gen, cppdrv, containers
from fdlib import *
from layout import jvs, hexl

CFG = """SPECIFICATION %s
CONSTANTS MaxOps = %d
MaxItems = %d
MaxElems = %d
Names = {%s}
INVARIANTS Emit%s
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
"""
PERIOD = 192
LIMIT = 32 * 1024 * 1024
# indexes that are soon too narrow for the data
FULL = {"f0": {"types": ["Big1"], "iw": 8}, "f1": {"types": ["Big3", "Big1"], "iw": 9}, "f2": {"types": ["Big5", "Big1", "Big3"], "iw": 12}, "f3": {"types": ["Big5"], "iw": 16}}


class World:
    """A random schema, a list of multivector kinds over it, and its programs."""

    def __init__(self, c, i, n, nkinds):
        rng = c.rng
        self.c, self.i = c, i
        self.m = m = gen.rand_structs(rng, n, ns=rng.choice(("n", "a.b")), maxbits=200)
        for z in (1, 3, 5):
            m["structs"].append(containers.big_struct(rng, "Big%d" % z, z))
        names = [s["name"] for s in m["structs"] if not s["name"].startswith("Big")]
        self.kinds = {}
        for k in range(nkinds):
            self.kinds["k%d" % k] = {"types": rng.sample(names, 1 if k == 0 else rng.randint(2, min(5, len(names)))), "iw": rng.choice((8, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64))}
            if self.kinds["k%d" % k]["iw"] < 16:
                self.kinds["k%d" % k]["iw"] = 16
        self.big = {"b0": {"types": ["Big3"], "iw": 27}, "b1": {"types": ["Big1", "Big5"], "iw": 64}, "b2": {"types": ["Big5", "Big3", "Big1"], "iw": 33}} if i == 0 else {}
        self.full = dict(FULL) if i == 0 else {}
        self.all = dict(self.kinds, **self.big, **self.full)
        m["archives"] = [{"name": "Arch", "res": [{"name": k, "kind": "multi", "types": v["types"], "width": v["iw"]} for k, v in self.all.items()]}]
        self.text = model.text(m)
        self.sets = {s["name"]: containers.rand_sets(rng, m, s, 6) for s in m["structs"]}
        self.json = dict(model.tla(m), multis=self.all, long=[])
        self.exe = None
        self.hists = []

    def build(self):
        try:
            self.exe = cppdrv.bench("multi%d" % self.i, self.m, parts=1, multis=[(k, v["iw"], v["types"]) for k, v in self.all.items()])
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            self.c.violation("a valid schema does not produce working code", {"schema": self.text, "error": str(e)[-1500:]}, key="generate")

    def generate(self):
        c = self.c
        full = json.dumps(dict(self.json, sets=self.sets))
        two = json.dumps(dict(self.json, sets={k: [v[0], []] for k, v in self.sets.items()}))
        one = json.dumps(dict(self.json, sets={k: [v[0]] for k, v in self.sets.items()}))
        plan = [(list(self.kinds), 24, 8, 6, c.pick(300, 3000), full), (list(self.kinds), 60, 30, 5, c.pick(40, 400), full)]
        if self.i == 0:
            plan += [(["k1"], c.pick(5, 6), 3, 2, None, two), (["k0"], c.pick(7, 9), 5, 4, None, one)]
        res = vf.parallel([lambda j=j, p=p: vf.tlc("MultiGen", CFG % ("SpecRandom" if p[4] else "Spec", p[1], p[2], p[3], ", ".join('"%s"' % n for n in p[0]), "" if p[4] else " RoundTrip IndexShape"),
                                                   workers=1 if p[4] else 4, simulate=p[4], depth=p[1] + 1, seed=c.seed + j, timeout=800, extra_files={"model.json": p[5]}) for j, p in enumerate(plan)])
        for p, r in zip(plan, res):
            c.add_tlc(r, "Multi/%s/%d%s" % (p[0][0] if len(p[0]) == 1 else "%d kinds" % len(p[0]), p[1], "/random" if p[4] else ""))
            self.hists += r.emitted


def job(w, e):
    n = e["k"]
    lines = ["M %s reset" % n, "M %s mnew m" % n]
    for o in e["hist"]:
        lines.append("M %s %s m" % (n, o["op"]) + (" %d %s" % (o["alt"] - 1, containers.sets_tok(o["sets"])) if o["op"] == "madd" else ""))
    return lines


def view(a):
    f = lambda els: [jvs(x) for x in els]
    return {"n": a["n"], "ok": a["all"]["ok"], "items": [[[t, jvs(v)] for t, v in it] for it in a["all"]["items"]], "iter": {t: [f(it) for it in v] for t, v in a["all"]["iter"].items()},
            "only": [f(it) for it in a["all"]["only"]], "some": {t: [[f(x) for x in it] for it in v] for t, v in a["some"].items()}}


def records(w, e, a, py):
    pre = len(w.m["ns"].replace(".", "_")) + 1
    out = [{"op": "init", "k": e["k"]}]
    for o, x in zip(e["hist"], a[2:]):
        o = dict(o)
        if o["op"] == "madd":
            o.update(fresh=jvs(x["fresh"]), get=jvs(x["get"]))
        elif o["op"] == "mclose":
            o.update(data=hexl(x["data"]), index=hexl(x["index"]), view=view(x["view"]), read=[view(x["read"])] if x["read"] else [],
                     py={k: (v if k == "n" else [[[t[pre:], jvs(el)] for t, el in it] for it in v]) for k, v in py.items()})
        out.append(o)
    return out


def big_jobs(w, quick):
    jobs = []
    sz = {s["name"]: (model.struct_bits(w.m, s) + 7) // 8 for s in w.m["structs"]}
    for n, k in w.big.items():
        per = PERIOD // 4 * (sum(sz[k["types"][(i + j) % len(k["types"])]] + 1 for i in range(12) for j in range(i % 4)) / 3.0) / PERIOD / 1.0
        # items until the data (or the index) is written out
        item = LIMIT / per
        idx = LIMIT / ((k["iw"] + 7) // 8)
        counts = [int(2 * item) + 7, int(max(item, idx)) + 2000] if quick else [0, 1, PERIOD, int(item) - 2, int(item) + 2, int(2 * item) + 5, int(idx) + 9, int(2 * idx) + 1000]
        for cnt in counts[:1] if quick and n == "b2" else counts:
            jobs.append((n, cnt, ["M %s reset" % n, "M %s mnew m" % n, "M %s mpat m %d" % (n, cnt), "M %s mbig m %d" % (n, PERIOD), "M %s reset" % n]))
    return jobs


def full_counts(w, n, quick):
    """numbers of items around the point where the data outgrows the index"""
    k = w.full[n]
    sz = {s["name"]: (model.struct_bits(w.m, s) + 7) // 8 for s in w.m["structs"]}
    total, fit = 0, 0
    while total < 1 << k["iw"]:
        total += sum(sz[k["types"][(fit + j) % len(k["types"])]] + 1 for j in range(fit % 4))
        fit += 1
    out = {fit - 1, fit, fit + 1, 2 * fit}     # with fit items there is too much
    return sorted(out if quick else out | {0, 1, fit - 2, fit - 3, fit - 4, fit - 5, fit + 2, fit + 3, 2 * fit - 1, 2 * fit + 1, 3 * fit, 4 * fit})


def c02(c):
    rng = c.rng
    ws = [World(c, i, 6, 4) for i in range(c.pick(1, 5))]
    vf.parallel([f for w in ws for f in (w.build, w.generate)], n=4)
    parts = []
    for w in ws:
        if not w.exe:
            continue
        lim = c.pick(2500, 25000)
        if len(w.hists) > lim:
            rng.shuffle(w.hists)
            w.hists.sort(key=lambda h: len(h["hist"]) < 12)
            w.hists = w.hists[:lim]
        res = cppdrv.run_jobs(w.exe, [job(w, e) for e in w.hists], ways=6)
        good = []
        for e, a in zip(w.hists, res):
            bad = [x for x in a if "crash" in x or "err" in x]
            if bad:
                c.violation("crash" if "crash" in bad[0] else "error", {"history": e, "answer": bad[0], "schema": w.text}, key="crash")
            else:
                good.append((e, a))
        by = {}
        for e, a in good:
            by.setdefault(e["k"], []).append((e, a))
        py = vf.pydriver("fd_py.py", {"schemas": {"s": w.text}, "jobs": [{"op": "multi", "schema": "s", "arch": "Arch", "res": k, "stored": [[a[-1]["index"], a[-1]["data"]] for e, a in v]} for k, v in by.items()]})
        recs = []
        for (k, v), p in zip(by.items(), py):
            if isinstance(p, dict):
                c.violation("Python cannot read a stored multivector", {"kind": w.kinds[k], "answer": p, "schema": w.text}, key="python")
                continue
            for (e, a), x in zip(v, p):
                recs += records(w, e, a, x)
        bj = big_jobs(w, c.quick)
        big = []
        for (n, cnt, lines), a in zip(bj, cppdrv.run_jobs(w.exe, [b[2] for b in bj], ways=4)):
            bad = [x for x in a if "crash" in x or "err" in x]
            if bad:
                c.violation("crash" if "crash" in bad[0] else "error", {"lines": lines, "answer": bad[0], "schema": w.text}, key="crash")
                continue
            x = a[3]
            big += [{"op": "init", "k": n}, {"op": "big", "count": cnt, "open": x["open"], "n": x["n"], "bytes": x["bytes"], "head": hexl(x["head"]), "tail": hexl(x["tail"]), "ibytes": x["ibytes"],
                                              "ihead": hexl(x["ihead"]), "itail": hexl(x["itail"]), "first": hexl(x["first"]), "offsets": x["offsets"], "last": x["last"], "repeats": x["repeats"], "visited": x["visited"]}]
        fj = [(n, cnt) for n in w.full for cnt in full_counts(w, n, c.quick)]
        full = []
        for (n, cnt), a in zip(fj, cppdrv.run_jobs(w.exe, [["M %s reset" % n, "M %s mnew m" % n, "M %s mpat m %d" % (n, cnt), "M %s mfull m" % n, "M %s reset" % n] for n, cnt in fj], ways=4)):
            bad = [x for x in a if "crash" in x or "err" in x]
            if bad:
                c.violation("crash" if "crash" in bad[0] else "error", {"kind": w.full[n], "items": cnt, "answer": bad[0], "schema": w.text}, key="crash")
            else:
                full += [{"op": "init", "k": n}, {"op": "full", "count": cnt, "open": a[3]["open"], "n": a[3]["n"], "read": a[3]["read"], "visited": a[3]["visited"]}]
        if full:
            parts.append((w, full, "multivectors that outgrow their index", dict(w.json, long=list(w.full))))
            c.count("multivectors around their index's limit", len(fj))
        parts.append((w, recs, "multivector histories", w.json))
        if big:
            parts.append((w, big, "multivectors beyond the write buffer", dict(w.json, long=list(w.big))))
        c.count("histories replayed", len(good))
        c.count("multivectors beyond the write buffer", len(bj))
        c.sample({"kind": w.all[good[0][0]["k"]], "history": [o["op"] for o in good[0][0]["hist"]]})
    vf.parallel([lambda r=r, n=n, j=j: vf.validate(c, "MultiTrace", r, name=n, ways=6 if len(r) > 500 else 1, extra={"model.json": json.dumps(j)},
                                                   start=lambda x: x["op"] == "init", key=lambda x: x["op"]) for w, r, n, j in parts])


CHECKS = {"C02": c02}
