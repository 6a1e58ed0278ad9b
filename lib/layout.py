"""B03, C04, C05: struct layout, range and optional fields on random schemas, judged by LayoutTrace.tla."""
import json, os
import vf, model, gen, cppdrv, fdlib, archive
from fdlib import *

DESIGN = """SPECIFICATION LayoutSpec
CONSTANTS DeclTypes = {%s}
DeclWidths = {%s}
MaxFields = %d
DeclEnums <- DE
INVARIANTS Consecutive Tight Disjoint Independent PaddingZero
CHECK_DEADLOCK FALSE
"""


def design(c):
    """Layout as a state machine: what consecutive declaration implies for every field."""
    plan = c.pick([('"u8","i16","bool","En"', "0,1,3", 2)],
                  [('"u8","i16","bool","En"', "0,1,3", 3), ('"u32","i8","Ef"', "0,5,8", 3), ('"u64","i64","bool"', "0,1,33,63", 2)])
    for i, p in enumerate(plan):
        c.add_tlc(vf.tlc("LayoutMC", DESIGN % p, workers=2), "Layout/%d" % i)


def sname(rng):
    return "".join(rng.choice("abcdefgh") for _ in range(3))


class World:
    """One random schema with its generated C++ bench and Python module."""

    def __init__(self, c, i, ns, n, nranges, py=True, **kw):
        self.c = c
        rng = c.rng
        self.m = m = gen.rand_structs(rng, n, ns=ns, nranges=nranges, **kw)
        m["archives"] = [{"name": "Arch", "res": [{"name": "v_" + s["name"].lower(), "kind": "vec", "types": [s["name"]]} for s in m["structs"]]}]
        self.name = "bench%d" % i
        self.text = model.text(m)
        self.exe = None
        self.extra = {"model.json": json.dumps(dict(model.tla(m), decl=gen.decl(m)))}

    def build(self):
        try:
            self.exe = cppdrv.bench(self.name, self.m)
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            self.c.violation("a valid schema does not produce working code", {"schema": self.text, "error": str(e)[-1500:]}, key="generate")

    def run(self, jobs):
        """jobs: [(lines, f)] with f(answers) -> records"""
        out = []
        for (lines, f), a in zip(jobs, cppdrv.run_jobs(self.exe, [j[0] for j in jobs], ways=4)):
            bad = [x for x in a if "crash" in x or "err" in x]
            if bad:
                self.c.violation("crash" if "crash" in bad[0] else "error", {"lines": lines[:20], "answer": bad[0], "schema": self.text}, key="crash")
            else:
                out += f(a)
        return out


def jvs(vals):
    return [jv(x) for x in vals]


def hexl(h):
    return list(bytes.fromhex(h))


def rand_bytes(rng, n):
    k = rng.randrange(5)
    return bytes([0] * n if k == 0 else [255] * n if k == 1 else [rng.randrange(256) for _ in range(n)])


def nbytes(m, s):
    return (model.struct_bits(m, s) + 7) // 8


# ------------------------------------------------------------ records of the C++ side
def jobs_size(w):
    def f(s):
        def g(a):
            x = a[0]
            lim = [[] if y is None else [le8(y[0]), le8(y[1]), y[2]] for y in x["limits"]]
            return [{"op": "size", "s": s, "size": x["size"], "sizem": x["sizem"], "name": x["name"], "limits": lim}]
        return g
    return [(["B %s size" % s["name"]], f(s["name"])) for s in w.m["structs"]]


def jobs_enc(w, rng, per):
    def one(s):
        vals = [rand_vals(rng, w.m, s) for _ in range(per)]

        def g(a):
            return [{"op": "enc", "lang": "cpp", "s": s, "vals": jvs(v), "b": hexl(x["hex"]), "got": jvs(x["get"]), "gotm": jvs(x["getm"])} for v, x in zip(vals, a)]
        return ["B %s enc %s" % (s, vals_tok(v)) for v in vals], g
    return [one(s["name"]) for s in w.m["structs"]]


def jobs_dec(w, rng, per):
    def one(s):
        bs = [opt_bytes(rng, w.m, s) if i % 2 else rand_bytes(rng, nbytes(w.m, s)) for i in range(per)]

        def g(a):
            return [{"op": "dec", "lang": "cpp", "s": s["name"], "b": list(b), "got": jvs(x["get"]), "gotm": jvs(x["getm"])} for b, x in zip(bs, a)]
        return ["B %s dec %s" % (s["name"], b.hex()) for b in bs], g
    return [one(s) for s in w.m["structs"]]


def opt_bytes(rng, m, s):
    """Random memory in which the optional fields hold their constant, or miss it by one bit."""
    n = int.from_bytes(rand_bytes(rng, nbytes(m, s)), "little")
    at = 0
    consts = by_name(m["consts"])
    for f in s["fields"]:
        w = model.field_info(m, f)[0]
        if f.get("opt"):
            v = int(consts[f["opt"]]["value"]) & ((1 << w) - 1)
            k = rng.random()
            if k < .35:
                v ^= 1 << rng.randrange(w)
            elif k < .45:
                v ^= 1 << (w - 1)
            n = n & ~(((1 << w) - 1) << at) | v << at
        at += w
    return n.to_bytes(nbytes(m, s), "little")


def jobs_setf(w, rng, per, only=None):
    consts = by_name(w.m["consts"])

    def one(s):
        todo = []
        for k, f in enumerate(s["fields"]):
            if only and not only(f):
                continue
            wd, sg = model.field_info(w.m, f)
            for i in range(per):
                b = rand_bytes(rng, nbytes(w.m, s))
                v, t = None, "none"
                if not (f.get("opt") and i % 3 == 0):
                    v = rand_value(rng, wd, sg)
                    if f.get("opt") and rng.random() < .2:
                        v = int(consts[f["opt"]]["value"]) & model.M64
                    t = ("b%d" if f.get("opt") and rng.random() < .4 else "%d") % v
                todo.append((b, k, v, t))

        def g(a):
            return [{"op": "setf", "s": s["name"], "k": k + 1, "val": jv(v), "tok": t, "b": list(b), "after": hexl(x["hex"]),
                     "got": jvs(x["get"]), "gotm": jvs(x["getm"]), "pad": x["pad"]} for (b, k, v, t), x in zip(todo, a)]
        return ["B %s setf %s %d %s" % (s["name"], b.hex(), k, t) for b, k, v, t in todo], g
    return [j for j in [one(s) for s in w.m["structs"]] if j[0]]


def range_view(s, b, v):
    return {"op": "range", "s": s, "bs": list(b), "n": v["n"], "nb": v["nb"], "ok": v["ok"], "el": [jvs(e) for e in v["el"]], "it": [jvs(e) for e in v["it"]], "rg": [jvs(e) for e in v["rg"]]}


def jobs_range(w, rng, per):
    """Views of range structures: of raw memory, of vectors, of closed growing vectors, of stored resources."""
    out = []
    for s in w.m["structs"]:
        if not model.has_range(s):
            continue
        n, z = s["name"], nbytes(w.m, s)
        for _ in range(per):
            k = rng.choice((0, 1, 1, 2, 3, 5))
            b = b"".join(opt_bytes(rng, w.m, s) for _ in range(k))
            out.append((["B %s wload w %s" % (n, b.hex() or "-")], lambda a, n=n, b=b: [range_view(n, b, a[0]["view"])]))
            lines = ["B %s xnew x" % n]
            rows = []
            for _ in range(k):
                v = rand_vals(rng, w.m, n)
                rows.append(v)
                lines.append("B %s xgrow x %d %s" % (n, len(v), " ".join("%d %s" % (i, "none" if y is None else y) for i, y in enumerate(v))))
            lines.append("B %s xclose x" % n)

            def g(a, n=n, rows=rows):
                x = a[-1]
                b = bytes.fromhex(x["hex"])
                r = {"op": "encall", "s": n, "rows": [jvs(v) for v in rows], "b": list(b)}
                b = b[8:-8]
                return [r, range_view(n, b, x["view"]), range_view(n, b, x["read"] or {"n": -1, "nb": -1, "ok": False, "el": [], "it": [], "rg": []})]
            out.append((lines, g))
            lines = ["B %s vload v %s" % (n, b.hex() or "-"), "B %s wfromv w v" % n]
            out.append((lines, lambda a, n=n, b=b: [range_view(n, b, a[0]["view"]), range_view(n, b, a[1]["view"])]))
    return out


# ------------------------------------------------------------ records of the Python side
def py_records(c, w, rng, per):
    """The generated Python code's idea of the layout, archives it writes and random memory it reads."""
    m = w.m
    root = vf.scratch("ly")
    names = [s["name"] for s in m["structs"]]
    cont = {"v_" + n.lower(): [rand_vals(rng, m, n, nones=False) for _ in range(per)] for n in names}
    d = os.path.join(root, "a")
    jobs = [{"op": "layout", "schema": "s", "structs": names}, {"op": "build", "schema": "s", "path": d, "arch": "Arch", "steps": py_steps(rng, m, "Arch", cont)},
            {"op": "dump", "schema": "s", "path": d, "arch": "Arch"}]
    lay, log, dump = vf.pydriver("fd_py.py", {"schemas": {"s": w.text}, "jobs": jobs})
    recs = []
    if "fail" in lay:
        c.violation("a valid schema does not produce working code", {"schema": w.text, "error": lay["fail"]}, key="generate")
        return []
    for s in names:
        recs.append({"op": "layout", "s": s, "size": lay[s]["size"], "fields": lay[s]["fields"]})
    if "fail" in log or any(not x["ok"] for x in log) or not dump.get("open"):
        c.violation("writing an accepted value failed", {"schema": w.text, "log": log, "dump": dump}, key="py_write")
        return recs
    rnd = {}
    for s in m["structs"]:
        n, z = s["name"], nbytes(m, s)
        v = "v_" + n.lower()
        p = open(os.path.join(d, v), "rb").read()[8:-8]
        if len(p) != z * per:
            c.violation("size", {"schema": w.text, "struct": n, "payload": len(p), "elements": per}, key="py_write")
            return recs
        for i in range(per):
            e = jvs(dump["res"][v][i])
            recs.append({"op": "enc", "lang": "py", "s": n, "vals": jvs(cont[v][i]), "b": list(p[i * z:(i + 1) * z]), "got": e, "gotm": e})
        rnd[n] = b"".join(rand_bytes(rng, z) for _ in range(per))
        open(os.path.join(d, v), "wb").write((z * per).to_bytes(8, "little") + rnd[n] + b"\0" * 8)
    dump = vf.pydriver("fd_py.py", {"schemas": {"s": w.text}, "jobs": jobs[2:]})[0]
    if not dump.get("open"):
        c.violation("reading stored elements failed", {"schema": w.text, "dump": dump}, key="py_read")
        return recs
    for s in m["structs"]:
        n, z = s["name"], nbytes(m, s)
        rows = dump["res"]["v_" + n.lower()]
        recs.append({"op": "count", "s": n, "n": len(rows), "want": per})
        for i, e in enumerate(rows[:per]):
            recs.append({"op": "dec", "lang": "py", "s": n, "b": list(rnd[n][i * z:(i + 1) * z]), "got": jvs(e), "gotm": jvs(e)})
    return recs


def validate(c, worlds, recs, name):
    """Each schema has its own model; all in parallel."""
    vf.parallel([lambda w=w, r=r: vf.validate(c, "LayoutTrace", r, name=name, ways=max(1, 8 // len(worlds)), extra=w.extra,
                                              key=lambda x: x["op"]) for w, r in zip(worlds, recs)])


def setup(c, n, structs, nranges, **kw):
    ws = [World(c, i, c.rng.choice(("n", "q.w", "abc.d.e")) if i else "n", structs, nranges, **kw) for i in range(n)]
    return ws


def b03(c):
    q = c.quick
    ws = setup(c, c.pick(2, 10), 16, 2, wide=True)
    vf.parallel([lambda: design(c)] + [w.build for w in ws], n=4)
    ws = [w for w in ws if w.exe]
    rng = c.rng
    recs = []
    for w in ws:
        j = jobs_size(w) + jobs_enc(w, rng, c.pick(6, 40)) + jobs_dec(w, rng, c.pick(6, 40)) + jobs_setf(w, rng, c.pick(2, 12))
        recs.append(w.run(j) + py_records(c, w, rng, c.pick(6, 40)))
        c.sample({"schema": w.text}, 2)
    validate(c, ws, recs, "elements")
    c.count("schemas", len(ws))
    c.count("structs", sum(len(w.m["structs"]) for w in ws))


def c04(c):
    ws = setup(c, c.pick(2, 10), 1, 12)
    a = vf.parallel([w.build for w in ws] + [lambda i=i: archive.world(c, "drvr%d" % i, ws[i].m) for i in range(c.pick(1, 4))], n=4)[len(ws):]
    for x in a:
        if x:
            archive.roundtrip(c, *x, ["Arch"], c.pick(8, 100), sizes=(0, 1, 2, 3), name="archives of range vectors")
    ws = [w for w in ws if w.exe]
    rng = c.rng
    recs = []
    for w in ws:
        recs.append(w.run(jobs_range(w, rng, c.pick(6, 40))) + py_records(c, w, rng, c.pick(4, 20)))
        c.sample({"schema": w.text}, 2)
    validate(c, ws, recs, "range views")


def c05(c):
    ws = setup(c, c.pick(2, 10), 14, 1, enums=False, opt_only=True)
    vf.parallel([w.build for w in ws], n=4)
    ws = [w for w in ws if w.exe]
    rng = c.rng
    recs = []
    for w in ws:
        opt = lambda f: f.get("opt")
        recs.append(w.run(jobs_enc(w, rng, c.pick(6, 40)) + jobs_dec(w, rng, c.pick(16, 100)) + jobs_setf(w, rng, c.pick(6, 40), opt)))
        c.sample({"schema": w.text}, 2)
    validate(c, ws, recs, "optional fields")


CHECKS = {"B03": b03, "C04": c04, "C05": c05}
