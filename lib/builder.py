"""R05: histories of the C++ archive builder, generated by BuilderGen.tla, judged by BuilderTrace.tla."""
import json, os
import vf, model, cppdrv, fdlib
from fdlib import *
from archive import dump_cpp_rec

CFG = """SPECIFICATION %s
CONSTANTS Root = "%s"
MaxOps = %d
MaxItems = %d
EmitFrom = %d
Storage = "%s"
Inits = {%s}
INVARIANTS Emit Untouched NothingLost OpensIffComplete ReadOnlyStays CreatedOnlyWhenAbsent
CHECK_DEADLOCK FALSE
"""
INITS = ("empty", "full", "noosub", "sigonly", "sigschema", "signoschema", "sigbroken", "nosig")


def samples(rng, m, n):
    out = {}
    for a in m["archives"]:
        o = {}
        for r in a["res"]:
            k = r["kind"]
            if k == "arch":
                continue
            T = (r.get("types") or [None])[0]
            if k == "inst":
                o[r["name"]] = [[jv(x) for x in rand_vals(rng, m, T)] for _ in range(n)]
            elif k == "vec":
                o[r["name"]] = [[[jv(x) for x in rand_vals(rng, m, T)] for _ in range(i % 3)] for i in range(n)]
                o[r["name"] + "+"] = [[jv(x) for x in rand_vals(rng, m, T)] for _ in range(n)]
            elif k == "raw":
                o[r["name"]] = [[rng.randrange(256) for _ in range(rng.choice((0, 1, 9)))] for _ in range(n)]
            else:
                o[r["name"]] = []
                o[r["name"] + "+"] = [[[t, [jv(x) for x in rand_vals(rng, m, t)]] for t in [rng.choice(r["types"]) for _ in range(i % 3)]] for i in range(n)]
        out[a["name"]] = o
    return out


def tok(vals):
    return vals_tok([None if x == [] else val8(x) for x in vals])


def parse_hexdump(t):
    out, name, left = {}, None, 0
    for l in t.split("\n"):
        if left == 0 and l.endswith(" bytes):"):
            name, _, n = l.rpartition(" (")
            left = int(n.split()[0])
            out[name] = b""
        elif left and name is not None:
            b = bytes.fromhex(l[10:10 + 49].replace(" ", "")[:2 * min(16, left)])
            out[name] += b
            left -= len(b)
    return out


class History:
    """One generated history, its driver lines and the recorded outcome."""
    LANG = "cpp"

    def __init__(self, m, sch, root, e, storage, where):
        self.m, self.sch, self.root, self.storage, self.dir = m, sch, root, storage, where
        self.hist = e["hist"]
        self.init = e["init"] if isinstance(e["init"], dict) else {}
        self.prepare()

    def store(self, i):
        return "store %s %s %s" % (i, self.storage, self.dir if self.storage != "mem" else "x")

    def prepare(self):
        self.bytes0 = {p: (bytes(f["b"]) if f["k"] == "data" else sym_bytes(self.sch, f["b"])) for p, f in self.init.items()}
        L = []
        if self.storage == "tar":
            make_tar(self.dir, self.bytes0)
        elif self.storage == "file":
            write_tree(self.dir, self.bytes0)
        L.append((None, self.store("s")))
        if self.storage == "mem":
            for p, b in self.bytes0.items():
                L.append((None, "assign s %s %s" % (p, b.hex() or "-")))
        arch = {}
        gs, closes = {}, {}
        snap = self.storage != "tar"
        for i, op in enumerate(self.hist[1:], 1):
            k = op["op"]
            if k == "builder":
                arch[op["id"]] = op["arch"]
                line = "builder %s s %s" % (op["id"], op["arch"])
            elif k == "sub":
                r = res_of(self.m, arch[op["b"]])[op["name"]]
                arch[op["id"]] = r["arch"]
                line = "sub %s %s %s" % (op["id"], op["b"], op["name"])
            elif k == "set":
                r = res_of(self.m, arch[op["b"]])[op["name"]]
                v = op["val"]
                a = tok(v) if r["kind"] == "inst" else "%d %s" % (len(v), " ".join(tok(e) for e in v)) if r["kind"] == "vec" else (bytes(v).hex() or "-")
                line = "set %s %s %s" % (op["b"], op["name"], a)
            elif k == "start":
                gs[op["id"]] = res_of(self.m, arch[op["b"]])[op["name"]]
                line = "start %s %s %s" % (op["id"], op["b"], op["name"])
            elif k == "grow":
                r = gs[op["id"]]
                v = op["val"]
                a = tok(v) if r["kind"] == "vec" else "%d %s" % (len(v), " ".join("%d %s" % (r["types"].index(t), tok(x)) for t, x in v))
                line = "grow %s %s" % (op["id"], a)
            elif k == "close":
                line = "close %s" % op["id"]
                closes[i] = gs[op["id"]]["kind"]
            elif k == "read":
                if self.storage == "mem":
                    line = "dump s " + op["arch"]
                else:
                    L.append((None, self.store("r")))
                    line = "dump r " + op["arch"]
            else:
                line = "end"
            L.append((i, line))
            if k == "end" and self.storage != "mem":
                L.append((None, self.store("s")))
            if snap:
                L.append((-i, self.files_line()))
        self.closes = closes
        self.lines = [x[1] for x in L]
        self.tags = [x[0] for x in L]

    def dump(self, arch, g):
        return dump_cpp_rec(self.m, arch, g)

    def files_line(self):
        return "files s"

    def view(self, kind, g):
        v = g["close"]["view"]
        if kind == "multi":
            if v["ok"] is not True:
                return "not ok"
            return [[[t, [jv(x) for x in e]] for t, e in it] for it in v["items"]]
        return [[jv(x) for x in e] for e in v]

    def record(self, answers, py=None):
        """Trace records; a crash ends the history with a record the specification cannot accept."""
        recs = [{"op": "init", "files": files_tla(self.sch, self.root, self.bytes0), "ro": self.storage == "tar"}]
        prev = dict(self.bytes0)
        for tag, line, g in zip(self.tags, self.lines, answers):
            if "crash" in g or "panic" in g:
                recs.append({"op": "crash", "line": line, "detail": str(g)[:600]})
                return recs
            if tag is None:
                continue
            if tag > 0:
                op = dict(self.hist[tag])
                op["snap"] = False
                if op["op"] == "read":
                    op["lang"] = self.LANG
                    op["dump"] = self.dump(op["arch"], g)
                elif "close" in g:
                    op["got"] = "ok" if g["close"]["ok"] is True else "refused"
                    op["view"] = self.view(self.closes[tag], g)
                else:
                    op["got"] = "ok" if g.get("ok") is True else "refused"
                recs.append(op)
            else:
                now = {k: bytes.fromhex(v) for k, v in g["files"].items()} if "files" in g else parse_hexdump(g["hexdump"])
                recs[-1]["snap"] = True
                recs[-1]["changed"] = files_tla(self.sch, self.root, {p: b for p, b in now.items() if prev.get(p) != b})
                recs[-1]["removed"] = [p for p in prev if p not in now]
                prev = now
        if py is not None:
            recs.append({"op": "read", "snap": False, "lang": "py", "arch": self.root, "dump": dump_tla(self.m, self.root, py, "py")})
        return recs


def generate(c, m, root, storage, ops, items, inits, simulate=None, seed=0, nsamples=2, rust=False):
    mj = dict(model.tla(m), rust=rust, samples=samples(c.rng, m, nsamples), full={a: contents_tla(m, a, rand_contents(c.rng, m, a, sizes=(1, 2), p_opt=1)) for a in ("Arch", "Mini")})
    return lambda: vf.tlc("BuilderGen", CFG % ("SpecRandom" if simulate else "Spec", root, ops, items, ops + 1, storage, ", ".join('"%s"' % i for i in inits)),
                          workers=1 if simulate else 4, simulate=simulate, depth=ops + 2, seed=c.seed + seed, extra_files={"model.json": json.dumps(mj)}, heap="3g", timeout=800)


def histories(c, m, plan, **kw):
    """plan: (root, storage, ops, items, inits, simulate); returns [(root, storage, emitted)]"""
    jobs = [generate(c, m, r, s, o, i, inits, sim, seed=k, nsamples=ns, **kw) for k, (r, s, o, i, inits, sim, ns) in enumerate(plan)]
    res = vf.parallel(jobs, n=6)
    out = []
    for (r, s, o, i, inits, sim, ns), t in zip(plan, res):
        c.add_tlc(t, "%s/%s/%d%s" % (r, s, o, "/random" if sim else ""))
        out += [(r, s, e) for e in t.emitted]
    return out


def run(c, m, exe, sch, hs, limit, kind=History, rust=False):
    rng = c.rng
    if len(hs) > limit:
        rng.shuffle(hs)
        hs.sort(key=lambda h: len(h[2]["hist"]) < 10 and h[1] != "tar")      # all long ones, a sample of the short ones
        c.count("generated histories not replayed", len(hs) - limit)
        hs = hs[:limit]
    wd = vf.scratch("r05")
    H = []
    for i, (root, storage, e) in enumerate(hs):
        p = os.path.join(wd, "h%d" % i) + (".tar" if storage == "tar" else "")
        if storage == "file":
            os.makedirs(p)
        H.append(kind(m, sch, root, e, storage, p))
    answers = cppdrv.run_jobs(exe, [h.lines for h in H], ways=8)
    files = [h for h in H if h.storage != "mem"]
    pj = [{"op": "dump", "schema": "s", "path": h.dir, "arch": h.root, "tar": h.storage == "tar"} for h in files]
    pr = vf.parallel([lambda p=p: vf.pydriver("fd_py.py", {"schemas": {"s": model.text(m)}, "jobs": p}) for p in vf.chunks(pj, 6)])
    pr = iter([x for p in pr for x in p])
    recs = []
    for h, a in zip(H, answers):
        py = next(pr) if h.storage != "mem" else None
        r = h.record(a, py)
        if r[-1]["op"] == "crash":
            c.violation("crash", {"history": h.hist, "storage": h.storage, "crash": r[-1]}, key="crash")
            r = r[:-1]
        recs += r
    for h in H[:3]:
        c.sample({"storage": h.storage, "history": [{k: v for k, v in o.items() if k != "val"} for o in h.hist]})
    vf.validate(c, "BuilderTrace", recs, name="builder operations", ways=8, start=lambda r: r["op"] == "init", extra={"model.json": json.dumps(dict(model.tla(m), rust=rust))})
    c.count("histories replayed", len(H))


def r05(c):
    m = model.DRV
    box = {}
    q = c.quick
    plan = [("Mini", "file", 5 if q else 6, 1, ("empty", "noosub"), None, 1),
            ("Mini", "mem", 5 if q else 6, 1, ("empty", "nosig"), None, 1),
            ("Mini", "tar", 3 if q else 4, 1, INITS, None, 1),
            ("Mini", "file", 3 if q else 4, 1, INITS, None, 1),
            ("Arch", "file", 28, 3, INITS, 150 if q else 3000, 2),
            ("Arch", "mem", 28, 3, INITS, 100 if q else 3000, 2),
            ("Mini", "file", 16, 2, INITS, 150 if q else 3000, 2)]
    hs = vf.parallel([lambda: histories(c, m, plan), lambda: box.update(e=cppdrv.program("drv", m)), lambda: box.update(s=Schemas(m))])[0]
    run(c, m, box["e"], box["s"], hs, c.pick(3500, 40000))


CHECKS = {"R05": r05}
