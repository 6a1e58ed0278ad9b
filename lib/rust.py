"""X01..X06: the Rust library and the code generated for it, judged by Rust.tla and the modules it shares with the other languages."""
import json, os, tarfile
import vf, model, gen, cppdrv, fdlib, rsdrv, damage, builder, crash, limits, layout, containers, multi
from fdlib import *

ERR = {"notfound": "missing", "missing": "missing", "nodata": "missing", "noschema": "missing", "size": "size", "mismatch": "mismatch", "utf8": "mismatch",
       "toobig": "toobig", "exists": "exists"}


def dump_rs_rec(m, arch, a):
    """An answer of the driver as {open, res} / {open, err}."""
    if not isinstance(a, dict) or "dump" not in a:
        return {"open": False, "err": "panic" if isinstance(a, dict) and "panic" in a else "crash", "msg": str(a)[:300]}
    d = a["dump"]
    if not d["open"]:
        return {"open": False, "err": ERR.get(d.get("exc"), "other:%s" % d.get("exc")), "msg": d.get("msg", "")[:300]}
    try:
        return {"open": True, "res": contents_tla(m, arch, strip(m, arch, d["res"], "rs"))}
    except (TypeError, ValueError):
        return {"open": False, "err": "inconsistent", "msg": str(d)[:600]}


def known(rec, bad):
    return bad[0] if len(bad) == 1 and bad[0] in ("empty range vector", "short instance") else rec.get("op")


def world(c, i, m, cpp=True):
    """[model, Rust driver, C++ driver, schema texts]; None (and a violation) if there is no working code."""
    m = rsdrv.rustify(m)
    try:
        return [m] + vf.parallel([lambda: rsdrv.program(m), lambda: cppdrv.program("drvx%d" % i, m) if cpp else None, lambda: Schemas(m)])
    except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
        c.violation("a valid schema does not produce working code", {"schema": model.text(m), "error": str(e)[-1500:]}, key="generate")


def failed(ans):
    """the first answer that says a write did not work"""
    for x in ans if isinstance(ans, list) else [ans]:
        if "crash" in x or "err" in x or "fail" in x or "panic" in x or x.get("ok") is False or ("close" in x and not x["close"]["ok"]):
            return x


# ---------------------------------------------------------------- X01
def exchange(c, m, rs, cpp, sch, archs, n, sizes=(0, 1, 2, 3, 7), erv=True):
    """Archives written by each language and read by Rust, those written by Rust read by all."""
    rng = c.rng
    root = vf.scratch("x01")
    text = {"s": model.text(m)}
    ranges = {s["name"] for s in m["structs"] if model.has_range(s)}

    def fill(arch, cont):
        # a vector of ranges that other languages leave empty is a known finding: one case in many keeps it
        for r in by_name(m["archives"])[arch]["res"]:
            v = cont.get(r["name"])
            if v == [] and r["kind"] == "vec" and r["types"][0] in ranges:
                cont[r["name"]] = [rand_vals(rng, m, r["types"][0], False)]
            elif r["kind"] == "arch" and v is not None:
                fill(r["arch"], v)
    cases = []
    for i in range(n):
        arch = archs[i % len(archs)]
        sub = any(r["kind"] == "arch" for r in by_name(m["archives"])[arch]["res"])
        by = "rs" if i % 5 < 3 else "cpp" if i % 5 == 3 or sub else "py"
        cont = rand_contents(rng, m, arch, sizes=sizes if i % 6 else (0, 20), nones=by != "py")
        if by != "rs" and not (erv and i % 40 == 3):
            fill(arch, cont)
        elif by != "rs":
            for r in by_name(m["archives"])[arch]["res"]:
                if r["kind"] == "vec" and r["types"][0] in ranges:
                    cont[r["name"]] = []
        mem = by == "rs" and i % 7 == 1
        cases.append({"arch": arch, "by": by, "cont": cont, "mem": mem, "dir": os.path.join(root, "a%d" % i)})
    todo = {b: [k for k in cases if k["by"] == b] for b in ("rs", "cpp", "py")}

    def lines(k):
        ls = ["store s %s %s" % ("mem /x" if k["mem"] else "file", "" if k["mem"] else k["dir"]), "builder b s " + k["arch"]] + build_lines(rng, m, k["arch"], k["cont"], "b")
        # an open that follows directly, through the same storage
        return ls + ["dump s " + k["arch"]]
    jobs = {"rs": [lines(k) for k in todo["rs"]], "cpp": [lines(k)[:-1] for k in todo["cpp"]]}
    ra, rc, rp = vf.parallel([lambda: cppdrv.run_jobs(rs, jobs["rs"]), lambda: cppdrv.run_jobs(cpp, jobs["cpp"]),
                              lambda: vf.pydriver("fd_py.py", {"schemas": text, "jobs": [{"op": "build", "schema": "s", "path": k["dir"], "arch": k["arch"], "steps": py_steps(rng, m, k["arch"], k["cont"])} for k in todo["py"]]})])
    for b, log in (("rs", ra), ("cpp", rc), ("py", rp)):
        for k, a in zip(todo[b], log):
            k["log"] = a
            x = failed(a[:-1] if b == "rs" else a)
            if x:
                c.violation("writing an accepted value failed", {"case": {q: k[q] for q in ("arch", "by", "cont")}, "answer": x}, key="write")
    filed = [k for k in cases if not k["mem"]]
    byrs = [k for k in filed if k["by"] == "rs"]
    da, dc, dp = vf.parallel([lambda: cppdrv.run_jobs(rs, [["store s file " + k["dir"], "dump s " + k["arch"]] for k in filed]),
                              lambda: cppdrv.run_jobs(cpp, [["store s file " + k["dir"], "dump s " + k["arch"]] for k in byrs]),
                              lambda: vf.pydriver("fd_py.py", {"schemas": text, "jobs": [{"op": "dump", "schema": "s", "path": k["dir"], "arch": k["arch"]} for k in byrs]})])
    recs = []
    from archive import dump_cpp_rec
    for k, a in zip(filed, da):
        k["files"] = files_tla(sch, k["arch"], read_tree(k["dir"]))
        base = {"by": k["by"], "arch": k["arch"], "files": k["files"]}
        recs.append(dict(base, op="files", contents=contents_tla(m, k["arch"], k["cont"])))
        recs.append(dict(base, op="dump", lang="rs", got=dump_rs_rec(m, k["arch"], a[-1] if a else {})))
        if k["by"] == "rs":
            recs.append(dict(base, op="dump", lang="rs", same=True, got=dump_rs_rec(m, k["arch"], k["log"][-1])))
    for k, a, b in zip(byrs, dc, dp):
        base = {"by": "rs", "arch": k["arch"], "files": k["files"], "op": "dump"}
        recs.append(dict(base, lang="cpp", got=dump_cpp_rec(m, k["arch"], a[-1] if a else {})))
        recs.append(dict(base, lang="py", got=dump_tla(m, k["arch"], b, "py")))
    # memory: the same contents show, judged against the files the specification gives them
    for k in cases:
        if k["mem"]:
            recs.append({"op": "memory", "by": "rs", "arch": k["arch"], "contents": contents_tla(m, k["arch"], k["cont"]), "got": dump_rs_rec(m, k["arch"], k["log"][-1])})
    # the same files packed into a tar file, at its top or in a directory
    packed = []
    for i, k in enumerate(filed):
        if i % 2 == 0:
            v = {"dirs": rng.random() < .5, "dot": rng.random() < .5, "fmt": rng.choice((tarfile.GNU_FORMAT, tarfile.USTAR_FORMAT, tarfile.PAX_FORMAT)), "order": rng if rng.random() < .5 else None,
                 "sub": rng.choice(("", "", "in", "in/here", "x" * 90))}
            p = k["dir"] + ".tar"
            make_tar(p, read_tree(k["dir"]), **v)
            packed.append((k, p, v))
    # nothing can be written there
    ta = cppdrv.run_jobs(rs, [["store s tar %s %s" % (p, v["sub"]), "dump s " + k["arch"], "assign s new 00", "builder b s " + k["arch"], "dump s " + k["arch"]] for k, p, v in packed])
    for (k, p, v), a in zip(packed, ta):
        how = {n: str(x) for n, x in v.items() if n != "order"}
        a = a + [{}] * (5 - len(a))
        for x in (a[1], a[4]):
            recs.append({"by": k["by"], "arch": k["arch"], "files": k["files"], "op": "dump", "lang": "rs", "tar": how, "got": dump_rs_rec(m, k["arch"], x)})
        if a[2].get("ok") is not False or a[3].get("ok") is not False:
            c.violation("writing into a tar file is accepted", {"tar": how, "answers": a[2:4]}, key="tar")
    c.count("archives read by Rust from tar files", len(packed))
    c.sample({"arch": cases[0]["arch"], "contents": cases[0]["cont"]})
    vf.validate(c, "ArchiveTrace", recs, name="archives exchanged", keyb=known, ways=6, extra={"model.json": json.dumps(model.tla(m))})
    c.count("archives written by Rust", len(todo["rs"]))
    c.count("archives of other languages read by Rust", len(cases) - len(todo["rs"]))


def x01(c):
    ms = [model.DRV] + [gen.rand_world(c.rng, ns=c.rng.choice(("n", "a.b"))) for _ in range(c.pick(1, 6))]
    ws = vf.parallel([lambda i=i, m=m: world(c, i, m) for i, m in enumerate(ms)], n=4)
    for i, w in enumerate(ws):
        if w:
            exchange(c, *w, ["Flat", "Arch", "Arch"] if i == 0 else [a["name"] for a in w[0]["archives"]][::-1], c.pick(60, 1200) if i == 0 else c.pick(30, 500))


# ---------------------------------------------------------------- X03
def x03(c):
    m = rsdrv.rustify(model.DRV)
    contents = damage.contents_for(c, m, c.pick(2, 5))
    for a, x in contents:
        for r in by_name(m["archives"])[a]["res"]:
            if r["kind"] == "vec" and x.get(r["name"]) == [] and model.has_range(by_name(m["structs"])[r["types"][0]]):
                x[r["name"]] = [rand_vals(c.rng, m, r["types"][0], False)]
    box = {}
    cs = vf.parallel([lambda: damage.cases(c, m, contents, c.pick(200, 4000)), lambda: box.update(e=rsdrv.program(m))])[0]
    root = vf.scratch("x03")
    damage.materialise_all(c, m, contents, cs, root)
    def where(i, e):
        if i % 4 != 3 or not os.path.isdir(e["dir"]):
            return "file " + e["dir"]
        make_tar(e["dir"] + ".tar", read_tree(e["dir"]), dirs=i % 8 == 3, dot=i % 3 == 0)
        c.count("damaged archives in tar files")
        return "tar %s.tar" % e["dir"]
    res = cppdrv.run_jobs(box["e"], [["store s " + where(i, e), "dump s " + contents[e["ci"] - 1][0]] for i, e in enumerate(cs)], ways=8)
    opened = 0
    for e, g in zip(cs, res):
        r = e["rs"]
        arch = contents[e["ci"] - 1][0]
        g = dump_rs_rec(m, arch, g[-1] if g else {})
        what = {"damage": e["dmg"], "got": str(g)[:700], "expected": r["err"] or "opens"}
        opened += g["open"]
        if not g["open"] and g["err"] in ("panic", "crash", "inconsistent") or not g["open"] and g["err"].startswith("other"):
            c.violation(g["err"], what, key="short instance" if r["short"] and g["err"] == "panic" else damage.label(e))
        elif not r["judge"]:
            continue
        elif g["open"] != (not r["err"]):
            if not (not g["open"] and g["err"] == "size" and r["erv"]):
                c.violation("opens" if g["open"] else "does_not_open", what, key=damage.label(e))
        elif g["open"]:
            if damage.norm(g["res"]) != damage.norm(r["res"]):
                c.violation("content", dict(what, expected=r["res"]), key=damage.label(e))
        elif g["err"] not in r["err"] and not (g["err"] == "size" and r["erv"]):
            c.violation("wrong_error", what, key=damage.label(e))
    c.traces += len(cs)
    c.count("damaged archives", len(cs))
    c.count("of these opened", opened)
    c.count("combined damage", sum(1 for e in cs if isinstance(e["dmg"], dict) and len(e["dmg"]) > 1))
    for e in cs[5:8]:
        c.sample({"damage": e["dmg"], "errors": e["rs"]["err"]})


# ---------------------------------------------------------------- X04
class RsHistory(builder.History):
    LANG = "rs"

    def store(self, i):
        return "store %s mem /x" % i if self.storage == "mem" else "store %s file %s" % (i, self.dir)

    def dump(self, arch, g):
        return dump_rs_rec(self.m, arch, g)

    def files_line(self):
        return "files s " + " ".join(self.paths) if self.storage == "mem" else "files s"

    def prepare(self):
        def below(arch, pre):
            out = [pre + arch + ".archive"]
            for r in by_name(self.m["archives"])[arch]["res"]:
                if r["kind"] == "arch":
                    out += below(r["arch"], pre + r["name"] + "/")
                else:
                    out += [pre + r["name"]] + ([pre + r["name"] + "_index"] if r["kind"] == "multi" else [])
            return out
        # a memory storage keeps what was read once: only complete files may be looked at
        self.paths = [x for p in below(self.root, "") for x in (p, p + ".schema")]
        super().prepare()
        if self.storage == "mem":
            keep = [i for i, l in enumerate(self.lines) if not l.startswith("files ")]
            last = len(self.lines) - 1 if self.lines[-1].startswith("files ") else None
            keep += [last] if last is not None else []
            self.lines, self.tags = [self.lines[i] for i in keep], [self.tags[i] for i in keep]

    def view(self, kind, g):
        v = g["close"]["view"]
        if kind == "multi":
            if not isinstance(v.get("items"), list):
                return "inconsistent"
            return [[[t, [jv(x) for x in e]] for t, e in it] for it in v["items"]]
        return [[jv(x) for x in e] for e in v] if isinstance(v, list) else "inconsistent"


def x04(c):
    m = rsdrv.rustify(model.DRV)
    q = c.quick
    plan = [("Mini", "file", 5 if q else 6, 1, ("empty", "noosub"), None, 1),
            ("Mini", "mem", 5 if q else 6, 1, ("empty", "full"), None, 1),
            ("Mini", "file", 3 if q else 4, 1, builder.INITS, None, 1),
            ("Arch", "file", 28, 3, builder.INITS, 150 if q else 3000, 2),
            ("Arch", "mem", 28, 3, ("empty", "sigonly"), 100 if q else 3000, 2),
            ("Mini", "file", 16, 2, builder.INITS, 100 if q else 3000, 2)]
    box = {}
    hs = vf.parallel([lambda: builder.histories(c, m, plan, rust=True), lambda: box.update(e=rsdrv.program(m)), lambda: box.update(s=Schemas(m)),
                      lambda: box.update(c=cppdrv.program("drvx", m))])[0]
    builder.run(c, m, box["e"], box["s"], hs, c.pick(3000, 40000), kind=RsHistory, rust=True)
    stopped(c, m, box["e"], box["s"], box["c"])


def stopped(c, m, exe, sch, cexe):
    """Rust writers stopped at every file operation."""
    rng, so = c.rng, vf.shim()
    runs = [("two writers", (("r1", "r2"), (0, 4, 8, 16, 48, 80), 32, 40, 16, 8)), ("three writers", (("r1", "r2", "r3"), (0, 8, 48), 32, 40, 16, 8))]
    for name, a in runs[:1 if c.quick else 2]:
        c.add_tlc(vf.tlc("Crash", crash.MODEL % (", ".join('"%s"' % r for r in a[0]), ", ".join(map(str, a[1])), a[2], a[3], a[4], a[5], '"rset", "rgrow"'), workers=2, timeout=800), name)
    root = vf.scratch("x04")
    hist = []
    for i in range(c.pick(10, 150)):
        cont = crash.contents(rng, m, i)
        hist.append({"cont": cont, "lines": [("builder b s Opt", None)] + crash.cpp_lines(rng, m, "Opt", cont), "dir": os.path.join(root, "h%d" % i)})
    stops = []
    for h, rr in zip(hist, vf.parallel([lambda h=h: crash.run_until(exe, h["lines"], h["dir"], so) for h in hist])):
        for x in rr:
            x["h"] = h
        if not rr[-1]["end"] or sorted(rr[-1]["done"]) != sorted(rr[-1]["expect"]):
            c.violation("a writer that is not stopped does not finish", {"history": h["cont"], "answers": rr[-1]["done"]})
        stops += rr
    c.count("stops of Rust writers", len(stops))
    from archive import dump_cpp_rec
    there = [x for x in stops if os.path.isdir(x["dir"])]
    jobs = [["store s file " + x["dir"], "dump s Opt"] for x in there]
    box = {}
    rs, cpp, py = vf.parallel([lambda: cppdrv.run_jobs(exe, jobs), lambda: cppdrv.run_jobs(cexe, jobs), lambda: vf.pydriver("fd_py.py", {"schemas": {"s": model.text(m)}, "jobs": [
        {"op": "dump", "schema": "s", "path": x["dir"], "arch": "Opt"} for x in there]})])
    recs = []
    for x, a, b, d in zip(there, rs, cpp, py):
        recs.append({"op": "tree", "by": "rs", "stop": x["k"], "arch": "Opt", "contents": contents_tla(m, "Opt", x["h"]["cont"]), "done": x["done"],
                     "files": files_tla(sch, "Opt", read_tree(x["dir"])), "rs": dump_rs_rec(m, "Opt", a[-1] if a else {}),
                     "cpp": dump_cpp_rec(m, "Opt", b[-1]), "py": dump_tla(m, "Opt", d, "py")})
    vf.validate(c, "CrashTrace", recs, name="stopped Rust writers", ways=8, extra={"model.json": json.dumps(model.tla(m))}, timeout=800)


# ---------------------------------------------------------------- X06
class RsWorld(limits.World):
    def __init__(self, c, i, widths):
        super().__init__(c, i, widths)
        self.m = rsdrv.rustify(self.m)
        self.refs = [dict(r, res=self.m["renamed"].get("%s.%s" % (r["arch"], r["res"]), r["res"])) for r in self.refs]
        self.text = model.text(self.m)
        self.json = dict(model.tla(self.m), refs=self.refs)

    def build(self):
        try:
            self.exe, self.sch = vf.parallel([lambda: rsdrv.program(self.m), lambda: Schemas(self.m)])
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            self.c.violation("a valid schema does not produce working code", {"schema": self.text, "error": str(e)[-1500:]}, key="generate")


def x06(c):
    rng = c.rng
    plans = limits.plan(c)
    ws = [RsWorld(c, i, p[0]) for i, p in enumerate(plans)]
    root = vf.scratch("x06")
    vf.parallel([w.build for w in ws] + [lambda w=w: limits.mc(c, w) for w in ws], n=6)
    for w, p in zip(ws, plans):
        if not w.exe:
            continue
        cases = []
        for i in range(c.pick(200, 1500)):
            arch = rng.choice(w.m["archives"][::-1])["name"]
            cases.append((arch, limits.content(rng, w, arch, p[1]), os.path.join(root, "%d-%d" % (w.i, i))))
        for arch, cont, d in cases:
            limits.write(w, arch, cont, d, rust=True)
        recs = []
        for (arch, cont, d), a in zip(cases, cppdrv.run_jobs(w.exe, [["store s file " + d, "probe s " + arch] for arch, cont, d in cases], ways=6)):
            x = a[-1].get("probe", {"open": False, "exc": str(a[-1])[:200]})
            recs.append({"lang": "rs", "arch": arch, "content": limits.tla_content(w, arch, cont), "open": x["open"], "err": ERR.get(x.get("exc"), str(x.get("exc"))),
                         "res": limits.tla_shown(w, arch, x.get("res", {}))})
        c.count("archives opened", len(recs))
        c.count("archives that open", sum(r["open"] for r in recs))
        c.sample({"arch": cases[0][0], "sizes": cases[0][1], "references": w.refs[:6]})
        vf.validate(c, "LimitsTrace", recs, name="archives with references", ways=4, extra={"model.json": json.dumps(w.json)}, key=lambda r: r["arch"])


# ---------------------------------------------------------------- X05
class RsLayout(layout.World):
    def build(self):
        try:
            self.exe = rsdrv.program(self.m)
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            self.c.violation("a valid schema does not produce working code", {"schema": self.text, "error": str(e)[-1500:]}, key="generate")

    def run(self, jobs):
        out = []
        for (lines, f), a in zip(jobs, cppdrv.run_jobs(self.exe, [j[0] for j in jobs], ways=4)):
            bad = [x for x in a if "crash" in x or "panic" in x and not x["panic"].startswith("range start index")]
            if bad:
                self.c.violation("panic" if "panic" in bad[0] else "crash", {"lines": lines[:20], "answer": bad[0], "schema": self.text}, key="panic")
            else:
                out += f(a)
        return out


TEXTS = ("a", "\u00e9", "\u20ac", "\U0001f600", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", "\u0800", "\u07ff", "\u0080")
ODD = (b"\0", b"\0", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf0\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xe0\x9f\xbf", b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xc3", b"\xf5\x80", b"\xf1\x80\x80A", b"\xe1\x80\xc3\xa9")


def rs_jobs(w, rng, per):
    hx = layout.hexl
    jvs = layout.jvs
    jobs = []
    for s in w.m["structs"]:
        n, z = s["name"], layout.nbytes(w.m, s)
        jobs.append((["B %s size" % n], lambda a, n=n: [{"op": "rsize", "s": n, "size": a[0]["size"], "mem": a[0]["mem"], "overlap": a[0]["overlap"]}]))
        vals = [rand_vals(rng, w.m, n) for _ in range(per)]
        jobs.append((["B %s enc %s" % (n, vals_tok(v)) for v in vals], lambda a, n=n, vals=vals: [
            {"op": "enc", "lang": "rs", "s": n, "vals": jvs(v), "b": hx(x["hex"]), "got": jvs(x["get"]), "gotm": jvs(x["get"])} for v, x in zip(vals, a)]))
        bs = [layout.opt_bytes(rng, w.m, s) if i % 2 else layout.rand_bytes(rng, z) for i in range(per)]
        jobs.append((["B %s dec %s" % (n, b.hex()) for b in bs], lambda a, n=n, bs=bs: [
            {"op": "dec", "lang": "rs", "s": n, "b": list(b), "got": jvs(x["get"]), "gotm": jvs(x["get"])} for b, x in zip(bs, a)]))
        todo = []
        for k, f in enumerate(s["fields"]):
            wd, sg = model.field_info(w.m, f)
            for i in range(max(1, per // 3)):
                v = None if f.get("opt") and i % 3 == 0 else rand_value(rng, wd, sg)
                todo.append((layout.rand_bytes(rng, z), k, v))
        jobs.append((["B %s setf %s %d %s" % (n, b.hex(), k, "none" if v is None else v) for b, k, v in todo], lambda a, n=n, todo=todo: [
            {"op": "setf", "s": n, "k": k + 1, "val": jv(v), "b": list(b), "after": hx(x["hex"]), "got": jvs(x["get"]), "gotm": jvs(x["get"]), "pad": x["pad"]} for (b, k, v), x in zip(todo, a)]))
        pairs = []
        for i in range(per):
            a = layout.opt_bytes(rng, w.m, s)
            b = bytearray(a)
            if i % 4 == 3:
                b = bytearray(layout.rand_bytes(rng, z))
            elif i % 4:
                k = rng.randrange(8 * z)       # one bit, often outside the fields
                if i % 4 == 1 and model.struct_bits(w.m, s) % 8:
                    k = 8 * z - 1
                b[k // 8] ^= 1 << k % 8
            pairs.append((a, bytes(b)))
        jobs.append((["B %s eq %s %s" % (n, a.hex(), b.hex()) for a, b in pairs], lambda ans, n=n, pairs=pairs: [r for (a, b), x in zip(pairs, ans) for r in (
            {"op": "eq", "s": n, "a": list(a), "b": list(b), "eq": x["eq"], "ne": x["ne"], "hash": True},
            {"op": "fill", "s": n, "a": list(a), "b": list(b), "after": hx(x["hex"]), "got": jvs(x["filled"])},
            {"op": "eq", "s": n, "a": list(a), "b": list(a), "eq": x["same"], "ne": not x["same"], "hash": True})]))
        ls = []
        for _ in range(max(2, per // 2)):
            b = b"".join(layout.opt_bytes(rng, w.m, s) for _ in range(rng.choice((0, 1, 1, 2, 3, 5))))
            if z > 1 and rng.random() < .3:
                b = (b + layout.rand_bytes(rng, rng.randrange(1, z))) if rng.random() < .5 else b[:-1]
            ls.append(b)
        jobs.append((["B %s vload %s" % (n, b.hex() or "-") for b in ls], lambda a, n=n, ls=ls: [
            {"op": "rsview", "s": n, "bs": list(b), "ok": x["ok"], "err": ERR.get(x.get("exc"), str(x.get("exc"))), "n": x.get("vn", 0),
             "el": [jvs(e) for e in x["view"]] if isinstance(x.get("view", []), list) and x["ok"] else [["inconsistent"]] if x["ok"] else [],
             "rg": [jvs(e) for e in x.get("rg", [])]} for b, x in zip(ls, a)]))
    return jobs


def rs_texts(rng, n):
    ts = []
    for _ in range(n):
        b = b"".join(rng.choice(TEXTS).encode() if rng.random() < .7 else rng.choice(ODD) for _ in range(rng.randrange(0, 7)))
        ts.append((b, rng.randrange(0, len(b) + 2)))
    g = lambda x: {"panic": True} if "panic" in x else {
        "panic": False, "raw": layout.hexl(x["raw"]), "utf8": [] if x["utf8"] is None else [layout.hexl(x["utf8"])], "lossy": layout.hexl(x["lossy"]), "bytes": layout.hexl(x["bytes"]), "len": x["len"]}
    return [(["substring %s %d" % (b.hex() or "-", at) for b, at in ts], lambda a: [dict({"op": "substring", "b": list(b), "at": at}, **g(x)) for (b, at), x in zip(ts, a)])]


def x05(c):
    q = c.quick
    ws = [RsLayout(c, i, c.rng.choice(("n", "q.w", "abc.d.e")) if i else "n", *p, py=False, **kw) for i, (p, kw) in enumerate(
        c.pick([((14, 2), {}), ((8, 2), {"opt_only": True})], [((16, 2), {})] * 6 + [((2, 10), {})] * 2 + [((14, 1), {"enums": False, "opt_only": True})] * 3))]
    vf.parallel([lambda: layout.design(c)] + [w.build for w in ws], n=4)
    ws = [w for w in ws if w.exe]
    recs = []
    for i, w in enumerate(ws):
        recs.append(w.run(rs_jobs(w, c.rng, c.pick(9, 60)) + (rs_texts(c.rng, c.pick(400, 6000)) if i == 0 else [])))
        c.sample({"schema": w.text}, 2)
    layout.validate(c, ws, recs, "elements")
    c.count("schemas", len(ws))
    c.count("structs", sum(len(w.m["structs"]) for w in ws))


# ---------------------------------------------------------------- X02
PERIOD, LIMIT = containers.PERIOD, containers.LIMIT


class RsBench:
    """A random schema with vectors of every structure, and multivectors, in one archive."""

    def __init__(self, c, i, n, nranges):
        rng = c.rng
        self.c, self.i = c, i
        self.sizes = (1, 3, 8, 13) if c.quick else (1, 2, 3, 5, 7, 8, 13, 31, 50)
        m = gen.rand_structs(rng, n, ns=rng.choice(("n", "a.b")), nranges=nranges, maxbits=180, wide=i == 0)
        names = [s["name"] for s in m["structs"] if not model.has_range(s)]
        m["structs"].append({"name": "Tiny", "fields": [{"name": "a", "type": "i8", "width": 5}, {"name": "b", "type": "u16", "width": 6}]})
        for z in (1, 3, 5) if i else sorted(set(self.sizes + (1, 3, 5))):
            m["structs"].append(containers.big_struct(rng, "Big%d" % z, z))
        if i == 0:
            m["structs"].append({"name": "BigR", "fields": [{"name": "a", "type": "u32", "width": 6, "range": "a_range"}, {"name": "b", "type": "i16", "width": 3}]})
        self.kinds = {}
        for k in range(4):
            self.kinds["k%d" % k] = {"types": rng.sample(names, 1 if k == 0 else rng.randint(2, min(5, len(names)))), "iw": rng.choice((16, 17, 24, 31, 32, 33, 40, 48, 63, 64))}
        self.big = {"b0": {"types": ["Big3"], "iw": 27}, "b1": {"types": ["Big1", "Big5"], "iw": 64}, "b2": {"types": ["Big5", "Big3", "Big1"], "iw": 33}} if i == 0 else {}
        self.full = dict(multi.FULL) if i == 0 else {}
        self.all = dict(self.kinds, **self.big, **self.full)
        m["archives"] = [{"name": "Arch", "res": [{"name": k, "kind": "multi", "types": v["types"], "width": v["iw"]} for k, v in self.all.items()]
                          + [{"name": "v_" + s["name"].lower(), "kind": "vec", "types": [s["name"]]} for s in m["structs"]]}]
        self.m = rsdrv.rustify(m)
        self.text = model.text(self.m)
        self.sets = {s["name"]: containers.rand_sets(rng, m, s, 6) for s in m["structs"]}
        self.json = dict(model.tla(self.m), multis=self.all, long=[])
        self.exe, self.vecs, self.hists = None, [], []

    def res(self, k):
        return self.m["renamed"]["Arch." + k]

    def build(self):
        try:
            self.exe = rsdrv.program(self.m)
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            self.c.violation("a valid schema does not produce working code", {"schema": self.text, "error": str(e)[-1500:]}, key="generate")

    def generate(self):
        q = self.c.quick
        names = [s["name"] for s in self.m["structs"] if not s["name"].startswith("Big")]
        plan = [(names, 20, 5, 2, 200 if q else 2500)]
        if self.i == 0:
            plan += [(["Tiny"], 4 if q else 5, 2, 1, None), (["R0"], 4 if q else 5, 2, 1, None)]
        self.vecs = containers.generate(self.c, self.m, plan, containers.RS_OPS)

    generate_multis = multi.World.generate

    def run(self, jobs):
        out = []
        for (lines, f), a in zip(jobs, cppdrv.run_jobs(self.exe, [j[0] for j in jobs], ways=6)):
            x = next((x for x in a if "crash" in x or "panic" in x or x.get("ok") is False), None)
            if x:
                self.c.violation("panic" if "panic" in x else "failed", {"lines": lines[-20:], "answer": str(x)[:600], "schema": self.text}, key="panic")
            else:
                out += f(a)
        return out


def rs_vector(w, e):
    n, jvs = e["s"], layout.jvs
    lines = ["B %s reset" % n]
    for o in e["hist"]:
        k = o["op"]
        a = [o["id"]]
        if k == "vnew":
            a += [str(o["n"]) if o["n"] else "-"]
        elif k == "vreserve":
            a += [str(o["n"])]
        elif k == "vset":
            a += [str(o["i"]), containers.sets_tok(o["sets"])]
        elif k == "vgrow":
            a += [containers.sets_tok(o["sets"])]
        lines.append(" ".join(["B", n, k] + a))
    els = lambda x: [jvs(v) for v in x] if isinstance(x, list) else [["inconsistent"]]
    return lines, lambda ans: [{"op": "init", "s": n}] + [dict(o, kind="rv", got={
        "n": a["n"], "el": els(a["el"]), "vn": a["vn"], "view": els(a["view"]), "rg": els(a["rg"]), "b": layout.hexl(a["hex"]), "dbg": a["dbg"]}) for o, a in zip(e["hist"], ans[1:])]


def rs_multi(w, e):
    res = w.res(e["k"])
    lines, item = ["store s mem /x", "builder b s Arch", "start g b " + res], None
    for o in e["hist"]:
        if o["op"] == "madd":
            item.append((o["alt"] - 1, o["sets"]))
        elif item is not None:
            lines.append(item)
        if o["op"] == "mgrow":
            item = []
    lines = [l if isinstance(l, str) else "growsets g %d %s" % (len(l), " ".join("%d %s" % (a, containers.sets_tok(x)) for a, x in l)) for l in lines]
    lines += ["close g", "peek s %s" % res, "peek s %s_index" % res, "drop"]

    def recs(a):
        v = a[-4]["close"]
        good = v["ok"] and isinstance(v["view"]["items"], list)
        return [{"op": "init", "k": e["k"]}] + e["hist"][:-1] + [{"op": "rclose", "data": layout.hexl(a[-3]["hex"]), "index": layout.hexl(a[-2]["hex"]), "view": {
            "n": len(v["view"]["items"]) if good else 0, "items": [[[x, layout.jvs(y)] for x, y in it] for it in v["view"]["items"]] if good else [[["inconsistent", []]]]}}]
    return lines, recs


def rs_big_vector(w, s, count, d):
    n = s["name"]
    z = (model.struct_bits(w.m, s) + 7) // 8
    res = "v_" + n.lower()
    shown = count - 1 if model.has_range(s) and count else count
    at = sorted({i for i in (0, 1, 2, shown // 2, shown // 2 + 1, LIMIT // z - 1, LIMIT // z, LIMIT // z + 1, LIMIT // z + 2, shown - 2, shown - 1) if 0 <= i < shown})
    lines = ["store s " + ("file " + d if d else "mem /x"), "builder b s Arch", "start g b " + res, "growpat g 0 %d" % count, "closesome g " + " ".join(map(str, at)),
             "big s %s %d %d" % (res, PERIOD * z, PERIOD * z), "drop"]

    def recs(a):
        v, b = a[4]["close"], a[5]
        return [{"op": "init", "s": n}, {"op": "rbig", "kind": "b", "count": count, "period": PERIOD, "ok": v["ok"], "size": a[3]["size"], "vn": v.get("size", 0), "at": at, "some": [layout.jvs(x) for x in v.get("some", [])],
                                         "bytes": b["bytes"], "head": layout.hexl(b["head"]), "tail": layout.hexl(b["tail"]), "first": layout.hexl(b["first"]), "repeats": b["repeats"]}]
    return lines, recs


def rs_big_multi(w, n, count, d):
    k = w.big[n]
    sz = {s["name"]: (model.struct_bits(w.m, s) + 7) // 8 for s in w.m["structs"]}
    each = sum(sz[k["types"][(i + j) % len(k["types"])]] + 1 for i in range(PERIOD) for j in range(i % 4))
    ib = (k["iw"] + 7) // 8
    res = w.res(n)
    edge = LIMIT * PERIOD // each
    at = sorted({i for i in (0, 1, 2, 3, count // 2, edge - 1, edge, edge + 1, edge + 2, LIMIT // ib - 1, LIMIT // ib, LIMIT // ib + 1, LIMIT // ib + 2, count - 2, count - 1) if 0 <= i < count})
    lines = ["store s " + ("file " + d if d else "mem /x"), "builder b s Arch", "start g b " + res, "growpat g 0 %d" % count, "closesome g " + " ".join(map(str, at)),
             "big s %s %d %d" % (res, each, each), "offsets s %s_index %d %d %d %d" % (res, ib, k["iw"], PERIOD, each), "drop"]

    def recs(a):
        v, b, x = a[4]["close"], a[5], a[6]
        return [{"op": "init", "k": n}, {"op": "rbig", "count": count, "open": v["ok"], "n": v.get("size", 0), "at": at, "some": [[[t, layout.jvs(y)] for t, y in it] for it in v.get("some", [])],
                                         "bytes": b["bytes"], "head": layout.hexl(b["head"]), "tail": layout.hexl(b["tail"]), "first": layout.hexl(b["first"]), "repeats": b["repeats"] and x["repeats"],
                                         "ibytes": x["bytes"], "ihead": layout.hexl(x["head"]), "itail": layout.hexl(x["tail"]), "offsets": x["offsets"], "last": x["last"]}]
    return lines, recs


def rs_full(w, n, count):
    res = w.res(n)
    lines = ["store s mem /x", "builder b s Arch", "start g b " + res, "fullpat g %d" % count, "close g", "peek s %s" % res, "peek s %s_index" % res, "drop"]

    def recs(a):
        v = a[4]["close"]
        hx = lambda x: {"bytes": len(x["hex"]) // 2, "head": layout.hexl(x["hex"][:16])} if x["hex"] else {"bytes": 0, "head": []}
        return [{"op": "init", "k": n}, {"op": "rfull", "count": count, "grown": a[3]["grown"], "open": v["ok"], "n": len(v["view"]["items"]) if v["ok"] else 0, "data": hx(a[5]), "index": hx(a[6])}]
    return lines, recs


def x02(c):
    q, rng = c.quick, c.rng
    ws = [RsBench(c, i, 7, 2) for i in range(c.pick(1, 5))]
    root = vf.scratch("x02")
    vf.parallel([f for w in ws for f in (w.build, w.generate, w.generate_multis)], n=4)
    parts = []
    for w in ws:
        if not w.exe:
            continue
        mj = json.dumps(w.json)
        for hs in (w.vecs, w.hists):
            rng.shuffle(hs)
            hs.sort(key=lambda h: len(h["hist"]) < 10)
            del hs[c.pick(2000, 25000):]
        parts.append(("ContainersTrace", w.run([rs_vector(w, e) for e in w.vecs]), "Rust vectors", mj))
        parts.append(("MultiTrace", w.run([rs_multi(w, e) for e in w.hists]), "Rust multivectors", mj))
        c.count("vector histories", len(w.vecs))
        c.count("multivector histories", len(w.hists))
        if w.i == 0:
            sm = by_name(w.m["structs"])
            jobs = []
            for z in w.sizes + ("R",):
                y = z if z != "R" else 2
                per = LIMIT // y + 1      # elements that no longer fit
                for j, count in enumerate([per - 1, 2 * per + 3] if q and z in (3, 8) else [0, per + 5] if q and z != "R" else [0, 1, per, per + 1, 2 * per + 4] if q else
                                          [0, 1, 2, per - 8, per - 1, per, per + 1, 2 * per, 2 * per + 1, 2 * per + 777]):
                    jobs.append(rs_big_vector(w, sm["Big%s" % z], count, None if j == 1 else os.path.join(root, "v%s-%d" % (z, j))))
            c.count("external vectors around the write buffer's limit", len(jobs))
            parts.append(("ContainersTrace", w.run(jobs), "Rust external vectors", mj))
            jobs = [rs_full(w, n, cnt) for n in w.full for cnt in multi.full_counts(w, n, q)]
            c.count("multivectors around their index's limit", len(jobs))
            parts.append(("MultiTrace", w.run(jobs), "Rust multivectors that outgrow their index", json.dumps(dict(w.json, long=list(w.full)))))
            jobs = [rs_big_multi(w, b[0], b[1], None if j == 1 else os.path.join(root, "m%d" % j)) for j, b in enumerate(multi.big_jobs(w, q))]
            c.count("multivectors beyond the write buffer", len(jobs))
            parts.append(("MultiTrace", w.run(jobs), "Rust multivectors beyond the write buffer", json.dumps(dict(w.json, long=list(w.big)))))
        if w.vecs:
            c.sample({"struct": w.vecs[0]["s"], "history": [o["op"] for o in w.vecs[0]["hist"]]})
        vf.shutil.rmtree(root, ignore_errors=True)
    vf.parallel([lambda t=t, r=r, n=n, j=j: vf.validate(c, t, r, name=n, ways=4 if len(r) > 500 else 1, extra={"model.json": j}, start=lambda x: x["op"] == "init", key=lambda x: x["op"]) for t, r, n, j in parts if r])


# ---------------------------------------------------------------- X07
THREADS = """SPECIFICATION Spec
CONSTANTS Threads = {%s}
Paths = {"a", "b", "c"}
There = {"a", "b"}
Whole = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
TICK = 1500


def delays(e, scale=TICK):
    """[(start, delay of opening)] of each thread of a schedule"""
    at = {}
    for i, (what, t) in enumerate(e["hist"]):
        at[what, t] = i
    out = []
    for t in range(1, len(e["want"]) + 1):
        s = at["start", t]
        out.append((s * scale, (at.get(("open", t), s) - s) * scale))
    return out


def x07(c):
    rng, q = c.rng, c.quick
    m = rsdrv.rustify(model.DRV)
    box = {}
    gens = [("threads share a storage", "1, 2, 3" if q else "1, 2, 3, 4", "TRUE", "Live OneMapping"), ("orders of two", "1, 2", "FALSE", "Emit"), ("orders of three", "1, 2, 3", "FALSE", "Emit")]
    res = vf.parallel([lambda g=g: vf.tlc("Threads", THREADS % g[1:], workers=2, timeout=800) for g in gens] + [lambda: box.update(e=rsdrv.program(m)), lambda: box.update(s=Schemas(m)), lambda: box.update(d=vf.shim("delay"))])
    sched = []
    for g, r in zip(gens, res):
        c.add_tlc(r, "Threads/" + g[0])
        seen = {}
        for e in r.emitted:
            seen.setdefault(json.dumps(e), e)
        es = list(seen.values())
        rng.shuffle(es)
        # most of them on the same file
        es.sort(key=lambda e: len(set(e["want"])) > 1 and rng.random() < .7)
        sched += es[:c.pick(60, 2000)]
    env = {"LD_PRELOAD": box["d"]}
    root = vf.scratch("x07")
    # 1. storages
    size = {"a": 300, "b": 5000}
    jobs = []
    for i, e in enumerate(sched):
        d = delays(e)
        mem = i % 4 == 0
        n = {"a": 3000000, "b": 300000} if mem else size
        p = os.path.join(root, "s%d" % i)
        st = "store s " + ("mem /x" if mem else "file " + p)
        if i % 4 == 1:      # a tar file
            make_tar(p + ".tar", {x: pattern(x, n[x]) for x in "ab"}, dot=i % 8 == 1)
            d = delays(e)
            jobs.append((n, e, ["store s tar %s.tar" % p, "parread s " + " ".join("%s %d %d %d" % (w, n.get(w, 0), a, b) for w, (a, b) in zip(e["want"], d))]))
            continue
        jobs.append((n, e, [st] + ["parwrite s %s %d" % (p, n[p]) for p in "ab"] + ["parread s " + " ".join("%s %d %d %d" % (w, n.get(w, 0), a // (5 if mem else 1), b) for w, (a, b) in zip(e["want"], d))]))
    for i in range(c.pick(12, 200)):    # all at once
        n = {"a": rng.choice((500000, 3000000, 6000000))}
        e = {"want": ["a"] * rng.randint(3, 6), "hist": "at once"}
        jobs.append((n, e, ["store s mem /x", "parwrite s a %d" % n["a"], "parread s " + " ".join("a %d 0 0" % n["a"] for _ in e["want"])]))
    recs = []
    for (n, e, lines), a in zip(jobs, cppdrv.run_jobs(box["e"], [j[2] for j in jobs], ways=6, env=env)):
        g = a[-1].get("got", [])
        if not g or any("panic" in x for x in g):
            c.violation("threads that read the same storage crash", {"schedule": e, "lines": lines, "answer": str(a[-1])[:500]}, key="crash")
            continue
        recs.append({"op": "read", "want": e["want"], "files": {p: {"len": n[p], "head": pattern(p, min(24, n[p])).hex()} for p in n}, "schedule": e["hist"],
                     "got": [{"gone": x["gone"], "len": x["len"] if x["len"] < 2 ** 31 else -1, "head": x["head"], "same": x["same"]} for x in g]})
    c.count("schedules replayed", len(jobs))
    c.sample({"want": sched[0]["want"], "schedule": sched[0]["hist"]})
    vf.validate(c, "ThreadsTrace", recs, name="threads reading one storage", ways=2)
    # 2. the same archive opened by several threads; 3. resources set by several threads
    recs, cases = [], []
    for i in range(c.pick(40, 600)):
        arch = ("Flat", "Arch", "Opt")[i % 3]
        cont = rand_contents(rng, m, arch)
        ls = build_lines(rng, m, arch, cont, "b")
        sets = [l.split() for l in ls if l.startswith("set b ")]
        others = [l for l in ls if not l.startswith("set b ")]
        par = ["parset b " + " ".join("%s %d %s" % (x[2], len(x) - 3, " ".join(x[3:])) for x in sets)] if sets else []
        e = rng.choice(sched)
        mem = i % 4 == 1
        d = os.path.join(root, "a%d" % i)
        tail = ["pardump s %s %s" % (arch, " ".join("%d %d" % (a, b // 4) for a, b in delays(e)))]
        st = "store s " + ("mem /x" if mem else "file " + d)
        head = [st, "builder b s " + arch] + (others + par if i % 2 else par + others)
        cases.append((arch, cont, mem, d, head + ([] if mem else [st]) + tail))
    for (arch, cont, mem, d, lines), a in zip(cases, cppdrv.run_jobs(box["e"], [x[4] for x in cases], ways=6, env=env)):
        x = failed(a[:-1])
        ds = a[-1].get("dumps")
        if x or not ds or any("panic" in y for y in ds):
            c.violation("threads that share a builder or storage fail", {"lines": lines[-12:], "answer": str(x or a[-1])[:500]}, key="write" if x else "crash")
            continue
        ct = contents_tla(m, arch, cont)
        if mem:
            recs += [{"op": "memory", "by": "rs", "arch": arch, "contents": ct, "got": dump_rs_rec(m, arch, {"dump": y})} for y in ds]
        else:
            fs = files_tla(box["s"], arch, read_tree(d))
            recs.append({"op": "files", "by": "rs", "arch": arch, "files": fs, "contents": ct})
            recs += [{"op": "dump", "lang": "rs", "by": "rs", "arch": arch, "files": fs, "got": dump_rs_rec(m, arch, {"dump": y})} for y in ds]
    c.count("archives written and opened by threads", len(cases))
    vf.validate(c, "ArchiveTrace", recs, name="threads sharing archives", ways=6, keyb=known, extra={"model.json": json.dumps(model.tla(m))})


def pattern(p, n):
    k = 7
    for b in p.encode():
        k = (k * 31 + b) & 255
    return bytes((i * 13 + (i >> 8) + k) & 255 for i in range(n))


CHECKS = {"X07": x07, "X01": x01, "X02": x02, "X03": x03, "X04": x04, "X05": x05, "X06": x06}
