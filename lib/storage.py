"""R07: one archive, every storage."""
import json, os, tarfile
import vf, model, cppdrv, fdlib, damage, builder
from fdlib import *
from archive import dump_cpp_rec

CFG = """SPECIFICATION Spec
CONSTANTS MaxOps = %d
EmitFrom = %d
INVARIANTS Emit GetReturnsPut DirsSeparate NothingLost
CHECK_DEADLOCK FALSE
"""
LONG = "a-folder-with-a-name-that-does-not-fit/the-hundred-bytes-of-a-tar-header/so-that-long-names-appear/in-many-tar-files"


def tar_variant(rng):
    return {"dirs": rng.random() < .5, "dot": rng.random() < .5, "fmt": rng.choice((tarfile.GNU_FORMAT, tarfile.USTAR_FORMAT)),
            "order": rng if rng.random() < .6 else None, "sub": rng.choice(("", "", "x", "x/yy", LONG))}


def show(v):
    return {k: (bool(x) if k == "order" else x) for k, x in v.items()}


def tar_store(sid, path, v):
    return "store %s tarsub %s %s" % (sid, path, v["sub"]) if v["sub"] else "store %s tar %s" % (sid, path)


# ---------------------------------------------------------------- the storage interface
def interface(c, exe):
    q = c.quick
    runs = vf.parallel([lambda: vf.tlc("Storage", CFG % (3, 3), workers=4, timeout=800)] +
                       [lambda k=k: vf.tlc("Storage", CFG % (24, 24), workers=1, simulate=(60 if q else 2000), depth=25, seed=c.seed * 10 + k) for k in range(2)])
    for k, r in enumerate(runs):
        c.add_tlc(r, "storage interface %d" % k)
    hs = runs[0].emitted
    c.rng.shuffle(hs)
    hs = hs[:c.pick(1500, 20000)] + runs[1].emitted + runs[2].emitted
    rng = c.rng
    pay = {1: b"", 2: b"\1", 3: bytes(rng.randrange(256) for _ in range(40))}
    root = vf.scratch("r07s")

    def line(op, k, new, hn):
        o = op["op"]
        if o in ("mkdir", "dir"):
            return "%s %s %s %s" % (o, new, hn[op["h"] - 1], op["d"])
        s = hn[op["h"] - 1]
        if o == "hasdir":
            return "exists %s %s" % (s, op["d"])
        if o == "put":
            return "put %s %s %s %s" % (s, op["k"], op["s"], pay[op["v"]].hex() or "-")
        if o == "get":
            return "get %s %s %s" % (s, op["k"], op["s"])
        return "%s %s %s" % ("exists" if o == "has" else o, s, op["k"])

    def expect(op):
        o = op["op"]
        if o == "get":
            return {"get": pay[op["v"]].hex() if op["v"] else None}
        if o == "schemaof":
            return {"schema": op["s"] or None}
        return {"ok": op["ok"]}
    jobs, exps, info = [], [], []
    for i, h in enumerate(hs):
        for st in ("file", "mem"):
            L, E = [], []
            p = os.path.join(root, "%d%s" % (i, st))
            L.append("store h0 %s %s" % (st, p))
            E.append({"ok": True})
            hn = ["h0"]
            for k, op in enumerate(h["hist"]):
                new = "h%d" % len(hn)
                L.append(line(op, k, new, hn))
                E.append(expect(op))
                if op["op"] in ("mkdir", "dir") and op["ok"]:
                    hn.append(new)
            files = h["files"] if isinstance(h["files"], dict) else {}
            # the finished tree through a fresh storage
            if st == "file":
                L.append("store r file " + p)
                E.append({"ok": True})
                for f, x in sorted(files.items()):
                    L.append("get r %s %s" % (f, x["s"]))
                    E.append({"get": pay[x["v"]].hex()})
            jobs.append(L)
            exps.append(E)
            info.append((st, h["hist"]))
        files = h["files"] if isinstance(h["files"], dict) else {}
        if files:
            v = tar_variant(rng)
            p = os.path.join(root, "%d.tar" % i)
            tree = {}
            for f, x in files.items():
                b = pay[x["v"]]
                tree[f] = len(b).to_bytes(8, "little") + b + bytes(8)
                tree[f + ".schema"] = x["s"].encode()
            make_tar(p, tree, **v)
            L, E = [tar_store("h0", p, v)], [{"ok": True}]
            for f, x in sorted(files.items()):
                for s in ("s1", "s2"):
                    L.append("get h0 %s %s" % (f, s))
                    E.append({"get": pay[x["v"]].hex() if s == x["s"] else None})
                L.append("exists h0 %s" % f)
                E.append({"ok": True})
                L.append("exists h0 %sx" % f)
                E.append({"ok": False})
                L.append("schemaof h0 " + f)
                E.append({"schema": x["s"]})
                d, _, b = f.rpartition("/")
                if d:
                    at = "h0"
                    for n, part in enumerate(d.split("/")):
                        L.append("dir h%d %s %s" % (n + 1, at, part))
                        E.append({"ok": True})
                        at = "h%d" % (n + 1)
                    L.append("get %s %s %s" % (at, b, x["s"]))
                    E.append({"get": pay[x["v"]].hex()})
            L.append("put h0 k s1 00")
            E.append({"ok": False})
            jobs.append(L)
            exps.append(E)
            info.append(("tar", {"tree": sorted(tree), "variant": show(v)}))
    res = cppdrv.run_jobs(exe, jobs, ways=8)
    for (st, what), L, E, R in zip(info, jobs, exps, res):
        c.traces += 1
        for k in range(len(L)):
            got = R[k] if k < len(R) else {"crash": "no answer"}
            if any(got.get(x) != y for x, y in E[k].items()):
                c.violation("interface", {"storage": st, "history": what, "command": L[k], "got": got, "expected": E[k]})
                break
    c.count("storage interface histories", len(jobs))


# ---------------------------------------------------------------- contents
def contents(c, m, exe, sch):
    rng = c.rng
    root = vf.scratch("r07c")
    text = {"s": model.text(m)}
    cases, jobs = [], []
    for i in range(c.pick(80, 2000)):
        arch = ("Arch", "Flat", "Arch", "Mini", "Opt")[i % 5]
        cont = rand_contents(rng, m, arch, sizes=(0, 1, 2, 5))
        lines = build_lines(rng, m, arch, cont, "b")
        k = {"arch": arch, "cont": cont, "dir": os.path.join(root, "a%d" % i), "tar": os.path.join(root, "a%d.tar" % i), "v": tar_variant(rng)}
        cases.append(k)
        jobs.append(["store s file " + k["dir"], "builder b s " + arch] + lines + ["end", "files s"])
        jobs.append(["store s mem x", "builder b s " + arch] + lines + ["end", "dump s " + arch, "files s"])
    res = cppdrv.run_jobs(exe, jobs, ways=8)
    it = iter(res)
    recs = []
    for k in cases:
        f, mm = next(it), next(it)
        n = len(f) - 1
        if f[-1].get("files") is None or mm[-1].get("hexdump") is None:
            c.violation("writing failed", {"case": k["cont"], "file": f[-1], "mem": mm[-1]})
            k["tree"] = {}
            continue
        if f[1:n] != mm[1:n]:
            j = next(j for j in range(1, n) if f[j] != mm[j])
            c.violation("answers differ between file and memory storage", {"case": k["cont"], "line": j, "file": f[j], "mem": mm[j]})
        k["tree"] = {p: bytes.fromhex(b) for p, b in f[-1]["files"].items()}
        for by, tree in (("file", k["tree"]), ("mem", parse_mem(mm[-1]["hexdump"]))):
            recs.append({"op": "files", "by": by, "arch": k["arch"], "contents": contents_tla(m, k["arch"], k["cont"]), "files": files_tla(sch, k["arch"], tree)})
        k["files"] = files_tla(sch, k["arch"], k["tree"])
        recs.append({"op": "dump", "by": "mem", "lang": "cpp", "arch": k["arch"], "files": k["files"], "got": dump_cpp_rec(m, k["arch"], mm[n])})
        make_tar(k["tar"], k["tree"], **k["v"])
    cases = [k for k in cases if k["tree"]]

    def assign(k):
        return ["store s mem x"] + ["assign s %s %s" % (p, b.hex() or "-") for p, b in sorted(k["tree"].items())]
    a, b, d = vf.parallel([
        lambda: cppdrv.run_jobs(exe, [["store s file " + k["dir"], "dump s " + k["arch"]] for k in cases]),
        lambda: cppdrv.run_jobs(exe, [[tar_store("s", k["tar"], k["v"]), "dump s " + k["arch"]] for k in cases]),
        lambda: cppdrv.run_jobs(exe, [assign(k) + ["dump s " + k["arch"]] for k in cases])])
    pj = [{"op": "dump", "schema": "s", "path": k["dir"], "arch": k["arch"]} for k in cases] + \
         [{"op": "dump", "schema": "s", "path": k["tar"], "arch": k["arch"], "tar": True, "sub": k["v"]["sub"]} for k in cases]
    pr = vf.pydriver("fd_py.py", {"schemas": text, "jobs": pj})
    for where, lang, rr in (("file", "cpp", a), ("tar", "cpp", b), ("assigned memory", "cpp", d), ("file", "py", pr[:len(cases)]), ("tar", "py", pr[len(cases):])):
        for k, g in zip(cases, rr):
            got = dump_cpp_rec(m, k["arch"], g[-1] if g else {}) if lang == "cpp" else dump_tla(m, k["arch"], g, "py")
            recs.append({"op": "dump", "by": where + " " + json.dumps(show(k["v"])), "lang": lang, "arch": k["arch"], "files": k["files"], "got": got})
    c.sample({"arch": cases[0]["arch"], "contents": cases[0]["cont"], "tar": show(cases[0]["v"])})
    vf.validate(c, "ArchiveTrace", recs, name="archives through all storages", ways=8, extra={"model.json": json.dumps(model.tla(m))})
    c.count("archives built in file and memory storage and read through all storages", len(cases))


def parse_mem(t):
    return builder.parse_hexdump(t)


# ---------------------------------------------------------------- damage
def damaged(c, m, exe, sch, cs, conts):
    rng = c.rng
    root = vf.scratch("r07d")
    damage.materialise_all(c, m, conts, cs, None)
    rng.shuffle(cs)
    cs = cs[:c.pick(1200, 30000)]
    for i, e in enumerate(cs):
        e["dir"] = os.path.join(root, "d%d" % i)
        os.makedirs(e["dir"])
        write_tree(e["dir"], e["tree"])
        e["v"] = tar_variant(rng)
        e["tar"] = os.path.join(root, "d%d.tar" % i)
        make_tar(e["tar"], e["tree"], **e["v"])
    arch = lambda e: conts[e["ci"] - 1][0]
    a, b, d = vf.parallel([
        lambda: cppdrv.run_jobs(exe, [["store s file " + e["dir"], "dump s " + arch(e)] for e in cs]),
        lambda: cppdrv.run_jobs(exe, [[tar_store("s", e["tar"], e["v"]), "dump s " + arch(e)] for e in cs]),
        lambda: cppdrv.run_jobs(exe, [["store s mem x"] + ["assign s %s %s" % (p, x.hex() or "-") for p, x in sorted(e["tree"].items())] + ["dump s " + arch(e)] for e in cs])])
    for where, rr in (("file", a), ("tar", b), ("mem", d)):
        for e, g in zip(cs, rr):
            damage.judge_cpp(c, m, conts, e, g[-1] if g else {}, where)
    # the storages agree with one another, whatever the specification leaves open
    for e, x, y, z in zip(cs, a, b, d):
        if not (x and y and z and x[-1] == y[-1] == z[-1]):
            c.violation("storages disagree", {"damage": e["dmg"], "variant": show(e["v"]), "file": str(x[-1:])[:300], "tar": str(y[-1:])[:300], "mem": str(z[-1:])[:300]}, key=damage.label(e))
    text = {"s": model.text(m)}
    parts = vf.chunks(cs, 8)
    res = vf.parallel([lambda p=p: vf.pydriver("fd_py.py", {"schemas": text, "jobs": [
        {"op": "dump", "schema": "s", "path": e["tar"], "tar": True, "sub": e["v"]["sub"], "arch": arch(e)} for e in p] + [
        {"op": "dump", "schema": "s", "path": e["dir"], "arch": arch(e)} for e in p]}) for p in parts])
    for p, rr in zip(parts, res):
        for e, g, h in zip(p, rr[:len(p)], rr[len(p):]):
            damage.judge_py(c, m, conts, e, g, "tar")
            damage.judge_py(c, m, conts, e, h, "file")
    c.traces += 5 * len(cs)
    c.count("damaged archives through all storages", len(cs))


def r07(c):
    m = model.DRV
    box = {}
    conts = damage.contents_for(c, m, c.pick(2, 4))
    q = c.quick

    # "mem": histories that do not read a resource that is being written (memory storage keeps what was read then)
    def both(n):
        return ("Arch", "mem", 20, 3, ("empty", "noosub", "sigonly", "nosig"), n if q else 40 * n, 2)
    cs, hs = vf.parallel([lambda: damage.cases(c, m, conts, c.pick(60, 2000)),
                          lambda: builder.histories(c, m, [both(60), both(30)]),
                          lambda: box.update(e=cppdrv.program("drv", m)), lambda: box.update(s=Schemas(m))])[:2]
    exe, sch = box["e"], box["s"]
    vf.parallel([lambda: interface(c, exe), lambda: contents(c, m, exe, sch)])
    damaged(c, m, exe, sch, cs, conts)
    # builder histories, each in both storages
    hs = [(r, s, e) for r, _, e in hs for s in ("file", "mem")]
    builder.run(c, m, exe, sch, hs, len(hs))


CHECKS = {"R07": r07}
