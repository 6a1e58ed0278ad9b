"""C07: C++ storages, archives and builders used by several threads."""
import json, os, subprocess
import vf, model, cppdrv
from fdlib import *
from archive import dump_cpp_rec
from storage import tar_variant, tar_store, parse_mem

TSAN = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 report_signal_unsafe=0"}
CFG = """SPECIFICATION Spec
CONSTANTS Threads = {%s}
Calls = %d
Tables = "%s"
Locks = "%s"
Handles = {%s}
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
S, V = ("s1", "s2"), {1: b"", 2: b"\1", 3: bytes(range(40, 90))}


def programs(c):
    q = c.quick
    two, three = "1, 2", "1, 2, 3"
    runs = [("memory", (three if q else "1, 2, 3, 4", 1, "tree", "tree", two, "Exclusive"), None), ("files", (three, 1, "object", "object", two, "Exclusive"), None),
            ("memory, two calls", (two, 2, "tree", "tree", "1" if q else two, "Exclusive"), None),
            ("meetings", (two, 1, "tree", "object", three, "Meet"), None),
            ("programs", (three, 4, "tree", "tree", three, "Exclusive Emit"), c.pick(120, 4000)), ("long programs", (two, 7, "object", "object", three, "Exclusive Emit"), c.pick(60, 2000))]
    res = vf.parallel([lambda r=r, i=i: vf.tlc("Shared", CFG % r[1], workers=2 if r[2] is None else 1, simulate=r[2], depth=40 if r[2] else None,
                                               seed=c.seed * 7 + i if r[2] else None, timeout=800) for i, r in enumerate(runs)])
    out = []
    for (n, a, sim), r in zip(runs, res):
        c.add_tlc(r, "Shared/" + n)
        seen = {}
        for e in r.emitted:
            seen.setdefault(json.dumps(e, sort_keys=True), e)
        es = [seen[k] for k in sorted(seen)]
        c.rng.shuffle(es)
        out += es if sim else es[:c.pick(320, 5000)]
    return out


def par(rng, progs, order=None):
    """Command lists of threads, begun in the given order of threads (or all at once)."""
    tick, n = [[] for _ in progs], 0
    for t in order or []:
        tick[t].append(n)
        n += 1
    return "par " + " || ".join(" ".join("@%d %s |" % (tick[i][j] if order else 0, l) for j, l in enumerate(p)) for i, p in enumerate(progs))


def stuck(a):
    """What went wrong in a job's answers, if anything."""
    for x in a or [{"crash": "no answer"}]:
        if "crash" in x:
            i = x["crash"].find("WARNING: ThreadSanitizer")
            return x["crash"][max(0, i):][:1100]
        if "err" in x:
            return x["err"]
    return None


def storages(c, exe):
    rng = c.rng
    root = vf.scratch("c07s")
    ps = programs(c)
    jobs, info = [], []
    for i, e in enumerate(ps):
        for st in ("mem", "file", "tar") if i % 3 == 0 else ("mem", "file"):
            p = os.path.join(root, "%d%s" % (i, st))
            base = {"p0": ("s1", 3), "q0": ("s2", 1), "d/p0": ("s2", 2), "d/q0": ("s1", 3)}
            prog, keep = [], []
            for t, cs in enumerate(e["prog"]):
                mine = []
                for j, x in enumerate(cs):
                    if st == "tar" and (x["op"] in ("put", "mkdir") or x["whose"] and rng.random() < .7):
                        x = {"op": ("get", "has", "schemaof", "dir")[rng.randrange(4)], "h": x["h"], "whose": 0}
                    if st == "tar" and x["op"] == "dir":
                        x = dict(x, h=1)
                    k = rng.choice(("p0", "q0", "z0") if x["op"] != "has" else ("p0", "z0")) if not x["whose"] else "t%dh%d" % (x["whose"], x["h"])
                    if x["op"] in ("mkdir", "dir"):
                        k = rng.choice(("d", "m%d" % (t + 1) if x["op"] == "mkdir" else "none" if st != "tar" else "d"))
                    mine.append({"op": x["op"], "h": x["h"], "k": k, "s": rng.choice(S), "v": rng.randint(1, 3)})
                keep.append(mine)
                prog.append([call(x, t, j) for j, x in enumerate(mine)])
            handles = ["", "d/", "d/"][:max([1] + [x["h"] for m in keep for x in m])]
            if st == "tar":
                v = tar_variant(rng)
                tree = {}
                for f, (s, n) in base.items():
                    tree[f], tree[f + ".schema"] = len(V[n]).to_bytes(8, "little") + V[n] + bytes(8), s.encode()
                make_tar(p, tree, **v)
                L = [tar_store("h1", p, v), "dir h2 h1 d", "dir h3 h1 d"]
            else:
                L = ["store h1 %s %s" % (st, p), "mkdir h2 h1 d", "dir h3 h1 d"] + ["put h1 %s %s %s" % (f, s, V[n].hex() or "-") for f, (s, n) in base.items() if "/" not in f]
                L += ["put h2 %s %s %s" % (f[2:], s, V[n].hex() or "-") for f, (s, n) in base.items() if "/" in f]
            if st != "mem":   # a storage that has not read anything yet
                L += [L[0], "dir h2 h1 d", "dir h3 h1 d"]
            jobs.append(L + [par(rng, prog, [t - 1 for t in e["order"]] if i % 4 else None)])
            info.append((st, handles, base, keep))
    recs, shown = [], []
    for (st, handles, base, keep), L, a in zip(info, jobs, cppdrv.run_jobs(exe, jobs, ways=8, env=TSAN)):
        c.traces += 1
        x = stuck(a)
        got = a[-1].get("par") if a else None
        if x or not got:
            c.violation("threads that share a storage disturb each other", {"storage": st, "commands": L, "answer": str(x or a[-1])[:1200]}, key="race")
            continue
        threads, bad = [], None
        for mine, gs in zip(keep, got):
            cs = []
            for x, g in zip(mine, gs):
                o = g["out"]
                y = dict(x, b=g["s"], e=g["e"], ok=bool(o.get("ok")))
                bad = bad or o.get("err")
                if x["op"] == "get":
                    y["v"] = 0 if o.get("get") is None else next((n for n in V if V[n].hex() == o["get"]), 9)
                if x["op"] == "schemaof":
                    y["s"] = o.get("schema") or ""
                cs.append(y)
            threads.append(cs)
        recs.append({"handles": handles, "made": ["d/"], "files": [{"p": f, "s": s, "v": n} for f, (s, n) in base.items()], "threads": threads})
        shown.append((st, L, got))
        if bad:
            c.violation("a call fails", {"storage": st, "commands": L, "error": bad}, key="fails")
    c.count("programs run by threads", len(jobs))
    c.sample({"commands": jobs[len(jobs) // 2]})
    explained(c, recs, shown)


def explained(c, recs, shown):
    idx = list(range(len(recs)))
    parts = [idx[i::6] for i in range(6)]

    def one(part):
        wd = vf.scratch("shared")
        with open(os.path.join(wd, "trace.ndjson"), "w") as f:
            for i in part:
                f.write(json.dumps(recs[i]) + "\n")
        return vf.tlc("SharedTrace", "SPECIFICATION TraceSpec\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n", workdir=wd, workers=1, timeout=700)
    parts = [p for p in parts if p]
    for part, r in zip(parts, vf.parallel([lambda p=p: one(p) for p in parts])):
        c.add_tlc(r, "SharedTrace")
        told = {e["told"] for e in r.emitted if "told" in e}
        for n, i in enumerate(part):
            if n + 1 not in told:
                c.violation("no order of the calls explains the answers", {"storage": shown[i][0], "commands": shown[i][1], "answers": shown[i][2]}, key="order")
    c.cov.setdefault("validated", {})["programs of threads"] = len(recs)


def call(x, t, j):
    h = "h%d" % x["h"]
    if x["op"] == "put":
        return "put %s %s %s %s" % (h, x["k"], x["s"], V[x["v"]].hex() or "-")
    if x["op"] == "get":
        return "get %s %s %s" % (h, x["k"], x["s"])
    if x["op"] in ("mkdir", "dir"):
        return "%s n%dx%d %s %s" % (x["op"], t, j, h, x["k"])
    return "%s %s %s" % ("exists" if x["op"] == "has" else "schemaof", h, x["k"])


def archives(c, m, exe):
    """Different resources of one builder written by different threads; one archive opened by several threads."""
    rng = c.rng
    sch = Schemas(m)
    root = vf.scratch("c07a")
    cases, jobs = [], []
    for i in range(c.pick(70, 1500)):
        arch = ("Arch", "Flat", "Arch", "Opt")[i % 4]
        cont = rand_contents(rng, m, arch, sizes=(0, 1, 2, 5, 9), nones=True)
        subs, groups = [], {}
        for l in build_lines(rng, m, arch, cont, "b"):
            w = l.split()
            if w[0] == "sub":
                subs.append(l)
                continue
            g = (w[1], w[2]) if w[0] == "set" else groups_of(w, groups)
            groups.setdefault(g, []).append(l)
        threads = [[] for _ in range(rng.choice((2, 3, 4)))]
        gs = list(groups.values())
        rng.shuffle(gs)
        for g in gs:
            rng.choice(threads).extend(g)
        threads = [t for t in threads if t]
        if rng.random() < .5:   # several vectors of one thread at a time
            threads = [interleave(rng, t) for t in threads]
        order = [n for n, t in enumerate(threads) for _ in t]
        rng.shuffle(order)
        st = ("mem", "file")[i % 2]
        d = os.path.join(root, "a%d" % i)
        L = ["store s %s %s" % (st, d), "builder b s " + arch] + subs + ([par(rng, threads, order if rng.random() < .6 else None)] if threads else []) + ["end"]
        k = len(L)
        if st == "file":
            L.append("store s file " + d)
        readers = [["dump s " + arch] * rng.choice((1, 1, 2)) for _ in range(rng.choice((2, 3, 4)))]
        L += ["files s", par(rng, readers)] if st == "file" else [par(rng, readers), "files s"]
        cases.append((arch, cont, st, d))
        jobs.append(L)
    tars, tj = [], []
    ra = cppdrv.run_jobs(exe, jobs, ways=8, env=TSAN)
    recs = []
    for (arch, cont, st, d), L, a in zip(cases, jobs, ra):
        c.traces += 1
        x = stuck(a)
        if not x:
            for y in a:
                for t in y.get("par", []):
                    for z in t:
                        o = z["out"]
                        if "err" in o or o.get("ok") is False or ("close" in o and not o["close"]["ok"]):
                            x = x or str(o)
        if x:
            c.violation("threads that share a builder or an archive disturb each other", {"commands": L, "answer": str(x)[:1200]}, key="race")
            continue
        f = next(y for y in a if "files" in y or "hexdump" in y)
        tree = {p: bytes.fromhex(b) for p, b in f["files"].items()} if "files" in f else parse_mem(f["hexdump"])
        fs = files_tla(sch, arch, tree)
        recs.append({"op": "files", "by": "threads", "arch": arch, "contents": contents_tla(m, arch, cont), "files": fs})
        ds = [y["par"] for y in a if "par" in y][-1]
        recs += [{"op": "dump", "by": st, "lang": "cpp", "arch": arch, "files": fs, "got": dump_cpp_rec(m, arch, z["out"])} for t in ds for z in t]
        if st == "file" and rng.random() < .4:
            p, v = d + ".tar", tar_variant(rng)
            make_tar(p, tree, **v)
            tars.append((arch, fs))
            tj.append([tar_store("s", p, v), par(rng, [["dump s " + arch]] * 3)])
    for (arch, fs), L, a in zip(tars, tj, cppdrv.run_jobs(exe, tj, ways=8, env=TSAN)):
        c.traces += 1
        x = stuck(a)
        if x:
            c.violation("threads that open an archive in a tar file disturb each other", {"commands": L, "answer": str(x)[:1200]}, key="race")
            continue
        recs += [{"op": "dump", "by": "tar", "lang": "cpp", "arch": arch, "files": fs, "got": dump_cpp_rec(m, arch, z["out"])} for t in a[-1]["par"] for z in t]
    c.count("archives written and opened by threads", len(jobs))
    c.sample({"commands": jobs[0]})
    vf.validate(c, "ArchiveTrace", recs, name="archives written and opened by threads", ways=8, key=lambda r: r["op"], extra={"model.json": json.dumps(model.tla(m))})


def groups_of(w, groups):
    """start/grow/close of one vector belong together."""
    return w[1]


def interleave(rng, lines):
    per = {}
    for l in lines:
        w = l.split()
        per.setdefault(" ".join(w[:3]) if w[0] == "set" else w[1], []).append(l)
    qs, out = list(per.values()), []
    while qs:
        k = rng.choice(qs)
        out.append(k.pop(0))
        qs = [x for x in qs if x]
    return out


def c07(c):
    exe = cppdrv.program("drvt", model.DRV, flags=("-fsanitize=thread", "-fno-sanitize-recover"))
    storages(c, exe)
    archives(c, model.DRV, exe)


CHECKS = {"C07": c07}
