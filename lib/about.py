"""P04: what a Python archive tells about itself, judged by AboutTrace.tla."""
import json, os
import vf, model, gen, cppdrv
from fdlib import *
from access import frame, multi_bytes
from layout import rand_bytes, nbytes


def stored(rng, m, sch, arch, pre=""):
    """Files of an archive over random memory."""
    st = by_name(m["structs"])
    out = {pre + arch + ".archive": frame(b""), pre + arch + ".archive.schema": sch.text["S:%s." % arch].encode()}
    for n, r in res_of(m, arch).items():
        if r.get("opt") and rng.random() < .4:
            continue
        if r["kind"] == "arch":
            out.update(stored(rng, m, sch, r["arch"], pre + n + "/"))
            continue
        k = rng.choice((0, 1, 1, 2, 3, 7, 20))
        if r["kind"] == "multi":
            b, ix = multi_bytes(rng, m, r, k)
            out[pre + n + "_index"] = frame(ix if k or rng.random() < .6 else b"")
            out[pre + n + "_index.schema"] = sch.text["I:%s.%s" % (arch, n)].encode()
        elif r["kind"] == "raw":
            b = rand_bytes(rng, k)
        else:
            b = rand_bytes(rng, nbytes(m, st[r["types"][0]]) * (1 if r["kind"] == "inst" else k))
        out[pre + n] = frame(b)
        out[pre + n + ".schema"] = sch.text["S:%s.%s" % (arch, n)].encode()
    return out


def symbols(m, sch, arch, g):
    """Schemas as symbols, lists in TLA+ terms."""
    flat = [n for n, r in res_of(m, arch).items() if r["kind"] != "arch"]
    subs = [r["arch"] for n, r in res_of(m, arch).items() if r["kind"] == "arch" and any(x["name"] == n and x["there"] for x in g["rows"])]
    g = dict(g, schema=sch.symbol(arch, arch + ".archive", g["schema"].encode()), schemas=[sch.symbol(arch, n, s.encode()) for n, s in zip(flat, g["schemas"])])
    g["subs"] = [symbols(m, sch, a, x) for a, x in zip(subs, g["subs"])]
    return g


def p04(c):
    rng = c.rng
    worlds = []
    for i in range(c.pick(8, 40)):
        m = gen.rand_world(rng, ns=("n", "a.b", "q.w.e")[i % 3])
        try:
            worlds.append((m, Schemas(m)))
        except cppdrv.GenerationFailed as e:
            c.violation("a valid schema does not produce working code", {"schema": model.text(m), "error": str(e)[-1500:]}, key="generate")

    def one(w):
        m, sch = w
        root = vf.scratch("about")
        jobs, trees = [], []
        for k in range(c.pick(40, 200)):
            arch = ("Arch", m["archives"][k % len(m["archives"])]["name"])[k % 2]
            t = stored(rng, m, sch, arch)
            d = os.path.join(root, "a%d" % k) + (".tar" if k % 3 == 2 else "")
            if k % 3 == 2:
                make_tar(d, t)
            else:
                write_tree(d, t)
            jobs.append({"op": "about", "schema": "s", "arch": arch, "path": d, "tar": k % 3 == 2})
            trees.append(t)
        recs = []
        for j, t, g in zip(jobs, trees, vf.pydriver("fd_py.py", {"schemas": {"s": model.text(m)}, "jobs": jobs})):
            if "fail" in g:
                c.violation("an archive cannot tell what it is", {"schema": model.text(m), "archive": j["arch"], "error": g["fail"]}, key="fails")
                continue
            recs.append({"arch": j["arch"], "files": files_tla(sch, j["arch"], t), "got": symbols(m, sch, j["arch"], g)})
        c.count("archives", len(recs))
        names = {s["name"]: model.pyname(m, s["name"]) for s in m["structs"]}
        vf.validate(c, "AboutTrace", recs, name="self-descriptions", ways=2, key=lambda r: "about", extra={"model.json": json.dumps(model.tla(m)), "names.json": json.dumps(names)})
    vf.parallel([lambda w=w: one(w) for w in worlds], n=4)
    for m, _ in worlds[:2]:
        c.sample({"schema": model.text(m)}, 2)
    c.count("schemas", len(worlds))


CHECKS = {"P04": p04}
