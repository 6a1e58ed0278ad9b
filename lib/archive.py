"""R01: framing and agreement of writers and readers."""
import json, os
import vf, model, gen, cppdrv, fdlib
from fdlib import *


def dump_cpp_rec(m, arch, d):
    d = d.get("dump") if isinstance(d, dict) else None
    if d and d.get("open") != d.get("cast"):
        return {"open": False, "err": "is_open disagrees with bool"}
    return dump_tla(m, arch, d, "cpp")


def roundtrip(c, m, exe, sch, archs, n, sizes=(0, 1, 2, 3, 7), name="archives"):
    """Contents written by both builders and read back by both readers, all judged by Format.tla."""
    rng = c.rng
    root = vf.scratch("r01")
    cases = []
    for i in range(n):
        arch = archs[i % len(archs)]
        lang = "py" if not any(r["kind"] == "arch" for r in by_name(m["archives"])[arch]["res"]) and i % 2 else "cpp"
        cont = rand_contents(rng, m, arch, sizes=sizes if i % 5 else (0, 20), nones=lang == "cpp")
        cases.append({"arch": arch, "lang": lang, "cont": cont, "dir": os.path.join(root, "a%d" % i)})
    cj = []
    pj = []
    for k in cases:
        if k["lang"] == "cpp":
            cj.append(["store s file " + k["dir"], "builder b s " + k["arch"]] + build_lines(rng, m, k["arch"], k["cont"], "b"))
        else:
            pj.append({"op": "build", "schema": "s", "path": k["dir"], "arch": k["arch"], "steps": py_steps(rng, m, k["arch"], k["cont"])})
    text = {"s": model.text(m)}
    ra, rb = vf.parallel([lambda: cppdrv.run_jobs(exe, cj), lambda: vf.pydriver("fd_py.py", {"schemas": text, "jobs": pj})])
    it, ip = iter(ra), iter(rb)
    for k in cases:
        k["log"] = next(it) if k["lang"] == "cpp" else next(ip)
        for x in k["log"] if isinstance(k["log"], list) else [k["log"]]:
            if "crash" in x or "err" in x or "fail" in x or x.get("ok") is False or ("close" in x and not x["close"]["ok"]):
                c.violation("writing an accepted value failed", {"case": k, "answer": x})
                break
    da, db = vf.parallel([lambda: cppdrv.run_jobs(exe, [["store s file " + k["dir"], "dump s " + k["arch"]] for k in cases]),
                          lambda: vf.pydriver("fd_py.py", {"schemas": text, "jobs": [{"op": "dump", "schema": "s", "path": k["dir"], "arch": k["arch"]} for k in cases]})])
    recs = []
    for k, a, b in zip(cases, da, db):
        files = files_tla(sch, k["arch"], read_tree(k["dir"]))
        recs.append({"op": "files", "by": k["lang"], "arch": k["arch"], "contents": contents_tla(m, k["arch"], k["cont"]), "files": files})
        recs.append({"op": "dump", "by": k["lang"], "lang": "cpp", "arch": k["arch"], "files": files, "got": dump_cpp_rec(m, k["arch"], a[-1] if a else {})})
        recs.append({"op": "dump", "by": k["lang"], "lang": "py", "arch": k["arch"], "files": files, "got": dump_tla(m, k["arch"], b, "py")})
    c.sample({"arch": cases[0]["arch"], "contents": cases[0]["cont"]})
    vf.validate(c, "ArchiveTrace", recs, name=name, key=lambda r: r["op"], ways=6, extra={"model.json": json.dumps(model.tla(m))})
    c.count("archives written and read back by both languages", len(cases))


def world(c, name, m):
    """Driver and schema texts of a random schema; None (and a violation) if code for it cannot be had."""
    try:
        return [m] + vf.parallel([lambda: cppdrv.program(name, m), lambda: Schemas(m)])
    except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
        c.violation("a valid schema does not produce working code", {"schema": model.text(m), "error": str(e)[-1500:]}, key="generate")


def r01(c):
    ms = [model.DRV] + [gen.rand_world(c.rng, ns=c.rng.choice(("n", "a.b")), wide=i == 0) for i in range(c.pick(1, 8))]
    ws = vf.parallel([lambda i=i, m=m: world(c, "drv%d" % i if i else "drv", m) for i, m in enumerate(ms)], n=4)
    for i, w in enumerate(ws):
        if w:
            roundtrip(c, *w, ["Flat", "Arch", "Arch"] if i == 0 else [a["name"] for a in w[0]["archives"]][::-1], c.pick(45, 600 if i else 1500) if i == 0 else c.pick(24, 600),
                      name="archives of random schema" if i else "archives")


CHECKS = {"R01": r01}
