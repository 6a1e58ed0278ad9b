"""R02, R03: what readers make of missing and damaged files."""
import json, os
import vf, model, cppdrv, fdlib
from fdlib import *
from archive import dump_cpp_rec

CFG = """SPECIFICATION %s
CONSTANTS MaxDamage = %d
EmitMin = %d
INVARIANTS Emit IntactOpens ShowsOnlyIntact OptionalHarmless RsAllOrNothing
CHECK_DEADLOCK FALSE
"""


def cases(c, m, contents, n_random):
    """Every single damage exhaustively, and random combinations of 2..4."""
    mj = json.dumps(dict(model.tla(m), contents=[{"arch": a, "contents": contents_tla(m, a, x)} for a, x in contents]))
    def one(k):
        mm = json.dumps(dict(model.tla(m), contents=[{"arch": a, "contents": contents_tla(m, a, x)} for a, x in [contents[k]]]))
        r = vf.tlc("Damage", CFG % ("Spec", 1, 0), workers=2, extra_files={"model.json": mm}, timeout=900)
        return r, [dict(e, ci=k + 1) for e in r.emitted]
    def sim(k):
        return vf.tlc("Damage", CFG % ("SpecRandom", 4, 2), workers=1, simulate=n_random, depth=5, seed=c.seed * 100 + k,
                      extra_files={"model.json": mj}, timeout=900)
    res = vf.parallel([lambda k=k: one(k) for k in range(len(contents))] + [lambda k=k: sim(k) for k in range(2)])
    out = []
    for k, x in enumerate(res):
        if isinstance(x, tuple):
            c.add_tlc(x[0], "single damage of archive %d" % (k + 1))
            out += x[1]
        else:
            c.add_tlc(x, "combinations %d" % (k - len(contents)))
            out += x.emitted
    return out


def spec_trees(c, m, contents):
    """Full file maps of the undamaged archives, computed by the specification."""
    mod = """---- MODULE Trees ----
EXTENDS Format
VARIABLE x
Init == x = 0
Next == x = 0 /\\ x' = 1 /\\ \\A i \\in DOMAIN Model.contents : PrintT("@@" \\o ToJson([i |-> i, files |-> ArchiveFiles(Model.contents[i].arch, "", Model.contents[i].contents)]))
====
"""
    mj = json.dumps(dict(model.tla(m), contents=[{"arch": a, "contents": contents_tla(m, a, x)} for a, x in contents]))
    r = vf.tlc("Trees", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", extra_files={"model.json": mj, "Trees.tla": mod})
    return {e["i"]: e["files"] for e in r.emitted}


def contents_for(c, m, n, nones=False):
    res = []
    for i in range(n):
        a = ("Arch", "Flat", "Arch")[i % 3]
        res.append((a, rand_contents(c.rng, m, a, sizes=(1, 2) if i % 3 == 0 else (0, 1, 3), p_opt=1 if i % 3 == 0 else .6, nones=nones)))
    return res


def nonempty(x):
    return [] if x == [] or x == {} else x


def norm(x):
    """ToJson prints an empty function as [] or {}; make both the same."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()} or []
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def materialise_all(c, m, contents, cs, root):
    sch = Schemas(m)
    trees = spec_trees(c, m, contents)
    base = {i: materialize(sch, f) for i, f in trees.items()}
    for i, e in enumerate(cs):
        f = dict(base[e["ci"]])
        d = e["dmg"] if isinstance(e["dmg"], dict) else {}
        for p, k in d.items():
            if k == "absent":
                f.pop(p, None)
            elif k == "rmdir":
                for q in [q for q in f if q.startswith(p)]:
                    del f[q]
        ff = e["files"] if isinstance(e["files"], dict) else {}
        for p, x in ff.items():
            if x["k"] == "data":
                f[p] = bytes(x["b"])
            elif x["b"].endswith(".other"):
                f[p] = sch.text["S:%s.inst" % contents[e["ci"] - 1][0]].encode() if not p.endswith("inst.schema") else sch.text["S:Sub."].encode()
            else:
                f[p] = sym_bytes(sch, x["b"])
        e["tree"] = f
        if root:
            e["dir"] = os.path.join(root, "d%d" % i)
            os.makedirs(e["dir"], exist_ok=True)
            write_tree(e["dir"], f)
    return sch


def label(e):
    d = e["dmg"] if isinstance(e["dmg"], dict) else {}
    return ";".join("%s:%s" % kv for kv in sorted(d.items()))


def judge_cpp(c, m, contents, e, got, where="file"):
    if not e["cpp"]["judge"]:
        return
    g = dump_cpp_rec(m, contents[e["ci"] - 1][0], got)
    if g["open"] != e["cpp"]["open"]:
        c.violation("opens" if g["open"] else "does_not_open", {"storage": where, "damage": e["dmg"], "got": str(got)[:600], "expected": e["cpp"]}, key=label(e))
    elif g["open"] and norm(g["res"]) != norm(e["cpp"]["res"]):
        c.violation("content", {"storage": where, "damage": e["dmg"], "got": g["res"], "expected": e["cpp"]["res"]}, key=label(e))


def judge_py(c, m, contents, e, got, where="file"):
    g = dump_tla(m, contents[e["ci"] - 1][0], got, "py")
    if g["open"] != e["py"]["open"]:
        c.violation("opens" if g["open"] else "does_not_open", {"storage": where, "damage": e["dmg"], "got": str(got)[:600], "expected": e["py"]}, key=label(e))
    elif not g["open"] and g["err"] not in e["py"]["err"]:
        c.violation("wrong_error", {"storage": where, "damage": e["dmg"], "got": got, "expected": e["py"]["err"]}, key=label(e))
    elif g["open"] and norm(g["res"]) != norm(e["py"]["res"]):
        c.violation("content", {"storage": where, "damage": e["dmg"], "got": g["res"], "expected": e["py"]["res"]}, key=label(e))


def r02(c):
    m = model.DRV
    contents = contents_for(c, m, c.pick(2, 5))
    cs = cases(c, m, contents, c.pick(120, 4000))
    root = vf.scratch("r02")
    materialise_all(c, m, contents, cs, root)
    text = {"s": model.text(m)}
    parts = vf.chunks(cs, 8)
    res = vf.parallel([lambda p=p: vf.pydriver("fd_py.py", {"schemas": text, "jobs": [
        {"op": "dump", "schema": "s", "path": e["dir"], "arch": contents[e["ci"] - 1][0]} for e in p]}) for p in parts])
    for p, rr in zip(parts, res):
        for e, g in zip(p, rr):
            judge_py(c, m, contents, e, g)
    finish(c, cs, "py")


def r03(c):
    m = model.DRV
    contents = contents_for(c, m, c.pick(2, 5))
    exe = {}
    cs = vf.parallel([lambda: cases(c, m, contents, c.pick(120, 4000)), lambda: exe.update(e=cppdrv.program("drv", m))])[0]
    root = vf.scratch("r03")
    materialise_all(c, m, contents, cs, root)
    res = cppdrv.run_jobs(exe["e"], [["store s file " + e["dir"], "dump s " + contents[e["ci"] - 1][0]] for e in cs], ways=8)
    for e, g in zip(cs, res):
        judge_cpp(c, m, contents, e, g[-1] if g else {})
    finish(c, cs, "cpp")


def finish(c, cs, lang):
    c.traces += len(cs)
    c.count("damaged archives", len(cs))
    c.count("of these opened", sum(1 for e in cs if e[lang].get("open")))
    c.count("combined damage", sum(1 for e in cs if isinstance(e["dmg"], dict) and len(e["dmg"]) > 1))
    for e in cs[5:8]:
        c.sample({"damage": e["dmg"], lang: {k: v for k, v in e[lang].items() if k != "res"}})


CHECKS = {"R02": r02, "R03": r03}
