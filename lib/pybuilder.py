"""R06: histories of the Python archive builder (PyBuilder.tla) replayed against the real one."""
import copy, json, os
import vf, model, cppdrv, fdlib
from fdlib import *
from damage import norm
from archive import dump_cpp_rec

CFG = """SPECIFICATION %s
CONSTANTS Root = "%s"
MaxOps = %d
EmitFrom = %d
INVARIANTS Emit WrittenOnce NothingElse OpensIffComplete BothAgree
CHECK_DEADLOCK FALSE
"""
MISS, UNK, STRUCT = "MissingFieldError", "UnknownFieldError", "UnknownStructureError"


def spoil(rng, d, kind):
    """A field dictionary with the fault."""
    d = dict(d)
    if MISS in kind:
        d.pop(rng.choice(list(d)))
    if UNK in kind:
        d["no_such_field"] = 1
    return d


def calls(rng, m, arch, rich):
    """Available set calls: [(tla op, resource kind, python value)]"""
    out = []
    rs = res_of(m, arch)
    p = m["ns"].replace(".", "_") + "_"
    bads = [(MISS,), (UNK,), (MISS, UNK)]

    def add(n, v, py, faults=()):
        r = rs[n]
        out.append(({"name": n, "faults": list(faults), "val": contents_tla(m, arch, {n: v})[n]}, r["kind"], py))
    for n, r in rs.items():
        k = r["kind"]
        T = (r.get("types") or [None])[0]
        rv = lambda t=T: rand_vals(rng, m, t, nones=False)
        if k == "inst":
            for _ in range(2 if rich else 1):
                v = rv()
                add(n, v, py_value(m, r, v))
            for b in bads[: 3 if rich else 2]:
                v = rv()
                add(n, v, spoil(rng, py_value(m, r, v), b), b)
        elif k == "vec":
            for size in ((0, 3) if rich else (2,)):
                v = [rv() for _ in range(size)]
                add(n, v, py_value(m, r, v))
            for at in (0, 1, 2):
                v = [rv() for _ in range(3)]
                py = py_value(m, r, v)
                b = rng.choice(bads)
                py[at] = spoil(rng, py[at], b)
                add(n, v, py, b)
        elif k == "multi":
            def item(c):
                return [(t, rv(t)) for t in [rng.choice(r["types"]) for _ in range(c)]]
            for shape in (((), (0,), (0, 2, 0, 1)) if rich else ((1, 0),)):
                v = [item(c) for c in shape]
                add(n, v, py_value(m, r, v))
            for where in ((0, 0), (2, 1)):
                for b in [rng.choice(bads), (STRUCT,)]:
                    v = [item(2), [], item(2)]
                    py = py_value(m, r, v)
                    e = py[where[0]][where[1]]
                    if b == (STRUCT,):
                        others = [p + s["name"] for s in m["structs"] if s["name"] not in r["types"]] + [p + "Bogus", "", e["name"][len(p):]]
                        e["name"] = rng.choice(others)
                    else:
                        e["attributes"] = spoil(rng, e["attributes"], b)
                    add(n, v, py, b)
            out.append(({"name": n + "_index", "faults": [], "val": []}, "raw", ""))
        elif k == "raw":
            for v in ("", "00ff41"):
                add(n, v, v)
    out.append(({"name": "no_such_resource", "faults": [], "val": []}, "inst", {"x": 1}))
    out.append(({"name": arch + ".archive", "faults": [], "val": []}, "raw", "00"))
    return out


def r06(c):
    m = model.DRV
    box = {}
    plan = [("Mini", c.pick(3, 4), None, False), ("Flat", 14, c.pick(400, 8000), True)]
    cs = {}

    def gen(k):
        root, ops, sim, rich = plan[k]
        cl = cs[root] = calls(c.rng, m, root, rich)
        mj = dict(model.tla(m), pyops=[x[0] for x in cl])
        return vf.tlc("PyBuilder", CFG % ("SpecRandom" if sim else "Spec", root, ops, ops), workers=1 if sim else 4, simulate=sim, depth=ops + 1,
                      seed=c.seed, extra_files={"model.json": json.dumps(mj)}, timeout=800, heap="4g")
    res = [gen_call for gen_call in vf.parallel([lambda: box.update(e=cppdrv.program("drv", m)), lambda: box.update(s=Schemas(m)),
                                                 lambda: [gen(k) for k in range(len(plan))]])][2]
    sch = box["s"]
    wd = vf.scratch("r06")
    jobs, H = [], []
    for (root, ops, sim, rich), t in zip(plan, res):
        c.add_tlc(t, "%s/%d%s" % (root, ops, "/random" if sim else ""))
        em = t.emitted
        lim = c.pick(2500, 20000)
        if len(em) > lim:
            c.rng.shuffle(em)
            c.count("generated histories not replayed", len(em) - lim)
            em = em[:lim]
        for e in em:
            d = os.path.join(wd, "h%d" % len(H))
            H.append((root, e, d))
            steps = [{"open": 1}] + [{"res": cs[root][i - 1][0]["name"], "kind": cs[root][i - 1][1], "value": cs[root][i - 1][2]} for i in e["hist"]] + [{"finish": 1}]
            jobs.append({"op": "build", "schema": "s", "path": d, "arch": root, "steps": steps})
    text = {"s": model.text(m)}

    def py(js):
        return [x for r in vf.parallel([lambda p=p: vf.pydriver("fd_py.py", {"schemas": text, "jobs": p}) for p in vf.chunks(js, 8)]) for x in r]
    answers = py(jobs)
    dpy, dcpp = vf.parallel([lambda: py([{"op": "dump", "schema": "s", "path": d, "arch": r} for r, _, d in H]),
                             lambda: cppdrv.run_jobs(box["e"], [["store s file " + d, "dump s " + r] for r, _, d in H], ways=4)])
    refused = 0
    for (root, e, d), a, gp, gc in zip(H, answers, dpy, dcpp):
        ops = [cs[root][i - 1][0] for i in e["hist"]]
        what = {"calls": [{"name": o["name"], "faults": o["faults"]} for o in ops], "values": [cs[root][i - 1][2] for i in e["hist"]], "answers": a}
        if not isinstance(a, list):
            c.violation("builder failed", what)
            continue
        for k, (allowed, got) in enumerate(zip(e["log"], a[1:-1])):
            refused += bool(allowed)
            if got["ok"] != (not allowed) or (allowed and got["exc"] not in allowed):
                c.violation("call %s" % ("accepted" if got["ok"] else "refused" if not allowed else "wrong error"), dict(what, call=k, allowed=allowed))
                break
        if not a[0]["ok"] or not a[-1]["ok"]:
            c.violation("opening or finishing failed", what)
        files = read_tree(d)
        got = files_tla(sch, root, files)
        for p, f in e["files"].items():
            if norm(got.get(p)) != norm(f):
                c.violation("file", dict(what, path=p, got=got.get(p), expected=f))
        g = dump_tla(m, root, gp, "py")
        if g["open"] != e["py"]["open"] or (not g["open"] and g["err"] not in e["py"]["err"]) or (g["open"] and norm(g["res"]) != norm(e["py"]["res"])):
            c.violation("python reads otherwise", dict(what, got=g, expected=e["py"]))
        g = dump_cpp_rec(m, root, gc[-1] if gc else {})
        if g["open"] != e["cpp"]["open"] or (g["open"] and norm(g["res"]) != norm(e["cpp"]["res"])):
            c.violation("C++ reads otherwise", dict(what, got=g, expected=e["cpp"]))
    c.traces += len(H)
    c.count("histories replayed", len(H))
    c.count("refused calls", refused)
    c.count("complete archives", sum(1 for _, e, _ in H if e["cpp"]["open"]))
    for r, e, _ in H[:3] + H[-2:]:
        c.sample({"archive": r, "calls": [cs[r][i - 1][0]["name"] + "".join("!" + f for f in cs[r][i - 1][0]["faults"]) for i in e["hist"]]}, 5)


CHECKS = {"R06": r06}
