"""P03: archives opened by the inspector from their path alone; judged by InspectTrace.tla."""
import json, os, random
import vf, model, gen, cppdrv, archive
from fdlib import *

CFG = """SPECIFICATION Spec
CONSTANTS Names = {%s}
INVARIANTS Shows OneOpens ByName Sole Same
CHECK_DEADLOCK FALSE
"""
PLACES = [["n"], ["a.b"], ["a.b.c", "a.b", "a"], ["n", "q"], ["q.w", "n", "q"], ["n", "n.m", "m.n"]]


def spread(rng, m, spaces):
    """Give every definition a namespace of its own choosing."""
    m["ns"] = spaces[0]
    if len(spaces) > 1:
        for k in ("consts", "enums", "structs", "archives"):
            for x in m[k]:
                x["ns"] = rng.choice(spaces)


class World:
    def __init__(self, c, i, cpp):
        self.rng = rng = random.Random(c.rng.random())
        self.c, self.i, self.cpp = c, i, cpp
        self.m = m = gen.rand_structs(rng, 6, nranges=1, maxbits=120)
        gen.rand_archives(rng, m, subs=2, maxres=4)
        spread(rng, m, PLACES[i % len(PLACES)])
        for a in m["archives"]:        # archives of one place do not share files
            for r in a["res"]:
                r["name"] += "_" + a["name"].lower()
        self.text = model.text(m)
        self.exe = self.sch = None
        self.extra = {"model.json": json.dumps(model.tla(m))}

    def build(self):
        try:
            self.sch = Schemas(self.m)
            if self.cpp:
                self.exe = cppdrv.program("insp%d" % self.i, self.m)
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            self.c.violation("a valid schema does not produce working code", {"schema": self.text, "error": str(e)[-1500:]}, key="generate")


def subs(m, arch, cont, pre=""):
    """(folder, archive) of every subarchive present"""
    out = []
    for n, v in cont.items():
        r = res_of(m, arch)[n]
        if r["kind"] == "arch":
            out.append((pre + n, r["arch"]))
            out += subs(m, r["arch"], v, pre + n + "/")
    return out


def below(files, folder):
    return {p[len(folder) + 1:]: b for p, b in files.items() if p.startswith(folder + "/")}


def run(c, w):
    rng, m = w.rng, w.m
    root = vf.scratch("insp")
    amap = by_name(m["archives"])
    flat = [a for a in amap if not any(r["kind"] == "arch" for r in amap[a]["res"])]
    lines, pj, places = [], [], []
    for i in range(c.pick(18, 150)):
        d = os.path.join(root, "p%d%s" % (i, rng.choice(("", "", "", ".tar", ".archive"))))
        os.makedirs(d)
        names = list(amap)
        rng.shuffle(names)
        names = names[:rng.choice((0, 1, 1, 1, 2, 3))] if i > 2 else [list(amap)[-1]]
        stored = {}
        for a in names:
            how = rng.choice(("py", "writer")) if a in flat and (not w.exe or rng.random() < .5) else "cpp"
            if how == "cpp" and not w.exe:
                continue
            cont = rand_contents(rng, m, a, sizes=(0, 1, 2), nones=how == "cpp")
            if how == "cpp":
                lines.append(["store s file " + d, "builder b s " + a] + build_lines(rng, m, a, cont, "b"))
            else:
                pj.append({"op": "build", "schema": "s", "path": d, "arch": a, "writer": how == "writer", "steps": py_steps(rng, m, a, cont)})
            stored[a] = cont
        places.append((d, stored))
    ra = cppdrv.run_jobs(w.exe, lines) if lines else []
    rb = vf.pydriver("fd_py.py", {"schemas": {"s": w.text}, "jobs": pj}) if pj else []
    for x in [y for a in ra + rb for y in (a if isinstance(a, list) else [a])]:
        if "crash" in x or "err" in x or "fail" in x or x.get("ok") is False or ("close" in x and not x["close"]["ok"]):
            c.violation("writing an accepted value failed", {"schema": w.text, "answer": x}, key="write")
            return
    jobs, recs = [], []

    def ask(path, exists, files, arch, want):
        jobs.append({"op": "inspect", "path": path, "archive": want})
        recs.append(({"exists": exists, "want": want or ""}, files, arch))
    for k, (d, stored) in enumerate(places):
        files = read_tree(d)
        if stored and rng.random() < .3:       # a file less
            f = rng.choice([p for p in files if ".archive" not in p])if any(".archive" not in p for p in files) else None
            if f:
                del files[f]
                os.unlink(os.path.join(d, f))
        tar = d + ".tar"
        make_tar(tar, files, dirs=rng.random() < .5, dot=rng.random() < .5, order=rng if rng.random() < .5 else None)
        for path in (d, tar) + ((os.path.join(d, rng.choice([f for f in files if "/" not in f])),) if files else ()):
            wants = [None, "NoSuch"] + list(stored)
            if stored:    # almost the name of an archive
                a = rng.choice(list(stored))
                wants.append(rng.choice((a[:-1], a[1:], a + ".archive", a.swapcase(), a + "x")))
            for want in rng.sample(wants, min(len(wants), 2 if path == tar else c.pick(4, 9))):
                ask(path, True, files, None, want)
        ask(os.path.join(d, "absent"), False, {}, None, rng.choice([None] + list(stored)))
        for a, cont in stored.items():
            for folder, b in subs(m, a, cont):
                sub = below(files, folder)
                if not os.path.isdir(os.path.join(d, folder)):
                    continue
                ask(os.path.join(d, folder), True, sub, b, rng.choice((None, b)))
    res = vf.parallel([lambda x=x: vf.pydriver("fd_py.py", {"schemas": {}, "jobs": x}) for x in vf.chunks(jobs, 4)])
    out = []
    full = {model.pyname(m, a, "archives"): a for a in amap}
    for (r, files, arch), g in zip(recs, [x for y in res for x in y]):
        tf = {}
        for a in amap:            # every file belongs to one of the archives here
            tf.update({p: f for p, f in files_tla(w.sch, a, files).items() if belongs(m, a, p)})
        got = dump_tla(m, full.get(g.get("name"), list(amap)[-1]), g, "py") if not g.get("open") or g.get("name") in full else {"open": False, "err": "unknown archive " + str(g.get("name"))}
        out.append(dict(r, files=tf, name=full.get(g.get("name"), ""), got=got))
    c.count("archives opened by the inspector", sum(bool(r["got"]["open"]) for r in out))
    vf.validate(c, "InspectTrace", out, name="inspections", ways=2, extra=w.extra, key=lambda r: "inspect")


def belongs(m, arch, p):
    if p in (arch + ".archive", arch + ".archive.schema"):
        return True
    top = p.split("/")[0]
    for suffix in ("_index.schema", ".schema", "_index", ""):
        if top.endswith(suffix) and top[:len(top) - len(suffix)] in res_of(m, arch):
            return True
    return False


def p03(c):
    ws = [World(c, i, c.quick is False or i < 3) for i in range(c.pick(6, 24))]

    def mc(w):
        names = [a["name"] for a in w.m["archives"]]
        r = vf.tlc("InspectMC", CFG % ", ".join('"%s"' % n for n in names), workers=1, timeout=600, extra_files=w.extra)
        c.add_tlc(r, "Inspect/%d" % w.i)
    vf.parallel([w.build for w in ws] + [lambda w=w: mc(w) for w in ws[:c.pick(2, 12)]], n=6)
    vf.parallel([lambda w=w: run(c, w) for w in ws if w.sch], n=4)
    for w in ws:
        c.sample({"schema": w.text}, 3)
    c.count("schemas", len(ws))


CHECKS = {"P03": p03}
