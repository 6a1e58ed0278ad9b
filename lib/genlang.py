"""G01-G04: the schema language. Schemas (all small ones around a reference from SchemaGen.tla, random ones from
lib/schema.py) are given to the generator; what it accepts, what it stores and what code it makes is judged by
SchemaTrace.tla and EnumTrace.tla."""
import copy, json, os, random, subprocess
import vf, schema
from schema import dot, num, val, ref, BASIC

GEN_CFG = """SPECIFICATION %s
CONSTANTS MaxDefs = %d
 EmitAt = %d
 Deep = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
LAWS = "AnyOrder Unrelated Again Innermost"


def job(sch, text, stored=True):
    j = {"text": text}
    if stored:
        j["arch"] = {dot(p): ["_".join(ns) + "_" + d["name"], d["name"]] for p, ns, d in schema.defs(sch) if d["k"] == "archive"}
    return j


def generator(jobs, n=8):
    """Answers of the generator, from several processes with different hash seeds."""
    parts = vf.chunks(jobs, n) if jobs else []
    res = vf.parallel([lambda i=i, x=x: vf.pydriver("gen_py.py", x, timeout=800, env={"PYTHONHASHSEED": str(i + 1)}) for i, x in enumerate(parts)])
    return [x for y in res for x in y]


def broken(c, sch, text, g):
    """answers no specification is needed for"""
    if g.get("fail"):
        c.violation("generate", {"schema": text, "answer": g}, key="generate")
        return True
    return False


def texts_of(p, g, limit=None, rng=None):
    t = g["texts"][p]
    names = list(t)
    if limit and len(names) > limit:
        names = [""] + rng.sample([n for n in names if n], limit - 1)
    return {n: t[n] for n in names}


def stored(c, sch, text, g):
    """the stored texts, as definitions"""
    out = []
    for p, ts in g.get("texts", {}).items():
        for n, t in ts.items():
            try:
                got = schema.parse(t)
            except schema.Unreadable as e:
                c.violation("definitions", {"schema": text, "stored": t, "unreadable": str(e)}, key="unreadable")
                continue
            out.append({"p": p.split("."), "res": n, "got": got})
    return out


def key(r):
    return "schema"


def run_one(c, items, name, store=True, keep=None):
    """items: [(schema, text)]: verdicts and stored definitions; returns the generator's answers"""
    ans = generator([job(s, t, store) for s, t in items])
    recs = []
    for (s, t), g in zip(items, ans):
        if broken(c, s, t, g):
            continue
        recs.append({"k": "one", "sch": s, "ok": g["ok"], "stored": stored(c, s, t, g) if store and g["ok"] else [], "text": t, "exc": g.get("exc", "")})
    vf.validate(c, "SchemaTrace", recs, name=name, ways=6, key=key, heap="3g")
    c.count("schemas accepted", sum(g["ok"] for g in ans))
    c.count("schemas rejected", sum(not g["ok"] for g in ans))
    return ans


def make(rng, n, faults=(0, 0, 1, 2)):
    return [schema.Maker(rng, rng.choice(faults)).make() for _ in range(n)]


# ---------------------------------------------------------------- G01
def shadowing(rng, sch):
    """names become few, so that they hide each other"""
    m = {}

    def name(n):
        if n not in m:
            m[n] = rng.choice(("a", "b", "A", "B", n))
        return m[n]
    # one renaming for the whole schema, applied to definitions and references alike
    def walk(x):
        if isinstance(x, dict):
            if set(x) == {"q", "p"}:
                return {"q": x["q"], "p": [y if len(x["p"]) == 1 and y in BASIC else name(y) for y in x["p"]]}
            r = {k: walk(v) for k, v in x.items()}
            if "name" in r:
                r["name"] = name(r["name"])
            if "f" in r:
                r["f"] = name(r["f"])
            if r.get("range"):
                r["range"] = name(r["range"])
            return r
        if isinstance(x, list):
            return [walk(y) for y in x]
        return x
    return [{"ns": [name(y) for y in b["ns"]], "defs": walk(b["defs"])} for b in sch]


def g01(c):
    rng = c.rng
    box = {}

    def laws():
        box["bfs"] = vf.tlc("SchemaGen", GEN_CFG % ("Spec", 1, c.pick(9, 1), "FALSE", LAWS + (" Emit" if not c.quick else "")), workers=3, timeout=800, heap="3g")
    sims = [dict(module="SchemaGen", cfg=GEN_CFG % ("SpecRandom", d, d, "TRUE", LAWS + " Emit"), workers=1, simulate=c.pick(400, 6000), depth=d + 1,
                 seed=c.seed * 10 + d, timeout=800, heap="2g") for d in (1, 2, 3, 4)]
    vf.parallel([laws] + [lambda k=k: box.setdefault(k["seed"], vf.tlc(**k)) for k in sims], n=5)
    c.add_tlc(box["bfs"], "SchemaGen/all")
    small = list(box["bfs"].emitted)
    for k in sims:
        c.add_tlc(box[k["seed"]], "SchemaGen/random%d" % (k["depth"] - 1))
        small += box[k["seed"]].emitted
    seen, items = set(), []
    for e in small:
        t = schema.text(e["sch"])
        if t not in seen:
            seen.add(t)
            items.append((e["sch"], schema.text(e["sch"], rng) if rng.random() < .3 else t))
    run_one(c, items, "small schemas")
    c.sample({"small schema": items[0][1]})
    ms = make(rng, c.pick(150, 3000), (0, 0, 0, 1))
    items = [(s, schema.text(s, rng)) for s in ms] + [(s, schema.text(s)) for s in (shadowing(rng, x) for x in ms)]
    run_one(c, items, "random schemas")
    c.sample({"random schema": items[0][1]})
    # another order of the definitions: the same verdict and the same meaning
    run_one(c, [(s, schema.text(s)) for s in (reorder(rng, x) for x in ms[:c.pick(60, 1000)])], "in another order")


def reorder(rng, sch):
    """definitions in any order, spread over blocks of their namespace"""
    flat = [(b["ns"], d) for b in sch for d in b["defs"]]
    rng.shuffle(flat)
    out = []
    for ns, d in flat:
        cand = [b for b in out if b["ns"] == ns]
        if cand and rng.random() < .6:
            cand[-1]["defs"].append(d)
        else:
            out.append({"ns": ns, "defs": [d]})
    return out


# ---------------------------------------------------------------- G02
def u8(name, **kw):
    return dict({"name": name, "t": ref(["u8"], False), "w": 0, "range": "", "const": [], "opt": []}, **kw)


def wrap(*ds):
    return [{"ns": ["n"], "defs": list(ds)}]


def edges(rng, full):
    """schemas at and around every limit of the rules"""
    out = []
    for t, (w, s) in BASIC.items():
        lo, hi = schema.limits(w, s)
        for v in sorted({lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, 2 * hi + 1, 2 * hi + 2, 2 * lo}):
            out.append(wrap({"k": "const", "name": "C", "t": t, "v": num(v)}))
        ws = range(1, w + 3) if full else sorted({1, w - 1, w, w + 1, rng.randint(1, w)} - {0})
        for x in ws:
            out.append(wrap({"k": "struct", "name": "S", "fields": [u8("f", t=ref([t], False), w=x)]}))
            l2, h2 = schema.limits(x, s)
            for v in ({l2 - 1, l2, h2, h2 + 1} if full else rng.sample([l2 - 1, l2, h2, h2 + 1], 2)):
                if x <= w and lo <= v <= hi:
                    d = rng.choice(("const", "opt"))
                    u = rng.choice(list(BASIC)) if rng.random() < .15 else t
                    out.append(wrap({"k": "const", "name": "C", "t": t, "v": num(v)}, {"k": "struct", "name": "S", "fields": [u8("f", t=ref([u], False), w=min(x, BASIC[u][0]), **{d: [ref(["C"], False)]})]}))
        # enumerations: widths against the number of values, values against the width
        for x in sorted({1, 2, 7, 8, 9, w, w + 1}):
            l2, h2 = schema.limits(min(x, 40), s)
            for n in ((1, 127, 128, 129) if x in (8, 9) else (1, 2)):
                if n > 100 and (t not in ("u16", "i32") and not full):
                    continue
                out.append(wrap({"k": "enum", "name": "E", "t": t, "w": x, "vals": [{"name": "V%d" % i, "has": i == 0, "v": num(l2)} for i in range(n)]}))
            for v in (l2 - 1, l2, h2, h2 + 1):
                if x <= 8:
                    out.append(wrap({"k": "enum", "name": "E", "t": t, "w": x, "vals": [{"name": "V", "has": True, "v": num(v)}]}))
                    out.append(wrap({"k": "enum", "name": "E", "t": t, "w": x, "vals": [{"name": "V", "has": True, "v": num(v)}, {"name": "W", "has": False, "v": num(0)}]}))
        out.append(wrap({"k": "enum", "name": "E", "t": t, "w": 0, "vals": [{"name": "V", "has": False, "v": num(0)}]}))
    # enumeration fields
    for ew in (1, 3, 8):
        for fw in (0, ew - 1, ew, ew + 1, 8, 9):
            if fw >= 0 and not (fw == 0 and ew == 1 and False):
                out.append(wrap({"k": "enum", "name": "E", "t": "u8", "w": ew, "vals": [{"name": "V", "has": False, "v": num(0)}]},
                                {"k": "struct", "name": "S", "fields": [u8("f", t=ref(["E"], False), w=fw)]}))
    # ranges and where they may be used; references and what they may name; archives in archives
    R = {"k": "struct", "name": "R", "fields": [u8("f", range="r"), u8("g")]}
    S = {"k": "struct", "name": "S", "fields": [u8("f"), u8("r")]}
    C = {"k": "const", "name": "C", "t": "u8", "v": num(3)}

    def res(name, kind, types=(), **kw):
        return dict({"name": name, "kind": kind, "types": [ref(t.split("."), False) for t in types], "iw": 33 if kind == "multi" else 0, "opt": False, "refs": []}, **kw)

    def arch(name, *rs, **kw):
        return dict({"k": "archive", "name": name, "res": list(rs), "bound": []}, **kw)
    for kind in ("inst", "vec", "multi"):
        out.append(wrap(R, arch("A", res("x", kind, ["R"]))))
        out.append(wrap(S, R, arch("A", res("x", kind, ["S"]))))
    out.append(wrap(S, R, arch("A", res("x", "multi", ["S", "R"]))))
    for nm in ("f", "g", "r", "R"):
        out.append(wrap({"k": "struct", "name": "R", "fields": [u8("f", range=nm), u8("g")]}))
    out.append(wrap(C, {"k": "struct", "name": "R", "fields": [u8("f", range="r", opt=[ref(["C"], False)])]}))
    out.append(wrap(C, {"k": "struct", "name": "R", "fields": [u8("f", range="r", const=[ref(["C"], False)])]}))
    C2 = dict(C, name="D", v=num(4))
    for a, b in ((["C"], ["C"]), (["C"], ["D"]), (["D"], []), ([], [])):
        if a != b:
            out.append(wrap(C, C2, {"k": "struct", "name": "R", "fields": [u8("f", opt=[ref([x], False) for x in a + b])]}))

    def er(st, f, dst):
        return {"st": ref(st.split("."), False), "f": f, "dst": ref(dst.split("."), False)}
    for kind, ts in (("vec", ["S"]), ("inst", ["S"]), ("multi", ["S", "T"]), ("raw", []), ("arch", ["B"])):
        for e in (er("S", "f", "y"), er("S", "f", "x"), er("S", "nope", "y"), er("T", "f", "y"), er("S", "f", "nope"), er("S", "f", "S"), er("S", "f", "B.z"), er("S", "f", "B"), er("B", "z", "y"), er("S", "f", "A.y")):
            out.append(wrap(S, dict(S, name="T"), arch("B", res("z", "raw")), arch("A", res("x", kind, ts, refs=[e]), res("y", "raw"))))
    for e in (er("S", "f", "y"), er("S", "f", "A.y"), er("n.S", "f", "y"), er("S", "r", "y"), er("S", "f", "x")):
        out.append(wrap(S, arch("A", res("x", "vec", ["S"], refs=[er("S", "f", "y"), e]), res("y", "raw"))))
    # two references whose parts join to the same letters
    P = {"k": "struct", "name": "P", "fields": [u8("a"), u8("a_b")]}
    out.append(wrap(P, arch("A", res("x", "vec", ["P"], refs=[er("P", "a", "b_c"), er("P", "a_b", "c")]), res("b_c", "raw"), res("c", "raw"))))
    out.append(clash(3, res, arch))
    for ds in ([arch("A", res("x", "arch", ["A"]))], [arch("A", res("x", "arch", ["B"])), arch("B", res("x", "arch", ["A"]))],
               [arch("A", res("x", "arch", ["B"])), arch("B", res("x", "arch", ["C"])), arch("C", res("x", "arch", ["A"]))],
               [arch("A", res("x", "arch", ["B"]), res("y", "arch", ["C"])), arch("B", res("x", "arch", ["C"])), arch("C")],
               [arch("A", res("x", "arch", ["B"]), res("y", "arch", ["B"])), arch("B")],
               [arch("A", res("x", "arch", ["B"], opt=True)), arch("B", res("x", "arch", ["A"], opt=True))]):
        out.append(wrap(*ds))
        out.append(wrap(*reversed(ds)))
    for b in (["x"], ["x", "y"], ["nope"], ["A.x"], ["B.z"], ["S"], ["x", "x2"]):
        out.append(wrap(S, arch("B", res("z", "raw")), arch("A", res("x", "raw"), res("y", "raw"), bound=[{"name": "e", "res": [ref(p.split("."), False) for p in b]}])))
    out.append(wrap(arch("A", res("x", "raw"), bound=[{"name": "x", "res": [ref(["x"], False)]}])))
    out.append(wrap(arch("A", res("x", "raw"), res("x", "raw"))))
    out.append(wrap(arch("A", res("x", "multi", ["S", "S"])), S))
    out.append(wrap(arch("A", dict(res("x", "multi", ["S"]), types=[ref(["S"], False), ref(["n", "S"], True)])), S))
    # the same name twice, also as a namespace, in any order
    for a, b in ((S, S), (S, C), (S, dict(S, name="C")), (dict(C, name="S"), S), (S, arch("S")), (C, dict(C, name="C"))):
        out.append(wrap(a, b))
        out.append([{"ns": ["n"], "defs": [a]}, {"ns": ["n"], "defs": [b]}])
        out.append([{"ns": ["n"], "defs": [a]}, {"ns": ["m"], "defs": [b]}])
    for sub in (["n", "S"], ["n", "S", "k"], ["n", "f"], ["S"], ["n", "T", "S"]):
        for d in (S, arch("S", res("f", "raw")), dict(C, name="S")):
            bs = [{"ns": ["n"], "defs": [d]}, {"ns": sub, "defs": [C]}]
            out += [bs, bs[::-1]]
    return out


def clash(n, res=None, arch=None):
    """n references whose parts join to the same letters"""
    res = res or (lambda name, kind, types=(), **kw: dict({"name": name, "kind": kind, "types": [ref([t], False) for t in types], "iw": 0, "opt": False, "refs": []}, **kw))
    parts = ["a", "b", "c", "d", "e"][:n + 1]
    fs = ["_".join(parts[:k]) for k in range(1, n + 1)]
    to = ["_".join(parts[k:]) for k in range(1, n + 1)]
    return wrap({"k": "struct", "name": "P", "fields": [u8(f) for f in fs]},
                {"k": "archive", "name": "A", "bound": [], "res": [res("x", "vec", ["P"], refs=[{"st": ref(["P"], False), "f": f, "dst": ref([t], False)} for f, t in zip(fs, to)])] + [res(t, "raw") for t in to]})


def g02(c):
    rng = c.rng
    items = [(s, schema.text(s, rng) if i % 3 else schema.text(s)) for i, s in enumerate(edges(rng, not c.quick))]
    run_one(c, items, "schemas at the limits of the rules", store=False)
    ms = make(rng, c.pick(900, 20000), (0, 0, 1, 1, 2, 3))
    run_one(c, [(s, schema.text(s, rng)) for s in ms], "random schemas", store=False)
    c.sample({"random schema": schema.text(ms[0])})
    # as a user runs it: an error means no output, acceptance means output, for every language
    wd = vf.scratch("cli")
    pick = rng.sample(ms, c.pick(48, 400))

    def cli(i, s):
        lang = ("cpp", "py", "flatdata", "rust", "dot")[i % 5]
        src, out = os.path.join(wd, "%d.flatdata" % i), os.path.join(wd, "%d.out" % i)
        with open(src, "w") as f:
            f.write(schema.text(s))
        p = vf.generate(lang, src, out)
        return {"k": "cli", "sch": s, "ok": p.returncode == 0, "made": os.path.exists(out), "lang": lang, "text": schema.text(s), "said": p.stdout.decode("utf-8", "replace")[-400:]}
    recs = vf.parallel([lambda i=i, s=s: cli(i, s) for i, s in enumerate(pick)])
    vf.validate(c, "SchemaTrace", recs, name="command line runs", ways=4, key=key)


# ---------------------------------------------------------------- G03
def edit(rng, sch):
    """Another schema, most often a small step away in meaning or only in form."""
    s = copy.deepcopy(sch)
    ds = schema.defs(s)
    k = rng.choice(("none", "shuffle", "unused", "spell", "width", "type", "swap", "rename", "const", "enum", "res", "opt", "multi", "range", "global", "constref", "move"))
    pick = lambda kind: rng.choice([d for _, _, d in ds if d["k"] == kind] or [None])
    if k == "shuffle":
        s = schema.shuffle(rng, s)
    elif k == "unused":
        s.insert(rng.randint(0, len(s)), {"ns": rng.choice((["zz"], ["zz", "y"], s[0]["ns"])), "defs": [
            {"k": "enum", "name": "zz1", "t": "u8", "w": 2, "vals": [{"name": "q", "has": False, "v": num(0)}]},
            {"k": "struct", "name": "zz2", "fields": [u8("f", t=ref(["zz1"], False))]},
            {"k": "archive", "name": "zz3", "bound": [], "res": [{"name": "x", "kind": "vec", "types": [ref(["zz2"], False)], "iw": 0, "opt": False, "refs": []}]}]})
    elif k == "spell":            # the same, said more explicitly
        full = {dot(p): d for p, _, d in schema.defs(s)}
        for p, ns, d in ds:
            if d["k"] == "enum":
                v = 0
                for x in d["vals"]:
                    v = val(x["v"]) if x["has"] else v
                    if rng.random() < .7:
                        x.update(has=True, v=num(v))
                    v += 1
                d["w"] = d["w"] or BASIC[d["t"]][0]
            if d["k"] == "struct":
                for f in d["fields"]:
                    if f["t"]["p"][0] in BASIC and len(f["t"]["p"]) == 1:
                        f["w"] = f["w"] or BASIC[f["t"]["p"][0]][0]
                    elif not f["t"]["q"] and dot(ns + f["t"]["p"]) in full and f["t"]["p"][0] not in {g["name"] for g in d["fields"]}:
                        f["t"] = ref(ns + f["t"]["p"], True)
    elif k in ("width", "type", "swap", "rename", "range", "constref"):
        d = pick("struct")
        if d:
            f = rng.choice(d["fields"])
            basic = len(f["t"]["p"]) == 1 and f["t"]["p"][0] in BASIC
            if k == "width" and basic:
                f["w"] = max(1, (f["w"] or BASIC[f["t"]["p"][0]][0]) + rng.choice((-1, 1)))
            elif k == "type" and basic:
                f["t"] = ref([rng.choice(list(BASIC))], False)
            elif k == "swap":
                rng.shuffle(d["fields"])
            elif k == "rename":
                f["name"] += "_"
            elif k == "range":
                f["range"] = "" if f["range"] else "zzr"
            elif k == "constref":
                if f["opt"] or f["const"]:
                    rng.choice([x for x in (f["opt"], f["const"]) if x]).pop()
    elif k == "const":
        d = pick("const")
        if d:
            d["v"] = num(val(d["v"]) + rng.choice((-1, 1)))
    elif k == "enum":
        d = pick("enum")
        if d:
            x = rng.choice(d["vals"])
            w = rng.random()
            if w < .4:
                x.update(has=True, v=num(val(x["v"]) + 1))
            elif w < .7:
                x["name"] += "_"
            else:
                d["vals"].append({"name": "zzv", "has": False, "v": num(0)})
    elif k in ("res", "opt", "multi"):
        d = pick("archive")
        if d and d["res"]:
            r = rng.choice(d["res"])
            if k == "opt":
                r["opt"] = not r["opt"]
            elif k == "multi":
                if r["kind"] == "multi":
                    if len(r["types"]) > 1 and rng.random() < .6:
                        r["types"].reverse()
                    else:
                        r["iw"] = 64 if r["iw"] != 64 else 33
                elif r["kind"] in ("inst", "vec"):
                    r["kind"] = "vec" if r["kind"] == "inst" else "inst"
            elif rng.random() < .5:
                rng.shuffle(d["res"])
            elif r["refs"] and rng.random() < .6:
                r["refs"].pop()
            else:
                d["res"].append({"name": "zzraw", "kind": "raw", "types": [], "iw": 0, "opt": True, "refs": []})
    elif k == "global":
        rng.choice(s)["defs"].append({"k": "const", "name": "zzc", "t": "i8", "v": num(rng.choice((-1, 5)))})
    elif k == "move":            # the definitions of a block in two blocks
        b = rng.choice(s)
        i = s.index(b)
        n = rng.randint(0, len(b["defs"]))
        s[i:i + 1] = [{"ns": b["ns"], "defs": b["defs"][:n]}, {"ns": b["ns"], "defs": b["defs"][n:]}]
    return s, k


def like(a, b):
    """the same definitions (constants are listed in the order of the namespaces they stand in)"""
    try:
        return bool(a) and set(a) == set(b) and all(sorted(map(json.dumps, schema.parse(a[k]))) == sorted(map(json.dumps, schema.parse(b[k]))) for k in a)
    except schema.Unreadable:
        return False


def g03(c):
    rng = c.rng
    ms = [s for s in make(rng, c.pick(120, 2500), (0,)) if any(d["k"] == "archive" for _, _, d in schema.defs(s))]
    ms += [clash(2), clash(3), clash(4)]
    plain = [(s, schema.text(s, rng)) for s in ms]
    a1 = run_one(c, plain, "stored schemas")
    # stored again from what was stored
    jobs, back = [], []
    for (s, t), g in zip(plain, a1):
        for p, ts in g.get("texts", {}).items():
            d = [x for q, _, x in schema.defs(s) if dot(q) == p][0]
            ns = [n for q, n, x in schema.defs(s) if dot(q) == p][0]
            jobs.append({"text": ts[""], "arch": {p: ["_".join(ns) + "_" + d["name"], d["name"]]}})
            back.append((s, t, p, ts))
    recs = []
    for (s, t, p, ts), g in zip(back, generator(jobs)):
        recs.append({"k": "again", "sch": s, "p": p.split("."), "again": g["ok"] and like(g.get("texts", {}).get(p), ts), "stored": ts[""], "text": t, "said": g.get("msg", g.get("fail", ""))})
    vf.validate(c, "SchemaTrace", recs, name="stored schemas stored again", ways=6, heap="3g",
                keyb=lambda r, bad: "crossing reference" if bad == ["crossing_reference"] else "again")
    # two schemas: the texts are the same exactly when the meaning is
    pairs = []
    for i in range(c.pick(300, 6000)):
        s, t = rng.choice(plain)
        o, how = edit(rng, s)
        if rng.random() < .3:
            o, h2 = edit(rng, o)
            how += "+" + h2
        pairs.append((s, o, how))
    ans = generator([job(o, schema.text(o, rng)) for _, o, _ in pairs])
    first = {json.dumps(s, sort_keys=True): g for (s, _), g in zip(plain, a1)}
    recs = []
    hows = {}
    for (s, o, how), g in zip(pairs, ans):
        if broken(c, o, schema.text(o), g):
            continue
        recs.append({"k": "one", "sch": o, "ok": g["ok"], "stored": [], "text": schema.text(o), "exc": g.get("exc", "")})
        f = first[json.dumps(s, sort_keys=True)]
        if g["ok"] and f["ok"]:
            same = [{"p": p.split("."), "res": n, "same": f["texts"][p][n] == g["texts"][p][n]} for p in f["texts"] if p in g["texts"] for n in f["texts"][p] if n in g["texts"][p]]
            recs.append({"k": "two", "sch": s, "other": o, "same": same, "how": how})
            hows[how.split("+")[0]] = hows.get(how.split("+")[0], 0) + 1
    vf.validate(c, "SchemaTrace", recs, name="pairs of schemas", ways=6, key=key, heap="3g")
    c.cov["edits"] = hows
    c.sample({"schema": plain[0][1], "stored": list(a1[0].get("texts", {}).items())[:1]})


CHECKS = {"G01": g01, "G02": g02, "G03": g03}
