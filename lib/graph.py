"""G05: what the generator makes depends on schema and language alone (Engine.tla); G06: the graph of a schema (GraphTrace.tla)."""
import os, re
import vf, schema, genlang

HIST = """SPECIFICATION Spec
CONSTANTS Good = {1, 2}
Wrong = {3}
Langs = {%s}
NoLang = "java"
Files = {"o", "d/e/o"}
MaxOps = %d
INVARIANTS Emit Kept OnlyResults Untouched
CHECK_DEADLOCK FALSE
"""
LANGS = ("cpp", "rust", "py", "go", "dot", "flatdata")


# ---------------------------------------------------------------- G05
def g05(c):
    rng = c.rng
    ls = ", ".join('"%s"' % g for g in LANGS)
    few = ", ".join('"%s"' % g for g in LANGS[:2])
    runs = vf.parallel([lambda: vf.tlc("Engine", HIST % (few, 3), workers=4, timeout=600)] +
                       [lambda k=k: vf.tlc("Engine", HIST % (ls, 14), workers=1, simulate=c.pick(30, 800), depth=15, seed=c.seed * 10 + k) for k in range(2)])
    for k, r in enumerate(runs):
        c.add_tlc(r, "generator runs %d" % k)
    short = runs[0].emitted
    rng.shuffle(short)
    hs = short[:c.pick(300, 6000)] + runs[1].emitted + runs[2].emitted
    # worlds: two schemas that are accepted and one that is not, of growing size
    ms = genlang.make(rng, 4000, (0, 0, 0, 1, 2))
    ans = genlang.generator([genlang.job(s, schema.text(s, rng), False) for s in ms[:600]])
    good = [schema.text(s, rng) for s, g in zip(ms, ans) if g.get("ok")]
    wrong = [schema.text(s, rng) for s, g in zip(ms, ans) if not g.get("ok")]
    good.sort(key=len)
    worlds = []
    for k in range(c.pick(10, 60)):
        a, b = rng.sample(good[len(good) // 2:], 2)
        worlds.append({"1": a, "2": b if k % 3 else good[rng.randrange(len(good))], "3": rng.choice(wrong)})
    parts = [[] for _ in worlds]
    for i, h in enumerate(hs):
        parts[i % len(worlds)].append(h)
    root = vf.scratch("g05")
    jobs = []
    for k, (w, p) in enumerate(zip(worlds, parts)):
        for half in range(2):           # the same schemas in two processes
            mine = p[half::2]
            rs = []
            for h in mine:
                fs = {f: None for f in h["files"]}
                for o in h["hist"]:
                    if o["op"] == "command" and o["before"] == ["old"]:
                        fs[o["f"]] = "what was there before\n" * rng.choice((1, 5000))
                rs.append({"files": fs, "ops": [dict(o, debug=rng.random() < .1) for o in h["hist"]]})
            # every language once, whatever the histories hold
            rs.append({"files": {"o": None, "d/e/o": None}, "ops": [{"op": "open", "s": 1}, {"op": "open", "s": 2}] + [{"op": "render", "e": e, "s": e, "g": g} for g in rng.sample(LANGS, 6) for e in (1, 2)]})
            jobs.append((k, {"schemas": w, "dir": os.path.join(root, "%d-%d" % (k, half)), "runs": rs}))
    res = vf.parallel([lambda i=i, j=j: vf.pydriver("gen_hist.py", j[1], timeout=800, env={"PYTHONHASHSEED": str(i * 7 + 1)}) for i, j in enumerate(jobs)], n=8)
    n = 0
    for k in range(len(worlds)):
        recs = []
        for (kk, j), rr in zip(jobs, res):
            if kk != k:
                continue
            for r, a in zip(j["runs"], rr):
                recs.append({"op": "start", "files": a["start"]})
                for o, x in zip(r["ops"], a["answers"]):
                    # what a language cannot express is not generated, and always so
                    recs.append(dict({q: o[q] for q in ("op", "s", "e", "g", "f") if q in o}, ok=x["ok"], sum=x["sum"], good=o["s"] != 3, lang=o.get("g") != "java", exc=x.get("exc", "")))
        cant = {}
        for x in recs:
            if x["op"] == "render" and x["exc"] and x["g"] != "java":
                cant.setdefault((x["s"], x["g"]), x["exc"])
        for x in recs:
            if (x.get("s"), x.get("g")) in cant:
                x["lang"] = False
        worlds[k] = (worlds[k], recs)
    for r in vf.parallel([lambda w=w: (w, collect(c, w[1])) for w in worlds], n=4):
        n += r[1]
    c.count("generator histories", len(hs))
    c.count("generator steps", n)
    c.sample({"schemas": worlds[0][0]})


def collect(c, recs):
    return vf.validate(c, "EngineTrace", recs, ways=1, key=lambda r: "%s %s" % (r["op"], r.get("g", "")))


# ---------------------------------------------------------------- G06
LEX = re.compile(r'\s+|//[^\n]*|(?P<html><)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<arrow>->)|(?P<id>[A-Za-z_0-9.#-]+?(?=->|[^A-Za-z_0-9.#-]|$))|(?P<p>[{}\[\];,=:])')


class NoGraph(Exception):
    pass


def tokens(t):
    at, out = 0, []
    while at < len(t):
        m = LEX.match(t, at)
        if not m:
            raise NoGraph("at %r" % t[at:at + 40])
        at = m.end()
        if m.group("html"):
            depth, b = 1, at
            while depth:
                if at >= len(t):
                    raise NoGraph("label without end")
                depth += {"<": 1, ">": -1}.get(t[at], 0)
                at += 1
            out.append(("html", t[b:at - 1]))
        elif m.group("str"):
            out.append(("id", m.group("str")[1:-1]))
        elif m.group("id"):
            out.append(("id", m.group("id")))
        elif m.group("arrow"):
            out.append(("->", "->"))
        elif m.group("p"):
            out.append((m.group("p"),) * 2)
    return out


def words(html):
    return [x.strip() for x in re.split(r"<[^>]*>", html) if x.strip()]


def parse(t):
    """A dot text as the graph it is: clusters, tables in them, arrows"""
    toks = tokens(t)
    pos = [0]

    def peek(k=0):
        return toks[pos[0] + k][0] if pos[0] + k < len(toks) else ""

    def take(kind):
        if peek() != kind:
            raise NoGraph("%s instead of %s at token %d" % (peek(), kind, pos[0]))
        pos[0] += 1
        return toks[pos[0] - 1][1]

    clusters, nodes, arrows = {}, {}, []

    def attrs():
        a = {}
        while peek() == "[":
            take("[")
            while peek() != "]":
                k = take("id")
                take("=")
                a[k] = toks[pos[0]]
                pos[0] += 1
                if peek() in (",", ";"):
                    take(peek())
            take("]")
        return a

    def body(at):
        take("{")
        while peek() != "}":
            if peek() == ";":
                take(";")
                continue
            name = take("id")
            if name == "subgraph":
                cid = take("id")
                x = clusters.setdefault(cid, {"label": None, "in": set()})
                x["in"].add(at)
                body(cid)
            elif peek() == "=":
                take("=")
                v = toks[pos[0]]
                pos[0] += 1
                if name == "label" and at:
                    clusters[at]["label"] = words(v[1])
            elif name in ("graph", "node", "edge"):
                attrs()
            else:
                port = None
                if peek() == ":":
                    take(":")
                    port = take("id")
                if peek() == "->":
                    take("->")
                    to = take("id")
                    a = attrs()
                    arrows.append((name, port, to, a["lhead"][1] if "lhead" in a else None))
                else:
                    a = attrs()
                    x = nodes.setdefault(name, {"in": set(), "label": ""})
                    x["in"].add(at)
                    if "label" in a:
                        x["label"] = a["label"][1]
        take("}")
    if take("id") != "digraph":
        raise NoGraph("no digraph")
    take("id")
    body("")
    if pos[0] != len(toks):
        raise NoGraph("more than a graph")

    def place(cid):
        if not cid:
            return []
        if cid not in clusters or len(clusters[cid]["in"]) != 1:
            raise NoGraph("cluster %s is %s" % (cid, "in several places" if cid in clusters else "nowhere"))
        return place(next(iter(clusters[cid]["in"]))) + [clusters[cid]["label"] or []]
    tables, ports = {}, {}
    for nid, x in nodes.items():
        if len(x["in"]) != 1:
            raise NoGraph("node %s in several places" % nid)
        rows = re.findall(r"<tr>(.*?)</tr>", x["label"], re.S)
        ws = [words(r) for r in rows]
        fields = [[w[0], w[2], w[4]] if len(w) == 5 and w[1] == w[3] == ":" else w for w in ws[1:]]
        tables[nid] = {"at": place(next(iter(x["in"]))), "table": {"title": (ws[0] or [""])[0] if ws else "", "fields": fields}}
        for r, f in zip(rows[1:], fields):
            for p in re.findall(r'port="([^"]*)"', r):
                if (nid, p) in ports:
                    raise NoGraph("port %s twice" % p)
                ports[nid, p] = f[0]
    out = []
    for a, p, b, head in arrows:
        if a not in tables or b not in tables or (a, p) not in ports:
            raise NoGraph("arrow from or to nothing: %s:%s -> %s" % (a, p, b))
        if head is None or place(head) != tables[b]["at"]:
            raise NoGraph("arrow into %s ends in %s" % (head, tables[b]["at"]))
        out.append(dict(tables[a], field=ports[a, p], to=tables[b]["at"], into=tables[b]["table"]))
    places = [place(x) for x in clusters]
    used = [t["at"] for t in tables.values()]
    # the place of the built-in types has nothing in it
    places = [p for p in places if ["_builtin"] not in p or any(["_builtin"] in u for u in used)]
    return {"clusters": places, "tables": list(tables.values()), "arrows": out}


def joined(s):
    """whether two different things have the same name once their paths are joined by '_'"""
    ps = [p for p, _, _ in schema.defs(s)]
    seen = {}
    for b in s:
        for n in range(1, len(b["ns"]) + 1):
            seen.setdefault("_".join(b["ns"][:n]), set()).add(tuple(b["ns"][:n]))
    for p, ns, d in schema.defs(s):
        for q in [p] + [p + [x["name"]] for x in d.get("res", []) + d.get("bound", []) + d.get("fields", [])]:
            seen.setdefault("_".join(q), set()).add(tuple(q))
    return any(len(v) > 1 for v in seen.values())


def special():
    """names that begin like others, or look like others when they are joined"""
    E = {"k": "enum", "name": "E", "t": "u8", "w": 2, "vals": [{"name": "X", "has": False, "v": schema.num(0)}]}
    F = lambda *t: {"name": "f", "t": schema.ref(t, True), "w": 0, "range": "", "const": [], "opt": []}
    S = lambda *t: {"k": "struct", "name": "S", "fields": [F(*t)]}
    R = lambda name, *t, **kw: dict({"name": name, "kind": "vec", "types": [schema.ref(t, True)], "iw": 0, "opt": False, "refs": []}, **kw)
    A = lambda name, *rs, **kw: dict({"k": "archive", "name": name, "bound": [], "res": list(rs)}, **kw)
    out = []
    for mine, other in ((["a"], ["ab"]), (["a"], ["a", "b"]), (["a", "b"], ["a"]), (["a"], ["a_"]), (["n", "a"], ["n", "ab", "c"])):
        out.append([{"ns": other, "defs": [E]}, {"ns": mine, "defs": [S(*other, "E"), A("A", R("r", *mine, "S"))]}])
    for a, r, b, q in (("G", "data_nodes", "G_data", "nodes"), ("G", "a_b", "G", "a"), ("G", "n_S", "G_n", "S")):
        if a != b:
            out.append([{"ns": ["n"], "defs": [E, S("n", "E"), A(a, R(r, "n", "S")), A(b, R(q, "n", "S"))]}])
    out.append([{"ns": ["a", "b"], "defs": [E, S("a", "b", "E"), A("A", R("r", "a", "b", "S"))]}, {"ns": ["a_b"], "defs": [S("a", "b", "E"), A("A", R("r", "a_b", "S"))]}])
    # what is bound several times, in parts, through another name or to another archive
    e = lambda dst: [{"st": schema.ref(["n", "S"], True), "f": "f", "dst": schema.ref(dst, True)}]
    for bound in ([("x", ["r"])], [("x", ["r", "q"]), ("y", ["r"])], [("x", ["r"]), ("y", ["x"])], [("x", ["raw"]), ("y", ["raw", "q"])], [("x", ["B.r"])], [("x", ["r", "B.r"]), ("y", ["B.r", "q"])]):
        bs = [{"name": n, "res": [schema.ref((["n"] if "." in p else ["n", "A"]) + p.split("."), True) for p in ps]} for n, ps in bound]
        for dst in (["n", "A", "r"], ["n", "A", "raw"], ["n", "B", "r"], ["n", "A", "x"], ["n", "A", "m"]):
            out.append([{"ns": ["n"], "defs": [E, S("n", "E"), A("B", R("r", "n", "S")), A("A", R("r", "n", "S", refs=e(dst)), R("q", "n", "S", refs=e(dst)), R("raw", kind="raw", types=[]),
                                                                                          R("m", "n", "S", kind="multi", iw=7, opt=True, refs=e(dst)), bound=bs)]}])
    return out


def g06(c):
    rng = c.rng
    ms = genlang.make(rng, c.pick(1600, 20000), (0, 0, 0, 0, 1))
    ms = special() + [s for s in genlang.edges(rng, not c.quick)] + ms
    texts = [schema.text(s, rng) for s in ms]
    parts = vf.chunks(list(zip(ms, texts)), 8)
    res = vf.parallel([lambda i=i, p=p: vf.pydriver("gen_dot.py", [t for _, t in p], timeout=800, env={"PYTHONHASHSEED": str(i + 1)}) for i, p in enumerate(parts)])
    recs = []
    n = 0
    for p, rr in zip(parts, res):
        for (s, t), g in zip(p, rr):
            if g.get("refused"):
                continue
            k = "joined names" if joined(s) else "graph"
            if "exc" in g:
                c.violation("no graph", {"schema": t, "answer": g["exc"]}, key="exception")
                continue
            try:
                recs.append({"k": k, "sch": s, "got": parse(g["ok"]), "text": t})
            except NoGraph as e:
                recs.append({"k": k, "sch": s, "got": {"clusters": [], "tables": [], "arrows": []}, "said": str(e), "text": t})
    vf.validate(c, "GraphTrace", recs, name="graphs", ways=8, key=lambda r: r["k"])
    c.count("graphs", len(recs))
    c.count("arrows", sum(len(r["got"]["arrows"]) for r in recs))
    c.count("bound resources", sum(1 for r in recs for p, ns, d in schema.defs(r["sch"]) if d["k"] == "archive" for b in d["bound"]))
    c.sample({"schema": recs[-1]["text"]})


CHECKS = {"G05": g05, "G06": g06}
