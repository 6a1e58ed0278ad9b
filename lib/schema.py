"""Schemas for Schema.tla: random ones (right and wrong), their texts in many spellings, and the way back."""
import re

BASIC = {"bool": (1, False)}
for _w in (8, 16, 32, 64):
    BASIC["u%d" % _w] = (_w, False)
    BASIC["i%d" % _w] = (_w, True)


def num(v):
    return {"neg": v < 0, "mag": [int(b) for b in reversed(bin(abs(v))[2:])] if v else []}


def val(n):
    v = sum(b << i for i, b in enumerate(n["mag"]))
    return -v if n["neg"] else v


def limits(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def dot(p):
    return ".".join(p)


def ref(p, q=True):
    return {"q": q, "p": list(p)}


def defs(sch):
    return [(b["ns"] + [d["name"]], b["ns"], d) for b in sch for d in b["defs"]]


# ---------------------------------------------------------------- text
class Style:
    """Spelling of a schema that does not change its meaning. rng None: the plain one."""

    def __init__(self, rng=None):
        self.rng = rng
        self.p = rng.choice((0, .1, .5)) if rng else 0

    def yes(self, p=None):
        return self.rng is not None and self.rng.random() < (self.p if p is None else p)

    def ws(self):
        if not self.yes():
            return " "
        return self.rng.choice(("  ", "\n", "\t", "\n\n  "))

    def doc(self):
        """comments are allowed in front of definitions, fields, values and resources"""
        if not self.yes():
            return ""
        return self.rng.choice(("// a comment: struct X { y : u8; }\n", "/* const u8 C = 1; */ ", "/// \"quoted\" \\ \n", "/** many\n * lines { */\n"))

    def lit(self, v):
        if not self.yes():
            return str(v)
        return self.rng.choice((str(v), ("-" if v < 0 else "") + hex(abs(v)), ("-" if v < 0 else "") + "0x%X" % abs(v) if abs(v) < 10 else ("-" if v < 0 else "") + "0x" + format(abs(v), "X")))


def rtext(r):
    return ("." if r["q"] else "") + dot(r["p"])


def dtext(d, s):
    w = s.ws
    if d["k"] == "const":
        return "%sconst%s%s%s%s%s=%s%s;" % (s.doc(), " ", d["t"], " ", d["name"], w(), w(), s.lit(val(d["v"])))
    if d["k"] == "enum":
        vs = []
        for v in d["vals"]:
            vs.append(s.doc() + v["name"] + ("%s=%s%s" % (w(), w(), s.lit(val(v["v"]))) if v["has"] else ""))
        return "%senum %s%s:%s%s%s%s{%s%s%s%s}" % (s.doc(), d["name"], w(), w(), d["t"], "%s:%s%d" % (w(), w(), d["w"]) if d["w"] else "", w(), w(), ("," + w()).join(vs), "," if s.yes() else "", w())
    if d["k"] == "struct":
        fs = []
        for f in d["fields"]:
            decs = ["@const(%s%s%s)%s" % (w(), rtext(x), w(), w()) for x in f["const"]] + ["@optional(%s%s%s)%s" % (w(), rtext(x), w(), w()) for x in f["opt"]]
            if f["range"]:
                decs.insert(s.rng.randint(0, len(decs)) if s.rng else 0, "@range(%s%s%s)%s" % (w(), f["range"], w(), w()))
            fs.append("%s%s%s%s:%s%s%s;" % (s.doc(), "".join(decs), f["name"], w(), w(), rtext(f["t"]), "%s:%s%d" % (w(), w(), f["w"]) if f["w"] else ""))
        return "%sstruct %s%s{%s%s%s}" % (s.doc(), d["name"], w(), w(), w().join(fs), w())
    rs = []
    for r in d["res"]:
        ds = ["@explicit_reference(%s%s.%s%s,%s%s%s)%s" % (w(), rtext(e["st"]), e["f"], w(), w(), rtext(e["dst"]), w(), w()) for e in r["refs"]]
        if r["opt"]:
            ds.insert(s.rng.randint(0, len(ds)) if s.rng else 0, "@optional" + w())
        ts = [rtext(t) for t in r["types"]]
        t = {"inst": lambda: ts[0], "vec": lambda: "vector<%s%s%s>" % (w(), ts[0], w()), "raw": lambda: "raw_data",
             "multi": lambda: "multivector<%s%d,%s%s%s>" % (w(), r["iw"], w(), ("," + w()).join(ts), w()), "arch": lambda: "archive " + ts[0]}[r["kind"]]()
        rs.append("%s%s%s%s:%s%s;" % (s.doc(), "".join(ds), r["name"], w(), w(), t))
    bs = ["@bound_implicitly(%s%s%s:%s%s)%s" % (w(), b["name"], w(), w(), ("," + w()).join(rtext(x) for x in b["res"]), w()) for b in d["bound"]]
    return "%s%sarchive %s%s{%s%s%s}" % (s.doc(), "".join(bs), d["name"], w(), w(), w().join(rs), w())


def text(sch, rng=None):
    s = Style(rng)
    out = []
    for b in sch:
        body = "\n".join(dtext(d, s) for d in b["defs"])
        if s.yes(.3) and len(b["ns"]) > 1:      # the same place, one block in another
            k = s.rng.randint(1, len(b["ns"]) - 1)
            out.append("namespace %s {\nnamespace %s {\n%s\n}\n}" % (dot(b["ns"][:k]), dot(b["ns"][k:]), body))
        else:
            out.append("namespace %s {\n%s\n}" % (dot(b["ns"]), body))
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- the way back
TOKEN = re.compile(r"\s*(//[^\n]*\n|/\*.*?\*/|@?[A-Za-z_.][A-Za-z_0-9.]*|-?\d[\w]*|[{}()<>:;,=])", re.S)


class Unreadable(Exception):
    pass


def parse(t):
    """A stored schema: the definitions in their order (names as written), with namespaces resolved into paths."""
    toks, at = [], 0
    t = t.rstrip()
    while at < len(t):
        m = TOKEN.match(t, at)
        if not m:
            raise Unreadable("at %r" % t[at:at + 40])
        if not m.group(1).startswith("/"):
            toks.append(m.group(1))
        at = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else ""

    def take(x=None):
        y = peek()
        if x is not None and y != x or not y:
            raise Unreadable("%r instead of %r at token %d" % (y, x, pos[0]))
        pos[0] += 1
        return y

    def name():
        x = take()
        if not re.fullmatch(r"[A-Za-z_][A-Za-z_0-9]*", x):
            raise Unreadable("%r is no name" % x)
        return x

    def path():
        x = take()
        if re.fullmatch(r"[A-Za-z_][A-Za-z_0-9]*", x) and x in BASIC:
            return [x]
        if not re.fullmatch(r"(\.[A-Za-z_][A-Za-z_0-9]*)+", x):
            raise Unreadable("%r is not resolved" % x)
        return x[1:].split(".")

    def literal():
        x = take()
        if not re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", x):
            raise Unreadable("%r is no number" % x)
        return int(x, 0)

    out = []

    def body(ns):
        while peek() not in ("", "}"):
            bound = []
            while peek() == "@bound_implicitly":
                take(); take("(")
                b = {"name": name(), "res": []}
                take(":")
                b["res"].append(path())
                while peek() == ",":
                    take()
                    b["res"].append(path())
                take(")")
                bound.append(b)
            k = take()
            if bound and k != "archive":
                raise Unreadable("decorated " + k)
            if k == "namespace":
                p = take().split(".")
                take("{")
                body(ns + p)
                take("}")
            elif k == "const":
                t = name()
                p = ns + [name()]
                take("=")
                out.append({"k": "const", "p": p, "t": t, "v": num(literal())})
                take(";")
            elif k == "enum":
                d = {"k": "enum", "p": ns + [name()], "vals": []}
                take(":")
                d["t"] = name()
                take(":")
                d["w"] = literal()
                take("{")
                while peek() != "}":
                    n = name()
                    take("=")
                    d["vals"].append({"name": n, "v": num(literal())})
                    if peek() == ",":
                        take()
                take("}")
                out.append(d)
            elif k == "struct":
                d = {"k": "struct", "p": ns + [name()], "fields": []}
                take("{")
                while peek() != "}":
                    f = {"range": "", "const": [], "opt": []}
                    while peek().startswith("@"):
                        a = take()
                        take("(")
                        if a == "@range":
                            f["range"] = name()
                        else:
                            f[{"@const": "const", "@optional": "opt"}[a]].append(path())
                        take(")")
                    f["name"] = name()
                    take(":")
                    f["t"] = path()
                    take(":")
                    f["w"] = literal()
                    take(";")
                    d["fields"].append(f)
                take("}")
                out.append(d)
            elif k == "archive":
                d = {"k": "archive", "p": ns + [name()], "bound": bound, "res": []}
                take("{")
                while peek() != "}":
                    r = {"opt": False, "refs": [], "iw": 0, "types": []}
                    while peek().startswith("@"):
                        a = take()
                        if a == "@optional":
                            r["opt"] = True
                            continue
                        if a != "@explicit_reference":
                            raise Unreadable(a)
                        take("(")
                        x = path()
                        take(",")
                        r["refs"].append({"st": x[:-1], "f": x[-1], "dst": path()})
                        take(")")
                    r["name"] = name()
                    take(":")
                    x = peek()
                    if x == "vector":
                        take(); take("<")
                        r.update(kind="vec", types=[path()])
                        take(">")
                    elif x == "multivector":
                        take(); take("<")
                        r.update(kind="multi", iw=literal(), types=[])
                        while peek() == ",":
                            take()
                            r["types"].append(path())
                        take(">")
                    elif x == "raw_data":
                        take()
                        r["kind"] = "raw"
                    elif x == "archive":
                        take()
                        r.update(kind="arch", types=[path()])
                    else:
                        r.update(kind="inst", types=[path()])
                    take(";")
                    d["res"].append(r)
                take("}")
                out.append(d)
            else:
                raise Unreadable(k)
    body([])
    if pos[0] != len(toks):
        raise Unreadable("rest at %d" % pos[0])
    return out


# ---------------------------------------------------------------- random schemas
POOL = ["a", "b", "c", "A", "B", "S", "T", "E", "F", "K", "first", "u9", "vectors", "structure"]
PLACES = [[["n"]], [["a"], ["b"]], [["a"], ["a", "b"], ["b"]], [["n", "m"], ["n"], ["n", "m", "k"]], [["a", "a"], ["a"], ["a", "a", "a"]], [["a"], ["ab"], ["ab", "c"], ["a", "bc"]]]


class Maker:
    def __init__(self, rng, faults):
        self.rng, self.faults = rng, faults
        self.sch, self.flat = [], []

    def slip(self, p=1.0):
        """whether to do something wrong here (a few times per schema at most)"""
        if self.faults > 0 and self.rng.random() < .06 * p:
            self.faults -= 1
            return True
        return False

    def name(self, used, pool=POOL):
        rng = self.rng
        if used and self.slip(.5):
            return rng.choice(sorted(used))
        for _ in range(30):
            n = rng.choice(pool) + ("" if rng.random() < .5 else str(rng.randint(0, 9)))
            if n not in used:
                return n
        return "x%d" % len(used)

    def refer(self, ns, kind, own=()):
        """a reference from a place in ns to a definition of a kind: qualified, local, or not what it should be"""
        rng = self.rng
        good = [p for p, k in self.flat if k == kind]
        if self.slip():
            w = rng.random()
            if w < .4:
                p = rng.choice([p for p, _ in self.flat] or [["x"]])
                return ref(p, True)
            if w < .7 and good:
                return ref(rng.choice(good)[-1:], False)
            if w < .85 and good:
                p = rng.choice(good)
                return ref(p[rng.randint(1, len(p) - 1):], rng.random() < .5)
            return ref([rng.choice(POOL)] * rng.choice((1, 1, 2)), rng.random() < .3)
        if not good:
            return None
        p = rng.choice(good)
        if p[:len(ns)] == ns and rng.random() < .7:
            q = p[len(ns):]
            if q and q[0] not in own and q[0] not in BASIC:
                return ref(q, False)
        return ref(p, True)

    def const(self):
        rng = self.rng
        t = rng.choice(list(BASIC))
        w, s = BASIC[t]
        lo, hi = limits(w, s)
        v = rng.choice((lo, hi, 0, 1, min(hi, 5), rng.randint(lo, hi), max(lo, -1)))
        if self.slip(2):
            v = rng.choice((lo - 1, hi + 1, -1 if not s else hi + 1, 2 * hi + 1, 2 * lo))
        return {"k": "const", "t": t, "v": num(v)}

    def enum(self):
        rng = self.rng
        t = rng.choice(["bool", "u8", "i8", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"])
        full, s = BASIC[t]
        w = min(full, rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 8)))
        n = rng.choice((1, 2, 3, 4, 5))
        if full > 8 and rng.random() < .03:
            w, n = 9, rng.choice((127, 128, 129))
        if self.slip(2):
            w = rng.choice((full + 1, 9, 10, 16, full))
        lo, hi = limits(w, s)
        vals, cur, used, names = [], 0, set(), set()
        for i in range(n):
            has = rng.random() < .5
            v = cur
            if has or not lo <= v <= hi or v in used:
                has = True
                v = rng.choice((lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)))
                for _ in range(2000):
                    if v not in used:
                        break
                    v = rng.randint(lo, hi)
                if v in used:
                    break
            if self.slip():
                has, v = True, rng.choice((lo - 1, hi + 1, rng.choice(sorted(used) or [0]), -1, 1 << 70))
            elif self.slip(.5):
                has, v = False, cur
            nm = self.name(names)
            if self.slip(.3):
                u = rng.randint(max(lo, -9), min(hi, 9)) if lo <= hi else 0
                nm = "UNKNOWN_VALUE_" + str(u).replace("-", "MINUS_")
            names.add(nm)
            used.add(v)
            vals.append({"name": nm, "has": has, "v": num(v if has else 0)})
            cur = v + 1
        return {"k": "enum", "t": t, "w": 0 if w == full and rng.random() < .5 else w, "vals": vals}

    def find(self, p):
        for q, _, d in defs(self.sch):
            if q == p:
                return d
        return None

    def struct(self, ns):
        rng = self.rng
        fs, used = [], set()
        for i in range(rng.choice((1, 1, 2, 3, 4))):
            used.add(self.name(used, POOL))
            n = sorted(used)[-1]
            fs.append({"name": n, "range": "", "const": [], "opt": []})
        names, seen = [], set()
        for f in fs:
            f["name"] = self.name(seen)
            seen.add(f["name"])
        for f in fs:
            if rng.random() < .25:
                r = self.refer(ns, "enum", seen)
                if r:
                    f["t"] = r
                    e = self.find(r["p"] if r["q"] else ns + r["p"])
                    w = 0
                    if e is not None and e["k"] == "enum":
                        w = e["w"] or BASIC[e["t"]][0]
                    f["w"] = 0 if rng.random() < .5 else w
                    if self.slip(2):
                        f["w"] = rng.choice((1, 7, 8, 64))
            if "t" not in f:
                t = rng.choice(list(BASIC))
                full = BASIC[t][0]
                f["t"] = ref([t], False)
                f["w"] = rng.choice((0, full, rng.randint(1, full), rng.randint(1, full)))
                if self.slip(2):
                    f["w"] = rng.choice((full + 1, 65))
                for _ in range(rng.choice((0, 0, 1, 2))):
                    cs = [(p, d) for p, _, d in defs(self.sch) if d["k"] == "const"]
                    fit = [(p, d) for p, d in cs if d["t"] == t and limits(f["w"] or full, BASIC[t][1])[0] <= val(d["v"]) <= limits(f["w"] or full, BASIC[t][1])[1]]
                    pick = rng.choice(cs if cs and self.slip(2) else fit or [None])
                    if pick is None:
                        continue
                    p = pick[0]
                    r = ref(p[len(ns):], False) if p[:len(ns)] == ns and rng.random() < .6 and p[len(ns)] not in seen else ref(p, True)
                    kind = "opt" if not f["opt"] and rng.random() < .5 else "const"
                    if kind == "const" and f["opt"] == [] and self.slip():
                        kind = "opt"
                    if any(x["p"][-1] == r["p"][-1] for x in f["const"] + f["opt"]):
                        continue
                    f[kind].append(r)
                if self.slip(.6) and f["opt"]:      # a second sentinel
                    r = self.refer(ns, "const", seen)
                    if r and all(x["p"][-1] != r["p"][-1] for x in f["const"] + f["opt"]):
                        f["opt"].append(r)
            if BASIC.get(f["t"]["p"][0], (0, True))[1] is False and rng.random() < .1 and (not f["opt"] or self.slip(3)):
                f["range"] = self.name(seen) if not self.slip(2) else rng.choice(sorted(seen))
                if any(g is not f and g["range"] for g in fs):
                    f["range"] = ""
        return {"k": "struct", "fields": fs}

    def archive(self, ns, name):
        rng = self.rng
        d = {"k": "archive", "res": [], "bound": []}
        names = set()
        for i in range(rng.choice((0, 1, 2, 3, 4))):
            r = {"name": self.name(names, POOL[:3] + ["x", "y", "data", "nodes"]), "iw": 0, "types": [], "opt": rng.random() < .3, "refs": []}
            r["kind"] = rng.choice(("inst", "vec", "vec", "multi", "raw", "arch"))
            names.add(r["name"])
            d["res"].append(r)
        for r in list(d["res"]):
            k = r["kind"]
            n = {"inst": 1, "vec": 1, "multi": rng.choice((1, 2, 3)), "raw": 0, "arch": 1}[k]
            if k == "multi":
                r["iw"] = rng.choice((1, 8, 32, 33, 64))
            for _ in range(n):
                t = self.refer(ns, "archive" if k == "arch" else "struct", names)
                if k == "arch" and rng.random() < .1 and self.slip(8):
                    t = rng.choice((ref([name], False), ref(ns + [name], True)))
                if t is None or (any(x["p"][-1] == t["p"][-1] for x in r["types"]) and not self.slip(3)):
                    continue
                x = self.find(t["p"] if t["q"] else ns + t["p"])
                if x and x["k"] == "struct" and k in ("inst", "multi") and any(f["range"] for f in x["fields"]) and not self.slip(3):
                    continue
                r["types"].append(t)
            if n and not r["types"]:
                d["res"].remove(r)
        for r in d["res"]:
            if r["kind"] in ("raw", "arch") and not self.slip():
                continue
            for _ in range(rng.choice((0, 0, 1, 2))):
                ts = r["types"] if not self.slip(2) else [self.refer(ns, "struct", names)]
                if not ts or ts[0] is None:
                    continue
                t = rng.choice(ts)
                x = self.find(t["p"] if t["q"] else ns + t["p"])
                fn = rng.choice([f["name"] for f in x["fields"]]) if x and x["k"] == "struct" and not self.slip() else rng.choice(POOL)
                o = rng.choice(d["res"])["name"]
                w = rng.random()
                dst = ref([o], False) if w < .5 else ref([name, o], False) if w < .65 and name not in names else ref(ns + [name, o], True)
                if rng.random() < .12:      # a resource of an archive elsewhere
                    out = [(p, y) for p, _, y in defs(self.sch) if y["k"] == "archive" and y["res"]]
                    if out:
                        p, y = rng.choice(out)
                        dst = ref(p + [rng.choice(y["res"])["name"]], True)
                if self.slip(2):
                    dst = rng.choice((ref([rng.choice(POOL)], False), ref(ns + [name], True), t))
                e = {"st": dict(t), "f": fn, "dst": dst}
                if rng.random() < .05 or all(y["f"] != e["f"] or y["dst"]["p"][-1:] != e["dst"]["p"][-1:] for y in r["refs"]):
                    r["refs"].append(e)
        if d["res"] and rng.random() < .3:
            k = rng.randint(1, len(d["res"]))
            b = {"name": self.name(names), "res": [ref([x["name"]], False) if rng.random() < .6 else ref(ns + [name, x["name"]], True) for x in rng.sample(d["res"], k)]}
            if self.slip(3):
                b["res"].append(ref([rng.choice(POOL)], False))
            d["bound"].append(b)
        return d

    def make(self):
        rng = self.rng
        places = rng.choice(PLACES)
        taken = {dot(p[:i]) for p in places for i in range(1, len(p) + 1)}
        kinds = ["const"] * rng.choice((0, 1, 2, 4)) + ["enum"] * rng.choice((0, 1, 2)) + ["struct"] * rng.choice((1, 2, 3, 4)) + ["archive"] * rng.choice((1, 1, 2, 3))
        for k in kinds:
            ns = rng.choice(places)
            block = None
            cand = [b for b in self.sch if b["ns"] == ns]
            if cand and rng.random() < .8:
                block = rng.choice(cand)
            else:
                block = {"ns": list(ns), "defs": []}
                self.sch.append(block)
            while True:
                used = {p[-1] for p, kk in self.flat if p[:-1] == ns}
                name = self.name(used)
                if dot(ns + [name]) not in taken or self.slip(2):
                    break
            d = {"const": self.const, "enum": self.enum, "struct": lambda: self.struct(ns), "archive": lambda: self.archive(ns, name)}[k]()
            d["name"] = name
            block["defs"].append(d)
            self.flat.append((ns + [name], k))
        if not self.sch:
            self.sch = [{"ns": ["n"], "defs": []}]
        return self.sch


def shuffle(rng, sch):
    """Another order of the definitions (constants keep theirs: they are listed in it)."""
    out = []
    for b in sch:
        cs = [d for d in b["defs"] if d["k"] == "const"]
        os = [d for d in b["defs"] if d["k"] != "const"]
        rng.shuffle(os)
        ds = []
        while cs or os:
            ds.append((cs if cs and (not os or rng.random() < .5) else os).pop(0))
        out.append({"ns": b["ns"], "defs": ds})
    return out
