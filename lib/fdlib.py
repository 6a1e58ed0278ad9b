"""Between the drivers and the specification: values, contents, file maps, damage."""
import json, os, tarfile, io
import vf, model, cppdrv
from model import le8, val8, by_name, M64


# ---------------------------------------------------------------- values
def rand_value(rng, w, s, flavour=None):
    """u64 two's complement of a value representable in the field."""
    k = rng.randrange(7) if flavour is None else flavour
    hi = (1 << w) - 1
    raw = [0, hi, 1 << (w - 1), hi >> 1, 1, rng.getrandbits(w), rng.getrandbits(w)][k] & hi
    if s and w > 1 and raw >> (w - 1):
        raw |= M64 & ~hi
    return raw


def rand_vals(rng, m, sname, nones=True):
    s = by_name(m["structs"])[sname]
    res = []
    for f in s["fields"]:
        w, sg = model.field_info(m, f)
        if f.get("opt") and nones and rng.random() < .35:
            res.append(None)
        else:
            res.append(rand_value(rng, w, sg))
    return res


def rand_contents(rng, m, arch, sizes=(0, 1, 2, 3, 5), p_opt=.5, nones=True):
    c = {}
    for r in by_name(m["archives"])[arch]["res"]:
        if r.get("opt") and rng.random() >= p_opt:
            continue
        k = r["kind"]
        if k == "inst":
            c[r["name"]] = rand_vals(rng, m, r["types"][0], nones)
        elif k == "vec":
            c[r["name"]] = [rand_vals(rng, m, r["types"][0], nones) for _ in range(rng.choice(sizes))]
        elif k == "multi":
            c[r["name"]] = [[(t, rand_vals(rng, m, t, nones)) for t in [rng.choice(r["types"]) for _ in range(rng.choice((0, 1, 2, 4, 1, 2, 11)))]]
                            for _ in range(rng.choice(sizes))]
        elif k == "raw":
            n = rng.choice((0, 1, 7, 8, 9, 30))
            c[r["name"]] = bytes(rng.choice((0, 0, 65, 255, rng.randrange(256))) for _ in range(n)).hex()
        else:
            c[r["name"]] = rand_contents(rng, m, r["arch"], sizes, p_opt, nones)
    return c


def jv(v):
    return [] if v is None else le8(v)


def res_of(m, arch):
    return by_name(by_name(m["archives"])[arch]["res"])


def contents_tla(m, arch, c):
    """Contents (or a driver's dump of them) as the trace records carry them."""
    out = {}
    rs = res_of(m, arch)
    for n, v in c.items():
        if v is None:
            continue
        k = rs[n]["kind"]
        if k == "inst":
            out[n] = [jv(x) for x in v]
        elif k == "vec":
            out[n] = [[jv(x) for x in e] for e in v]
        elif k == "multi":
            out[n] = [[[t, [jv(x) for x in e]] for t, e in it] for it in v]
        elif k == "raw":
            out[n] = list(bytes.fromhex(v))
        else:
            out[n] = contents_tla(m, rs[n]["arch"], v)
    return out


def dump_tla(m, arch, d, lang):
    """A driver's dump as {open, res} / {open, err}; resources reported as none are dropped."""
    if not isinstance(d, dict) or "open" not in d:
        return {"open": False, "err": "crash"}
    if not d["open"]:
        e = d.get("exc", "")
        return {"open": False, "msg": d.get("msg", ""), "err": {"MissingResourceError": "missing", "SchemaMismatchError": "mismatch",
                                       "CorruptResourceError": "corrupt"}.get(e, "other:" + e)}
    return {"open": True, "res": contents_tla(m, arch, strip(m, arch, d["res"], lang))}


def strip(m, arch, res, lang):
    out = {}
    rs = res_of(m, arch)
    for n, v in res.items():
        if v is None:
            continue
        k = rs[n]["kind"]
        if k == "multi":
            short = {model.pyname(m, s["name"]): s["name"] for s in m["structs"]} if lang == "py" else {}
            v = [[[short.get(t, t), e] for t, e in it] for it in v["items"]]
        elif k == "arch":
            v = strip(m, rs[n]["arch"], v.get("res", {}), lang)
        out[n] = v
    return out


# ---------------------------------------------------------------- files
class Schemas:
    """Symbol <-> text of every schema of a model (the texts as the generated Python module holds them)."""

    def __init__(self, m):
        self.m = m
        archs = [a["name"] for a in m["archives"]]
        t = vf.pydriver("fd_py.py", {"schemas": {"s": model.text(m)}, "jobs": [{"op": "schemas", "schema": "s", "archs": archs}]})[0]
        if "fail" in t:
            raise cppdrv.GenerationFailed(t["fail"])
        self.text = {}
        for a in archs:
            for n, s in t[a].items():
                n = "" if n.endswith(".archive") else n
                self.text["S:%s.%s" % (a, n)] = s
                if n and res_of(m, a)[n]["kind"] == "multi":
                    self.text["I:%s.%s" % (a, n)] = "index(%s)" % s

    def symbol(self, arch, base, data):
        """symbol of the schema file `base`.schema of archive `arch` if data is one of arch's texts, else '?'"""
        try:
            s = data.decode()
        except UnicodeDecodeError:
            return "?"
        if base == arch + ".archive":
            want = "S:%s." % arch
        elif base.endswith("_index") and "I:%s.%s" % (arch, base[:-6]) in self.text:
            want = "I:%s.%s" % (arch, base[:-6])
        else:
            want = "S:%s.%s" % (arch, base)
        if self.text.get(want) == s:
            return want
        for k, v in self.text.items():
            if v == s:
                return k
        return "?%d" % len(s)


def read_tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def write_tree(root, files):
    for p, b in files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(b)


def arch_at(m, arch, pre):
    for part in [x for x in pre.split("/") if x]:
        r = res_of(m, arch).get(part)
        if r is None or r["kind"] != "arch":
            return None
        arch = r["arch"]
    return arch


def files_tla(sch, arch, files):
    """{path: bytes} -> {path: {k, b}}"""
    out = {}
    for p, b in files.items():
        pre, base = os.path.split(p)
        if base.endswith(".schema"):
            a = arch_at(sch.m, arch, pre)
            out[p] = {"k": "schema", "b": sch.symbol(a, base[:-7], b) if a else "?"}
        else:
            out[p] = {"k": "data", "b": list(b)}
    return out


def materialize(sch, files):
    """{path: {k,b}} of the specification -> {path: bytes}; symbols 'X' or '<mutation>|X'"""
    out = {}
    for p, f in files.items():
        if f["k"] == "data":
            out[p] = bytes(f["b"])
        elif f["k"] == "schema":
            out[p] = sym_bytes(sch, f["b"])
    return out


def sym_bytes(sch, sym):
    mut, _, base = sym.rpartition("|")
    t = sch.text[base].encode()
    n = len(t)
    if not mut:
        return t
    return {"empty": b"", "prefix": t[:-1], "head": t[:n // 2], "tail": t[1:], "extended": t + b"\n", "nul": t + b"\0", "crlf": t.replace(b"\n", b"\r\n"), "blank": t + b" ", "lead": b"\n" + t, "doubled": t + t,
            "first": bytes([t[0] ^ 1]) + t[1:], "middle": t[:n // 2] + bytes([t[n // 2] ^ 1]) + t[n // 2 + 1:],
            "last": t[:-1] + bytes([t[-1] ^ 2]), "binary": t[:n // 2] + b"\xff" + t[n // 2 + 1:],
            "case": t.swapcase(), "nulmid": t[:n // 2] + b"\0" + t[n // 2:]}[mut]


def make_tar(path, files, dirs=True, dot=False, fmt=tarfile.GNU_FORMAT, order=None, sub=""):
    """Pack {path: bytes}; optionally with directory members, with leading './', shuffled, below a folder."""
    sub = sub + "/" if sub else ""
    files = {sub + n: b for n, b in files.items()}
    names = sorted(files)
    if order:
        order.shuffle(names)
    ds = sorted({"/".join(n.split("/")[:i]) for n in names for i in range(1, len(n.split("/")))})
    with tarfile.open(path, "w", format=fmt) as t:
        pre = "./" if dot else ""
        if dirs:
            for d in (["."] if dot else []) + [pre + d for d in ds]:
                ti = tarfile.TarInfo(d)
                ti.type = tarfile.DIRTYPE
                t.addfile(ti)
        for n in names:
            ti = tarfile.TarInfo(pre + n)
            ti.size = len(files[n])
            ti.mtime = 1500000000
            ti.uname = "user"
            t.addfile(ti, io.BytesIO(files[n]))


# ---------------------------------------------------------------- building through the C++ driver
def vals_tok(vals):
    return " ".join("none" if v is None else str(v) for v in vals)


def set_line(m, bid, r, v):
    k = r["kind"]
    if k == "inst":
        return "set %s %s %s" % (bid, r["name"], vals_tok(v))
    if k == "vec":
        return "set %s %s %d %s" % (bid, r["name"], len(v), " ".join(vals_tok(e) for e in v))
    return "set %s %s %s" % (bid, r["name"], v or "-")


def item_tok(r, item):
    return "%d %s" % (len(item), " ".join("%d %s" % (r["types"].index(t), vals_tok(e)) for t, e in item))


def build_lines(rng, m, arch, contents, bid, pfx="", how=None):
    """Driver lines that write contents through builder bid, in random order and by random means."""
    rs = res_of(m, arch)
    names = list(contents)
    rng.shuffle(names)
    out = []
    for n in names:
        r, v = rs[n], contents[n]
        k = r["kind"]
        if k == "arch":
            out.append("sub %s%s %s %s" % (bid, n, bid, n))
            out += build_lines(rng, m, r["arch"], v, bid + n, pfx, how)
        elif k == "multi" or (k == "vec" and (rng.random() < .5 if how is None else how == "start")):
            g = "g%s%s" % (bid, n)
            out.append("start %s %s %s" % (g, bid, n))
            for e in v:
                out.append("grow %s %s" % (g, item_tok(r, e) if k == "multi" else vals_tok(e)))
            out.append("close %s" % g)
        else:
            out.append(set_line(m, bid, r, v))
    return out


# ---------------------------------------------------------------- building through the Python driver
def py_value(m, r, v):
    def d(sname, vals):
        s = by_name(m["structs"])[sname]
        consts = by_name(m.get("consts", []))
        o = {}
        for f, x in zip(s["fields"], vals):
            if x is None:
                o[f["name"]] = int(consts[f["opt"]]["value"])
            else:
                sg = model.field_info(m, f)[1]
                o[f["name"]] = x - (1 << 64) if sg and x >> 63 else x
        return o
    k = r["kind"]
    if k == "inst":
        return d(r["types"][0], v)
    if k == "vec":
        return [d(r["types"][0], e) for e in v]
    if k == "multi":
        return [[{"name": model.pyname(m, t), "attributes": d(t, e)} for t, e in it] for it in v]
    return v


def py_steps(rng, m, arch, contents):
    rs = res_of(m, arch)
    names = list(contents)
    rng.shuffle(names)
    return [{"open": 1}] + [{"res": n, "kind": rs[n]["kind"], "value": py_value(m, rs[n], contents[n])} for n in names] + [{"finish": 1}]
