"""P01, P02: reading access in Python; accesses enumerated by AccessMC.tla, answers judged by AccessTrace.tla."""
import json, os
import vf, model, gen, cppdrv
from fdlib import *
from layout import opt_bytes, rand_bytes, nbytes

SLICES = """SPECIFICATION SliceSpec
CONSTANTS MaxLen = %d
Reach = %d
MaxStep = 4
Alphabet = {}
MaxBytes = 0
INVARIANTS EmitSlice Inside Even Split Backwards Stride Full
CHECK_DEADLOCK FALSE
"""
STRINGS = """SPECIFICATION PaySpec
CONSTANTS MaxLen = 0
Reach = 0
MaxStep = 1
Alphabet = {0, 44, 97}
MaxBytes = %d
INVARIANTS EmitPay Whole Clean First
CHECK_DEADLOCK FALSE
"""
SEPS = [[0], [44], [0, 0], [44, 0], [97, 97]]


def frame(b):
    return len(b).to_bytes(8, "little") + b + b"\0" * 8


class Stored:
    """Archives of raw bytes, put together resource by resource."""

    def __init__(self, c, m):
        self.c, self.m = c, m
        self.text = model.text(m)
        self.sch = Schemas(m)
        self.root = vf.scratch("acc")
        self.jobs, self.parts = [], []

    def add(self, contents, tar=False, arch="Arch"):
        """contents: {resource: (payload, index or None, [ops])}"""
        rs = res_of(self.m, arch)
        files = {arch + ".archive": frame(b""), arch + ".archive.schema": self.sch.text["S:%s." % arch].encode()}
        work, loads = [], []
        for n, (b, ix, ops) in contents.items():
            files[n] = frame(b)
            files[n + ".schema"] = self.sch.text["S:%s.%s" % (arch, n)].encode()
            if ix is not None:
                files[n + "_index"] = frame(ix)
                files[n + "_index.schema"] = self.sch.text["I:%s.%s" % (arch, n)].encode()
            work.append([n, rs[n]["kind"], ops])
            loads.append({"op": "load", "kind": rs[n]["kind"], "types": rs[n].get("types", []), "iw": rs[n].get("width", 0), "b": list(b), "index": list(ix or b"")})
        d = os.path.join(self.root, "a%d" % len(self.jobs))
        if tar:
            d += ".tar"
            make_tar(d, files)
        else:
            write_tree(d, files)
        self.jobs.append({"op": "access", "schema": "s", "path": d, "tar": tar, "arch": arch, "work": work, "pre": len(self.m["ns"].replace(".", "_")) + 1})
        self.parts.append(loads)

    def judge(self, name, ways=8):
        c = self.c
        cj = vf.chunks(list(zip(self.jobs, self.parts)), ways)
        res = vf.parallel([lambda x=x: vf.pydriver("fd_py.py", {"schemas": {"s": self.text}, "jobs": [j for j, _ in x]}) for x in cj])
        recs = []
        for x, ans in zip(cj, res):
            for (j, loads), a in zip(x, ans):
                if isinstance(a, dict):
                    c.violation("an intact archive does not open", {"schema": self.text, "answer": a}, key="open")
                    continue
                for (n, k, ops), ld, r in zip(j["work"], loads, a):
                    recs.append(ld)
                    recs += [dict(o, got=g) for o, g in zip(ops, r)]
                    c.count("accesses to %s" % {"vec": "vectors", "inst": "instances", "multi": "multivectors", "raw": "raw data"}[k], len(ops))
        self.c.traces -= len([r for r in recs if r["op"] == "load"])
        vf.validate(c, "AccessTrace", recs, name=name, ways=ways, start=lambda r: r["op"] == "load", extra={"model.json": json.dumps(model.tla(self.m))}, key=lambda r: r["op"])


def multi_bytes(rng, m, r, n):
    """A multivector of n items over random memory."""
    st = by_name(m["structs"])
    data, offs = b"", [0]
    for _ in range(n):
        for _ in range(rng.choice((0, 0, 1, 2, 3))):
            t = rng.randrange(len(r["types"]))
            data += bytes([t]) + rand_bytes(rng, nbytes(m, st[r["types"][t]]))
        offs.append(len(data))
    z = (r["width"] + 7) // 8
    return data, b"".join(o.to_bytes(8, "little")[:z] for o in offs)


def rand_int(rng, n):
    return rng.choice((0, 1, -1, n, -n, n - 1, n + 1, -n - 1, rng.randint(-n - 3, n + 3), rng.choice((10 ** 9, -10 ** 9))))


def rand_slice(rng, n):
    f = lambda: [] if rng.random() < .2 else [rand_int(rng, n)]
    return {"a": f(), "b": f(), "s": [] if rng.random() < .3 else [rng.choice((1, 1, -1, 2, -2, 3, -3, 7, -7, n or 1, -n or 1))]}


def vec_ops(rng, m, s, n, slices):
    fs = [f["name"] for f in s["fields"]]
    whole = {"a": [], "b": [], "s": []}
    ops = [{"op": "len"}, {"op": "iter"}, {"op": "same"}, {"op": "table"}] + [{"op": "at", "i": i} for i in range(-n - 2, n + 2)]
    ops += [dict(whole, op="column", whole=True, f=f) for f in fs[:2] + fs[-1:]]
    ops += [{"op": "elem", "i": rng.randrange(n)} for _ in range(min(n, 2))]
    for x in slices:
        ops.append(dict(x, op="slice"))
        k = rng.randrange(6)
        if k < 2:
            ops.append(dict(x, op="numpy", lim=rng.choice(([], [], [0], [1], [2], [n], [n + 1]))))
        elif k == 2:
            ops.append(dict(x, op="frame", lim=rng.choice(([], [0], [1], [2], [n], [n + 2]))))
        elif k == 3:
            ops.append(dict(x, op="column", f=rng.choice(fs)))
    ops.append({"op": "iter"})
    return ops


def p01(c):
    rng = c.rng
    reach, maxlen = c.pick((5, 4), (8, 6))
    r = vf.tlc("AccessMC", SLICES % (maxlen, reach), workers=4, timeout=800, extra_files={"model.json": json.dumps({"structs": {}, "archives": {}, "seps": SEPS})})
    c.add_tlc(r, "Access/slices")
    by = {}
    for e in r.emitted:
        by.setdefault(e["n"], []).append({k: e[k] for k in "abs"})
    c.count("slices enumerated", len(r.emitted))
    for wi in range(c.pick(2, 6)):
        m = gen.rand_structs(rng, 10, ns=rng.choice(("n", "a.b")), nranges=2, maxbits=200, wide=True)
        st = by_name(m["structs"])
        names = [s["name"] for s in m["structs"] if not model.has_range(s)]
        res = [{"name": "v_" + s["name"].lower(), "kind": "vec", "types": [s["name"]]} for s in m["structs"]]
        res += [{"name": "i%d" % i, "kind": "inst", "types": [rng.choice(names)]} for i in range(4)]
        res += [{"name": "m%d" % i, "kind": "multi", "types": rng.sample(names, rng.randint(1, 4)), "width": rng.choice((16, 24, 31, 32, 33, 40, 64))} for i in range(3)]
        m["archives"] = [{"name": "Arch", "res": res}]
        try:
            st_ = Stored(c, m)
        except cppdrv.GenerationFailed as e:
            c.violation("a valid schema does not produce working code", {"schema": model.text(m), "error": str(e)[-1500:]}, key="generate")
            continue
        sizes = list(by) + [rng.randint(maxlen + 1, 40) for _ in range(c.pick(3, 10))]
        for n in sizes:
            full = by.get(n)
            if full:
                full = list(full)
                rng.shuffle(full)
            cont = {}
            seq = [r for r in res if r["kind"] in ("vec", "multi")]
            for i, r in enumerate(seq):
                # every slice of a small length is taken somewhere
                sl = full[i::len(seq)] if full else [rand_slice(rng, n) for _ in range(c.pick(20, 60))]
                if r["kind"] == "vec":
                    s = st[r["types"][0]]
                    b = b"".join(opt_bytes(rng, m, s) if rng.random() < .5 else rand_bytes(rng, nbytes(m, s)) for _ in range(n))
                    cont[r["name"]] = (b, None, vec_ops(rng, m, s, n, sl))
                else:
                    b, ix = multi_bytes(rng, m, r, n)
                    ops = [{"op": "len"}, {"op": "iter"}, {"op": "same"}] + [{"op": "at", "i": k} for k in range(-n - 2, n + 2)] + [dict(x, op="slice") for x in sl] + [{"op": "iter"}]
                    cont[r["name"]] = (b, ix if n or rng.random() < .5 else b"", ops)
            for r in res:
                if r["kind"] == "inst":
                    s = st[r["types"][0]]
                    ops = [{"op": "len"}, {"op": "iter"}, {"op": "elem", "i": 0}] + [{"op": "at", "i": k} for k in range(-3, 4)] + [dict(rand_slice(rng, 1), op="slice") for _ in range(4)]
                    ops += [{"op": "attr", "f": f["name"]} for f in s["fields"]]
                    cont[r["name"]] = (rand_bytes(rng, nbytes(m, s)), None, ops)
            st_.add(cont, tar=rng.random() < .4)
        c.sample({"schema": st_.text, "elements": sizes}, 2)
        st_.judge("accesses")


def utf8(rng, n):
    return "".join(rng.choice("a\0b,\u00e9\u4e2d\0\U0001f600") for _ in range(n)).encode()


def raw_ops(rng, b, quick):
    n = len(b)
    ops = [{"op": "len"}, {"op": "iter"}] + [{"op": "at", "i": i} for i in list(range(-n - 2, n + 2))[:40]]
    ops += [dict(rand_slice(rng, n), op="slice") for _ in range(6)]
    starts = [i for i in range(n + 1) if i == n or b[i] & 0xc0 != 0x80]
    if len(starts) > 12:
        starts = rng.sample(starts, 12)
    for i in starts:
        for sep in SEPS:
            ops.append({"op": "sub_str", "i": i, "sep": sep})
            for ls in ([0, 0], sep, [97]):
                if rng.random() < .6:
                    ops.append({"op": "sub_list", "i": i, "sep": sep, "lsep": ls})
            ops.append({"op": "sub_array", "i": i, "sep": sep, "size": rng.choice((0, 1, 2, 3, n))})
    return ops


def p02(c):
    rng = c.rng
    m = {"ns": "n", "consts": [], "enums": [], "structs": [], "archives": [{"name": "Arch", "res": [{"name": "r%d" % i, "kind": "raw"} for i in range(20)]}]}
    no = {"model.json": json.dumps({"structs": {}, "archives": {}, "seps": SEPS})}
    rs = vf.parallel([lambda: vf.tlc("AccessMC", STRINGS % c.pick(5, 7), workers=4, timeout=800, extra_files=no),
                      lambda: vf.tlc("AccessMC", SLICES % (c.pick(4, 6), c.pick(5, 8)), workers=4, timeout=800, extra_files=no)])
    c.add_tlc(rs[0], "Access/strings")
    c.add_tlc(rs[1], "Access/slices")
    pays = [bytes(e["pay"]) for e in rs[0].emitted]
    by = {}
    for e in rs[1].emitted:
        by.setdefault(e["n"], []).append({k: e[k] for k in "abs"})
    try:
        s = Stored(c, m)
    except cppdrv.GenerationFailed as e:
        return c.violation("a valid schema does not produce working code", {"error": str(e)[-1500:]}, key="generate")
    cont = []
    for p in pays if not c.quick else [p for p in pays if len(p) < 5 or rng.random() < .3]:
        cont.append((p, None, raw_ops(rng, p, c.quick)))
    for n, sl in by.items():
        p = bytes(rng.randrange(256) for _ in range(n))
        cont.append((p, None, [dict(x, op="slice") for x in sl]))
    for _ in range(c.pick(80, 800)):
        p = utf8(rng, rng.choice((3, 9, 20, 60)))
        cont.append((p, None, raw_ops(rng, p, c.quick)))
    rng.shuffle(cont)
    while len(cont) % 20:
        cont.append(cont[0])
    for i in range(0, len(cont), 20):
        s.add({"r%d" % k: x for k, x in enumerate(cont[i:i + 20])}, tar=rng.random() < .4)
    c.count("payloads", len(cont))
    c.sample({"payload": cont[0][0].hex(), "accesses": cont[0][2][:5]})
    s.judge("accesses")


CHECKS = {"P01": p01, "P02": p02}
