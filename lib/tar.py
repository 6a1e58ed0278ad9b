"""R08: the C++ tar index against Tar.tla."""
import os, random
import vf, cppdrv

CFG = """SPECIFICATION %s
CONSTANTS MaxMembers = %d
Rich = %s
Emits = %d
INVARIANTS Emit ListsIntent RejectsSpoiled Disjoint NamesOnce
CHECK_DEADLOCK FALSE
"""
TOKEN = {"a": "a", "b": "b", "dir": "dir", "dot": "./", "slash": "/"}


def fill(tag, n):
    return (tag + "-" + "abcdefghijklmnopqrstuvwxyz/0123456789_" * 30)[:n - 1] + "Z"


for _t, _n in (("n99", 99), ("n100", 100), ("p155", 155), ("l101", 101), ("l511", 511), ("l512", 512), ("l700", 700)):
    TOKEN[_t] = fill(_t, _n)


def name_of(tokens):
    return "".join(TOKEN[t] for t in tokens).encode()


def b256(n, width):
    return bytes([0x80]) + n.to_bytes(width - 1, "big")


def size_field(m):
    k, s = m["num"], m["cls"]
    if s == "malformed":
        return {"letter": b"0000000x024\0", "eight": b"00000000084\0", "minus": b"-0000000024\0", "late": b"00000000024x"}[k]
    if s == "overflow":
        return {"2^64": b256(1 << 64, 12), "2^64-1": b256((1 << 64) - 1, 12), "2^80": b256((1 << 80) - 1, 12), "negative": b"\xff" * 12}[k]
    if s == "huge":
        return {"octal 20G": b"%011o\0" % min(20 << 30, 8 ** 11 - 1), "base256 20G": b256(20 << 30, 12), "base256 2^62": b256(1 << 62, 12), "octal 5000": b"%011o\0" % 5000}[k]
    s = m["size"]
    return {"octal nul": b"%011o\0" % s, "octal space": b"%011o " % s, "octal leading spaces": b"%11o\0" % s,
            "octal full": b"%012o" % s, "base256": b256(s, 12)}[k]


def sum_field(k, v):
    return {"gnu": b"%06o\0 " % v, "seven digits": b"%07o\0" % v, "leading spaces": b"%6o\0 " % v, "base256": b256(v, 8),
            "plus one": b"%06o\0 " % (v + 1), "minus one": b"%06o\0 " % (v - 1), "empty": b"\0" * 8, "letter": b"%05ox\0 " % v}[k]


def header(m):
    h = bytearray(512)

    def put(at, b):
        h[at:at + len(b)] = b
    put(0, name_of(m["name"])[:100])
    if m["t"] == "L":
        put(0, b"././@LongLink")
    put(100, b"0000644\0" + b"0001750\0" + b"0001750\0")
    put(124, size_field(m))
    put(136, b"13773453760\0")
    h[156] = 0 if m["t"] == "nul" else ord(m["t"])
    put(257, {"gnu": b"ustar  \0", "ustar": b"ustar\x0000", "v7": b"\0" * 8}[m["magic"]])
    if m["magic"] != "v7":
        put(265, b"root\0")
        put(297, b"root\0")
    put(345, name_of(m["pre"]))
    h[148:156] = b" " * 8
    put(148, sum_field(m["sum"], sum(h)))
    if m["flip"] >= 0:
        h[m["flip"]] ^= 0x11
    return bytes(h)


def payload(m, rng):
    if m["t"] == "L":
        n = name_of(m["long"])
        return n if m["size"] == len(n) else n + b"\0"
    n = m["size"] if m["cls"] == "plain" else 0
    if m["content"] == "zeros":
        return bytes(n)
    if m["content"] == "header":
        inner = dict(m, name=["n99"], size=0, num="octal nul", content="random", sum="gnu")
        return (header(inner) * 4)[:n]
    return bytes(rng.randrange(1, 256) for _ in range(n))


def encode(case, rng):
    out = b""
    for m in case["ms"]:
        p = payload(m, rng)
        out += header(m) + p + bytes(-len(p) % 512)
    return out + {"none": b"", "one": bytes(512), "two": bytes(1024), "record": bytes(512 * (2 + rng.randrange(18))),
                  "garbage": bytes(1024) + bytes(rng.randrange(256) for _ in range(1024))}[case["end"]]


def queries(case):
    """Every name a member might be known under, right or wrong."""
    q = {b"a", b"dir", b"dir/", b"././@LongLink", b"n99", name_of(["n99"])}
    for m in case["ms"]:
        n, p, l = name_of(m["name"]), name_of(m["pre"]), name_of(m["long"])
        for x in (n, p + b"/" + n, l, l[:-1], l[:100], n[:99], p + n):
            q |= {x, x[2:] if x[:2] == b"./" else x, b"./" + x}
    return sorted(x for x in q if x)


def judge(c, k, data, ans, qs):
    what = {"members": k["ms"], "trailer": k["end"]}
    key = "%s" % [(m["t"], m["num"], m["cls"], m["size"], m["sum"], m["flip"]) for m in k["ms"]]
    if "crash" in ans:
        return c.violation("crash", dict(what, got=ans), key=key)
    if not k["ok"]:
        if ans["list"] != "rejected" or ans["created"]:
            c.violation("not rejected", dict(what, got=str(ans)[:500]), key=key)
        return
    if ans["list"] == "rejected" or not ans["created"]:
        return c.violation("rejected", dict(what, got=str(ans)[:500]), key=key)
    exp = [[name_of(e["name"]).hex(), e["at"], "huge" if e["huge"] else e["size"]] for e in k["list"]]
    got = [[n, a, s if e is None or e[2] != "huge" else "huge"] for (n, a, s), e in zip(ans["list"], exp + [None] * len(ans["list"]))]
    if got != exp:
        return c.violation("index", dict(what, got=got, expected=exp), key=key)
    offered = {name_of(e["name"]): e for e in k["map"]}
    for q, r in zip(qs, ans["read"]):
        e = offered.get(q)
        if isinstance(r, str) or (r is None) != (e is None):
            return c.violation("listed names", dict(what, name=q.decode(), got=r and r[0], expected=e), key=key)
        if e is None:
            continue
        rest = data[e["at"]:]
        want = rest if e["huge"] else rest[:e["size"]]
        if r[0] > len(rest):
            return c.violation("access outside the file", dict(what, name=q.decode(), got=r[0], expected=e), key=key)
        if r[0] != len(want) or bytes.fromhex(r[1]) != want[:1 << 16]:
            return c.violation("member data", dict(what, name=q.decode(), got=r[0], expected=e), key=key)


def r08(c):
    exe = {}

    def build():
        exe["e"] = vf.cpp_program("tar", [os.path.join(vf.DRV, "tar_main.cpp")], flags=("-fsanitize=address", "-fno-sanitize-recover"))
    runs = [("one", "Spec", 1, "TRUE", 0, None), ("longer", "Spec", c.pick(2, 3), "FALSE", 2, None)]
    if not c.quick:
        runs.append(("pairs", "Spec", 2, "TRUE", 2, None))
    runs += [("random%d" % i, "SpecRandom", n, "TRUE", 2, c.pick(250, 6000)) for i, n in enumerate((4, 9))]
    res = vf.parallel([lambda r=r: vf.tlc("Tar", CFG % r[1:5], workers=1 if r[5] else 3, simulate=r[5], depth=r[2] + 3, seed=c.seed + 7 * r[2],
                                          timeout=1500, heap="3g") for r in runs] + [build])[:-1]
    cases = []
    for r, x in zip(runs, res):
        c.add_tlc(x, r[0])
        c.count("tar files from " + r[0].rstrip("01"), len(x.emitted))
        cases += x.emitted
    root = vf.scratch("r08")
    rng = random.Random(c.seed)
    lines, datas, qss = [], [], []
    cases.insert(0, {"ms": [], "end": "none", "ok": True, "list": [], "map": []})
    for i, k in enumerate(cases):
        d = encode(k, rng)
        p = os.path.join(root, "%d.tar" % i)
        with open(p, "wb") as f:
            f.write(d)
        qs = queries(k)
        lines.append([" ".join([p] + [q.hex() for q in qs])])
        datas.append(d)
        qss.append(qs)
    ans = run_lines(exe["e"], lines)
    for k, d, a, qs in zip(cases, datas, ans, qss):
        judge(c, k, d, a, qs)
    c.traces += len(cases)
    c.count("rejected by the specification", sum(1 for k in cases if not k["ok"]))
    for k in cases[3:5]:
        c.sample({"members": [(m["t"], m["size"], m["num"]) for m in k["ms"]], "accepted": k["ok"]})
    truncated(c, exe["e"], cases, datas, qss, root)


def run_lines(exe, lines, ways=8):
    """One answer per line; a crash is attributed to its line and the rest goes on."""
    def some(part):
        out = []
        while len(out) < len(part):
            r = cppdrv.Proc(exe).run([l[0] for l in part[len(out):]])
            out += r
            if not r:
                out.append({"crash": "no output"})
        return out
    n = max(1, (len(lines) + ways - 1) // ways)
    return [r for p in vf.parallel([lambda p=p: some(p) for p in [lines[i:i + n] for i in range(0, len(lines), n)]]) for r in p]


def truncated(c, exe, cases, datas, qss, root):
    """Cut anywhere: whatever is listed gives access to bytes of the file only."""
    todo = [i for i, d in enumerate(datas) if len(d) > 600][::max(1, len(datas) // c.pick(150, 1500))]
    lines, ds = [], []
    for i in todo:
        for cut in {512, 700, len(datas[i]) - 512, len(datas[i]) - 1, c.rng.randrange(1, len(datas[i]))}:
            if not 0 < cut < len(datas[i]):
                continue
            p = os.path.join(root, "t%d-%d.tar" % (i, cut))
            open(p, "wb").write(datas[i][:cut])
            lines.append([" ".join([p] + [q.hex() for q in qss[i]])])
            ds.append((i, datas[i][:cut]))
    for (i, d), a in zip(ds, run_lines(exe, lines)):
        if "crash" in a:
            c.violation("crash", {"members": cases[i]["ms"], "cut at": len(d), "got": a}, key="truncated")
            continue
        for q, r in zip(qss[i], a["read"]):
            if r and (r[0] > len(d) or bytes.fromhex(r[1]) not in d):
                c.violation("access outside the file", {"members": cases[i]["ms"], "cut at": len(d), "name": q.decode(), "got": r[0]}, key="truncated")
    c.count("truncated tar files", len(ds))
    c.traces += len(ds)


CHECKS = {"R08": r08}
