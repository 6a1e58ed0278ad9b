"""C08: what describe() says about an archive."""
import json, os, re
import vf, model, cppdrv, fdlib, damage, limits
from fdlib import *

ROW = re.compile(r"^( *)([A-Za-z_]\w*) +(YES|NO) +(YES|NO) +(YES|NO) +(.*)$")
ROW0 = re.compile(r"^( *)([A-Za-z_]\w*) +(YES|NO) +(YES|NO) +(YES|NO)()$")
DETAIL = ((r"MultiArray of size (\d+), with index: (?:Array of size: \d+ in (\d+) bytes|Uninitialized Array)", "multi"), (r"Array of size: (\d+) in (\d+) bytes", "vec"),
          (r"Structure of size (\d+)", "inst"), (r"Raw data of size (\d+)", "raw"))
BLANK = (("Uninitialized MultiArray", "multi"), ("Uninitialized Array", "vec"), ("Uninitialized Structure", "inst"), ("Uninitialized Raw data", "raw"))


def details(t):
    for rx, w in DETAIL:
        x = re.match(rx + "$", t)
        if x:
            return w, int(x.group(1)), int(x.group(2) or 0) if x.re.groups > 1 else 0
    for s, w in BLANK:
        if t == s or t.startswith(s + " "):
            return w, 0, 0
    return "?" + t, 0, 0


def parse(text):
    """The tree and the difference a description holds."""
    ls = [l for l in text.split("\n") if l and l != "=" * 80]
    if any(l.startswith("FATAL: Resource storage not initialized") for l in ls[:1]):
        return {"kind": "nostorage"}, []
    if ls and ls[0].startswith("FATAL: Archive signature does not match"):
        return {"kind": "signature"}, [l for l in ls[1:]]
    pos = [0]

    def archive(level):
        failed = False
        while pos[0] < len(ls) and "Flatdata Archive: " not in ls[pos[0]]:
            failed = failed or ls[pos[0]].startswith("FATAL: Archive initialization failed")
            pos[0] += 1
        if pos[0] >= len(ls):
            return {"kind": "?" + text[:200]}
        out = {"kind": "archive", "name": ls[pos[0]].split("Flatdata Archive: ")[1], "failed": failed, "rows": []}
        pos[0] += 1
        while pos[0] < len(ls):
            l = ls[pos[0]]
            x = ROW.match(l) or ROW0.match(l)
            if not x or x.group(2) == "Resource":
                pos[0] += 1
                continue
            if len(x.group(1)) < 4 * level:
                return out
            pos[0] += 1
            d = x.group(6)
            r = {"name": x.group(2), "opt": x.group(3) == "YES", "large": x.group(4) == "YES", "loaded": x.group(5) == "YES", "what": "arch", "n": 0, "bytes": 0, "sub": {"kind": "none"}}
            if d.startswith("Uninitialized Archive "):
                r["sub"] = {"kind": "uninitialized", "name": d.split()[-1]}
            elif d.startswith("FATAL: Archive signature"):
                r["sub"] = {"kind": "signature"}
            elif d.strip() == "" or d.startswith("=====") or d.startswith("FATAL"):
                r["sub"] = archive(level + 1)
            else:
                r["what"], r["n"], r["bytes"] = details(d)
            out["rows"].append(r)
        return out
    return archive(0), []


def lines(b):
    t = b.decode("latin-1") if isinstance(b, bytes) else b
    ls = t.split("\n")
    return ls[:-1] if ls and ls[-1] == "" else ls


def shown(ls):
    out = []
    for l in ls:
        if l == "...":
            out.append(["...", ""])
        elif len(l) >= 3 and l[0] in " +-" and l[1] == '"' and l[-1] == '"':
            out.append([l[0], l[2:-1]])
        else:
            out.append(["?", l])
    return out


def diff_rec(sch, arch, tree, ds):
    """For an archive whose signature does not match: the difference of the schemas."""
    f = tree.get(arch + ".archive.schema")
    if not f:
        return None if not ds else {"op": "diff", "expected": [], "found": [], "shown": shown(ds), "text": "no schema"}
    return {"op": "diff", "expected": lines(sch.text["S:%s." % arch]), "found": lines(f), "shown": shown(ds)}


def edit(rng, text):
    """A schema that differs here and there."""
    ls = text.split("\n")
    for _ in range(rng.choice((1, 1, 2, 3, 6))):
        i = rng.randrange(len(ls)) if ls else 0
        k = rng.randrange(7)
        if k == 0 and ls:
            del ls[i]
        elif k == 1:
            ls.insert(i, rng.choice(("// another line", "", "}", "    x : u8 : 3;")))
        elif k == 2 and ls:
            ls[i] += " "
        elif k == 3 and ls:
            ls.insert(i, ls[rng.randrange(len(ls))])
        elif k == 4 and len(ls) > 3:
            j = rng.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        elif k == 5:
            n = rng.randint(1, 8)
            ls[i:i + n] = ["new %d" % x for x in range(rng.randint(0, 4))]
        elif k == 6 and rng.random() < .4:
            ls = ls[:i] if rng.random() < .5 else ls[i:]
    return "\n".join(ls)


def told(c, exe, m, sch, cases, name, refs=()):
    """cases: (arch, tree, command lines that make the storage s)."""
    recs = []
    for (arch, tree, cmds), a in zip(cases, cppdrv.run_jobs(exe, [x[2] + ["describe s " + x[0]] for x in cases], ways=8)):
        if not a or "text" not in a[-1]:
            c.violation("describing an archive fails", {"arch": arch, "commands": cmds, "answer": str(a[-1:])[:800]}, key="fails")
            continue
        got, ds = parse(a[-1]["text"])
        recs.append({"op": "describe", "arch": arch, "files": files_tla(sch, arch, tree), "got": got})
        d = diff_rec(sch, arch, tree, ds) if got["kind"] == "signature" else None
        if d:
            recs.append(d)
    c.count(name, len(cases))
    vf.validate(c, "DescribeTrace", recs, name=name, ways=8, key=lambda r: r["op"], extra={"model.json": json.dumps(dict(model.tla(m), refs=list(refs)))})


def store_mem(tree):
    return ["store s mem x"] + ["assign s %s %s" % (p, b.hex() or "-") for p, b in sorted(tree.items())]


def c08(c):
    rng = c.rng
    m = model.DRV
    exe, sch = vf.parallel([lambda: cppdrv.program("drv", m), lambda: Schemas(m)])
    root = vf.scratch("c08")
    # intact archives and every damage to them
    contents = damage.contents_for(c, m, c.pick(2, 5))
    cs = damage.cases(c, m, contents, c.pick(80, 3000))
    damage.materialise_all(c, m, contents, cs, None)
    rng.shuffle(cs)
    cs = [e for e in cs if not damage.label(e).count("grow") and not damage.label(e).count("shrink")]
    cases = []
    for i, e in enumerate(cs[:c.pick(700, 20000)]):
        d = os.path.join(root, "d%d" % i)
        os.makedirs(d)
        write_tree(d, e["tree"])
        cases.append((contents[e["ci"] - 1][0], e["tree"], ["store s file " + d]))
    told(c, exe, m, sch, cases, "damaged archives described")
    cases = []
    for i in range(c.pick(60, 1500)):
        arch = ("Arch", "Flat", "Opt", "Mini", "Sub")[i % 5]
        cont = rand_contents(rng, m, arch, sizes=(0, 1, 2, 5, 12))
        cases.append((arch, cont, os.path.join(root, "w%d" % i)))
    for k, a in zip(cases, cppdrv.run_jobs(exe, [["store s file " + d, "builder b s " + arch] + build_lines(rng, m, arch, cont, "b") for arch, cont, d in cases])):
        pass
    cases = [(arch, read_tree(d), d) for arch, cont, d in cases]
    told(c, exe, m, sch, [(a, t, ["store s file " + d]) for a, t, d in cases], "archives described")
    a = cppdrv.run_jobs(exe, [["store s file " + os.path.join(root, "no", "such"), "describe s " + x["name"]] for x in m["archives"]])
    vf.validate(c, "DescribeTrace", [{"op": "none", "got": parse(x[-1].get("text", ""))[0]} for x in a], extra={"model.json": json.dumps(dict(model.tla(m), refs=[]))})
    # other schemas
    edits = []
    for i in range(c.pick(250, 6000)):
        a, t, d = cases[i % len(cases)]
        t = dict(t)
        f = edit(rng, sch.text["S:%s." % a]).encode()
        if not f or f.decode() == sch.text["S:%s." % a]:
            continue
        t[a + ".archive.schema"] = f
        edits.append((a, t, store_mem({k: v for k, v in t.items() if k.startswith(a + ".")} if i % 3 else t)))
        if i % 3:
            edits[-1] = (a, {k: v for k, v in t.items() if k.startswith(a + ".")}, edits[-1][2])
    told(c, exe, m, sch, edits, "differences of schemas")
    # limits
    for i, p in enumerate([([1, 2, 3, 4, 7], 8)] * c.pick(1, 6)):
        w = limits.World(c, 90 + i, p[0])
        w.build()
        if not w.exe:
            continue
        cases = []
        for k in range(c.pick(90, 600)):
            arch = rng.choice(w.m["archives"][::-1])["name"]
            d = os.path.join(root, "l%d-%d" % (i, k))
            limits.write(w, arch, limits.content(rng, w, arch, p[1]), d)
            cases.append((arch, read_tree(d), ["store s file " + d]))
        told(c, w.exe, w.m, w.sch, cases, "archives with limits described", w.refs)


CHECKS = {"C08": c08}
