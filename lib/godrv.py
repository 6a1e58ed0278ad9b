"""X08: what archives show through the Go code generated for them, judged by GoTrace.tla."""
import json, os, subprocess
import vf, model, gen, cppdrv
from about import stored
from fdlib import *


def case(n):
    """a name as generated Go code writes it"""
    if "_" in n:
        n = "".join(p.title() for p in n.split("_"))
    return n[0].upper() + n[1:]


KIND = {"vec": "Vector", "inst": "Instance", "multi": "Multivector", "raw": "RawData", "arch": "Archive"}


def rand_world(rng):
    """What Go supports: one namespace with a simple name, no enumerations, subarchives called as their archive."""
    m = {"ns": rng.choice(("n", "maps")), "consts": [], "enums": [], "structs": [], "archives": []}
    for i in range(6):
        m["structs"].append(gen.rand_struct(rng, m, rng.choice(("S%d", "Some_thing%d", "t%d")) % i, enums=False, maxbits=200, rng_field=i == 4, prefix=rng.choice(("", "a_"))))
    gen.rand_archives(rng, m, subs=2, maxres=5)
    for a in m["archives"]:
        seen, rs = set(), []
        for r in a["res"]:
            if r["kind"] == "arch":
                if r["arch"] in seen:
                    continue
                seen.add(r["arch"])
                r["name"] = r["arch"].lower()
            rs.append(r)
        a["res"] = rs
    return m


def registry(m):
    o = ["package main", 'import ("errors"; g "verif/prog/%s"; "github.com/heremaps/flatdata/flatdata-go/flatdata")' % m["ns"],
         "func open(name string, s flatdata.ResourceStorage) (interface{}, error) { switch name {"]
    o += ['case "%s": return g.Open%sArchive(s)' % (a["name"], case(a["name"])) for a in m["archives"]]
    o += ['}; return nil, errors.New("no such archive") }', "var consts = map[string]interface{}{"]
    o += ['"%s": int64(g.%s),' % (c["name"], case(c["name"])) if c["value"] < 2 ** 63 else '"%s": uint64(g.%s),' % (c["name"], case(c["name"])) for c in m["consts"]]
    return "\n".join(o + ["}"])


def program(m):
    wd = vf.scratch("gogen")
    src, out = os.path.join(wd, "s.flatdata"), os.path.join(wd, "gen.go")
    open(src, "w").write(model.text(m))
    p = vf.generate("go", src, out)
    if p.returncode or not os.path.exists(out):
        raise cppdrv.GenerationFailed(p.stdout.decode()[-1500:])
    text = open(out).read()
    return vf.go_module("fd", {"main.go": open(vf.DRV + "/go/fd/main.go").read(), "registry.go": registry(m), "%s/gen.go" % m["ns"]: text})


def describe(m):
    """names the driver needs"""
    return {"Archs": {a["name"]: [{"Name": r["name"], "Kind": r["kind"], "Field": case(r["name"]) + KIND[r["kind"]]} for r in a["res"]] for a in m["archives"]},
            "Getters": {case(s["name"]): [case(f["name"]) for f in s["fields"]] for s in m["structs"]},
            "Subs": {"%s.%s" % (a["name"], r["name"]): r["arch"] for a in m["archives"] for r in a["res"] if r["kind"] == "arch"}}


def layout(t):
    return {"name": t.get("name"), "fields": [[x["name"], x["offset"], x["width"], x["is_signed"]] for x in t["attributes"]]}


def told(t):
    """a resource's own words in TLA+ terms"""
    if "bad" in t:
        return t
    return {"container": t["container_type"], "n": t["size"], "bytes": t["size_in_bytes"], "types": [layout(x) for x in t["element_types"]],
            "index": [{"fields": layout(t["index_type"])["fields"]}] if "index_type" in t else []}


def elem(e):
    t = e["text"]
    if "bad" in t:
        return {"bad": t["bad"]}
    return {"t": e["t"], "v": [le8(int(x)) for x in e["v"]], "neg": [int(x) < 0 for x in e["v"]], "at": t["position"], "name": t["name"], "names": list(t["attributes"]), "shown": [le8(int(x)) for x in t["attributes"].values()]}


def res_tla(m, arch, res):
    out = {}
    for n, r in res_of(m, arch).items():
        g = res[n]
        o = {"open": g["open"], "opt": g["opt"]}
        if r["kind"] == "arch":
            o.update(bytes=g["bytes"], res=res_tla(m, r["arch"], g["res"]))
        elif g["open"]:
            o.update(n=g["n"], bytes=g["bytes"], text=told(g["text"]))
            if r["kind"] == "raw":
                o["raw"] = g["raw"]
            if r["kind"] in ("inst", "vec"):
                o["elems"] = [elem(e) for e in g["elems"]]
            if r["kind"] == "vec":
                o["slices"] = [[elem(e) for e in s] for s in g["slices"]]
            if r["kind"] == "multi":
                o["items"] = [[elem(e) for e in i] for i in g["items"]]
        out[n] = o
    return out


def whole(m, arch, t):
    """an archive's own words: name, size, and those of its resources in order"""
    return {"name": t["name"], "container": t["container_type"], "bytes": t["size_in_bytes"],
            "parts": [whole(m, r["arch"], x) if r["kind"] == "arch" else told(x) for r, x in zip(res_of(m, arch).values(), t["resources"])] + ["more"] * (len(t["resources"]) - len(res_of(m, arch)))}


def said(m, arch, t):
    if "panic" in t:
        return "panic"
    try:
        return [whole(m, arch, t)]
    except (KeyError, TypeError):        # closed resources describe themselves as they like
        return []


def damage(rng, t):
    """archives with something wrong"""
    t = dict(t)
    for _ in range(rng.choice((1, 1, 2))):
        p = rng.choice(sorted(t))
        if p.endswith(".schema"):
            b = t[p]
            k = rng.random()
            if k < .3:
                del t[p]
            elif k < .5:
                t[p] = b""
            else:
                t[p] = rng.choice((b[:-1], b + b"\n", b + b" ", b"\n" + b, b[1:], b.swapcase(), b.replace(b"u", b"i"), rng.choice([x for q, x in t.items() if q.endswith(".schema")])))
        elif rng.random() < .5:
            del t[p]
        else:
            t[p] = t[p][:rng.randrange(0, 17)] if rng.random() < .3 else t[p][:rng.choice((0, 1, 7, 8, 15))]
            if len(t[p]) >= 16:
                t[p] = bytes(16)
    return t


def faults(t):
    """every single fault of every file of an intact archive"""
    for p in sorted(t):
        b = t[p]
        for x in ([None, b"", b + b" "] if p.endswith(".schema") else [None, b"", b[:15]]):
            u = dict(t)
            if x is None:
                del u[p]
            else:
                u[p] = x
            yield u


def answers(exe, m, jobs):
    p = subprocess.run([exe], input=json.dumps(dict(describe(m), Jobs=jobs)), capture_output=True, text=True, timeout=300)
    return json.loads(p.stdout) if not p.returncode else {"jobs": [{"crash": p.stderr[-1500:]}]}


def x08(c):
    rng = c.rng
    worlds = [rand_world(rng) for _ in range(c.pick(4, 24))]

    def one(m):
        try:
            exe, sch = vf.parallel([lambda: program(m), lambda: Schemas(m)])
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            c.violation("a valid schema does not produce working code", {"schema": model.text(m), "error": str(e)[-1500:]}, key="generate")
            return
        root = vf.scratch("go8")
        jobs, trees, plan = [], [], []
        for k in range(c.pick(50, 300)):
            arch = ("Arch", m["archives"][k % len(m["archives"])]["name"])[k % 2]
            t = stored(rng, m, sch, arch)
            if rng.random() < .5:
                t = damage(rng, t)
            flat = not any(r["kind"] == "arch" for r in res_of(m, arch).values())
            plan.append((arch, t, flat and rng.random() < .4))
        flats = [a["name"] for a in m["archives"] if not any(r["kind"] == "arch" for r in res_of(m, a["name"]).values())]
        arch = rng.choice(flats)
        every = [(arch, u, mem) for u in faults(stored(rng, m, sch, arch)) for mem in (False, True)]
        plan += rng.sample(every, min(len(every), c.pick(60, 200)))
        for k, (arch, t, mem) in enumerate(plan):
            d = os.path.join(root, "a%d" % k)
            os.makedirs(d)
            write_tree(d, t)
            sl = {}
            for n, r in res_of(m, arch).items():
                if r["kind"] == "vec":
                    nn = (len(t.get(n, b"")) - 16) // max(1, (model.struct_bits(m, by_name(m["structs"])[r["types"][0]]) + 7) // 8)
                    sl[n] = [[a, rng.choice((a - 1, a, nn - 1, nn - 1, rng.randint(0, nn - 1))), rng.choice((1, 1, 2, 3, nn, nn + 1))] for a in [rng.choice((0, nn - 1, rng.randint(0, nn - 1))) for _ in range(4)]] if nn > 0 else [[0, -1, 1]]
                    sl[n] = [s for s in sl[n] if s[2] > 0]
            jobs.append({"Arch": arch, "Path": d, "Mem": mem, "Slices": sl})
            trees.append(t)
        p = subprocess.run([exe], input=json.dumps(dict(describe(m), Jobs=jobs)), capture_output=True, text=True, timeout=300)
        if p.returncode:
            c.violation("reading archives crashes", {"schema": model.text(m), "error": p.stderr[-1500:]}, key="crash")
            return
        ans = json.loads(p.stdout)
        recs = []
        for j, t, g in zip(jobs, trees, ans["jobs"]):
            if "panic" not in g and not g["err"]:
                g = {"err": "", "bytes": g["bytes"], "closed": g["closed"], "res": res_tla(m, j["Arch"], g["res"]), "text": said(m, j["Arch"], g["text"])}
            elif "panic" in g:
                g = {"err": "panic: " + g["panic"]}
            if g.get("text") == "panic" and not g["err"]:     # judged on its own
                recs.append({"k": "said", "arch": j["Arch"], "files": files_tla(sch, j["Arch"], t)})
                g["text"] = []
            recs.append({"k": "open", "arch": j["Arch"], "mem": j["Mem"], "files": files_tla(sch, j["Arch"], t), "slices": j["Slices"], "got": g})
        recs += [{"k": "const", "want": le8(x["value"]), "got": le8(ans["consts"][x["name"]]), "name": x["name"]} for x in m["consts"]]
        c.count("archives", len(jobs))
        names = {x["name"]: case(x["name"]) for x in m["structs"] + m["archives"]}
        vf.validate(c, "GoTrace", recs, name="archives read in Go", ways=3, keyb=lambda r, bad: "multivector: " + " and ".join(sorted(bad)) if set(bad) <= {"closing entry counted", "objects shared"} else bad[0] if bad == ["absent resource described"] else "go",
                    extra={"model.json": json.dumps(model.tla(m)), "names.json": json.dumps(names)})
    vf.parallel([lambda m=m: one(m) for m in worlds], n=4)
    c.sample({"schema": model.text(worlds[0])})


CHECKS = {"X08": x08}
