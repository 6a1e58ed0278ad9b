"""R04: writers stopped at every file operation."""
import json, os, shutil, subprocess
import vf, model, cppdrv
from fdlib import *
from archive import dump_cpp_rec

MODEL = """SPECIFICATION Spec
CONSTANTS Resources = {%s}
Payloads = {%s}
Flush = %d
BUF = %d
DIRECT = %d
Elem = %d
NoSize = 1000000
Protocols = {%s}
INVARIANTS NeverPartial StaysReadable Terminates
PROPERTY OnceComplete
CHECK_DEADLOCK FALSE
"""


def interleave(rng, groups):
    """Merge line groups at random, keeping the order within each."""
    groups = [list(g) for g in groups if g]
    out = []
    while groups:
        g = rng.choice(groups)
        out.append(g.pop(0))
        groups = [x for x in groups if x]
    return out


def cpp_lines(rng, m, arch, cont, bid="b"):
    """[(line, path finished by it or None)], growing resources interleaved with everything else."""
    rs = res_of(m, arch)
    groups = []
    for n, v in cont.items():
        r = rs[n]
        if r["kind"] == "arch":
            sub = [("sub %s%s %s %s" % (bid, n, bid, n), None)]
            sub += [(l, n + "/" + x if x else None) for l, x in cpp_lines(rng, m, r["arch"], v, bid + n)]
            groups.append(sub)
            continue
        ls = build_lines(rng, m, arch, {n: v}, bid)
        groups.append([(l, None) for l in ls[:-1]] + [(ls[-1], n)])
    rng.shuffle(groups)
    if rng.random() < .4:
        return [x for g in groups for x in g]
    return interleave(rng, groups)


def contents(rng, m, i):
    c = rand_contents(rng, m, "Opt", sizes=(0, 1, 2, 3, 4), p_opt=.7 if i % 3 else 1, nones=False)
    if i % 4 == 0:
        c["v"] = [rand_vals(rng, m, "T") for _ in range(2)]      # eight bytes of payload
        c["r"] = bytes(rng.choice((0, 1, 255)) for _ in range(8)).hex()
    if i % 4 == 1:
        c["v"] = [rand_vals(rng, m, "T") for _ in range(rng.choice((255, 256, 257, 300)))]   # around the stream's buffer
    if i % 4 == 2:
        c["r"] = bytes(16).hex()
        c["w"] = []
        c[next(r["name"] for r in by_name(m["archives"])["Opt"]["res"] if r["kind"] == "multi")] = [[]]
    return c


def run_until(exe, lines, d, so, log=None):
    """All stops of one C++ history: [{dir, done}]."""
    out = []
    k = 0
    while True:
        dd = "%s-%d" % (d, k)
        e = dict(os.environ, LD_PRELOAD=so, FD_ROOT=dd, FD_KILL=str(k))
        inp = "\n".join(["store s file " + dd] + [l for l, _ in lines]) + "\n"
        p = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=300)
        ans = p.stdout.decode().splitlines()[1:]
        done = []
        for (l, path), a in zip(lines, ans):
            try:
                a = json.loads(a)
            except ValueError:
                break
            if path and (a.get("ok") is True or a.get("close", {}).get("ok")):
                done.append(path)
        end = len(ans) == len(lines)
        out.append({"dir": dd, "done": done, "end": end, "k": k, "expect": [x for _, x in lines if x]})
        if end or k > 600 or p.returncode not in (137, -9):
            return out
        k += 1


def r04(c):
    m = model.DRV
    rng = c.rng
    so = vf.shim()
    box = {}
    langs = '"set", "grow", "python"'
    runs = [("two writers", (("r1", "r2"), (0, 4, 8, 16, 48, 80), 32, 40, 16, 8)),
            ("three writers", (("r1", "r2", "r3"), (0, 8, 48), 32, 40, 16, 8))]

    def tlc(a):
        return vf.tlc("Crash", MODEL % (", ".join('"%s"' % r for r in a[0]), ", ".join(map(str, a[1])), a[2], a[3], a[4], a[5], langs), workers=2, timeout=800)
    jobs = [lambda: box.update(n=cppdrv.program("drvn", m, flags=())), lambda: box.update(a=cppdrv.program("drv", m)),
            lambda: box.update(sch=Schemas(m))] + [lambda a=a: tlc(a) for _, a in runs[:1 if c.quick else 2]]
    for (name, _), r in zip(runs, vf.parallel(jobs)[3:]):
        c.add_tlc(r, name)
    sch = box["sch"]
    root = vf.scratch("r04")
    n = c.pick(16, 150)
    hist = []
    for i in range(n):
        cont = contents(rng, m, i)
        if i % 3 == 2:
            cont.pop("sub", None)
            hist.append({"lang": "py", "cont": cont, "steps": py_steps(rng, m, "Opt", cont), "dir": os.path.join(root, "h%d" % i)})
        else:
            hist.append({"lang": "cpp", "cont": cont, "lines": [("builder b s Opt", None)] + cpp_lines(rng, m, "Opt", cont), "dir": os.path.join(root, "h%d" % i)})
    text = {"s": model.text(m)}

    def one(h):
        if h["lang"] == "cpp":
            return run_until(box["n"], h["lines"], h["dir"], so)
        r = vf.pydriver("fd_py.py", {"schemas": text, "jobs": [{"op": "crash", "schema": "s", "path": h["dir"], "arch": "Opt", "steps": h["steps"]}]}, env={"LD_PRELOAD": so})[0]
        if isinstance(r, dict):
            raise vf.MachineryError("python crash driver: %s" % r)
        for k, x in enumerate(r):
            x.update(end=k == len(r) - 1, k=k, expect=[s["res"] for s in h["steps"] if "res" in s])
        return r
    stops = []
    for h, rr in zip(hist, vf.parallel([lambda h=h: one(h) for h in hist])):
        for x in rr:
            x["h"] = h
        if not rr[-1]["end"] or sorted(rr[-1]["done"]) != sorted(rr[-1]["expect"]):
            c.violation("a writer that is not stopped does not finish", {"history": h["cont"], "answers": rr[-1]["done"]})
        stops += rr
        c.count("stops of %s writers" % h["lang"], len(rr))
    # what the real readers make of what is left
    da, parts = vf.parallel([lambda: cppdrv.run_jobs(box["a"], [["store s file " + x["dir"], "dump s Opt"] for x in stops if os.path.isdir(x["dir"])]),
                             lambda: vf.parallel([lambda p=p: vf.pydriver("fd_py.py", {"schemas": text, "jobs": [
                                 {"op": "dump", "schema": "s", "path": x["dir"], "arch": "Opt"} for x in p]}) for p in vf.chunks(stops, 6)])])
    ia = iter(da)
    db = [y for p in parts for y in p]
    recs = []
    for x, b in zip(stops, db):
        a = next(ia) if os.path.isdir(x["dir"]) else None
        recs.append({"op": "tree", "by": x["h"]["lang"], "stop": x["k"], "arch": "Opt", "contents": contents_tla(m, "Opt", x["h"]["cont"]), "done": x["done"],
                     "files": files_tla(sch, "Opt", read_tree(x["dir"])),
                     "cpp": dump_cpp_rec(m, "Opt", a[-1]) if a else {"open": False, "err": "none"},
                     "py": dump_tla(m, "Opt", b, "py")})
        shutil.rmtree(x["dir"], ignore_errors=True)
    c.sample({"history": [l for l, _ in hist[0]["lines"]][:12], "stops": sum(1 for x in stops if x["h"] is hist[0])})
    vf.validate(c, "CrashTrace", recs, name="stopped writers", ways=8, extra={"model.json": json.dumps(model.tla(m))}, timeout=800)
    big(c, m, box["n"], so, sch, root)


def enc(m, sname, vals):
    """Expected bytes of one element (the format, spelled out once more for sizes TLC cannot hold)."""
    x, at = 0, 0
    s = by_name(m["structs"])[sname]
    for f, v in zip(s["fields"], vals):
        w, _ = model.field_info(m, f)
        x |= (v & ((1 << w) - 1)) << at
        at += w
    return x.to_bytes((at + 7) // 8, "little")


def pat_vec(m, sname, n):
    return b"".join(enc(m, sname, model.pat(m, sname, i)) for i in range(n))


def pat_multi(m, r, n):
    data, index, at = [], [], 0
    size = (r["width"] + 7) // 8
    for i in range(n):
        index.append(at.to_bytes(size, "little"))
        for j in range(i % 4):
            t = (i + j) % len(r["types"])
            b = bytes([t]) + enc(m, r["types"][t], model.pat(m, r["types"][t], i + j))
            data.append(b)
            at += len(b)
    index.append(at.to_bytes(size, "little"))
    return b"".join(data), b"".join(index)


def frame(b):
    return len(b).to_bytes(8, "little") + b + bytes(8)


BIG_W, BIG_M = 2600000, 2600000


def big(c, m, exe, so, sch, root):
    """Growing vectors and multivectors beyond the internal flush limit."""
    nw, nm = BIG_W, BIG_M
    r = res_of(m, "Opt")["m"]
    md, mi = pat_multi(m, r, nm)
    final = {"w": frame(pat_vec(m, "P", nw)), "m": frame(md), "m_index": frame(mi)}
    lines = [("builder b s Opt", None), ("start g b w", None), ("growpat g 0 %d" % nw, None), ("start h b m", None), ("growpat h 0 %d" % nm, None),
             ("closesome g 0", "w"), ("closesome h 0", "m")]
    # count the operations first
    d = os.path.join(root, "big")
    log = os.path.join(root, "log")
    dd = d + "-full"
    e = dict(os.environ, LD_PRELOAD=so, FD_ROOT=dd, FD_LOG=log, FD_MAXHEX="0")
    inp = "\n".join(["store s file " + dd] + [l for l, _ in lines]) + "\n"
    subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=600)
    ops = sum(1 for _ in open(log)) + 1
    shutil.rmtree(dd, ignore_errors=True)
    ks = list(range(6, ops + 1))
    if c.quick:
        ks = sorted(c.rng.sample(ks, min(8, len(ks))) + [ops + 1])
    else:
        ks.append(ops + 1)

    def one(k):
        dd = "%s-%d" % (d, k)
        e = dict(os.environ, LD_PRELOAD=so, FD_ROOT=dd, FD_KILL=str(k))
        inp = "\n".join(["store s file " + dd] + [l for l, _ in lines]) + "\n"
        p = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, timeout=600)
        ans = p.stdout.decode().splitlines()[1:]
        done = []
        for (l, path), a in zip(lines, ans):
            try:
                if path and json.loads(a).get("close", {}).get("ok"):
                    done.append(path)
            except ValueError:
                pass
        files = {}
        for f, b in read_tree(dd).items():
            files[f] = {"sym": sch.symbol("Opt", f[:-7], b)} if f.endswith(".schema") else \
                {"len": len(b), "hdr": list((b + bytes(8))[:8]), "final": b == final.get(f, b"")}
        shutil.rmtree(dd, ignore_errors=True)
        if "m" in done:
            done.append("m_index")
        return {"op": "big", "stop": k, "done": done, "files": files, "schemas": {"w": "S:Opt.w", "m": "S:Opt.m", "m_index": "I:Opt.m"}}
    recs = vf.parallel([lambda k=k: one(k) for k in ks], n=4)
    if recs[-1]["done"] != ["w", "m", "m_index"]:
        c.violation("a writer that is not stopped does not finish", {"answers": recs[-1]["done"]})
    vf.validate(c, "CrashTrace", recs, name="stopped writers beyond the flush limit", ways=1, extra={"model.json": json.dumps(model.tla(m))})
    c.count("operations of the large history", ops)


CHECKS = {"R04": r04}
