"""stdin: {"schemas": {id: text}, "jobs": [...]}; runs jobs against flatdata.lib and generated modules."""
import itertools, json, os, sys, traceback, types
from flatdata.generator.engine import Engine
from flatdata.lib.file_resource_storage import FileResourceStorage
from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib import errors, resources, archive as archive_mod

M64 = (1 << 64) - 1
inp = json.load(sys.stdin)
MODS = {}


def module(sid, ns):
    if sid not in MODS:
        MODS[sid] = types.ModuleType("generated")
        exec(Engine(inp["schemas"][sid]).render("py"), MODS[sid].__dict__)
    return MODS[sid]


def classes(sid):
    m = module(sid, None)
    return m


def find(m, suffix):
    for n in dir(m):
        if n == suffix or n.endswith("_" + suffix):
            return getattr(m, n)
    raise KeyError(suffix)


def u(v):
    return int(v) & M64


def elem(e):
    return [u(getattr(e, f)) for f in type(e)._FIELDS]


def dump_archive(a, extra=False):
    res = {}
    for name, sig in a._RESOURCES.items():
        if name.endswith(".archive"):
            continue
        r = getattr(a, name)
        if r is None:
            res[name] = None
        elif isinstance(r, archive_mod.Archive):
            res[name] = dump_archive(r)
        elif isinstance(r, resources.RawData):
            res[name] = bytes(r[0:len(r)]).hex()
        elif isinstance(r, resources.Multivector):
            res[name] = {"items": [[[type(e)._NAME, elem(e)] for e in r[i]] for i in range(len(r))],
                         "iterated": [[[type(e)._NAME, elem(e)] for e in it] for it in r] }
            if res[name]["iterated"] == res[name]["items"]:
                del res[name]["iterated"]
        elif isinstance(r, resources.Instance):
            res[name] = elem(r[0])
        else:
            res[name] = [elem(r[i]) for i in range(len(r))]
    return {"open": True, "res": res}


def exc(e):
    ok = isinstance(e, (errors.MissingResourceError, errors.SchemaMismatchError, errors.CorruptResourceError, errors.CorruptArchiveError))
    return {"open": False, "exc": type(e).__name__, "documented": ok, "msg": str(e)[:200]}


def storage(j):
    if j.get("tar"):
        return TarArchiveResourceStorage.create(j["path"], *([j["sub"]] if j.get("sub") else []))
    return FileResourceStorage(os.path.join(j["path"], j.get("sub", "")))


def do_dump(j):
    try:
        A = find(module(j["schema"], None), j["arch"])
        return dump_archive(A(storage(j)))
    except Exception as e:
        return exc(e)


def do_inspect(j):
    from flatdata.lib.inspector import open_archive
    try:
        a, m = open_archive(j["path"], archive=j.get("archive"))
        r = dump_archive(a)
        r["name"] = type(a).__name__
        return r
    except Exception as e:
        return exc(e)


def conv(kind, v):
    if kind == "raw":
        return bytes.fromhex(v)
    return v


def do_build(j):
    """steps: {"res","kind","value"} or {"finish"}; snapshots list the directory after each step if asked"""
    out = []
    b = None
    m = module(j["schema"], None)
    for s in j["steps"]:
        r = {}
        try:
            if "open" in s and j.get("writer"):
                from flatdata.lib.flatdata_writer import Writer
                b = Writer(inp["schemas"][j["schema"]], j["path"], j["arch"])
            elif "open" in s:
                B = find(m, j["arch"] + "Builder")
                b = B(ResourceStorage(FileResourceWriter(), j["path"]))
            elif "finish" in s:
                b.finish()
            else:
                b.set(s["res"], conv(s.get("kind"), s["value"]))
            r["ok"] = True
        except Exception as e:
            r = {"ok": False, "exc": type(e).__name__}
        if j.get("snap"):
            r["files"] = {f: open(os.path.join(j["path"], f), "rb").read().hex() for f in sorted(os.listdir(j["path"]))} if os.path.isdir(j["path"]) else {}
        out.append(r)
    return out


def do_schemas(j):
    m = module(j["schema"], None)
    res = {}
    for a in j["archs"]:
        A = find(m, a)
        res[a] = {"": A._SCHEMA}
        for n, s in A._RESOURCES.items():
            if s.container is not archive_mod.Archive:
                res[a][n] = s.schema
    return res


def do_layout(j):
    m = module(j["schema"], None)
    return {s: {"size": find(m, s)._SIZE_IN_BYTES,
                "fields": [[n, f.offset, f.width, bool(f.is_signed)] for n, f in find(m, s)._FIELDS.items()]} for s in j["structs"]}


def do_crash(j):
    """Build in a child that is stopped before its k-th file operation, for every k, until one child gets through."""
    import ctypes
    lib = ctypes.CDLL(None)
    module(j["schema"], None)
    out = []
    k = 0
    while True:
        d = "%s-%d" % (j["path"], k)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                lib.shim_set(d.encode(), None, ctypes.c_long(k))
                b = None
                for s in j["steps"]:
                    if "open" in s:
                        b = find(module(j["schema"], None), j["arch"] + "Builder")(ResourceStorage(FileResourceWriter(), d))
                    elif "finish" in s:
                        b.finish()
                    else:
                        b.set(s["res"], conv(s.get("kind"), s["value"]))
                        os.write(w, (s["res"] + " ").encode())
                os.write(w, b"END ")
            except BaseException as e:
                os.write(w, ("EXC:%s " % type(e).__name__).encode())
            os._exit(0)
        os.close(w)
        got = b""
        while True:
            x = os.read(r, 4096)
            if not x:
                break
            got += x
        os.close(r)
        os.waitpid(pid, 0)
        words = got.decode().split()
        out.append({"dir": d, "done": [x for x in words if x != "END"]})
        if "END" in words or any(x.startswith("EXC") for x in words) or k > 400:
            return out
        k += 1


def do_multi(j):
    """A multivector of the archive's resource over the given stored bytes, read in every way."""
    A = find(module(j["schema"], None), j["arch"])
    sig = A._RESOURCES[j["res"]]
    out = []
    for index, data in j["stored"]:
        v = resources.Multivector(bytes.fromhex(index), bytes.fromhex(data), *sig.initializer)

        def item(x):
            return [[type(e)._NAME, elem(e)] for e in x]
        n = len(v)
        out.append({"n": n, "at": [item(v[i]) for i in range(n)], "neg": [item(v[i - n]) for i in range(n)], "iter": [item(x) for x in v],
                    "sliced": [item(x) for x in v[:]], "even": [item(x) for x in v[::2]], "back": [item(x) for x in v[::-1]]})
    return out


def table(x):
    """numpy record arrays and data frames as names and rows"""
    if hasattr(x, "columns"):
        names = [str(n) for n in x.columns]
        return {"names": names, "rows": [[le8(v) for v in row] for row in x.itertuples(index=False, name=None)]}
    return {"names": list(x.dtype.names), "rows": [[le8(v) for v in row] for row in x]}


def le8(v):
    """a number read: its 8 bytes, and one more if it is below zero"""
    if int(v) != v:
        raise ValueError("not a number of a field: %r" % (v,))
    return list(u(v).to_bytes(8, "little")) + [1] * int(v < 0)


def le8s(e):
    return [le8(getattr(e, f)) for f in type(e)._FIELDS]


def opt(x):
    return x[0] if x else None


def access(r, kind, o, pre):
    op = o["op"]

    def show(x):
        if kind == "raw":
            return list(bytes(x))
        if kind == "multi":
            return [[type(e)._NAME[pre:], le8s(e)] for e in x]
        return le8s(x)

    def sl():
        return r[slice(opt(o["a"]), opt(o["b"]), opt(o["s"]))]
    if op == "len":
        return len(r)
    if op == "iter":
        return list(bytes(r[:])) if kind == "raw" else [show(e) for e in r]
    if op == "at":
        return show(r[o["i"]])
    if op == "slice":
        return list(bytes(sl())) if kind == "raw" else [show(e) for e in sl()]
    if op == "numpy":
        return table(sl().to_numpy(*o["lim"]))
    if op == "frame":
        return table(sl().to_data_frame(*o["lim"]))
    if op == "column":
        return table(getattr(r if o.get("whole") else sl(), o["f"]))
    if op == "table":
        return table(r.to_data_frame())
    if op == "attr":
        return le8(getattr(r, o["f"]))
    if op == "elem":
        e = r[o["i"]]
        names = list(type(e)._FIELDS)
        try:
            unknown = repr(e.no_such_field)
        except Exception as ex:
            unknown = type(ex).__name__
        return {"iter": [le8(v) for v in e], "list": [le8(v) for v in e.as_list()], "tuple": [le8(v) for v in e.as_tuple()],
                "dict": [[n, le8(v)] for n, v in e.as_dict().items()], "attrs": [le8(getattr(e, n)) for n in names], "names": [n for n, _ in type(e).dtype()],
                "table": table(e.as_nparray()), "shown": [[n, le8(v)] for n, v in json.loads(repr(e))["attributes"].items()], "unknown": unknown}
    if op == "same":
        i = iter(r)
        first = [show(e) for e in r]
        return [show(e) for e in r] == first and [show(e) for e in i] == first
    if op == "sub_str":
        return list(r.sub_str(o["i"], bytes(o["sep"])).encode())
    if op == "sub_list":
        return [list(x.encode()) for x in r.sub_str_list(o["i"], bytes(o["sep"]), bytes(o["lsep"]))]
    if op == "sub_array":
        return [list(x.encode()) for x in r.sub_str_array(o["i"], o["size"], bytes(o["sep"]))]
    raise KeyError(op)


def do_access(j):
    """Accesses to the resources of one archive, in order; each answers {ok: value} or {exc: name}."""
    A = find(module(j["schema"], None), j["arch"])
    a = A(storage(j))
    out = []
    for name, kind, ops in j["work"]:
        r = getattr(a, name)
        res = []
        for o in ops:
            try:
                res.append({"ok": access(r, kind, o, j["pre"])})
            except Exception as e:
                res.append({"exc": type(e).__name__})
        out.append(res)
    return out


def do_far(j):
    """Looks at single places of large resources."""
    a = find(module(j["schema"], None), j["arch"])(storage(j))
    out = []
    for name, kind, asks in j["work"]:
        r, res = getattr(a, name), []
        for op, i, n in asks:
            try:
                res.append(far(r, kind, op, i, n, j["pre"]))
            except Exception as e:
                res.append({"exc": repr(e)[:200]})
        out.append(res)
    return out


def far(r, kind, op, i, n, pre):
    def item(x):
        return [[type(e)._NAME[pre:], elem(e)] for e in x]
    show = item if kind == "multi" else elem
    if op == "size":
        return len(r)
    if op in ("at", "item"):
        v = show(r[i])
        others = [show(r[i - len(r)]), show(list(r[i:i + 1])[0]), show(next(iter(r[i:]))), show(next(iter(r[i::-1])))]
        others += [show(next(itertools.islice(r[::i], 1, 2)))] if i else []
        return v if all(x == v for x in others) else "ways disagree"
    if op == "run":
        v = [elem(e) for e in r[i:i + n]]
        t = [[u(x) for x in row] for row in r[i:i + n].to_numpy()]
        c = [u(x[0]) for x in getattr(r[i:i + n], list(type(r[i])._FIELDS)[0]).values]
        return v if t == v and c == [e[0] for e in v] else "tables disagree"
    if op == "bytes":
        b = bytes(r[i:i + n])
        if bytes(r[i - len(r):i - len(r) + n]) != b or [r[i + k] for k in range(n)] != [b[k:k + 1] for k in range(n)]:
            return "ways disagree"
        if 0 in b:
            k = b.index(0)
            if all(x < 128 for x in b[:k]) and r.sub_str(i) != b[:k].decode("ascii"):
                return "strings disagree"
        return list(b)
    raise KeyError(op)


def shown(name, r):
    """What a resource says of itself: a text in JSON."""
    d = json.loads(repr(r))

    def fields(t):
        return [[f["name"], f["offset"], f["width"], bool(f["is_signed"])] for f in t["attributes"]]
    return {"name": name, "container": d["container_type"], "n": d["size"], "bytes": d["size_in_bytes"],
            "types": [{"name": t["name"], "fields": fields(t)} for t in d["element_types"]], "index": [{"fields": fields(d["index_type"])}] if "index_type" in d else []}


def about(a):
    t = a.to_data_frame()
    rows = [dict(zip(("name", "type", "opt", "bytes", "n"), r)) for r in t[["Name", "Type", "Optional", "SizeInBytes", "Size"]].itertuples(index=False, name=None)]
    for r in rows:
        r["there"] = r["bytes"] == r["bytes"] and r["bytes"] is not None
        r["opt"] = bool(r["opt"])
        r["bytes"], r["n"] = (int(r["bytes"]), int(r["n"])) if r["there"] else (0, 0 if r["n"] is None or r["n"] != r["n"] else int(r["n"]))
    out = {"name": a.name(), "rows": rows, "bytes": a.size_in_bytes(), "total": sum(r["bytes"] for r in rows), "n": len(a), "listed": sorted(dir(a)), "schema": a.schema(),
           "schemas": [], "shown": [], "subs": []}
    for n, sig in a._RESOURCES.items():
        r = getattr(a, n)
        if sig.container is archive_mod.Archive:
            out["subs"] += [about(r)] if r is not None else []
        elif not n.endswith(".archive"):
            out["schemas"].append(a.resource_schema(n))
            out["shown"] += [shown(n, r)] if r is not None else []
    return out


def do_about(j):
    return about(find(module(j["schema"], None), j["arch"])(storage(j)))


OPS = {"far": do_far, "about": do_about, "access": do_access, "multi": do_multi, "crash": do_crash, "dump": do_dump, "inspect": do_inspect, "build": do_build, "schemas": do_schemas, "layout": do_layout}
res = []
for j in inp["jobs"]:
    try:
        res.append(OPS[j["op"]](j))
    except Exception as e:
        res.append({"fail": traceback.format_exc()[-1500:]})
real = sys.stdout
json.dump(res, real)
