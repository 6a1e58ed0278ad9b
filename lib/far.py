"""C09: elements far into large (mostly empty) resources; judged by FarTrace.tla."""
import json, os, tarfile
import vf, model, gen, cppdrv, rsdrv, godrv
from fdlib import *
from layout import rand_bytes, nbytes

MC = """SPECIFICATION %s
CONSTANTS Base = %d
Places = %d
Top = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
BYTES = [1 << k for k in (8, 16, 17, 20, 24, 28, 29, 30, 31, 32, 33)]
NUMBERS = [1 << k for k in (8, 15, 16, 20, 24, 28, 29, 31, 32)]


def world(rng, i):
    m = {"ns": "n", "consts": [], "enums": [], "structs": [], "archives": []}
    for k, (bits, rg) in enumerate(((8, 0), (30, 0), (60, 1), (130, 0), (300, 1), (90, 0), (12, 0))):
        m["structs"].append(gen.rand_struct(rng, m, "S%d" % k, enums=False, opts=i % 2 == 0, maxbits=bits, rng_field=bool(rg)))
    names = [s["name"] for s in m["structs"] if not model.has_range(s)]
    ranges = [s["name"] for s in m["structs"] if model.has_range(s)]
    res = [{"name": "v%s" % chr(97 + k), "kind": "vec", "types": [s]} for k, s in enumerate(rng.sample(names, 3) + ranges)]
    res += [{"name": "m%s" % chr(97 + k), "kind": "multi", "types": rng.sample(names, rng.randint(2, 4)), "width": w} for k, w in enumerate(rng.sample((33, 34, 36, 40, 64, rng.randint(33, 64)), 2))]
    res += [{"name": "raw", "kind": "raw"}]
    rng.shuffle(res)
    m["archives"] = [{"name": "Arch", "res": res}]
    return rsdrv.rustify(m)


class Far:
    """A resource of any size: a few parts of it are written."""

    def __init__(self, length, parts):
        self.len = length
        self.parts = []
        for at, b in sorted(parts):
            if self.parts and at <= self.parts[-1][0] + len(self.parts[-1][1]):
                p, a = self.parts.pop()
                b = a[:at - p] + b
                at = p
            self.parts.append((at, b[:length - at]))

    def put(self, f, base=0):
        """framed, at a position of a file"""
        f.seek(base)
        f.write(self.len.to_bytes(8, "little"))
        for at, b in self.parts:
            f.seek(base + 8 + at)
            f.write(b)
        f.truncate(base + 16 + self.len)

    def tla(self):
        return {"len": le8(self.len), "parts": [{"at": le8(a), "b": list(b)} for a, b in self.parts]}


def near(rng, size, length):
    """positions (numbers of elements) worth looking at"""
    ps = {b // size + d for b in BYTES for d in (-1, 0)} | {n - 1 for n in NUMBERS} | {n for n in NUMBERS} | {rng.randrange(length // size) for _ in range(3)} | {length // size - 3}
    return sorted(p for p in ps if 0 <= p < length // size - 3)


def vector(rng, m, r):
    s = by_name(m["structs"])[r["types"][0]]
    z = nbytes(m, s)
    length = rng.choice((rng.randint(1 << 33, 1 << 34), rng.randint((1 << 32) * z, (1 << 33) * z))) // z * z
    ps = near(rng, z, length)
    data = Far(length, [(max(0, p - 1) * z, rand_bytes(rng, 3 * z)) for p in ps if rng.random() < .8] + [(length - 2 * z, rand_bytes(rng, 2 * z))])
    asks = [("size", 0, 0)]
    for p in ps + [length // z - 3]:
        asks += [("at", p, 0), ("run", max(0, p - 1), rng.randint(1, 3))]
        if model.has_range(s):
            asks.append(("span", p, 0))
    return data, None, asks


def raw(rng, m, r):
    length = rng.randint(1 << 33, 1 << 35)
    data = Far(length, [(p, rand_bytes(rng, 12)) for p in near(rng, 1, length)])
    return data, None, [("size", 0, 0)] + [("bytes", p + rng.choice((-1, 0, 3)) if p else 0, rng.choice((1, 2, 8, 20))) for p in near(rng, 1, length) if p + 40 < length]


def multi(rng, m, r):
    """Items that lie close together around some places of the data, described around some places of the index."""
    st = by_name(m["structs"])
    z = (r["width"] + 7) // 8
    top = min(1 << 35, (1 << r["width"]) - 1000)
    places = sorted({max(0, b - rng.randint(0, 40)) for b in BYTES if b < top} | {rng.randrange(top - 500) for _ in range(2)})
    count = rng.choice((len(places) * 3, (1 << 31) // z + 50, (1 << 32) // z + 50, (1 << 32) + 50))
    if count > 1000:
        at = [i for i in near(rng, z, count * z) if i + 8 < count]
    else:
        at = []
    runs, i = [], 0
    for k, p in enumerate(places):
        i = max(i, rng.choice([x for x in at if x >= i][:6] or [i])) if at else i
        n = rng.randint(1, 2)
        runs.append((i, p, n))
        i += n + rng.randint(1, 2)
    data, index, asks = [], [], [("size", 0, 0)]
    for i, p, n in runs:
        b, offs = b"", [p]
        for _ in range(n):
            for t in rng.sample(range(len(r["types"])), rng.randint(0, len(r["types"]))):
                b += bytes([t]) + rand_bytes(rng, nbytes(m, st[r["types"][t]]))
            offs.append(p + len(b))
        data.append((p, b))
        index.append((i * z, b"".join(o.to_bytes(8, "little")[:z] for o in offs)))
        asks += [("item", i + k, 0) for k in range(n)]
    length = max(p + len(b) for p, b in data)
    return Far(length, data), Far((count + 20) * z, index), asks


MAKE = {"vec": vector, "multi": multi, "raw": raw}


def tree(m, sch, rng):
    """(file name -> Far or bytes, resource -> asks, resource -> (data, index))"""
    files = {"Arch.archive": Far(0, []), "Arch.archive.schema": sch.text["S:Arch."].encode()}
    work, parts = {}, {}
    for r in m["archives"][0]["res"]:
        n = r["name"]
        data, index, asks = MAKE[r["kind"]](rng, m, r)
        files[n], files[n + ".schema"] = data, sch.text["S:Arch." + n].encode()
        if index:
            files[n + "_index"], files[n + "_index.schema"] = index, sch.text["I:Arch." + n].encode()
        work[n], parts[n] = asks, (data, index)
    return files, work, parts


def save(d, files):
    os.makedirs(d)
    for n, x in files.items():
        with open(os.path.join(d, n), "wb") as f:
            x.put(f) if isinstance(x, Far) else f.write(x)


def save_tar(path, files, rng):
    """The members lie behind each other, so most of them begin far into the tar."""
    names = list(files)
    rng.shuffle(names)
    with open(path, "wb") as f:
        at = 0
        for n in names:
            x = files[n]
            size = x.len + 16 if isinstance(x, Far) else len(x)
            t = tarfile.TarInfo(n)
            t.size = size
            h = t.tobuf(tarfile.GNU_FORMAT)
            f.seek(at)
            f.write(h)
            at += len(h)
            if isinstance(x, Far):
                x.put(f, at)
            else:
                f.write(x)
            at = (at + size + 511) // 512 * 512
        f.truncate(at + 1024)


def looks(m):
    """C++ glue: the asks of every resource"""
    o = ["namespace fd {"]
    for a in m["archives"]:
        A = "::%s::%s" % ("::".join(model.ns_of(m, a).split(".")), a["name"])
        N = A.rsplit("::", 1)[0] + "::"
        o.append("static void looks_%s( ) { looks( )[ \"%s\" ] = []( std::shared_ptr< flatdata::ResourceStorage > s ) -> Look { auto a = std::make_shared< %s >( %s::open( s ) ); if ( !*a ) return Look( ); return [ a ]( const std::string& n, const std::string& c, Tok& t, Out& o ) {" % (a["name"], a["name"], A, A))
        for r in a["res"]:
            if r["kind"] == "vec":
                o.append(" if ( n == \"%s\" ) { look_vec< %s%s >( a->%s( ), c, t, o ); return; }" % (r["name"], N, r["types"][0], r["name"]))
            elif r["kind"] == "multi":
                o.append(" if ( n == \"%s\" ) { look_multi( a->%s( ), c, t, o ); return; }" % (r["name"], r["name"]))
            elif r["kind"] == "raw":
                o.append(" if ( n == \"%s\" ) { look_raw( a->%s( ), c, t, o ); return; }" % (r["name"], r["name"]))
        o.append(" throw Unknown( n ); }; }; }")
    o.append("}\nstatic fd::Look look;\nint main( ) { fd::register_all( ); %s" % " ".join("fd::looks_%s( );" % a["name"] for a in m["archives"]))
    o.append(""" return fd::run( []( const std::string& c, fd::Tok& t, fd::Out& o ) {
  if ( c == "far" ) { std::string s = t.next( ), p = t.next( ); std::shared_ptr< flatdata::ResourceStorage > st;
    if ( s == "tar" ) st = flatdata::TarArchiveResourceStorage::create( p.c_str( ) ); else st = flatdata::FileResourceStorage::create( p.c_str( ) );
    look = fd::looks( ).at( t.next( ) )( st ); o.key( "ok" ); o.boolean( static_cast< bool >( look ) ); return true; }
  if ( c != "look" || !look ) return false;
  std::string n = t.next( ); o.key( "got" ); o.list( );
  for ( std::string x = t.next( ); !x.empty( ); x = t.next( ) ) look( n, x, t, o );
  o.end( ); return true; } ); }""")
    return "\n".join(o) + "\n"


def cpp_program(m):
    hd = cppdrv.schema_header(m)
    return vf.cpp_program("far", [("drv.cpp", model.cpp(m) + '#include "far.h"\n' + looks(m))], headers={"schema.hpp": hd}, flags=["-fsanitize=address", "-fno-sanitize-recover"])


def line(a):
    return " ".join([a[0]] + [str(x) for x in a[1:{"size": 1, "at": 2, "span": 2, "item": 2}.get(a[0], 3)]])


def le(x):
    """numbers as the specification has them"""
    return [le(y) for y in x] if isinstance(x, list) else jv(x) if isinstance(x, int) or x is None else x


def answer(op, g):
    if isinstance(g, dict) or op == "bytes":
        return g
    return le(g)


def asks_for(lang, m, r, asks):
    s = by_name(m["structs"])[r["types"][0]] if r["kind"] == "vec" else None
    out = []
    for a in asks:
        if a[0] == "span" and lang not in ("cpp", "rust"):
            continue
        if lang == "go" and (a[0] == "bytes" or a[0] == "size" and r["kind"] == "multi"):    # values are read whole; a known finding of X08
            continue
        out.append(a)
    return out


def c09(c):
    rng = c.rng
    mj = {"structs": {"A": {"fields": [{"name": "a", "w": 3, "s": False, "range": False, "opt": []}, {"name": "b", "w": 5, "s": True, "range": False, "opt": []}], "range": False},
                      "B": {"fields": [{"name": "a", "w": 9, "s": False, "range": False, "opt": []}, {"name": "b", "w": 6, "s": True, "range": False, "opt": []}], "range": False},
                      "C": {"fields": [{"name": "a", "w": 17, "s": True, "range": False, "opt": []}], "range": False}}, "archives": {}}
    jobs = [lambda b=b, p=p: ("Far/digits", vf.tlc("FarMC", MC % ("Spec", b, p, 1, "Counts"), workers=2, extra_files={"model.json": json.dumps(mj)}, timeout=600)) for b, p in c.pick(((4, 3), (2, 5)), ((4, 4), (2, 8), (10, 2), (256, 1)))]
    jobs += [lambda t=t: ("Far/elements", vf.tlc("FarMC", MC % ("FileSpec", 4, 3, t, "Found"), workers=2, extra_files={"model.json": json.dumps(mj)}, timeout=600)) for t in c.pick((7, 8), (7, 8, 10, 12))]
    worlds = []
    for i in range(c.pick(2, 6)):
        m = world(rng, i)
        try:
            worlds.append((m, Schemas(m)))
        except cppdrv.GenerationFailed as e:
            c.violation("a valid schema does not produce working code", {"schema": model.text(m), "error": str(e)[-1500:]}, key="generate")
    for n, r in vf.parallel(jobs, n=3):
        c.add_tlc(r, n)
    for m, sch in worlds:
        one(c, rng, m, sch)


def one(c, rng, m, sch):
    def build(f):
        try:
            return f()
        except (cppdrv.GenerationFailed, vf.CompileFailed) as e:
            c.violation("a valid schema does not produce working code", {"schema": model.text(m), "error": str(e)[-1500:]}, key="generate")
    cpp, rust, go = vf.parallel([lambda: build(lambda: cpp_program(m)), lambda: build(lambda: rsdrv.program(m)), lambda: build(lambda: godrv.program(m))])
    root = vf.scratch("far")
    rs = res_of(m, "Arch")
    cases = []
    for i in range(c.pick(2, 4)):
        files, work, parts = tree(m, sch, rng)
        d = os.path.join(root, "a%d" % i)
        if i % 2:
            d += ".tar"
            save_tar(d, files, rng)
        else:
            save(d, files)
        cases.append((d, i % 2 == 1, work, parts))
    got = []        # (case, lang, resource, asks, answers)

    def bad(lang, what, d, detail):
        c.violation("%s: %s" % (lang, what), {"archive": d, "schema": model.text(m), "detail": detail}, key="open")

    def run_cpp(ci):
        d, tar, work, _ = cases[ci]
        lines = ["far %s %s Arch" % ("tar" if tar else "file", d)]
        lines += ["look %s %s" % (n, " ".join(line(a) for a in asks_for("cpp", m, rs[n], w))) for n, w in work.items()]
        res = cppdrv.Proc(cpp).run(lines)
        if len(res) < len(lines) or not all("got" in x for x in res[1:]):
            return [("cpp", None, [x for x in res if "got" not in x][-1:])]
        return [("cpp", n, asks_for("cpp", m, rs[n], w), x["got"]) for (n, w), x in zip(work.items(), res[1:])]

    def run_rust(ci):
        d, tar, work, _ = cases[ci]
        if tar:
            return []
        lines = ["store s file " + d, "far s Arch " + " ; ".join("%s %s" % (n, " ".join(line(a) for a in asks_for("rust", m, rs[n], w))) for n, w in work.items())]
        res = cppdrv.Proc(rust).run(lines)
        if len(res) < 2 or "far" not in res[1]:
            return [("rust", None, res[-1:])]
        return [("rust", n, asks_for("rust", m, rs[n], w), x) for (n, w), x in zip(work.items(), res[1]["far"])]

    def run_py(ci):
        d, tar, work, _ = cases[ci]
        ws = [(n, rs[n]["kind"], asks_for("py", m, rs[n], w)) for n, w in work.items()]
        a = vf.pydriver("fd_py.py", {"schemas": {"s": model.text(m)}, "jobs": [{"op": "far", "schema": "s", "path": d, "tar": tar, "arch": "Arch", "work": ws, "pre": len(m["ns"].replace(".", "_")) + 1}]})[0]
        if isinstance(a, dict):
            return [("py", None, a)]
        return [("py", n, w, x) for (n, k, w), x in zip(ws, a)]

    def run_go(ci):
        d, tar, work, _ = cases[ci]
        if tar:
            return []
        ws = {n: asks_for("go", m, rs[n], w) for n, w in work.items()}
        p = godrv.answers(go, m, [{"Arch": "Arch", "Path": d, "Far": {n: [list(a) for a in w] for n, w in ws.items()}}])
        a = p["jobs"][0].get("far") if p else None
        if not a:
            return [("go", None, p)]
        return [("go", n, w, a[n]) for n, w in ws.items()]
    runs = [(ci, f) for ci in range(len(cases)) for f, ok in ((run_cpp, cpp), (run_rust, rust), (run_py, True), (run_go, go)) if ok]
    for (ci, _), res in zip(runs, vf.parallel([lambda ci=ci, f=f: f(ci) for ci, f in runs], n=6)):
        for x in res:
            if x[1] is None:
                bad(x[0], "an intact archive cannot be read", cases[ci][0], x[2])
            else:
                got.append((ci,) + tuple(x))
    recs = []
    for ci, (d, tar, work, parts) in enumerate(cases):
        for n in work:
            r = rs[n]
            data, index = parts[n]
            recs.append({"op": "load", "r": {"name": n, "kind": r["kind"], "types": r.get("types", []), "iw": r.get("width", 0)}, "data": data.tla(), "index": index.tla() if index else []})
            for cj, lang, k, asks, answers in got:
                if cj != ci or k != n:
                    continue
                if len(answers) != len(asks):
                    bad(lang, "answers are missing", d, [n, asks, answers])
                    continue
                recs += [{"lang": lang, "op": a[0], "i": le8(a[1]), "n": a[2], "got": answer(a[0], g)} for a, g in zip(asks, answers)]
                c.count("elements and parts looked at", len(asks))
                c.count("looked at in " + lang, len(asks))
            c.sample({"resource": n, "size": data.len, "written at": [a for a, _ in data.parts][:8]})
    c.traces -= len([r for r in recs if r["op"] == "load"])
    vf.validate(c, "FarTrace", recs, cfg_extra="CONSTANT Base = 256\n", name="elements of large resources", ways=8, start=lambda r: r["op"] == "load",
                extra={"model.json": json.dumps(model.tla(m))}, key=lambda r: "%s %s" % (r.get("lang"), r["op"]))


CHECKS = {"C09": c09}
