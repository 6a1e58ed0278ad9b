"""C10: what the access statistics of C++ report; histories from StatisticsGen.tla, reports judged by StatisticsTrace.tla."""
import json, os, re, subprocess
import vf, model, gen, cppdrv, fdlib, layout
from fdlib import *

FLAG = "-DDEBUG_DATA_ACCESS_STATISTICS"
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover"]
CFG = """SPECIFICATION %s
CONSTANTS MaxOps = %d
EmitFrom = %d
INVARIANTS Emit Inside%s
PROPERTIES Kept Grows
CHECK_DEADLOCK FALSE
"""


def parse(text):
    """The report, percentages in thousandths; None if it is not one."""
    g = {"total": 0, "entries": [], "left": [], "stray": 0, "lost": 0}
    p = lambda x: round(float(x) * 1000)
    mode = None
    for l in text.splitlines():
        m = re.fullmatch(r"Error: Trying to deregister .*", l)
        if m:
            g["lost"] += 1
            continue
        if l == "===== flatdata debug statistics =====":
            mode = "head"
        elif mode == "head" and re.fullmatch(r"Total pages: \d+", l):
            g["total"] = int(l.split()[-1])
        elif mode == "head" and l == "Usage statistics:":
            mode = "usage"
        elif l == "Resources not properly closed:":
            mode = "left"
        elif l == "Unregistered data reads:":
            mode = "stray"
        elif mode == "left":
            g["left"].append(l[4:])
        elif mode == "stray":
            g["stray"] = int(l)
        elif mode == "usage":
            m = re.fullmatch(r"    (\S.*)\((\S+)% of pages\): ", l)
            if m:
                e = {"name": m[1], "share": p(m[2]), "mixed": False, "redundant": []}
                g["entries"].append(e)
                continue
            m = re.fullmatch(r"        bytes \[count\]: (\d+) out of (\d+)", l)
            if m:
                e["bytes"], e["size"] = int(m[1]), int(m[2])
                continue
            m = re.fullmatch(r"        bytes \[accessed\]: (\S+)%", l)
            if m:
                e["accessed"] = p(m[1])
                continue
            m = re.fullmatch(r"        pages \[count\]: (\d+) out of (\d+)", l)
            if m:
                e["pages"], e["allpages"] = int(m[1]), int(m[2])
                continue
            m = re.fullmatch(r"        pages \[data access\]: (\S+)%", l)
            if m:
                e["used"] = p(m[1])
                continue
            m = re.fullmatch(r"            byte +(\d+) redundant: (\S+)%", l)
            if m:
                e["redundant"].append([int(m[1]), p(m[2])])
            elif l == "        mixed data -> no padding analysis":
                e["mixed"] = True
            elif l != "        unused struct members:":
                return None
        else:
            return None
    return g if mode and all(len(e) == 10 for e in g["entries"]) else None


def run(exe, text, args=()):
    p = subprocess.run([exe] + list(args), input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def line(o):
    return " ".join(str(o[k]) for k in {"register": ("op", "name", "at", "size"), "deregister": ("op", "at", "size"),
                                        "read": ("op", "at", "n", "pos", "size"), "clear": ("op",)}[o["op"]])


def mapping(rng, name, at, size, z, n):
    """Reads of a mapping: fields of structures, its size, and some that fit no structure."""
    reads = [[0, 8, 0, 0]]
    pure = rng.choice((.6, 1, 1))
    for k in range(n):
        if rng.random() < pure and size >= 8 + z:
            i = rng.choice((0, 1, 2, rng.randint(0, (size - 8) // z - 1), (size - 8) // z - 1)) if z else 0
            if rng.random() < .3:
                # the one over the end of a page
                i = max(0, (rng.choice((4096, 8192)) - 8 - 1) // z)
            i = min(i, (size - 8) // z - 1)
            pos = rng.choice((rng.randint(0, z - 1), z - 1))
            # readers touch whole integers, also behind the structure
            reads.append([8 + i * z + pos, min(rng.choice((1, 2, 4, 8, 9)), size - (8 + i * z + pos)), pos, z])
        elif rng.random() < .5 and size > 60:
            reads.append([rng.randint(8, size - 20), rng.choice((1, 3, 8)), 0, rng.choice((0, z, z + 1, 255, 256, 300))])
        else:
            a = rng.randint(0, max(0, size - 1))
            reads.append([a, rng.choice((1, 2, 8, 0, 40)), 0, 0])
    return {"name": name, "at": at, "size": size, "reads": reads}


def ends(rng, h):
    """Ends of all mappings a history leaves open."""
    n = {}
    for o in h:
        if o["op"] == "register":
            n[o["at"], o["size"]] = n.get((o["at"], o["size"]), 0) + 1
        elif o["op"] == "deregister":
            n[o["at"], o["size"]] = max(0, n.get((o["at"], o["size"]), 0) - 1)
    out = [{"op": "deregister", "at": a, "size": z} for (a, z), k in n.items() for _ in range(k)]
    rng.shuffle(out)
    return out


def synthetic(c):
    rng = c.rng
    sets = []
    # a few mappings whose every history is enumerated
    small = [[{"name": "a", "at": 0, "size": 20, "reads": [[8, 4, 0, 4], [0, 9, 0, 0]]}, {"name": "b", "at": 20, "size": 12, "reads": [[8, 4, 0, 4], [10, 4, 2, 4]]}]]
    for s in small:
        sets.append((s, c.pick(4, 5), 0, None))
    # one mapping: what was read before a clear is forgotten
    sets.append(([{"name": "a", "at": 0, "size": 40, "reads": [[8, 12, 0, 4], [14, 4, 0, 4]]}], 6, 6, None))
    for k in range(c.pick(10, 40)):
        maps, at = [], rng.choice((0, 4096))
        for name in ("a", "dir/b", "c.c", "d")[:rng.randint(1, 4)]:
            size = rng.choice((17, 40, 128, 1000, 4100, 9000, 12000, 5))
            z = rng.choice((1, 2, 3, 4, 7, 8, 12, 33))
            maps.append(mapping(rng, name, at, size, z, c.pick(16, 24)))
            at += size + rng.choice((0, 0, 1, 4096))
            at += 4096 - at % 4096 if rng.random() < .5 else 0
        n = rng.choice((10, 25, 60))
        sets.append((maps, n, n, c.pick(40, 120)))

    def one(i, s):
        maps, ops, frm, sim = s
        return vf.tlc("StatisticsGen", CFG % ("SpecRandom" if sim else "Spec", ops, frm, "" if sim else " Commute"), workers=2, simulate=sim, depth=ops + 1, seed=c.seed + i, timeout=600, extra_files={"maps.json": json.dumps(maps)})
    jobs = [lambda i=i, s=s: one(i, s) for i, s in enumerate(sets)]
    res = vf.parallel([lambda f=f: vf.cpp_program("stats", [os.path.join(vf.DRV, "stats_main.cpp")], flags=f + [FLAG], link_lib=False) for f in (ASAN, ["-fsanitize=thread"])] + jobs, n=6)
    exe, tsan, res = res[0], res[1], res[2:]
    hists = []
    for s, r in zip(sets, res):
        c.add_tlc(r, "Statistics/%s%d" % ("random/" if s[3] else "all histories/", s[1]))
        hs = [e["hist"] for e in r.emitted]
        if s[2] == 6 and not s[3]:
            hs = [h for h in hs if h[0]["op"] == "register" and h[-1]["op"] == "deregister"]
        for h in [x for i, x in enumerate(hs) if x not in hs[:i]] if s[3] else hs:
            hists.append(h)
            if s[3] and len(hists) % 4:
                hists[-1] = h + ends(c.rng, h)
    if c.quick and len(hists) > 2200:
        keep = [h for h in hists if len(h) > 4]
        hists = keep + rng.sample([h for h in hists if len(h) <= 4], min(2200, len(hists) - len(keep)))
    def go(h, exe, *args):
        rc, so, se = run(exe, "\n".join(line(o) for o in h) + "\n", args)
        return rc, parse(se), se
    # reads that follow each other may be anybody's: some histories with several threads
    longest = sorted(hists, key=len)[-c.pick(150, 800):]
    out = vf.parallel([lambda h=h: go(h, exe) for h in hists] + [lambda h=h: go(h, tsan, "3") for h in longest], n=8)
    hists += longest
    c.count("histories with threads", len(longest))
    recs = []
    for h, (rc, g, se) in zip(hists, out):
        if rc or (g is None and any(o["op"] != "clear" for o in h) and se):
            c.violation("a history ends in a crash or an unreadable report", {"hist": h, "rc": rc, "stderr": se[-1500:]}, key="crash")
            continue
        recs.append({"op": "report", "hist": h, "got": g or parse("===== flatdata debug statistics =====")})
    c.sample({"hist": hists[-1]}, 2)
    c.count("histories", len(hists))
    es = [e for r in recs for e in r["got"]["entries"]]
    c.count("mappings reported", len(es))
    c.count("mappings with structures", sum(not e["mixed"] for e in es))
    c.count("bytes called redundant", sum(len(e["redundant"]) for e in es))
    vf.validate(c, "StatisticsTrace", recs, name="reports of histories", ways=8, key=lambda r: "report")


MAIN = r"""
#include "schema.hpp"
#include <cstdint>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
@PICK@
static int go( std::unique_ptr< flatdata::ResourceStorage > storage )
{
    std::shared_ptr< flatdata::ResourceStorage > s( std::move( storage ) );
    if ( !s )
        return 4;
    auto a = n::Arch::open( s );
    if ( !a.is_open( ) )
        return 5;
    std::string res;
    size_t i;
    int k;
    while ( std::cin >> res >> i >> k )
    {
@READ@
    }
    return 0;
}
int main( int, char** argv )
{
    std::string kind = argv[ 1 ];
    if ( kind == "file" )
        return go( flatdata::FileResourceStorage::create( argv[ 2 ] ) );
    if ( kind == "tar" )
        return go( flatdata::TarArchiveResourceStorage::create( argv[ 2 ] ) );
    auto m = flatdata::MemoryResourceStorage::create( );
    std::string name;
    for ( std::ifstream list( argv[ 3 ] ); list >> name; )
    {
        std::ifstream f( std::string( argv[ 2 ] ) + "/" + name, std::ios::binary );
        std::stringstream b;
        b << f.rdbuf( );
        std::string t = b.str( );
        m->assign_value( name.c_str( ), flatdata::MemoryDescriptor( t.data( ), t.size( ) ) );
    }
    return go( std::move( m ) );
}
"""
CT = {"bool": "bool", "i8": "int8_t", "u8": "uint8_t", "i16": "int16_t", "u16": "uint16_t", "i32": "int32_t", "u32": "uint32_t", "i64": "int64_t", "u64": "uint64_t"}


def fields(m, s):
    """name, type, first bit, bits, range"""
    out, at = [], 0
    for f in s["fields"]:
        w = model.field_info(m, f)[0]
        out.append((f["name"], f["type"], at, w, f.get("range")))
        at += w
    return out


def source(m):
    pick = read = ""
    for s in m["structs"]:
        pick += "static void pick( n::%s s, int k ) {\n" % s["name"]
        for k, (n, t, _, _, rg) in enumerate(fields(m, s)):
            if rg:
                pick += "  if ( k == %d ) { std::pair< %s, %s > p = s.%s; std::cout << int64_t( p.first ) << ' ' << int64_t( p.second ) << '\\n'; }\n" % (k, CT[t], CT[t], rg)
            else:
                pick += "  if ( k == %d ) { %s x = s.%s; std::cout << int64_t( x ) << '\\n'; }\n" % (k, CT[t], n)
        pick += "}\n"
    for r in m["archives"][0]["res"]:
        if r["kind"] in ("vec", "inst"):
            read += '        if ( res == "%s" ) pick( a.%s( )%s, k );\n' % (r["name"], r["name"], "[ i ]" if r["kind"] == "vec" else "")
    return MAIN.replace("@PICK@", pick).replace("@READ@", read)


def world(rng):
    m = {"ns": "n", "consts": [], "enums": [], "structs": [], "archives": []}
    for k, (bits, rg) in enumerate(((8, 0), (30, 1), (64, 0), (200, 1), (120, 0), (16, 0))):
        m["structs"].append(gen.rand_struct(rng, m, "S%d" % k, enums=False, opts=False, maxbits=bits, rng_field=bool(rg)))
    # fields that reach into a ninth byte
    m["structs"].append({"name": "Wide", "fields": [{"name": "w%d" % k, "type": t, "width": w} for k, (t, w) in enumerate((("u8", rng.randint(1, 7)), (rng.choice(("u64", "i64")), 64), ("u16", 16), (rng.choice(("u64", "i64")), rng.randint(62, 64)), ("u8", 7)))]})
    plain = [s["name"] for s in m["structs"] if not model.has_range(s)]
    res = [{"name": "v" + s["name"].lower(), "kind": "vec", "types": [s["name"]]} for s in m["structs"]]
    res += [{"name": "i", "kind": "inst", "types": [rng.choice(plain)]}, {"name": "raw", "kind": "raw"}]
    rng.shuffle(res)
    m["archives"] = [{"name": "Arch", "res": res}]
    return m


def archives(c):
    rng = c.rng
    recs = []
    for i in range(c.pick(2, 8)):
        m = world(rng)
        hd = {"schema.hpp": cppdrv.schema_header(m)}
        exe, plain, sch = vf.parallel([lambda f=f: vf.cpp_program("stats", [("main.cpp", source(m))], headers=hd, flags=ASAN + f) for f in ([FLAG], [])] + [lambda: fdlib.Schemas(m)])
        sm, res = model.by_name(m["structs"]), m["archives"][0]["res"]
        for j in range(c.pick(18, 60)):
            files, size = {}, {}
            for r in res:
                z = layout.nbytes(m, sm[r["types"][0]]) if r["kind"] != "raw" else 1
                n = 1 if r["kind"] == "inst" else rng.choice((2, 3, 10, 40, rng.randint(2, 9000 // z + 2))) if r["kind"] == "vec" else rng.randint(0, 50)
                size[r["name"]] = (n, z)
                files[r["name"]] = layout.rand_bytes(rng, n * z)
                if isinstance(files[r["name"]], (list, tuple)):
                    files[r["name"]] = bytes(files[r["name"]])
            files["Arch.archive"] = b""
            files = {k: len(b).to_bytes(8, "little") + b + bytes(8) for k, b in files.items()}
            for sy, t in sch.text.items():
                files[(sy.split(".", 1)[1] or "Arch.archive") + ".schema"] = t.encode()
            d = vf.scratch("st")
            kind = ("file", "memory", "tar")[j % 3]
            path = os.path.join(d, "x.tar" if kind == "tar" else "a")
            fdlib.write_tree(os.path.join(d, "a"), files)
            ops, base, at = [], {}, 4096
            if kind == "tar":
                # members of tar files are not registered: only answers are compared
                fdlib.make_tar(path, files)
                base = {f: 0 for f in files}
            else:
                for f in sorted(files):
                    base[f] = at
                    at += (len(files[f]) + 8191) // 4096 * 4096
                    ops.append({"op": "register", "name": os.path.join(path, f) if kind == "file" else f, "at": base[f], "size": len(files[f])})
            close = [{"op": "deregister", "at": o["at"], "size": o["size"]} for o in ops]
            ops += [{"op": "read", "at": base[f], "n": 8, "pos": 0, "size": 0} for f in files if not f.endswith(".schema")]
            asks = []
            readable = [r for r in res if r["kind"] != "raw"]
            whole = j % 2
            for r in [r for r in readable if r['name'] == 'vwide'] if j % 5 == 4 else rng.sample(readable, rng.choice((1, 1, 2, 4))):
                n, z = size[r["name"]]
                fs = fields(m, sm[r["types"][0]])
                some = rng.sample(range(len(fs)), rng.choice((1, rng.randint(1, len(fs)))))
                ranged = any(f[4] for f in fs)
                for _ in range(rng.choice((1, 5, 40, 150))):
                    e = rng.randrange(n - (1 if ranged else 0))
                    for k in some if whole else rng.sample(some, 1):
                        asks.append("%s %d %d" % (r["name"], e, k))
                        for x in (e, e + 1) if fs[k][4] else (e,):
                            ops.append({"op": "field", "at": base[r["name"]] + 8 + x * z, "first": fs[k][2], "bits": fs[k][3], "size": z})
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
            lst = os.path.join(d, "list")
            open(lst, "w").write("\n".join(files) + "\n")
            ps = [subprocess.run([x, kind, path, lst], input=("\n".join(asks) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env) for x in (exe, plain)]
            g = parse(ps[0].stderr.decode("utf-8", "replace"))
            if ps[0].returncode or ps[1].returncode or g is None:
                c.violation("reading an archive ends in a crash or an unreadable report", {"kind": kind, "rc": [p.returncode for p in ps], "stderr": ps[0].stderr.decode("utf-8", "replace")[-1500:]}, key="crash")
                continue
            if kind != "tar":
                recs.append({"op": "report", "hist": ops + close, "got": g, "schema": model.text(m)})
            recs.append({"op": "same", "with": ps[0].stdout.decode(), "without": ps[1].stdout.decode()})
            c.count("archives read/" + kind)
    c.count("fields read", sum(o["op"] == "field" for r in recs if r["op"] == "report" for o in r["hist"]))
    c.count("bytes of archives called redundant", sum(len(e["redundant"]) for r in recs if r["op"] == "report" for e in r["got"]["entries"]))
    vf.validate(c, "StatisticsTrace", recs, name="reports of archives", ways=8, key=lambda r: r["op"])


def c10(c):
    try:
        vf.parallel([lambda: synthetic(c), lambda: archives(c)])
    except vf.CompileFailed as e:
        c.violation("code with statistics does not compile", {"error": str(e)[-1500:]}, key="compile")


CHECKS = {"C10": c10}
