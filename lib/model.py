"""Schemas as data: the text flatdata reads, the JSON the TLA+ modules read, and C++ glue for drivers/fd.h.

model = {"ns": "n", "consts": [...], "enums": [...], "structs": [...], "archives": [...]}
  const   {"name","type","value"}
  enum    {"name","type","width"|None,"values":[(name, value|None)]}
  struct  {"name","fields":[{"name","type","width"|None,"enum","opt","range"}]}
  archive {"name","res":[{"name","kind","types","width","opt","refs":[(struct.field, target)],"arch"}]}
kind: inst | vec | multi | raw | arch
"""
BASE = {"bool": (1, False)}
for _w in (8, 16, 32, 64):
    BASE["u%d" % _w] = (_w, False)
    BASE["i%d" % _w] = (_w, True)
M64 = (1 << 64) - 1


def by_name(xs):
    return {x["name"]: x for x in xs}


def field_info(m, f):
    """(width, signed) of a field as the schema declares it."""
    if f.get("enum"):
        e = by_name(m["enums"])[f["enum"]]
        w, s = BASE[e["type"]]
        return (f.get("width") or e.get("width") or w), s
    w, s = BASE[f["type"]]
    return (f.get("width") or w), s


def struct_bits(m, s):
    return sum(field_info(m, f)[0] for f in s["fields"])


def has_range(s):
    return any(f.get("range") for f in s["fields"])


# ---------------------------------------------------------------- schema text
def ns_of(m, x):
    return x.get("ns", m["ns"])


def spread(m):
    """Whether the definitions live in several namespaces (items with an "ns" of their own)."""
    return any("ns" in x for k in ("consts", "enums", "structs", "archives") for x in m.get(k, []))


def pyname(m, name, kind="structs"):
    return ns_of(m, by_name(m[kind])[name]).replace(".", "_") + "_" + name


def text(m, order=None):
    q = {}
    for k in ("consts", "enums", "structs", "archives"):
        for x in m.get(k, []):
            q[x["name"]] = ".%s.%s" % (ns_of(m, x), x["name"]) if spread(m) else x["name"]
    parts = []
    for c in m.get("consts", []):
        parts.append((c, "const %s %s = %s;" % (c["type"], c["name"], c["value"])))
    for e in m.get("enums", []):
        vals = ", ".join(n if v is None else "%s = %s" % (n, v) for n, v in e["values"])
        parts.append((e, "enum %s : %s%s { %s }" % (e["name"], e["type"], " : %d" % e["width"] if e.get("width") else "", vals)))
    for s in m.get("structs", []):
        fs = []
        for f in s["fields"]:
            d = ""
            if f.get("opt"):
                d += "@optional( %s ) " % q[f["opt"]]
            if f.get("range"):
                d += "@range( %s ) " % f["range"]
            fs.append("%s%s : %s%s;" % (d, f["name"], q[f["enum"]] if f.get("enum") else f["type"], " : %d" % f["width"] if f.get("width") else ""))
        parts.append((s, "struct %s { %s }" % (s["name"], " ".join(fs))))
    for a in m.get("archives", []):
        rs = []
        for r in a["res"]:
            d = "".join("@explicit_reference( %s, %s ) " % tuple(x) for x in r.get("refs", []))
            if r.get("opt"):
                d = "@optional " + d
            k = r["kind"]
            ts = [q[t] for t in r.get("types", [])]
            t = {"inst": lambda: ts[0], "vec": lambda: "vector< %s >" % ts[0],
                 "multi": lambda: "multivector< %d, %s >" % (r["width"], ", ".join(ts)),
                 "raw": lambda: "raw_data", "arch": lambda: "archive " + q[r["arch"]]}[k]()
            rs.append("%s%s : %s;" % (d, r["name"], t))
        parts.append((a, "archive %s { %s }" % (a["name"], "\n  ".join(rs))))
    out, at = [], None
    for x, t in parts:
        if ns_of(m, x) != at:
            out += (["}"] if out else []) + ["namespace %s {" % ns_of(m, x)]
            at = ns_of(m, x)
        out.append(t)
    return "\n".join(out or ["namespace %s {" % m["ns"]]) + "\n}\n"


# ---------------------------------------------------------------- the specification's view
def le8(v):
    return list((int(v) & M64).to_bytes(8, "little"))


def val8(b):
    return int.from_bytes(bytes(b), "little")


def max_of(m, a, r):
    """Smallest 2^width over the explicit references (64-bit ones do not limit); None if unlimited."""
    best = None
    for o in a["res"]:
        for ref, target in o.get("refs", []):
            if target.split(".")[-1] != r["name"]:
                continue
            sn, fn = ref.split(".")[-2:]
            s = by_name(m["structs"])[sn]
            w = field_info(m, by_name(s["fields"])[fn])[0]
            if w < 64 and (best is None or w < best):
                best = w
    return best


def tla(m):
    consts = by_name(m.get("consts", []))
    structs = {}
    for s in m["structs"]:
        fs = []
        for f in s["fields"]:
            w, sg = field_info(m, f)
            fs.append({"name": f["name"], "w": w, "s": sg, "range": bool(f.get("range")),
                       "opt": le8(consts[f["opt"]]["value"]) if f.get("opt") else []})
        structs[s["name"]] = {"fields": fs, "range": has_range(s)}
    archives = {}
    for a in m["archives"]:
        rs = []
        for r in a["res"]:
            mx = max_of(m, a, r)
            rs.append({"name": r["name"], "kind": r["kind"], "types": r.get("types", []), "iw": r.get("width", 0),
                       "opt": bool(r.get("opt")), "arch": r.get("arch", ""), "max": -1 if mx is None else mx})
        archives[a["name"]] = rs
    return {"structs": structs, "archives": archives}


# ---------------------------------------------------------------- C++ glue
CPP_T = {"bool": "bool"}
for _w in (8, 16, 32, 64):
    CPP_T["u%d" % _w] = "uint%d_t" % _w
    CPP_T["i%d" % _w] = "int%d_t" % _w


def cpp(m, header="schema.hpp", parts=("archives",), only=None):
    """parts: 'archives' registers every archive; only: the structs to make glue for (default: all)"""
    ns = "::" + "::".join(m["ns"].split(".")) + "::"
    o = ['#include "%s"' % header, '#include "fd.h"', "using namespace fd;"]
    # definitions of other namespaces are made known in the model's own
    for kind, suffixes in (("enums", ("",)), ("structs", ("", "Mutator")), ("archives", ("", "Builder"))):
        for x in m.get(kind, []):
            if ns_of(m, x) != m["ns"]:
                o.append("namespace %s { %s }" % ("::".join(m["ns"].split(".")), " ".join("using ::%s::%s%s;" % ("::".join(x["ns"].split(".")), x["name"], y) for y in suffixes)))
    enums = by_name(m.get("enums", []))
    for s in m["structs"]:
        if only is not None and s["name"] not in only:
            continue
        S = ns + s["name"]
        o.append("static const char* N_%s = \"%s\";" % (s["name"], s["name"]))
        o.append("namespace fd { template<> struct Ops< %s > {" % S)
        o.append(" static const size_t COUNT = %d;" % len(s["fields"]))
        o.append(" static void set( %sMutator m, Tok& t ) { (void)m; (void)t;" % S)
        for i, f in enumerate(s["fields"]):
            o.append("  set_%d( m, t );" % i)
        o.append(" }")
        o.append(" static void set_field( %sMutator m, size_t i, Tok& t ) { (void)m; (void)t; switch( i ) {" % S)
        for i, f in enumerate(s["fields"]):
            o.append("  case %d: set_%d( m, t ); break;" % (i, i))
        o.append(" } }")
        for i, f in enumerate(s["fields"]):
            base = enums[f["enum"]]["type"] if f.get("enum") else f["type"]
            T = ns + f["enum"] if f.get("enum") else CPP_T[base]
            o.append(" static void set_%d( %sMutator m, Tok& t ) { std::string w = t.next( );" % (i, S))
            if f.get("opt"):
                o.append("  if ( w == \"none\" ) { m.%s = boost::none; return; }" % f["name"])
                o.append("  if ( w[ 0 ] == 'b' ) { m.%s = boost::optional< %s >( static_cast< %s >( to_u( w.substr( 1 ) ) ) ); return; }" % (f["name"], T, T))
            o.append("  m.%s = static_cast< %s >( to_u( w ) ); }" % (f["name"], T))
        o.append(" static void pat( %sMutator m, uint64_t i ) { (void)m; (void)i;" % S)
        for i, f in enumerate(s["fields"]):
            base = enums[f["enum"]]["type"] if f.get("enum") else f["type"]
            T = ns + f["enum"] if f.get("enum") else CPP_T[base]
            w = field_info(m, f)[0]
            o.append("  m.%s = static_cast< %s >( ( i * %dull ) & %dull );" % (f["name"], T, 2 * i + 3, (1 << w) - 1))
        o.append(" }")
        for acc in ("", "Mutator"):
            o.append(" static void get( %s%s a, Out& o ) { (void)a; o.list( );" % (S, acc))
            for i, f in enumerate(s["fields"]):
                base = enums[f["enum"]]["type"] if f.get("enum") else f["type"]
                T = ns + f["enum"] if f.get("enum") else CPP_T[base]
                if f.get("opt"):
                    o.append("  o.opt< %s >( a.%s );" % (T, f["name"]))
                else:
                    o.append("  o.num( static_cast< %s >( a.%s ) );" % (T, f["name"]))
            o.append("  o.end( ); }")
        o.append(" static void limits( Out& o ) { o.list( );")
        for f in s["fields"]:
            w, sg = field_info(m, f)
            if f.get("opt") or (sg and (w == 1 or f.get("enum"))):    # no limits offered, or (enumerations) those of the bits
                o.append("  o.null( );")
            else:
                o.append("  { typedef decltype( %s::%s ) X; o.list( ); o.num( X::min ); o.num( X::max ); o.u( X::bit_width ); o.end( ); }" % (S, f["name"]))
        o.append("  o.end( ); }")
        r = [f for f in s["fields"] if f.get("range")]
        o.append(" static bool range( %s a, Out& o ) { (void)a; (void)o;" % S)
        if r:
            base = r[0]["type"]
            o.append("  std::pair< %s, %s > p = a.%s; o.list( ); o.num( p.first ); o.num( p.second ); o.end( ); return true; }" % (CPP_T[base], CPP_T[base], r[0]["range"]))
        else:
            o.append("  return false; }")
        o.append("}; }")
    if "archives" in parts:
        names = [a["name"] for a in m["archives"]]
        for A in names:
            o.append("static void dump_%s( const %s%s& a, Out& o );" % (A, ns, A))
            o.append("static void probe_%s( const %s%s& a, Out& o );" % (A, ns, A))
            o.append("struct B_%s;" % A)
        amap = by_name(m["archives"])

        def order(done, a):
            for r in a["res"]:
                if r["kind"] == "arch":
                    order(done, amap[r["arch"]])
            if a["name"] not in done:
                done.append(a["name"])
        seq = []
        for a in m["archives"]:
            order(seq, a)
        for A in seq:
            a = amap[A]
            nsa = "::" + "::".join(ns_of(m, a).split(".")) + "::"
            o.append("static void dump_%s( const %s%s& a, Out& o ) {" % (A, ns, A))
            o.append(" o.obj( ); o.key( \"open\" ); o.boolean( a.is_open( ) ); o.key( \"cast\" ); o.boolean( static_cast< bool >( a ) ); if ( a.is_open( ) ) { o.key( \"res\" ); o.obj( );")
            for r in a["res"]:
                n, k = r["name"], r["kind"]
                o.append("  o.key( \"%s\" );" % n)
                if r.get("opt"):
                    o.append("  if ( !a.%s( ) ) o.null( ); else { auto& x = *a.%s( );" % (n, n))
                else:
                    o.append("  { auto& x = a.%s( );" % n)
                if k == "inst":
                    o.append("   dump_inst< %s%s >( x, o ); }" % (ns, r["types"][0]))
                elif k == "vec":
                    o.append("   dump_view< %s%s >( x, o ); }" % (ns, r["types"][0]))
                elif k == "multi":
                    o.append("   dump_multi< %s >( x, o ); }" % ", ".join([nsa + "_builtin::multivector::IndexType%d" % r["width"]] + [ns + t for t in r["types"]]))
                elif k == "raw":
                    o.append("   dump_raw( x, o ); }")
                else:
                    o.append("   dump_%s( x, o ); }" % r["arch"])
            o.append(" o.end( ); } o.key( \"describe\" ); o.num( a.describe( ).size( ) > 0 ? 1 : 0 ); o.end( ); }")
            o.append("static void probe_%s( const %s%s& a, Out& o ) {" % (A, ns, A))
            o.append(" o.obj( ); o.key( \"open\" ); o.boolean( a.is_open( ) ); o.key( \"cast\" ); o.boolean( static_cast< bool >( a ) ); if ( a.is_open( ) ) { o.key( \"res\" ); o.obj( );")
            for r in a["res"]:
                n, k = r["name"], r["kind"]
                o.append("  o.key( \"%s\" );" % n)
                if r.get("opt"):
                    o.append("  if ( !a.%s( ) ) o.null( ); else { auto& x = *a.%s( );" % (n, n))
                else:
                    o.append("  { auto& x = a.%s( );" % n)
                o.append({"inst": "   (void)x; o.u( 1 ); }", "arch": "   probe_%s( x, o ); }" % r.get("arch"), "raw": "   o.u( x.size_in_bytes( ) ); }"}.get(k, "   o.u( x.size( ) ); }"))
            o.append(" o.end( ); } o.key( \"describe\" ); o.num( a.describe( ).size( ) > 0 ? 1 : 0 ); o.end( ); }")
            # builder
            o.append("struct B_%s : Builder { %s%sBuilder own; %s%sBuilder* b;" % (A, ns, A, ns, A))
            o.append(" B_%s( std::shared_ptr< flatdata::ResourceStorage > s ) : own( %s%sBuilder::open( s ) ), b( &own ) {}" % (A, ns, A))
            o.append(" explicit B_%s( %s%sBuilder* p ) : b( p ) {}" % (A, ns, A))
            o.append(" bool open( ) override { return b->is_open( ) && static_cast< bool >( *b ); }")
            o.append(" bool set( const std::string& n, Tok& t ) override {")
            for r in a["res"]:
                n, k = r["name"], r["kind"]
                if k == "inst":
                    S = ns + r["types"][0]
                    o.append("  if ( n == \"%s\" ) { flatdata::Struct< %s > v; Ops< %s >::set( *v, t ); return b->set_%s( *v ); }" % (n, S, S, n))
                elif k == "vec":
                    S = ns + r["types"][0]
                    o.append("  if ( n == \"%s\" ) { size_t c = to_u( t.next( ) ); flatdata::Vector< %s > v; for ( size_t i = 0; i < c; ++i ) Ops< %s >::set( v.grow( ), t ); return b->set_%s( v ); }" % (n, S, S, n))
                elif k == "raw":
                    o.append("  if ( n == \"%s\" ) { std::string d = unhex( t.next( ) ) + std::string( 8, '\\x5a' ); return b->set_%s( flatdata::MemoryDescriptor( d.data( ), d.size( ) - 8 ) ); }" % (n, n))
            o.append("  throw Unknown( n ); }")
            o.append(" std::unique_ptr< Growing > start( const std::string& n ) override {")
            for r in a["res"]:
                n, k = r["name"], r["kind"]
                if k == "vec":
                    S = ns + r["types"][0]
                    o.append("  if ( n == \"%s\" ) return std::unique_ptr< Growing >( new GrowingVec< %s >( b->start_%s( ) ) );" % (n, S, n))
                elif k == "multi":
                    o.append("  if ( n == \"%s\" ) return std::unique_ptr< Growing >( new GrowingMulti< %s >( b->start_%s( ) ) );" % (
                        n, ", ".join([nsa + "_builtin::multivector::IndexType%d" % r["width"]] + [ns + t for t in r["types"]]), n))
            o.append("  throw Unknown( n ); }")
            o.append(" std::unique_ptr< Builder > sub( const std::string& n ) override {")
            for r in a["res"]:
                if r["kind"] == "arch":
                    o.append("  if ( n == \"%s\" ) return std::unique_ptr< Builder >( new B_%s( &b->%s( ) ) );" % (r["name"], r["arch"], r["name"]))
            o.append("  throw Unknown( n ); }")
            o.append("};")
        o.append("namespace fd { void register_all( ) {")
        for A in names:
            o.append(" archives( )[ \"%s\" ] = Arch{ []( std::shared_ptr< flatdata::ResourceStorage > s, Out& o ) { dump_%s( %s%s::open( s ), o ); }, []( std::shared_ptr< flatdata::ResourceStorage > s ) { return std::unique_ptr< Builder >( new B_%s( s ) ); }, %s%s::schema_definition( ), []( std::shared_ptr< flatdata::ResourceStorage > s, Out& o ) { probe_%s( %s%s::open( s ), o ); }, []( std::shared_ptr< flatdata::ResourceStorage > s ) { return %s%s::open( s ).describe( ); } };" % (A, A, ns, A, A, ns, A, A, ns, A, ns, A))
        o.append("} }")
    return "\n".join(o) + "\n"


def bench_sources(m, parts=6, multis=()):
    """Translation units for drivers/bench.h: one bench per struct, one per multivector (name, width, types)."""
    ns = "::" + "::".join(m["ns"].split(".")) + "::"
    names = [s["name"] for s in m["structs"]]
    sm = by_name(m["structs"])
    groups = [names[i::parts] for i in range(parts) if names[i::parts]]
    out = []
    for k, g in enumerate(groups):
        t = cpp(m, parts=(), only=g) + '#include "bench.h"\nnamespace fd { void reg_%d( ) {\n' % k
        for n in g:
            t += ' benches( )[ "%s" ] = [ ] { return std::unique_ptr< Bench >( new BenchT< %s%s, %s > ); };\n' % (n, ns, n, "true" if has_range(sm[n]) else "false")
        out.append(("bench_%d.cpp" % k, t + "} }\n"))
    n = len(groups)
    for name, width, types in multis:
        t = cpp(m, parts=(), only=types) + '#include "bench.h"\nnamespace fd { void reg_%d( ) {\n' % n
        t += ' mbenches( )[ "%s" ] = [ ] { return std::unique_ptr< MBench >( new MBenchT< %s > ); };\n} }\n' % (
            name, ", ".join([ns + "_builtin::multivector::IndexType%d" % width] + [ns + x for x in types]))
        out.append(("bench_%d.cpp" % n, t))
        n += 1
    t = '#include "bench.h"\nnamespace fd {%s\n}\nint main( ) { %s return fd::run( fd::bench_command ); }\n' % (
        "".join(" void reg_%d( );" % k for k in range(n)), " ".join("fd::reg_%d( );" % k for k in range(n)))
    out.append(("bench_main.cpp", t))
    return out


# ---------------------------------------------------------------- the standing example
DRV = {
    "ns": "n",
    "consts": [{"name": "NONE16", "type": "i16", "value": -7}],
    "enums": [{"name": "Kind", "type": "u8", "width": 3, "values": [("A", 0), ("B", None), ("C", 5)]}],
    "structs": [
        {"name": "P", "fields": [{"name": "x", "type": "u32", "width": 20}, {"name": "y", "type": "i16", "width": 13},
                                 {"name": "k", "enum": "Kind", "width": 3}, {"name": "b", "type": "bool", "width": 1},
                                 {"name": "z", "type": "u64"}]},
        {"name": "Q", "fields": [{"name": "c", "type": "u8"}, {"name": "o", "type": "i16", "width": 13, "opt": "NONE16"}]},
        {"name": "R", "fields": [{"name": "first", "type": "u32", "width": 20, "range": "span"}, {"name": "v", "type": "i8"}]},
        {"name": "T", "fields": [{"name": "t" + "_long" * 900, "type": "i32", "width": 29}]}    # stored schemas of more than a page,
    ],
    "archives": [
        {"name": "Sub", "res": [{"name": "data", "kind": "inst", "types": ["P"]}, {"name": "xs", "kind": "vec", "types": ["Q"], "opt": True}]},
        {"name": "Arch", "res": [
            {"name": "inst", "kind": "inst", "types": ["P"]},
            {"name": "oinst", "kind": "inst", "types": ["Q"], "opt": True},
            {"name": "ps", "kind": "vec", "types": ["Q"]},
            {"name": "ops", "kind": "vec", "types": ["T"], "opt": True},
            {"name": "rs", "kind": "vec", "types": ["R"]},
            {"name": "mv", "kind": "multi", "types": ["P", "Q", "T"], "width": 33},
            {"name": "omv", "kind": "multi", "types": ["Q"], "width": 40, "opt": True},
            {"name": "raw", "kind": "raw"},
            {"name": "oraw", "kind": "raw", "opt": True},
            {"name": "sub", "kind": "arch", "arch": "Sub"},
            {"name": "osub", "kind": "arch", "arch": "Sub", "opt": True},
        ]},
        {"name": "Opt", "res": [
            {"name": "i", "kind": "inst", "types": ["P"], "opt": True},
            {"name": "v", "kind": "vec", "types": ["T"], "opt": True},
            {"name": "w", "kind": "vec", "types": ["P"], "opt": True},
            {"name": "m", "kind": "multi", "types": ["T", "Q", "P"], "width": 33, "opt": True},
            {"name": "m64", "kind": "multi", "types": ["T"], "width": 64, "opt": True},
            {"name": "r", "kind": "raw", "opt": True},
            {"name": "sub", "kind": "arch", "arch": "Leaf", "opt": True},
        ]},
        {"name": "Leaf", "res": [{"name": "d", "kind": "inst", "types": ["T"]}]},
        {"name": "Mini", "res": [
            {"name": "a", "kind": "inst", "types": ["T"]},
            {"name": "v", "kind": "vec", "types": ["Q"], "opt": True},
            {"name": "m", "kind": "multi", "types": ["T", "Q"], "width": 8},
            {"name": "osub", "kind": "arch", "arch": "Leaf", "opt": True},
        ]},
        {"name": "Flat", "res": [
            {"name": "inst", "kind": "inst", "types": ["P"]},
            {"name": "oinst", "kind": "inst", "types": ["Q"], "opt": True},
            {"name": "ps", "kind": "vec", "types": ["P"]},
            {"name": "ops", "kind": "vec", "types": ["T"], "opt": True},
            {"name": "rs", "kind": "vec", "types": ["R"], "opt": True},
            {"name": "mv", "kind": "multi", "types": ["T", "Q"], "width": 17},
            {"name": "omv", "kind": "multi", "types": ["P"], "width": 64, "opt": True},
            {"name": "raw", "kind": "raw"},
            {"name": "oraw", "kind": "raw", "opt": True},
        ]},
    ],
}


def pat(m, sname, i):
    """The values Ops<sname>::pat gives element i, as a reader returns them (two's complement)."""
    out = []
    for k, f in enumerate(by_name(m["structs"])[sname]["fields"]):
        w, sg = field_info(m, f)
        v = (i * (2 * k + 3)) & ((1 << w) - 1)
        if sg and w > 1 and v >> (w - 1):
            v |= M64 & ~((1 << w) - 1)
        out.append(v)
    return out


def flat(m, archive, prefix=""):
    """All non-archive resources of an archive, recursively: (path prefix, resource, archive name)."""
    a = by_name(m["archives"])[archive]
    res = []
    for r in a["res"]:
        if r["kind"] == "arch":
            res += flat(m, r["arch"], prefix + r["name"] + "/")
        else:
            res.append((prefix, r, archive))
    return res
