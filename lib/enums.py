"""G04: enumerations and constants: numbers of their values in C++, Rust, Python and stored schemas, judged by
EnumTrace.tla."""
import json, subprocess
import vf, schema
from schema import num, val, BASIC


EXACT = (("u16", 9, 128), ("i16", 9, 128), ("i32", 10, 384))       # as few values as an enumeration of this width must have


def make_enum(rng, i, t=None, w=None, n=None):
    """An accepted enumeration: explicit, implied, negative and sparse numbers."""
    t = t or rng.choice([x for x in BASIC if x != "bool"] + (["bool"] if rng.random() < .3 else []))
    W, s = BASIC[t]
    w = w or rng.choice([x for x in (1, 2, 3, 4, 5, 7, 8) if x <= W] + ([0] if W <= 8 else []) + ([9] if W > 8 and rng.random() < .3 else []))
    lo, hi = schema.limits(w or W, s)
    exact = n
    n = n or (rng.randint(1, min(hi - lo + 1, 6)) if w != 9 else rng.randint(128, 140))
    if not exact and rng.random() < .15 and w != 9:
        n = min(hi - lo + 1, 16)
    vals, used, nxt = [], set(), 0
    how = rng.random()          # mostly implied or mostly explicit
    for k in range(n):
        free = [v for v in range(lo, hi + 1) if v not in used]
        if not free:
            break
        if k == 0 and s and rng.random() < .5:       # counting on from below zero
            v = max(lo, rng.choice((-1, -1, -2, -3, lo)))
            how *= .5
            vals.append({"name": "V%d" % k, "has": True, "v": num(v)})
        elif nxt in used or not lo <= nxt <= hi or rng.random() < how * .7:
            v = rng.choice([free[0], free[-1], rng.choice(free), rng.choice(free), min(free, key=abs)])
            vals.append({"name": "V%d" % k, "has": True, "v": num(v)})
        else:
            v = nxt
            vals.append({"name": "V%d" % k, "has": False, "v": num(0)})
        used.add(v)
        nxt = v + 1
        if k and not exact and nxt not in used and lo <= nxt <= hi and rng.random() < .1 and "UNKNOWN_VALUE_%d" % nxt not in [x["name"] for x in vals]:
            # a value that is called as if it had no name, with its own number
            vals.append({"name": "UNKNOWN_VALUE_%d" % nxt if nxt >= 0 else "UNKNOWN_VALUE_MINUS_%d" % -nxt, "has": False, "v": num(0)})
            used.add(nxt)
            nxt += 1
    return {"k": "enum", "name": "E%d" % i, "t": t, "w": w, "vals": vals}


def program(schema_text, es, cs, listed):
    """C++: all enumerators, reads of every pattern and what is written"""
    o = ['#include "gen.h"', "#include <iostream>", "#include <cstring>", "#include <vector>",
         "static void big(__int128 v){ bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; std::string s; do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u); std::cout << '\"' << (n ? \"-\" : \"\") << s << '\"'; }",
         "template <typename E> static long long in(E e){ return (long long)(e); }"]
    for i, (e, pad) in enumerate(es):
        w = e["w"] or BASIC[e["t"]][0]
        nb = (pad + w + 7) // 8
        o += ["static void f%d(){" % i, "using E = e::%s; using S = e::S%d;" % (e["name"], i), 'std::cout << "{\\"values\\":[";']
        o += ['std::cout << "%s{\\"name\\":\\"%s\\",\\"v\\":" << in(E::%s) << "}";' % ("," if k else "", n, n) for k, n in enumerate(listed[i])]
        o += ['std::cout << "],\\"reads\\":["; std::vector<std::string> ts;',
              "for (unsigned r = 0; r < %du; ++r) { unsigned char b[%d] = {}; for (int k = 0; k < %d; ++k) if (r >> k & 1) b[(%d + k) / 8] |= (unsigned char)(1u << (%d + k) %% 8);" % (2 ** w, nb, w, pad, pad),
              'S::AccessorType a{b}; E x = a.f; ts.push_back(to_string(x)); std::cout << (r ? "," : "") << in(x); }',
              'std::cout << "],\\"text\\":["; for (size_t k = 0; k < ts.size(); ++k) std::cout << (k ? "," : "") << \'"\' << ts[k] << \'"\'; std::cout << "],\\"writes\\":[";',
              "bool first = true; for (E x : {%s}) { for (int ff = 0; ff < 2; ++ff) { unsigned char b[%d]; std::memset(b, ff ? 255 : 0, sizeof b); S::MutatorType m{b}; m.f = x;" % (",".join("E::" + n for n in listed[i]), nb),
              "unsigned r = 0; for (int k = 0; k < %d; ++k) r |= (unsigned)(b[(%d + k) / 8] >> (%d + k) %% 8 & 1) << k;" % (w, pad, pad),
              'std::cout << (first ? "" : ",") << "{\\"v\\":" << in(x) << ",\\"raw\\":" << r << "}"; first = false; } }',
              'std::cout << "]}\\n"; }']
    o += ["int main(){"] + ["f%d();" % i for i in range(len(es))]
    o += ['std::cout << "[";'] + ['std::cout << "%s"; big(static_cast<e::%s>(e::%s));' % ("," if k else "", "%s" % CPP[x["t"]] if 0 else "TY_%s" % x["name"], x["name"]) for k, x in enumerate(cs)]
    o += ['std::cout << "]\\n"; }']
    s = "\n".join(o)
    for x in cs:
        s = s.replace("e::TY_%s>" % x["name"], "%s>" % CPP[x["t"]])
    return s


CPP = {"bool": "bool", "u8": "uint8_t", "i8": "int8_t", "u16": "uint16_t", "i16": "int16_t", "u32": "uint32_t", "i32": "int32_t", "u64": "uint64_t", "i64": "int64_t"}


def rust(gen, es, cs):
    o = ["#![allow(warnings)]", "use flatdata::Struct;", "include!(\"gen.rs\");", "fn main() {"]
    for i, (e, pad) in enumerate(es):
        w = e["w"] or BASIC[e["t"]][0]
        nb = (pad + w + 7) // 8
        if one_bit(e):      # reading the value -1 is undefined behaviour there (see the known findings)
            o += ['println!("null");']
            continue
        o += ["{ use e::{%s as E, S%d as S}; let mut reads: Vec<i64> = vec![]; let mut writes: Vec<String> = vec![];" % (e["name"], i),
              "for r in 0..%du64 { let mut b = [0u8; %d]; for k in 0..%d { if r >> k & 1 == 1 { b[(%d + k) / 8] |= 1u8 << (%d + k) %% 8; } }" % (2 ** w, nb, w, pad, pad),
              "let v = S::from_bytes(&b).f() as i64; reads.push(v);",
              "for ff in [0u8, 255u8].iter() { let mut c = [*ff; %d]; S::from_bytes_mut(&mut c).set_f(S::from_bytes(&b).f()); let mut q = 0u64; for k in 0..%d { q |= ((c[(%d + k) / 8] >> (%d + k) %% 8 & 1) as u64) << k; } writes.push(format!(\"{{\\\"v\\\":{},\\\"raw\\\":{}}}\", v, q)); } }" % (nb, w, pad, pad),
              "let vs: Vec<String> = vec![%s];" % ", ".join('format!("{{\\"name\\":\\"%s\\",\\"v\\":{}}}", E::%s as i64)' % (n, "".join(p.title() for p in n.split("_"))) for n in gen[i]),
              'println!("{{\\"values\\":[{}],\\"reads\\":{:?},\\"writes\\":[{}]}}", vs.join(","), reads, writes.join(",")); }']
    o += ['println!("[%s]"%s);' % (",".join('\\"{}\\"' for _ in cs), "".join(", e::%s as i128" % c["name"] for c in cs)), "}"]
    return "\n".join(o)


PY = r'''
import json, sys, types
from flatdata.generator.engine import Engine
j = json.load(sys.stdin)
m = types.ModuleType("generated")
exec(Engine(j["text"]).render("py"), m.__dict__)
out = []
for i, (w, pad) in enumerate(j["es"]):
    S = getattr(m, "e_S%d" % i)
    nb = (pad + w + 7) // 8
    out.append([int(S((r << pad).to_bytes(nb, "little"), 0).f) for r in range(2 ** w)])
A = m.e_A
json.dump({"reads": out, "schema": A._RESOURCES["A.archive"].schema}, sys.stdout)
'''


def one_bit(e):
    return BASIC[e["t"]][1] and (e["w"] or BASIC[e["t"]][0]) == 1


def names(e):
    """what the specification calls the values (the same rule as Unknown in Schema.tla): enumerators to look for"""
    w, s = e["w"] or BASIC[e["t"]][0], BASIC[e["t"]][1]
    lo, hi = schema.limits(w, s)
    got, nxt = {}, 0
    for v in e["vals"]:
        nxt = val(v["v"]) if v["has"] else nxt
        got[nxt] = v["name"]
        nxt += 1
    return [got.get(n, "UNKNOWN_VALUE_" + str(n).replace("-", "MINUS_")) for n in range(lo, hi + 1)]


def world(c, k):
    rng = c.rng
    es = [(make_enum(rng, i, *(EXACT[k] if i == 3 and k < len(EXACT) else ())), rng.choice((0, 0, 1, 3, 7, 8, 13))) for i in range(c.pick(24, 40))]
    cs = []
    for t, (w, s) in BASIC.items():
        lo, hi = schema.limits(w, s)
        for v in {lo, hi, rng.randint(lo, hi), rng.choice((0, 1))}:
            cs.append({"k": "const", "name": "C%d" % len(cs), "t": t, "v": num(v)})
    ds = [e for e, _ in es] + cs
    for i, (e, pad) in enumerate(es):
        f = [{"name": "p", "t": {"q": False, "p": ["u16"]}, "w": pad, "range": "", "const": [], "opt": []}] if pad else []
        ds.append({"k": "struct", "name": "S%d" % i, "fields": f + [{"name": "f", "t": {"q": False, "p": [e["name"]]}, "w": 0, "range": "", "const": [], "opt": []}]})
    ds.append({"k": "archive", "name": "A", "bound": [], "res": [{"name": "r%d" % i, "kind": "vec", "types": [{"q": False, "p": ["S%d" % i]}], "iw": 0, "opt": True, "refs": []} for i in range(len(es))]})
    order = [x for x in ds]
    sch = [{"ns": ["e"], "defs": order}]
    return es, cs, schema.text(sch)


def run(c, k, es, cs, text):
    wd = vf.scratch("enum")
    src = wd + "/s.flatdata"
    open(src, "w").write(text)
    out = {}
    for g, f in (("cpp", "gen.h"), ("rust", "gen.rs")):
        p = vf.generate(g, src, wd + "/" + f)
        if p.returncode:
            c.violation("generate", {"schema": text, "said": p.stdout.decode("utf-8", "replace")[-1500:]}, key="generate")
            return []
        out[g] = open(wd + "/" + f).read()
    listed = [names(e) for e, _ in es]
    rcs = cs

    def cpp():
        exe = vf.cpp_program("enum%d" % k, [("m.cpp", program(text, es, cs, listed))], headers={"gen.h": out["cpp"]}, flags=["-w"], link_lib=True)
        return subprocess.run([exe], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()

    def rs():
        g = "\n".join(x for x in out["rust"].splitlines())
        exe = vf.rust_program("bits", {"src/gen.rs": g}, rust(listed, es, rcs))
        return subprocess.run([exe], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()

    def py():
        p = subprocess.run([vf.VENV_PY, "-W", "ignore", "-c", PY], input=json.dumps({"text": text, "es": [[e["w"] or BASIC[e["t"]][0], pad] for e, pad in es]}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vf.py_env())
        if p.returncode:
            raise vf.DriverFailed(p.stderr.decode()[-2000:])
        return json.loads(p.stdout)
    C, R, P = vf.parallel([cpp, rs, py])
    st = {d["p"][-1]: d for d in schema.parse(P["schema"])}
    recs = []
    for i, (e, pad) in enumerate(es):
        x, y = json.loads(C[i]), json.loads(R[i])
        d = st[e["name"]]
        r = {"k": "enum", "e": e, "stored": {"w": d["w"], "vals": [{"name": v["name"], "v": val(v["v"])} for v in d["vals"]]},
             "values": {"cpp": x["values"]}, "reads": {"cpp": x["reads"], "python": P["reads"][i]}, "writes": {"cpp": x["writes"]}, "text": x["text"]}
        if y:
            r["values"]["rust"], r["reads"]["rust"], r["writes"]["rust"] = y["values"], y["reads"], y["writes"]
        recs.append(r)
    cc, rc = json.loads(C[len(es)]), dict(zip([x["name"] for x in rcs], json.loads(R[len(es)])))
    for x, v in zip(cs, cc):
        vs = {"cpp": num(int(v)), "stored": st[x["name"]]["v"]}
        if x["name"] in rc:
            vs["rust"] = num(int(rc[x["name"]]))
        recs.append({"k": "const", "t": x["t"], "v": x["v"], "values": vs})
    return recs


def g04(c):
    recs = []
    ws = [(k,) + world(c, k) for k in range(c.pick(3, 16))]
    for r in vf.parallel([lambda x=x: run(c, *x) for x in ws], n=3):
        recs += r
    vf.validate(c, "EnumTrace", recs, name="enumerations and constants", ways=6, keyb=lambda r, bad: "one bit signed enumeration: " + " ".join(sorted(bad)) if r["k"] == "enum" and one_bit(r["e"]) else r["k"])
    c.count("enumerations", sum(r["k"] == "enum" for r in recs))
    c.count("constants", sum(r["k"] == "const" for r in recs))
    c.sample({"schema": ws[0][3][:1500]})


CHECKS = {"G04": g04}
