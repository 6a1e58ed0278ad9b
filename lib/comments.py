"""G07: comments in a schema; comments from CommentsGen.tla, generated texts judged by CommentsTrace.tla."""
import json, os, re, subprocess
import vf, model, gen, cppdrv

CFG = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
Fragments = {%s}
INVARIANTS Emit%s
CHECK_DEADLOCK FALSE
"""
FRAGS = ["x", "blank", "newline", "star", "slash", "slashes", "open", "quote", "triple", "single", "backslash", "bang", "hash", "tick", "braces", "close", "percent", "semi", "func", "unit", "starline", "umlaut", "attr"]
TODAY = """namespace a.b {
const u16 LIMIT = 5;
const i8 LOW = -3;
enum Kind : u8 : 3 { ONE = 1, TWO, THREE = 6 }
struct Point { x : u32 : 29; @optional( LOW ) low : i8 : 5; kind : Kind; flag : bool : 1; }
struct Span { @range( all ) first : u16; ref_point : u32; }
archive Inner { raw : raw_data; one : Point; }
@bound_implicitly( both : points, spans )
archive Outer { one : Point; points : vector< Point >; @explicit_reference( Span.ref_point, points ) spans : vector< Span >; @optional mv : multivector< 33, Point >; @optional raw : raw_data; inner : archive Inner; }
}
"""
PLAIN = """namespace plain {
const u16 LIMIT = 5;
struct Point { x : u32 : 29; low : i8 : 5; flag : bool : 1; }
struct Other { first : u16; second : u64 : 33; }
archive Outer { one : Point; points : vector< Point >; @optional mv : multivector< 33, Point, Other >; raw : raw_data; }
}
"""


def slots(text):
    """The text in pieces, with a place for a comment between any two, and what the comment stands in front of."""
    out, at, ns, inside, cur = [""], [], "", None, None
    for line in text.split("\n"):
        s = line.strip()
        m = re.match(r"namespace ([\w.]+)", s)
        if m:
            ns = m.group(1)
        k = re.match(r"(const|enum|struct|archive|@bound_implicitly)\b", s)
        if not k:
            if inside:
                raise ValueError(line)
            out[-1] += line + "\n"
            continue
        bound = out[-1].rstrip().endswith(")") and k.group(1) == "archive" and at and at[-1] == "bound"
        if not bound:
            at.append("bound" if k.group(1)[0] == "@" else "")
            out.append("")
        if k.group(1) in ("const", "@bound_implicitly"):
            out[-1] += line + "\n"
            continue
        name = re.search(r"(?:enum|struct|archive) (\w+)", s).group(1)
        head, body = line.split("{", 1)
        body, tail = body.rsplit("}", 1)
        cls = ns.replace(".", "_") + "_" + name
        if k.group(1) == "struct":
            at[-1] = cls
        out[-1] += head + "{"
        sep = "," if k.group(1) == "enum" else ";"
        for part in [p for p in body.split(sep) if p.strip()]:
            at.append("%s.%s" % (cls, re.sub(r"@\w+(\([^)]*\))?", "", part).split(":")[0].strip()) if k.group(1) == "archive" else "")
            out.append(part + sep)
        if sep == ",":
            out[-1] = out[-1][:-1]
        out[-1] += "}" + tail + "\n"
    return out, at


def g07(c):
    rng = c.rng
    plan = [(c.pick(2, 3), FRAGS, None), (9, FRAGS, c.pick(150, 1500))]
    docs = []
    for n, fr, sim in plan:
        r = vf.tlc("CommentsGen", CFG % (n, ", ".join('"%s"' % f for f in fr), " Whole"), workers=4, simulate=sim, depth=n + 1, seed=c.seed, timeout=800)
        c.add_tlc(r, "Comments/%d%s" % (n, "/random" if sim else ""))
        docs.append([e["doc"] for e in r.emitted])
    pool = docs[0] + docs[1]
    schemas = [(TODAY, ["cpp", "py", "rust", "flatdata", "dot"]), (PLAIN, ["cpp", "py", "rust", "go", "flatdata", "dot"])]
    for i in range(c.pick(1, 4)):
        m = gen.rand_world(rng, ns=("n", "x.y")[i % 2])
        schemas.append((re.sub(r";\s*\n\s+", "; ", model.text(m)), ["cpp", "py", "rust", "flatdata", "dot"]))
    text = lambda d: "".join(map(chr, d))
    jobs, want = [], []
    todo = list(docs[0])
    rng.shuffle(todo)
    for n, (s, langs) in enumerate(schemas):
        pieces, at = slots(s)
        jobs.append((n, {"text": s, "langs": langs, "docs": False}, []))
        for k in range(c.pick((14, 14, 3)[min(n, 2)], (150, 150, 30)[min(n, 2)])):
            t, w, p = pieces[0], [], rng.choice((.3, .9, 1))
            if k % 4 == 0:
                t = text(rng.choice(pool)) + "\n" + t
            for piece, a in zip(pieces[1:], at):
                if rng.random() < p:
                    d = todo.pop() if todo else rng.choice(pool)
                    t += "\n" + text(d) + "\n"
                    if a and a != "bound":
                        w.append({"at": a, "doc": d})
                t += piece
            jobs.append((n, {"text": t, "langs": langs, "docs": True}, w))
    c.count("comments not used", len(todo))
    parts = vf.chunks(jobs, 8)
    res = [x for p in vf.parallel([lambda p=p: vf.pydriver("gen_comments.py", [j for _, j, _ in p], timeout=600) for p in parts]) for x in p]
    bases, where, recs, compiled = [], {}, [], []
    for (n, j, w), g in zip([x for p in parts for x in p], res):
        bad = g.get("refused") or g.get("fail")
        if bad:
            c.violation("a schema with comments is not generated", {"schema": j["text"], "error": bad}, key="refused")
            continue
        if not j["docs"]:
            for lang, t in g["texts"].items():
                where[n, lang] = len(bases) + 1
                bases.append({"lang": lang, "text": [ord(x) for x in t]})
            continue
        for lang, t in g["texts"].items():
            recs.append({"op": "text", "base": (n, lang), "text": [ord(x) for x in t], "schema": j["text"]})
        recs.append({"op": "docs", "want": w, "got": [x for x in g["docs"] if x["doc"]], "schema": j["text"]})
        compiled.append((n, j, g))
        c.sample({"schema": j["text"]}, 2)
    recs = [r for r in recs if r["op"] != "text" or r["base"] in where]
    for r in recs:
        if r["op"] == "text":
            r["base"] = where[r["base"]]
    # what a scanner cannot tell: that comments stand where the language lets them
    k = c.pick(6, 40)
    some = compiled[:k] + compiled[14:14 + k]
    def rust(which):
        try:
            vf.rust_program("bits", {"src/m%d.rs" % i: some[i][2]["texts"]["rust"] for i in which}, "".join("#[allow(unused)] mod m%d;\n" % i for i in which) + "fn main() {}\n")
            return [(i, True) for i in which]
        except vf.MachineryError as e:
            if not str(e).startswith("cargo build"):
                raise
            return [(which[0], False)] if len(which) == 1 else [x for r in vf.parallel([lambda i=i: rust([i]) for i in which], n=4) for x in r]

    def cpp(i):
        d = vf.scratch("doc")
        with open(os.path.join(d, "s.cpp"), "w") as f:
            f.write(some[i][2]["texts"]["cpp"])
        return [(i, subprocess.run(["g++", "-std=c++11", "-fsyntax-only"] + vf.CPP_INC + [os.path.join(d, "s.cpp")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0)]
    for got, lang in [(x, "rust") for x in vf.parallel([lambda: rust(list(range(len(some))))])] + [(x, "cpp") for x in vf.parallel([lambda i=i: cpp(i) for i in range(0, len(some), 2)], n=6)]:
        recs += [{"op": "compile", "lang": lang, "ok": ok, "schema": some[i][1]["text"]} for i, ok in got]
    c.count("schemas with comments", len(compiled))
    c.count("generated texts", sum(r["op"] == "text" for r in recs))
    vf.validate(c, "CommentsTrace", recs, name="comments", ways=8, key=lambda r: r["op"], extra={"bases.json": json.dumps(bases)})


CHECKS = {"G07": g07}
