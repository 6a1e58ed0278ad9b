"""Building and talking to the generated Rust drivers (drivers/rust/fd)."""
import copy, os, re
import vf, model, cppdrv
from model import by_name, field_info, ns_of, has_range


def camel(n):
    return "".join(p.title() for p in n.split("_"))


def snake(n):
    return re.sub("(.)([A-Z][a-z]+)", r"\1_\2", n).lower()


def rustify(m):
    """The same model with names generated Rust code can hold (a multivector becomes a type named after its resource).
    Its "renamed" maps (archive, resource) to the new name."""
    m = copy.deepcopy(m)
    new = {}
    for a in m["archives"]:
        for r in a["res"]:
            if r["kind"] == "multi":
                n = "mv%s" % "".join(chr(97 + int(x)) for x in str(len(new)))
                new[a["name"], r["name"]] = n
                r["name"] = n
    for a in m["archives"]:
        for r in a["res"]:
            if "refs" in r:
                r["refs"] = [(f, ".".join(t.split(".")[:-1] + [new.get(((["", a["name"]] + t.split("."))[-2] if "." in t else a["name"], t.split(".")[-1]), t.split(".")[-1])])) for f, t in r["refs"]]
    m["renamed"] = {"%s.%s" % k: v for k, v in new.items()}
    return m


def value(w, sg, T, enum, repr_):
    """expression of type T made of the u64 v"""
    if enum:
        x = "((v << %d) as i64 >> %d)" % (64 - w, 64 - w) if sg else "(v & %du64)" % ((1 << w) - 1)
        return "unsafe { std::mem::transmute::<%s, %s>(%s as %s) }" % (repr_, T, x, repr_)
    return "(v != 0)" if T == "bool" else "(v as %s)" % T


def glue(m):
    enums = by_name(m.get("enums", []))
    kinds = {}
    for k in ("enums", "structs", "archives"):
        for x in m.get(k, []):
            kinds[x["name"]] = "crate::gen::%s::%s" % ("::".join(ns_of(m, x).split(".")), x["name"])
    o = ["#![allow(warnings)]", "#[macro_use] mod fd;", "#[rustfmt::skip] mod gen;", "use fd::*;", "use std::collections::HashMap;", "use flatdata::StorageHandle;"]
    for s in m["structs"]:
        S = kinds[s["name"]]
        o.append("impl Ops for %s {\n const NAME: &'static str = \"%s\";" % (S, s["name"]))
        sf, get, pat = [], [], []
        for i, f in enumerate(s["fields"]):
            w, sg = field_info(m, f)
            e = enums.get(f.get("enum"))
            base = e["type"] if e else f["type"]
            T = kinds[e["name"]] if e else base
            rp = "u8" if base == "bool" else base
            val = value(w, sg, T, e, rp)
            n = f["name"]
            set_ = "self.set_%s(%s)" % (n, "Some(x)" if f.get("opt") else "x")
            sf.append("   %d => { let w = t.next(); %slet v = to_u(w.trim_start_matches('b')); let x = %s; %s; }" % (
                i, "if w == \"none\" { self.set_%s(None); return; } " % n if f.get("opt") else "", val, set_))
            num = lambda x: "o.u(%s as %s as i64 as u64)" % (x, rp) if e or base != "bool" else "o.u(%s as u64)" % x
            if f.get("opt"):
                get.append("  match self.%s() { None => o.null(), Some(x) => %s }" % (n, num("x")))
            else:
                get.append("  { let x = self.%s(); %s; }" % (n, num("x")))
            pat.append("  { let v = (i.wrapping_mul(%d)) & %du64; let x = %s; %s; }" % (2 * i + 3, (1 << w) - 1, val, set_))
        o.append(" fn set_field(&mut self, k: usize, t: &mut Tok) { match k {\n%s\n   _ => panic!(\"no such field\") } }" % "\n".join(sf))
        o.append(" fn set(&mut self, t: &mut Tok) { for k in 0..%d { self.set_field(k, t); } }" % len(s["fields"]))
        o.append(" fn get(&self, o: &mut Out) { o.list();\n%s\n  o.end(); }" % "\n".join(get))
        o.append(" fn pat(&mut self, i: u64) {\n%s\n }" % "\n".join(pat))
        r = [f for f in s["fields"] if f.get("range")]
        if r:
            o.append(" fn span(&self, o: &mut Out) -> bool { let r = self.%s(); o.list(); o.u(r.start as u64); o.u(r.end as u64); o.end(); true }" % r[0]["range"])
        else:
            o.append(" fn span(&self, o: &mut Out) -> bool { false }")
        o.append(" fn fill(&mut self, other: &Self) { self.fill_from(other); }")
        o.append("}")
        o.append("impl Element for %s { fn mutable<'a>(v: &'a mut flatdata::Vector<Self>, i: usize) -> &'a mut Self { &mut v[i] } }" % S)
    for a in m["archives"]:
        A, P = a["name"], kinds[a["name"]]
        nsa = P.rsplit("::", 1)[0]
        for r in a["res"]:
            if r["kind"] == "multi":
                o.append("multi!(m_%s_%s, %s::%s, [%s::%sRef], %s);" % (
                    A, r["name"], nsa, camel(r["name"]), nsa, camel(r["name"]),
                    "; ".join("%d, add_%s, %s, %s" % (i, snake(t), t, kinds[t]) for i, t in enumerate(r["types"]))))
        o.append("fn dump_%s(a: &%s, o: &mut Out) { o.obj(); o.key(\"open\"); o.boolean(true); o.key(\"cast\"); o.boolean(true); o.key(\"res\"); o.obj();" % (A, P))
        for r in a["res"]:
            n, k = r["name"], r["kind"]
            body = {"inst": "x.get(o);", "vec": "dump_slice(x, o);", "multi": "m_%s_%s::dump(&x, o);" % (A, n),
                    "raw": "o.str(&hex(x.as_bytes()));", "arch": "dump_%s(&x, o);" % r.get("arch")}[k]
            o.append("  o.key(\"%s\");" % n)
            if r.get("opt"):
                o.append("  match a.%s() { None => o.null(), Some(x) => { %s } }" % (n, body))
            else:
                o.append("  { let x = a.%s(); %s }" % (n, body))
        o.append(" o.end(); o.key(\"ranges\"); o.obj();")
        for r in a["res"]:
            if r["kind"] == "vec" and has_range(by_name(m["structs"])[r["types"][0]]):
                o.append("  %s" % ("if let Some(x) = a.%s() { o.key(\"%s\"); dump_spans(x, o); }" if r.get("opt") else "{ let x = a.%s(); o.key(\"%s\"); dump_spans(x, o); }") % (r["name"], r["name"]))
        o.append(" o.end(); o.key(\"debug\"); o.boolean(!format!(\"{:?}\", a.clone()).is_empty()); o.end(); }")
        o.append("fn probe_%s(a: &%s, o: &mut Out) { o.obj(); o.key(\"open\"); o.boolean(true); o.key(\"res\"); o.obj();" % (A, P))
        for r in a["res"]:
            n, k = r["name"], r["kind"]
            body = {"inst": "o.u(1);", "arch": "probe_%s(&x, o);" % r.get("arch")}.get(k, "o.u(x.len() as u64);")
            o.append("  o.key(\"%s\");" % n)
            o.append("  match a.%s() { None => o.null(), Some(x) => { %s } }" % (n, body) if r.get("opt") else "  { let x = a.%s(); %s }" % (n, body))
        o.append(" o.end(); o.end(); }")
        o.append("fn far_%s(a: &%s, t: &mut Tok, o: &mut Out) { o.list(); loop { let n = t.next(); if n.is_empty() { break; } o.list(); loop { let c = t.next(); if c.is_empty() || c == \";\" { break; } match n {" % (A, P))
        for r in a["res"]:
            n, k = r["name"], r["kind"]
            body = {"vec": "look_vec(x, c, t, o)", "multi": "m_%s_%s::look(&x, c, t, o)" % (A, n), "raw": "look_raw(x.as_bytes(), c, t, o)"}.get(k)
            if body:
                o.append("  \"%s\" => { %s%s }," % (n, "let x = a.%s()%s; " % (n, ".unwrap()" if r.get("opt") else ""), body))
        o.append("  _ => panic!(\"no such resource\") } } o.end(); } o.end(); }")
        o.append("pub struct B%s { b: %sBuilder }" % (A, P))
        o.append("impl Builder for B%s {" % A)
        o.append(" fn set(&self, n: &str, t: &mut Tok) -> std::io::Result<()> { match n {")
        for r in a["res"]:
            n, k = r["name"], r["kind"]
            S = kinds.get((r.get("types") or [""])[0])
            if k == "inst":
                o.append("  \"%s\" => { let mut v = %s::new(); v.set(t); self.b.set_%s(&v) }" % (n, S, n))
            elif k == "vec":
                o.append("  \"%s\" => { let c = t.n(); let mut v = flatdata::Vector::<%s>::new(); for _ in 0..c { v.grow().set(t); } self.b.set_%s(v.as_view()) }" % (n, S, n))
            elif k == "raw":
                o.append("  \"%s\" => { let d = unhex(t.next()); self.b.set_%s(&d) }" % (n, n))
        o.append("  _ => panic!(\"no such resource\") } }")
        o.append(" fn start(&'static self, n: &str) -> std::io::Result<Box<dyn Growing>> { match n {")
        for r in a["res"]:
            n, k = r["name"], r["kind"]
            if k == "vec":
                o.append("  \"%s\" => Ok(Box::new(GrowingVec { v: Some(self.b.start_%s()?) }))," % (n, n))
            elif k == "multi":
                o.append("  \"%s\" => Ok(Box::new(m_%s_%s::G { v: Some(self.b.start_%s()?) }))," % (n, A, n, n))
        o.append("  _ => panic!(\"no such resource\") } }")
        o.append(" fn sub(&self, n: &str) -> Result<&'static dyn Builder, flatdata::ResourceStorageError> { match n {")
        for r in a["res"]:
            if r["kind"] == "arch":
                o.append("  \"%s\" => { let b = self.b.%s()?; Ok(Box::leak(Box::new(B%s { b }))) }" % (r["name"], r["name"], r["arch"]))
        o.append("  _ => panic!(\"no such resource\") } }\n}")
    o.append("fn main() {\n let mut archives: HashMap<&'static str, Arch> = HashMap::new();\n let mut benches: HashMap<&'static str, Box<dyn Bench>> = HashMap::new();")
    for a in m["archives"]:
        A, P = a["name"], kinds[a["name"]]
        nsa, _ = P.rsplit("::", 1)
        o.append(""" archives.insert("%s", Arch {
  dump: |s, o| match %s::open(s) { Ok(a) => dump_%s(&a, o), Err(e) => { o.obj(); o.key("open"); o.boolean(false); o.key("cast"); o.boolean(false); o.key("exc"); o.str(kind(&e)); o.key("msg"); o.str(&e.to_string()); o.end(); } },
  probe: |s, o| match %s::open(s) { Ok(a) => probe_%s(&a, o), Err(e) => { o.obj(); o.key("open"); o.boolean(false); o.key("exc"); o.str(kind(&e)); o.end(); } },
  far: |s, t, o| match %s::open(s) { Ok(a) => far_%s(&a, t, o), Err(_) => o.null() },
  par: |s, d, o| {
    let b = std::sync::Barrier::new(d.len());
    for x in parallel(d, |_| {
      let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| %s::open(s.clone())));
      b.wait();
      text(|o| match a { Ok(Ok(a)) => dump_%s(&a, o), Ok(Err(e)) => { o.obj(); o.key("open"); o.boolean(false); o.key("exc"); o.str(kind(&e)); o.end(); }, Err(_) => { o.obj(); o.key("panic"); o.str(""); o.end(); } })
    }) { o.raw(&x); } },
  build: |s| { let b = %sBuilder::new(s)?; Ok(Box::leak(Box::new(B%s { b }))) } });""" % (A, P, A, P, A, P, A, P, A, P, A))
    for s in m["structs"]:
        o.append(" benches.insert(\"%s\", Box::new(Vecs::<%s>::new()));" % (s["name"], kinds[s["name"]]))
    o.append(" run(archives, benches);\n}")
    return "\n".join(o) + "\n"


def generated(m):
    wd = vf.scratch("gen")
    sp, out = os.path.join(wd, "s.flatdata"), os.path.join(wd, "gen.rs")
    open(sp, "w").write(model.text(m))
    p = vf.generate("rust", sp, out)
    if p.returncode or not os.path.exists(out):
        raise cppdrv.GenerationFailed(p.stdout.decode("utf-8", "replace")[-1500:])
    return open(out).read()


def program(m):
    """The driver of a schema (see rustify); raises GenerationFailed or vf.CompileFailed."""
    src = open(os.path.join(vf.DRV, "rust", "fd", "src", "fd.rs")).read()
    return vf.rust_program("fd", {"src/fd.rs": src, "src/gen.rs": generated(m)}, glue(m))
