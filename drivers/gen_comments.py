"""stdin: [{"text", "langs": [..], "docs": bool}]; stdout: [{"texts": {lang: text}, "docs": [{"at", "doc"}]} | {"refused"} | {"fail"}]"""
import json, sys, types
from flatdata.generator.engine import Engine


def docs(e):
    m = types.ModuleType("generated")
    exec(e.render("py"), m.__dict__)
    out = []
    for n, c in sorted(m.__dict__.items()):
        if not isinstance(c, type):
            continue
        if hasattr(c, "_FIELDS"):
            out.append({"at": n, "doc": [ord(x) for x in c.__doc__ or ""]})
        elif hasattr(c, "_RESOURCES"):
            for r, s in c._RESOURCES.items():
                if not r.endswith(".archive"):
                    out.append({"at": n + "." + r, "doc": [ord(x) for x in s.doc or ""]})
    return out


out = []
for j in json.load(sys.stdin):
    try:
        e = Engine(j["text"])
    except Exception as x:
        out.append({"refused": "%s: %s" % (type(x).__name__, str(x)[:300])})
        continue
    try:
        out.append({"texts": {l: e.render(l) for l in j["langs"]}, "docs": docs(e) if j["docs"] else []})
    except Exception as x:
        out.append({"fail": "%s: %s" % (type(x).__name__, str(x)[:300])})
json.dump(out, sys.stdout)
