"""stdin: [{"text", "arch": {path: class name} | absent}]: runs the generator of the working tree on each schema.
stdout: [{"ok", "exc"?, "texts": {path: {resource or "": text}}}]"""
import json, signal, sys, types
from flatdata.generator.engine import Engine


class Slow(BaseException):
    pass


def alarm(*_):
    raise Slow()


signal.signal(signal.SIGALRM, alarm)


def one(j):
    try:
        e = Engine(j["text"])
    except Exception as x:
        return {"ok": False, "exc": type(x).__name__, "msg": str(x)[:300]}
    if "arch" not in j:
        return {"ok": True}
    if j.get("all"):
        e.render(j["all"])
    m = types.ModuleType("generated")
    exec(e.render("py"), m.__dict__)
    texts = {}
    for p, (cls, name) in j["arch"].items():
        A = getattr(m, cls)
        texts[p] = {"" if n == name + ".archive" else n: s.schema for n, s in A._RESOURCES.items()}
        B = getattr(m, cls + "Builder")
        if texts[p] != {"" if n == name + ".archive" else n: s.schema for n, s in B._RESOURCES.items()}:
            return {"ok": True, "fail": "reader and builder of %s have different schemas" % p}
    return {"ok": True, "texts": texts}


out = []
for j in json.load(sys.stdin):
    signal.alarm(60)
    try:
        r = one(j)
    except Slow:
        r = {"ok": False, "exc": "timeout", "fail": "no answer"}
    except Exception as x:
        r = {"ok": True, "fail": "%s: %s" % (type(x).__name__, str(x)[:500])}
    signal.alarm(0)
    out.append(r)
json.dump(out, sys.stdout)
