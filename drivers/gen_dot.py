"""stdin: [text]; stdout: [{"ok": dot text} | {"exc"}]: the graphs the generator of the working tree draws"""
import json, sys
from flatdata.generator.engine import Engine
out = []
for t in json.load(sys.stdin):
    try:
        e = Engine(t)
    except Exception:
        out.append({"refused": True})
        continue
    try:
        out.append({"ok": e.render("dot")})
    except Exception as x:
        out.append({"exc": "%s: %s" % (type(x).__name__, str(x)[:300])})
json.dump(out, sys.stdout)
