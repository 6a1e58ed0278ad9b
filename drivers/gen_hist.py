"""stdin: {"schemas": {id: text}, "dir", "runs": [{"files": {name: text or null}, "ops": [...]}]}: drives the generator of the working
tree, its engine and its command line, in one process.  stdout: [[answer]]"""
import contextlib, hashlib, io, json, logging, os, signal, sys
from flatdata.generator import app
from flatdata.generator.engine import Engine

inp = json.load(sys.stdin)
out = []


def digest(t):
    return hashlib.sha1(t if isinstance(t, bytes) else t.encode()).hexdigest()


def content(p):
    return digest(open(p, "rb").read()) if os.path.exists(p) else ""


for i, run in enumerate(inp["runs"]):
    d = os.path.join(inp["dir"], str(i))
    os.makedirs(d)
    for f, t in run["files"].items():
        if t is not None:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "w").write(t)
    ans, engines = [], []
    start = {f: content(os.path.join(d, f)) for f in run["files"]}
    for o in run["ops"]:
        signal.alarm(120)
        a = {"ok": True, "sum": ""}
        try:
            if o["op"] == "open":
                engines.append(Engine(inp["schemas"][str(o["s"])]))
            elif o["op"] == "render":
                a["sum"] = digest(engines[o["e"] - 1].render(o["g"]))
            else:
                src = os.path.join(d, "s%d.flatdata" % o["s"])
                with open(src, "w") as f:
                    f.write(inp["schemas"][str(o["s"])])
                sys.argv = ["generator", "-s", src, "-g", o["g"], "-O", os.path.join(d, o["f"])] + (["--debug"] if o.get("debug") else [])
                logging.root.handlers = []
                with contextlib.redirect_stderr(io.StringIO()):
                    try:
                        app.main()
                    except SystemExit as x:
                        a["ok"] = not x.code
        except Exception as x:
            a["ok"] = False
            a["exc"] = "%s: %s" % (type(x).__name__, str(x)[:200])
        if o["op"] == "command":
            a["sum"] = content(os.path.join(d, o["f"]))
        ans.append(a)
    out.append({"start": start, "answers": ans})
json.dump(out, sys.stdout)
