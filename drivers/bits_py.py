"""stdin: list of {op,off,w,s,(val|mem)}; drives the Python field accessors, logs what they did."""
import json, sys
from flatdata.lib.data_access import read_value, write_value
M64 = (1 << 64) - 1
out = []
mem = bytearray()
for r in json.load(sys.stdin):
    if r["op"] == "init":
        mem = bytearray(r["mem"])
    elif r["op"] == "read":
        try:
            v = read_value(memoryview(bytes(mem)), r["off"], r["w"], r["s"])
            w = r["w"]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if r["s"] and w > 1 else (0, (1 << w) - 1)
            r["fits"] = bool(lo <= v <= hi)
            r["got"] = list((int(v) & M64).to_bytes(8, "little"))
        except Exception as e:
            r["fits"] = False; r["got"] = []; r["exc"] = repr(e)
    else:
        v = int.from_bytes(bytes(r["val"]), "little")
        if r["s"] and r["w"] > 1 and v >> 63:
            v -= 1 << 64
        try:
            write_value(mem, r["off"], r["w"], r["s"], v)
            r["mem"] = list(mem)
        except Exception as e:
            r["exc"] = repr(e); r["mem"] = list(mem)
    out.append(r)
json.dump(out, sys.stdout)
