"""B01, B02: bit fields."""
import subprocess
import vf

MEM = 20   # bytes: fields end at most at byte 8+3+... plus the 8 bytes of padding the accessors require
DESIGN_CFG = """SPECIFICATION Spec
CONSTANTS ByteBits = %d
WordBytes = %d
MemBytes = %d
INVARIANTS ReadIsSpec StoresValue NeighboursKept ExtraIsOneByte
CHECK_DEADLOCK FALSE
"""


def patterns(rng, n):
    base = [[255] * MEM, [0] * MEM, [0xAA, 0x55] * (MEM // 2), [0x0F, 0xF0, 0x81] * (MEM // 3) + [1] * (MEM % 3)]
    return (base + [[rng.randrange(256) for _ in range(MEM)] for _ in range(n)])[-n - 2:]


def value(rng, w, s):
    k = rng.randrange(6)
    hi = (1 << w) - 1
    raw = [0, hi, 1 << (w - 1), hi >> 1, rng.getrandbits(w), rng.getrandbits(w)][k]
    if s and w > 1 and raw >> (w - 1):
        raw |= ((1 << 64) - 1) & ~hi
    return list(raw.to_bytes(8, "little"))


def script(rng, reads, writes, npat, offsets):
    ops = []
    for w in range(1, 65):
        for o in range(8):
            for s in (False, True):
                for mem in ([rng.choice(patterns(rng, 2)) for _ in range(npat)]):
                    for byte in offsets(o, w):
                        ops.append({"op": "init", "mem": mem})
                        for _ in range(reads):
                            ops.append({"op": "read", "off": o + 8 * byte, "w": w, "s": s})
                        for _ in range(writes):
                            ops.append({"op": "write", "off": o + 8 * byte, "w": w, "s": s, "val": value(rng, w, s)})
                        if writes:
                            ops.append({"op": "read", "off": o + 8 * byte, "w": w, "s": s})
    return ops


def run_py(ops):
    return vf.pydriver("bits_py.py", ops)


def run_native(exe, ops, rng):
    lines = []
    for r in ops:
        if r["op"] == "init":
            lines.append("init %d %s" % (len(r["mem"]), " ".join(map(str, r["mem"]))))
        else:
            r["wide"] = rng.randrange(2) if r["w"] < 64 else 1
            lines.append("%s %d %d %d %d %s" % (r["op"], r["off"], r["w"], r["s"], r["wide"],
                                               " ".join(map(str, r.get("val", [])))))
    p = subprocess.run([exe], input="\n".join(lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    outs = iter(p.stdout.decode().splitlines())
    done = []
    for r in ops:
        if r["op"] != "init":
            try:
                b = [int(x) for x in next(outs).split()]
            except StopIteration:
                r["crash"] = p.stderr.decode()[:800]
                b = []
            if r["op"] == "read":
                r["got"] = b
                r["fits"] = True
            else:
                r["mem"] = b
        done.append(r)
        if r.get("crash"):
            break
    return done


BUILDS = [lambda: vf.cpp_program("bits_cpp0", [vf.DRV + "/bits_cpp.cpp"], flags=["-DOFFLO=0"], link_lib=False),
          lambda: vf.rust_program("bits"),
          lambda: vf.go_program("bits", open(vf.DRV + "/go/bits/main.go").read(), ["reader.go", "memory_descriptor.go"])]


def design(c):
    cfgs = c.pick([(2, 2, 4), (3, 1, 3)], [(2, 2, 5), (3, 1, 4), (3, 2, 3), (2, 3, 4)])
    res = vf.parallel(BUILDS + [lambda k=k: vf.tlc("BitField", DESIGN_CFG % k, workers=2) for k in cfgs])
    for r, k in zip(res[3:], cfgs):
        c.add_tlc(r, "BitField byte=%d word=%d mem=%d" % k)
    return res[:3]


def run(c, reads, writes):
    rng = c.rng
    cpp, rust, go = design(c)
    npat = c.pick(2, 24) if reads else c.pick(1, 12)
    pyoff = lambda o, w: [rng.randrange(3)]
    cppoff = lambda o, w: [(o + w) % 3]
    jobs = {"python": lambda: run_py(script(rng, reads, writes, npat, pyoff)),
            "cpp": lambda: run_native(cpp, script(rng, reads, writes, npat, cppoff), rng),
            "rust": lambda: run_native(rust, script(rng, reads, writes, npat, pyoff), rng)}
    if not writes:
        jobs["go"] = lambda: run_native(go, script(rng, reads, writes, npat, pyoff), rng)
    for impl, j in jobs.items():
        recs = j()
        c.count("distinct (offset,width,sign) for " + impl, len({(r["off"], r["w"], r["s"]) for r in recs if "off" in r}))
        for r in recs:
            r["impl"] = impl
        c.sample({k: v for k, v in recs[1].items()})
        vf.validate(c, "BitFieldTrace", recs, name=impl, ways=8, start=lambda r: r["op"] == "init")


CHECKS = {"B01": lambda c: run(c, 1, 0), "B02": lambda c: run(c, 0, 2)}
