"""Building and talking to the generated C++ drivers."""
import json, os, subprocess
import vf, model


class GenerationFailed(Exception):
    pass


def schema_header(m):
    wd = vf.scratch("gen")
    sp = os.path.join(wd, "s.flatdata")
    open(sp, "w").write(m if isinstance(m, str) else model.text(m))
    out = os.path.join(wd, "schema.hpp")
    p = vf.generate("cpp", sp, out)
    if p.returncode or not os.path.exists(out):
        raise GenerationFailed(p.stdout.decode("utf-8", "replace")[-1500:])
    return open(out).read()


def program(name, m, main="fd_main.cpp", flags=("-fsanitize=address", "-fno-sanitize-recover"), parts=("archives",)):
    """The driver of a schema; raises GenerationFailed if the generator rejects the schema."""
    hd = schema_header(m)
    glue = model.cpp(m, parts=parts)
    body = open(os.path.join(vf.DRV, main)).read()
    return vf.cpp_program(name, [("drv.cpp", glue + body)], headers={"schema.hpp": hd}, flags=list(flags))


def bench(name, m, multis=(), parts=6, flags=("-fsanitize=address", "-fno-sanitize-recover")):
    """A program offering drivers/bench.h for every struct of the model."""
    return vf.cpp_program(name, model.bench_sources(m, parts, multis), headers={"schema.hpp": schema_header(m)}, flags=list(flags))


class Proc:
    """Batch: queue lines, run, get one JSON per line; a crash is reported as {'crash': ...} from there on."""

    def __init__(self, exe, env=None):
        self.exe, self.env = exe, env

    def run(self, lines, timeout=300, cwd=None):
        if not lines:
            return []
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
        e.update(self.env or {})
        try:
            p = subprocess.run([self.exe], input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
            so, se, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as ex:
            so, se, rc = ex.stdout or b"", b"timeout", -1
        res = []
        for l in so.decode("utf-8", "replace").splitlines():
            try:
                res.append(json.loads(l))
            except ValueError:
                break
        if len(res) < len(lines):
            err = se.decode("utf-8", "replace")
            i = max(err.find("ERROR: AddressSanitizer"), err.find("WARNING: ThreadSanitizer"))
            res.append({"crash": (err[i:] if i >= 0 else err)[-1200:] if i < 0 else err[i:i + 1200], "rc": rc})
        return res


def run_jobs(exe, jobs, ways=4, env=None):
    """jobs: list of lists of lines (independent). Returns list of result lists; a crash ends only its own job."""
    def some(part):
        out = []
        i = 0
        while i < len(part):
            # run the remaining jobs in one process; on a crash resume after the crashing job
            lines, owner = [], []
            for k in range(i, len(part)):
                lines += part[k] + ["drop"]
                owner += [k] * (len(part[k]) + 1)
            res = Proc(exe, env).run(lines)
            per = {}
            for o, r in zip(owner, res):
                per.setdefault(o, []).append(r)
            if res and "crash" in res[-1]:
                last = owner[len(res) - 1]
            elif not res:
                last = i
            else:
                last = len(part) - 1
            for k in range(i, last + 1):
                rr = per.get(k, [{"crash": "no output"}])
                out.append(rr[:-1] if "crash" not in rr[-1] else rr)
            i = last + 1
        return out
    if not jobs:
        return []
    n = max(1, (len(jobs) + ways - 1) // ways)
    parts = [jobs[i:i + n] for i in range(0, len(jobs), n)]
    return [r for p in vf.parallel([lambda p=p: some(p) for p in parts]) for r in p]
