"""Shared machinery: scratch space, TLC, C++/Rust builds from /repo's working tree, verdicts, evidence."""
import atexit, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("FLATDATA_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
CACHE = os.path.join(VERIF, ".cache")
VENV_PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    """The check itself could not run: exit code 2, never a verdict."""


class DriverFailed(MachineryError):
    pass


class CompileFailed(MachineryError):
    """A C++ program did not compile. For a program made of generated code this can be the finding."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


_SCRATCH = []


def _cleanup():
    for d in _SCRATCH:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def scratch(tag="x"):
    d = tempfile.mkdtemp(prefix="verif-%s-" % tag)
    _SCRATCH.append(d)
    return d


def py_env():
    """Environment in which the Python code of /repo's working tree is imported."""
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH=os.pathsep.join([REPO + "/flatdata-py", REPO + "/flatdata-generator"]),
             FLATDATA_REPO=REPO)
    return e


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.ok = False
        self.emitted = []
        self.out = ""
        self.violated = None      # name of a violated invariant/property


def tlc(module, cfg, workdir=None, workers=2, simulate=None, depth=None, seed=None, timeout=600,
        heap="2g", extra_files=None, coverage=False, consts_module=None, must_pass=True, dfs=False):
    """Run TLC on spec/<module>.tla with the given cfg text.

    Lines printed by PrintT("@@" \\o ToJson(x)) are collected in result.emitted.
    """
    wd = workdir or scratch("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            dst = os.path.join(wd, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(SPEC, f), dst)
    for name, text in (extra_files or {}).items():
        with open(os.path.join(wd, name), "w") as fh:
            fh.write(text)
    cfgname = os.path.join(wd, module + ".run.cfg")
    with open(cfgname, "w") as fh:
        fh.write(cfg)
    meta = tempfile.mkdtemp(prefix="meta-", dir=wd)
    cmd = ["java", "-Djava.io.tmpdir=" + wd, "-Xmx" + heap, "-Xss24m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Dtlc2.TLC.stopAfter=%d" % max(1, timeout - 5), "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgname]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += ["-deadlock", module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    out = p.stdout.decode("utf-8", "replace")
    r = TlcResult()
    r.wall = time.time() - t0
    rest = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            r.emitted.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    r.out = "\n".join(rest)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = map(int, m[-1])
    m = re.findall(r"The number of states generated: (\d+)", r.out)
    if m:
        r.generated = r.distinct = int(m[-1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m[-1])
    m = re.search(r"Error: (?:Invariant|Action property|Temporal properties?) ?(\w+)? ?(?:is|was|were) violated", r.out)
    if m:
        r.violated = m.group(1) or "property"
    r.ok = p.returncode == 0
    r.rc = p.returncode
    if must_pass and not r.ok:
        i = r.out.find("Error:")
        raise MachineryError("TLC failed on %s (rc=%d):\n%s" % (module, p.returncode, r.out[max(0, i):][:4000]))
    return r


def parallel(jobs, n=NCPU):
    """Run thunks in parallel threads, return results in order; re-raise the first error."""
    with ThreadPoolExecutor(max_workers=n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


# ------------------------------------------------------------------ builds
def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _tree(*roots, exts=(".h", ".hpp", ".cpp", ".inl", ".py", ".jinja2", ".rs", ".toml", ".go")):
    res = []
    for r in roots:
        for d, dirs, files in os.walk(r):
            dirs[:] = [x for x in dirs if x not in ("__pycache__", "target", "build")]
            res += [os.path.join(d, f) for f in files if f.endswith(exts)]
    return res


class _Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


CPP_INC = ["-I" + REPO + "/flatdata-cpp/include"]
CPP_FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address"]


def _run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise (CompileFailed if what.startswith("compile") else MachineryError)("%s failed:\n%s" % (what, p.stdout.decode("utf-8", "replace")[-3000:]))
    return p.stdout


def generate(gen, schema_path, out):
    """Run the generator of the working tree as a user does."""
    return subprocess.run([VENV_PY, REPO + "/flatdata-generator/generator.py", "--gen", gen, "--schema", schema_path,
                           "--output-file", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=py_env())


def _cpp_dep_hash(extra=""):
    files = _tree(REPO + "/flatdata-cpp/include", REPO + "/flatdata-cpp/src") + [os.path.join(DRV, x) for x in sorted(os.listdir(DRV)) if x.endswith(".h")]
    return _hash_files(files, extra)


def cpp_lib(flags=()):
    """Static library of flatdata-cpp/src from the working tree; cached by content."""
    flags = CPP_FLAGS + list(flags)
    key = _cpp_dep_hash("lib" + " ".join(flags))
    out = os.path.join(CACHE, "lib-" + key + ".a")
    with _Lock("lib-" + key):
        if not os.path.exists(out):
            wd = scratch("lib")
            srcs = sorted(_tree(REPO + "/flatdata-cpp/src", exts=(".cpp",)))
            inc = CPP_INC + ["-I" + REPO + "/flatdata-cpp/src"]
            vend = os.path.join(REPO, "flatdata-cpp", "vendor")

            def one(s):
                o = os.path.join(wd, os.path.basename(s) + ".o")
                _run(["g++"] + flags + inc + ["-I" + vend, "-c", s, "-o", o], "compile " + s)
                return o
            objs = parallel([lambda s=s: one(s) for s in srcs])
            tmp = os.path.join(wd, "lib.a")
            _run(["ar", "rcs", tmp] + objs, "ar")
            shutil.copy(tmp, out + ".tmp")
            os.rename(out + ".tmp", out)
    return out


def cpp_program(name, sources, headers=None, flags=(), link_lib=True):
    """Compile C++ sources (paths or (name, text)) against the working tree. headers: {name: text}. Cached by content."""
    flags = CPP_FLAGS + list(flags)
    texts = {}
    for s in sources:
        if isinstance(s, tuple):
            texts[s[0]] = s[1]
        else:
            texts[os.path.basename(s)] = open(s).read()
    hd = dict(headers or {})
    key = _cpp_dep_hash("prog" + " ".join(flags) + json.dumps([texts, hd], sort_keys=True))
    out = os.path.join(CACHE, name + "-" + key)
    with _Lock(name + "-" + key):
        if not os.path.exists(out):
            wd = scratch("cpp")
            for n, t in list(texts.items()) + list(hd.items()):
                os.makedirs(os.path.dirname(os.path.join(wd, n)), exist_ok=True)
                with open(os.path.join(wd, n), "w") as f:
                    f.write(t)
            box = {}

            def lib():
                box["lib"] = cpp_lib(flags[len(CPP_FLAGS):]) if link_lib else None

            def one(n):
                o = os.path.join(wd, n + ".o")
                _run(["g++"] + flags + CPP_INC + ["-I" + wd, "-I" + DRV, "-c", os.path.join(wd, n), "-o", o],
                     "compile " + n)
                return o
            objs = parallel([lambda n=n: one(n) for n in texts if n.endswith(".cpp")] + [lib])[:-1]
            tmp = os.path.join(wd, "prog")
            _run(["g++"] + flags + objs + ([box["lib"]] if box["lib"] else []) +
                 ["-lboost_filesystem", "-lboost_system", "-lpthread", "-o", tmp], "link " + name)
            shutil.copy(tmp, out + ".tmp")
            os.rename(out + ".tmp", out)
    return out


def rust_program(name, src_files=None, main=None, features=()):
    """Build drivers/rust/<name> (main.rs overridable) against /repo's flatdata-rs, offline; cached by content.
    The `diff` crate is not available offline and is replaced by drivers/rust/diff-stub."""
    root = os.path.join(DRV, "rust")
    files = {}
    toml = open(os.path.join(root, name, "Cargo.toml")).read()
    files["src/main.rs"] = main if main is not None else open(os.path.join(root, name, "src", "main.rs")).read()
    files.update(src_files or {})
    deps = [f for f in _tree(REPO + "/flatdata-rs/lib", root) if not f.endswith("main.rs")]
    key = _hash_files(deps, json.dumps([toml, files, list(features)], sort_keys=True))
    out = os.path.join(CACHE, "rs-%s-%s" % (name, key))
    with _Lock("rs-%s-%s" % (name, key)):
        if not os.path.exists(out):
            wd = scratch("rs")
            files["Cargo.toml"] = toml.replace("@REPO@", REPO).replace("@DRV@", DRV)
            for n, t in files.items():
                os.makedirs(os.path.dirname(os.path.join(wd, n)), exist_ok=True)
                with open(os.path.join(wd, n), "w") as f:
                    f.write(t)
            e = dict(os.environ, RUSTFLAGS="--cap-lints allow", CARGO_TARGET_DIR=os.path.join(wd, "target"))
            _run(["cargo", "build", "--offline", "-q"], "cargo build " + name, cwd=wd, env=e)
            shutil.copy(os.path.join(wd, "target", "debug", name), out + ".tmp")
            os.rename(out + ".tmp", out)
            shutil.rmtree(wd, ignore_errors=True)
    return out


def go_program(name, main, package_files):
    """Build a Go main against files of /repo/flatdata-go/flatdata copied as a package; cached by content."""
    src = {f: open(os.path.join(REPO, "flatdata-go", "flatdata", f)).read() for f in package_files}
    key = hashlib.sha256(json.dumps([main, src], sort_keys=True).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "go-%s-%s" % (name, key))
    with _Lock("go-%s-%s" % (name, key)):
        if not os.path.exists(out):
            wd = scratch("go")
            os.makedirs(os.path.join(wd, "flatdata"))
            for f, t in list(src.items()):
                open(os.path.join(wd, "flatdata", f), "w").write(t)
            open(os.path.join(wd, "main.go"), "w").write(main)
            open(os.path.join(wd, "go.mod"), "w").write("module verif/bits\ngo 1.23\n")
            e = dict(os.environ, GOCACHE=os.path.join(wd, "cache"), GOFLAGS="-mod=mod", GOTOOLCHAIN="local",
                     HOME=os.environ.get("HOME", "/root"))
            _run(["go", "build", "-o", "prog", "."], "go build " + name, cwd=wd, env=e)
            shutil.copy(os.path.join(wd, "prog"), out + ".tmp")
            os.rename(out + ".tmp", out)
            shutil.rmtree(wd, ignore_errors=True)
    return out


def go_module(name, files):
    """Build the Go module of the given files ({path: text}, package main at the top) with /repo's flatdata-go and the
    stand-in for golang.org/x/exp/mmap; cached by content."""
    lib = os.path.join(REPO, "flatdata-go", "flatdata")
    src = {"lib/flatdata/" + f: open(os.path.join(lib, f)).read() for f in os.listdir(lib) if f.endswith(".go") and not f.endswith("_test.go") and f != "test_memory_descriptor.go"}
    src["lib/flatdata/memory_for_tests.go"] = open(os.path.join(lib, "test_memory_descriptor.go")).read()
    src["lib/go.mod"] = "module github.com/heremaps/flatdata/flatdata-go\ngo 1.23\n"
    src["exp/mmap/mmap.go"] = open(os.path.join(DRV, "go", "mmap", "mmap.go")).read()
    src["exp/go.mod"] = "module golang.org/x/exp\ngo 1.23\n"
    src["go.mod"] = ("module verif/prog\ngo 1.23\nrequire github.com/heremaps/flatdata/flatdata-go v0.0.0\nrequire golang.org/x/exp v0.0.0\n"
                     "replace github.com/heremaps/flatdata/flatdata-go => ./lib\nreplace golang.org/x/exp => ./exp\n")
    src.update(files)
    key = hashlib.sha256(json.dumps(src, sort_keys=True).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "gom-%s-%s" % (name, key))
    with _Lock("gom-%s-%s" % (name, key)):
        if not os.path.exists(out):
            wd = scratch("go")
            for f, t in src.items():
                os.makedirs(os.path.dirname(os.path.join(wd, f)), exist_ok=True)
                open(os.path.join(wd, f), "w").write(t)
            e = dict(os.environ, GOCACHE=os.path.join(CACHE, "gocache"), GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GONOSUMDB="*",
                     HOME=os.environ.get("HOME", "/root"))
            _run(["go", "build", "-o", "prog", "."], "go build " + name, cwd=wd, env=e)
            shutil.copy(os.path.join(wd, "prog"), out + ".tmp")
            os.rename(out + ".tmp", out)
            shutil.rmtree(wd, ignore_errors=True)
    return out


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, tier=None, level="model_checking"):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.level = level
        self.t0 = time.time()
        self.dir = scratch(prop)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            self.known = [k for k in json.load(f)["findings"] if k["property"] == prop]

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def add_tlc(self, r, name=None):
        self.states += r.distinct
        self.transitions += r.generated
        if name:
            self.cov.setdefault("tlc", {})[name] = {"distinct": r.distinct, "generated": r.generated, "depth": r.depth,
                                                   "wall_s": round(r.wall, 1)}

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, clause, detail, key=None):
        """Report one violation. key identifies the input/history for the known-findings file."""
        for k in self.known:
            if key is not None and re.fullmatch(k["key"], key):
                if k["id"] not in self.known_hit:
                    self.known_hit.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return
        self.violations.append({"clause": clause, "key": key, "detail": detail})

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
            v = self.violations[0]
            log("%d violation(s); first: %s %s" % (len(self.violations), v["clause"], json.dumps(v["detail"], default=str)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.traces,
                                                                      time.time() - self.t0), flush=True)
        return 0


def main(checks):
    """checks: {property: function(Check)}"""
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    c = Check(prop, tier)
    try:
        checks[prop](c)
        rc = c.finish()
    except MachineryError as e:
        if isinstance(e, (CompileFailed, DriverFailed)):
            c.violation("build", {"error": str(e)[-2500:]}, key="build")
        if c.violations:
            rc = c.finish()
        else:
            log("MACHINERY ERROR: %s" % e)
            rc = 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        if isinstance(e, (KeyError, IndexError, TypeError, ValueError, AttributeError, subprocess.TimeoutExpired)) or type(e).__name__ == "GenerationFailed":
            # the code under test answered with something else than it is asked for, or not at all
            c.violation("answer", {"error": "%s: %s" % (type(e).__name__, str(e)[:1500]), "where": traceback.format_exc()[-1500:]}, key="answer")
        rc = c.finish() if c.violations else 2
    sys.stdout.flush()
    _cleanup()
    os._exit(rc)


def pydriver(script, stdin_obj, timeout=300, env=None, args=()):
    """Run drivers/<script> with the working tree's Python packages; JSON in, JSON out."""
    e = py_env()
    e.update(env or {})
    p = subprocess.run([VENV_PY, "-W", "ignore", os.path.join(DRV, script)] + list(args),
                       input=json.dumps(stdin_obj).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, env=e)
    if p.returncode:
        raise DriverFailed("driver %s failed rc=%d: %s" % (script, p.returncode, p.stderr.decode()[-3000:]))
    return json.loads(p.stdout)


def shim(name="shim"):
    """The preloaded library that counts, records and cuts short file operations ("shim"), or slows them down ("delay")."""
    src = os.path.join(DRV, name + ".c")
    out = os.path.join(CACHE, "%s-%s.so" % (name, _hash_files([src])))
    with _Lock("shim"):
        if not os.path.exists(out):
            _run(["gcc", "-shared", "-fPIC", "-O1", "-o", out + ".tmp", src, "-ldl"], "shim")
            os.rename(out + ".tmp", out)
    return out


def chunks(xs, n, start=None):
    """Split into about n parts; a part only begins at a record for which start() holds."""
    k = max(1, (len(xs) + n - 1) // n)
    res, cur = [], []
    for x in xs:
        if len(cur) >= k and (start is None or start(x)):
            res.append(cur)
            cur = []
        cur.append(x)
    return res + ([cur] if cur else [])


def validate(c, module, records, cfg_extra="", name=None, ways=6, key=None, timeout=600, heap="2g", start=None, extra=None, keyb=None):
    """Trace validation: spec/<module>.tla reads trace.ndjson and emits {"i":line,"bad":[clauses]} for
    every record the specification does not allow, and a final {"done":n}. Total verdict, all records judged."""
    if not records:
        return 0
    parts = chunks(records, ways, start)

    def one(part):
        wd = scratch("tv")
        with open(os.path.join(wd, "trace.ndjson"), "w") as f:
            for r in part:
                f.write(json.dumps(r) + "\n")
        return tlc(module, "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + cfg_extra, workdir=wd, workers=1,
                   timeout=timeout, heap=heap, extra_files=extra, must_pass=False)
    res = parallel([lambda p=p: one(p) for p in parts], n=ways)
    for part, r in zip(parts, res):
        c.add_tlc(r, None)
        done = [e for e in r.emitted if "done" in e]
        if not r.ok and re.search(r"Error: (Evaluating|TLC threw|The (first|second)|Attempted|.*[Aa]ttempt)", r.out) and not re.search(r"OutOfMemory|StackOverflow", r.out):
            # a record outside everything the specification can talk about: values of the wrong shape, positions outside the data
            at = [int(x) for x in re.findall(r"/\\ l = (\d+)", r.out)]
            rec = part[at[-1] - 1] if at and at[-1] <= len(part) else {}
            i = r.out.find("Error:")
            c.violation("beyond_specification", {"record": rec, "tlc": r.out[i:i + 800]}, key=key(rec) if key and rec else None)
        elif not r.ok or not done or done[-1]["done"] != len(part):
            raise MachineryError("trace spec %s did not consume its trace: %s\n%s" % (module, done, r.out[-1500:]))
        for e in r.emitted:
            if "bad" in e:
                rec = part[e["i"] - 1]
                c.violation(",".join(sorted(e["bad"])), {"record": rec, "spec": e.get("exp")}, key=keyb(rec, sorted(e["bad"])) if keyb else key(rec) if key else None)
    c.traces += len(records)
    if name:
        c.cov.setdefault("validated", {})[name] = len(records)
    return len(records)
