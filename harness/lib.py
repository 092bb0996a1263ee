"""Shared machinery: TLC runs, exact encoding of doubles, verdicts, evidence."""
import json, math, os, re, shutil, signal, subprocess, sys, tempfile, time, warnings
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")              # the workers share the cores

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = max(1, min(8, os.cpu_count() or 1))

FRAC_BITS = 165


class CodeBroken(Exception):
    """The code under test cannot even be imported."""


class MachineryError(Exception):
    pass


class Unobservable(Exception):
    """The real code answered with something that cannot be recorded or judged at all."""


# ------------------------------------------------------------------ encoding
def big(n):
    """Integer -> canonical limb list of spec/BigInt.tla."""
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        out.append(n & 32767)
        n >>= 15
    return out


def fx(v):
    """Real number -> spec/Fx.tla encoding (exact to 2^-165)."""
    v = float(v)
    if math.isnan(v):
        return [8]
    if math.isinf(v):
        return [9] if v > 0 else [-9]
    n, d = v.as_integer_ratio()
    s = FRAC_BITS - (d.bit_length() - 1)
    return big(n << s if s >= 0 else (n >> -s if n >= 0 else -((-n) >> -s)))


def unfx(t):
    n = 0
    for x in reversed(t[1:]):
        n = (n << 15) | x
    return t[0] * float(Fraction(n, 1 << FRAC_BITS))


def fxs(a):
    """Nested array -> nested encodings (NumPy arrays, lists, scalars)."""
    if hasattr(a, "tolist"):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [fxs(x) for x in a]
    return fx(a)


# ----------------------------------------------------------------------- TLC
_cls = None
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="composipy-verif-")
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def classes():
    """Compile the BigInt override (about a second) into the scratch directory."""
    global _cls
    if _cls is None:
        d = os.path.join(tmpdir(), "cls")
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", d,
                            os.path.join(VERIF, "java", "BigInt.java")], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr[-2000:])
        _cls = d
    return _cls


class TlcResult:
    pass


_n = [0]


def tlc(module, cfg, extra=(), env=None, timeout=800, workers=1, heap="3g", override=True, opts=()):
    """Run TLC on spec/<module>.tla with a configuration text; returns parsed output."""
    _n[0] += 1
    wd = os.path.join(tmpdir(), "tlc%d-%s" % (_n[0], module))
    os.makedirs(wd)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
    for name, text in dict(extra).items():
        p = os.path.join(wd, name)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, "w") as f:
            f.write(text)
    with open(os.path.join(wd, "run.cfg"), "w") as f:
        f.write(cfg)
    cp = (classes() + ":" if override else "") + JARS
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + wd,
           "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(wd, "meta"),
           "-workers", str(workers), "-config", "run.cfg", *opts, module + ".tla"]
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        raise MachineryError("TLC timed out after %ss on %s" % (timeout, module))
    res = TlcResult()
    res.out, res.rc, res.wall, res.wd = out, rc, time.time() - t, wd
    res.gen = [json.loads(json.loads(m)[4:]) for m in re.findall(r'^("GEN .*")$', out, re.M)]
    res.fails = [json.loads(json.loads(m)[5:]) for m in re.findall(r'^("FAIL .*")$', out, re.M)]
    m = re.findall(r'^"DONE (\d+)"$', out, re.M)
    res.done = int(m[-1]) if m else None
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"number of states generated: (\d+)", out)
    if m:
        res.generated = max(res.generated, int(m[-1].replace(",", "")))
        res.distinct = max(res.distinct, res.generated)
    shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    return res


def tlc_ok(res, what):
    if res.rc != 0:
        raise MachineryError("%s: TLC ended with %d\n%s" % (what, res.rc, res.out[-3000:]))
    return res


def generate(module, num, depth, seed=None, init="Init", nxt="Next", consts="", timeout=300):
    """Random behaviours of a generator module; returns the emitted records."""
    cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n%s\n" % (init, nxt, consts)
    r = tlc(module, cfg, opts=["-simulate", "num=%d" % num, "-depth", str(depth),
                               "-seed", str(SEED if seed is None else seed)], timeout=timeout)
    tlc_ok(r, "generate " + module)
    different = len({json.dumps(g, sort_keys=True) for g in r.gen})
    if os.environ.get("VERIF_DRAWS"):
        constant_fields(module, r.gen, different)
    if len(r.gen) >= 20 and different < 5:      # a generator that repeats itself covers nothing
        raise MachineryError("generate %s: only %d different draws among %d" % (module, different, len(r.gen)))
    return r


def constant_fields(module, gen, different):
    """Development aid: which drawn fields never vary."""
    seen = {}

    def walk(x, at):
        if isinstance(x, dict):
            for k in x:
                walk(x[k], at + "." + k)
        elif isinstance(x, list):
            seen.setdefault(at + "#", set()).add(len(x))
            for i, y in enumerate(x[:3]):
                walk(y, at + "[%d]" % i)
        else:
            seen.setdefault(at, set()).add(x)
    for g in gen:
        walk(g, "")
    print("DRAWS", module, len(gen), "different", different,
          "constant:", [(k, list(v)[0]) for k, v in seen.items() if len(v) == 1][:30])


def modelcheck(module, cfg, workers=NCPU, timeout=600, opts=()):
    r = tlc(module, cfg, workers=workers, timeout=timeout, opts=list(opts))
    return tlc_ok(r, "model check " + module)


def validate(module, events, consts="", shards=NCPU, timeout=800, chunks=None):
    """Check recorded events with a conformance module, in parallel shards.

    Returns (list of (global event index, clauses), states, transitions)."""
    if chunks is None:
        n = max(1, min(shards, len(events)))
        idx = [list(range(i, len(events), n)) for i in range(n)]
    else:
        idx = chunks
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n" + consts + "\n"
    classes()

    def one(k):
        path = os.path.join(tmpdir(), "trace-%s-%d-%d.ndjson" % (module, k, time.monotonic_ns()))
        with open(path, "w") as f:
            for i in idx[k]:
                f.write(json.dumps(events[i], separators=(",", ":")) + "\n")
        r = tlc(module, cfg, env={"TRACE": path}, timeout=timeout)
        if r.rc in (75, 76):                     # an evaluation error: not even of the right shape
            at = re.findall(r"^/\\ l = (\d+)$", r.out, re.M)
            why = re.findall(r"^Error: (.*(?:\n[^\n]+){0,3})", r.out, re.M)
            raise Unobservable(json.dumps({"event": idx[k][int(at[-1]) - 1] if at else -1, "spec": module, "error": (why or [""])[0][:400]}))
        if r.done != len(idx[k]) or r.rc != 0:
            raise MachineryError("validate %s: TLC consumed %s of %d events (exit %d)\n%s"
                                 % (module, r.done, len(idx[k]), r.rc, r.out[-4000:]))
        os.unlink(path)
        return [(idx[k][f["line"] - 1], sorted(f["clauses"])) for f in r.fails], r.distinct, r.generated
    with ThreadPoolExecutor(shards) as ex:
        parts = list(ex.map(one, range(len(idx))))
    bad = sorted(sum((p[0] for p in parts), []))
    return bad, sum(p[1] for p in parts), sum(p[2] for p in parts)


# ------------------------------------------------------------- running the code
class Hang(Exception):
    pass


_hangs = 0                                       # code that hangs again and again gets less time


def _alarm(sig, frm):
    raise Hang()


def guarded(fn, seconds=60):
    """Run fn(); returns ('ok', value) or ('err', exception type name, text)."""
    global _hangs
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds if _hangs < 2 else 5)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ("ok", fn())
    except Hang:
        _hangs += 1
        return ("err", "Hang", "no answer within %d s" % seconds)
    except Exception as e:                      # noqa: the verdict is the spec's
        names = [c.__name__ for c in type(e).__mro__ if issubclass(c, Exception) and c is not Exception]
        return ("err", "|".join(names) or "Exception", str(e)[:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def pmap(fn, items, procs=NCPU, fresh=False):
    """Observe in forked workers (each starts from the just-imported, unused library;
    with fresh, every item has a worker of its own)."""
    import multiprocessing as mp
    global _work
    _work = (fn, items)
    import gc
    gc.collect()
    gc.freeze()                                  # children do not touch the parent's pages
    if not fresh and (len(items) < 2 or procs < 2):
        out = [_call(i) for i in range(len(items))]
    else:
        with mp.get_context("fork").Pool(min(procs, len(items))) as pool:
            out = pool.map(_call_alone if fresh else _call, range(len(items)), chunksize=1)
    for i, x in enumerate(out):
        if isinstance(x, Failed):
            raise Unobservable(json.dumps({"observation": str(items[i])[:2000], "error": x.text}))
    return out


class Failed:
    def __init__(self, text):
        self.text = text


def _call(i):
    try:
        return _work[0](_work[1][i])
    except MachineryError:
        raise
    except Exception:                            # noqa: the answer could not even be recorded
        import traceback
        return Failed(traceback.format_exc()[-1500:])


def _call_alone(i):
    """Run item i in a child of this worker, which itself never uses the library."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(_call(i)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise MachineryError("a forked observer died on item %d" % i)
    return pickle.loads(data)


def load_repo():
    """Import composipy from the working tree under test."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    try:
        import composipy
    except Exception as e:                      # noqa
        raise CodeBroken("import composipy: %s: %s" % (type(e).__name__, e))
    if not os.path.abspath(composipy.__file__).startswith(os.path.abspath(REPO) + "/"):
        raise MachineryError("composipy imported from " + composipy.__file__)
    return composipy


# --------------------------------------------------------------------- verdicts
class Check:
    """One property check: collects coverage, prints the verdict, writes the evidence."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.bad, self.assume = [], {}, [], []

    def model(self, res, name):
        self.states += res.distinct
        self.transitions += res.generated
        self.notes.setdefault("models", []).append(
            {"model": name, "distinct_states": res.distinct, "transitions": res.generated, "wall_s": round(res.wall, 1)})

    def conform(self, module, events, meta, consts="", **kw):
        """Validate events; meta[i] describes event i for a replay file."""
        t = time.time()
        bad, d, g = validate(module, events, consts, **kw)
        self.states += d
        self.transitions += g
        self.traces += len(events)
        self.notes.setdefault("conformance", []).append(
            {"spec": module, "observations": len(events), "rejected": len(bad), "wall_s": round(time.time() - t, 1)})
        for i, cl in bad:
            self.bad.append({"spec": module, "clauses": cl, "input": meta[i]})
        return bad

    def finish(self):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.pid]
        fresh, seen = [], {}
        for b in self.bad:
            k = next((k for k in known if matches(k, b)), None)
            if k is None:
                fresh.append(b)
            else:
                seen[k["id"]] = k
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6] or ["(none)"], **self.notes},
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s.json" % self.pid)
            with open(p, "w") as f:
                json.dump(fresh[:50], f, indent=1, default=str)
            for b in fresh[:8]:
                print("  rejected by %s: %s  input: %s" % (b["spec"], ",".join(b["clauses"]),
                                                          json.dumps(b["input"], default=str)[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("OK property=%s states=%d observations=%d wall=%.1fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0


def matches(k, b):
    """A known finding is identified by the clauses and the exact input."""
    return set(b["clauses"]) <= set(k["clauses"]) and any(x == b["input"] for x in k["inputs"])


def hash_pick(text, n):
    """A fixed one-in-n subset, independent of Python's hash seed."""
    import zlib
    return zlib.crc32(str(text).encode()) % n == 0
