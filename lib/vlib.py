"""Common machinery of all checks: building slang from /repo's working tree, running it, a choice-tape
generator with a generic shrinker, parallel case exploration, evidence and replay files.

A check is a module checks/<ID>.py that defines

    PROPERTY, LEVEL, RULE, CASES = {"quick": n, "thorough": m}
    gen(t)            -> case (any picklable object), drawing every choice from the tape t
    run(case, env)    -> Result(...)       (never raises for a behaviour of the code under test)
    optional: TARGETS (ninja targets), VARIANT ("o1" or "asan"), render(case) -> str
"""
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(BUILD, "src")

DEPS = '''# generated by /verif
SET( BUILD_CURL_INC "/usr/include" )
SET( BUILD_CURL_LIB "/usr/lib/x86_64-linux-gnu" )
SET( JSON_INCLUDE_DIR "/usr/include/jsoncpp" )
SET( JSON_LIBRARY "/usr/lib/x86_64-linux-gnu/libjsoncpp.so" )
'''

VARIANTS = {
    "o1": ("gcc", "g++", "-O1 -g0 -w", ""),
    # int overflow wraps by definition of the language under test, so it is not reported here
    "asan": ("gcc", "g++", "-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,signed-integer-overflow,shift,float-cast-overflow,float-divide-by-zero -fno-sanitize-recover=undefined",
             "-fsanitize=address,undefined"),
}


class BuildError(Exception):
    pass


# ---------------------------------------------------------------------------------------------- build

def _mirror():
    """Copies /repo's build inputs to build/src, touching only files whose content changed."""
    want = {}
    for top in ("CMakeLists.txt", "version", "CMake", "Projects"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            want[top] = p
        else:
            for d, dirs, files in os.walk(p):
                dirs[:] = [x for x in dirs if x not in (".git", "_build")]
                for f in files:
                    full = os.path.join(d, f)
                    want[os.path.relpath(full, REPO)] = full
    want.pop("CMake/Dependencies.cmake", None)
    changed = False
    for rel, full in want.items():
        dst = os.path.join(SRC, rel)
        with open(full, "rb") as f:
            data = f.read()
        try:
            with open(dst, "rb") as f:
                if f.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "wb") as f:
            f.write(data)
        changed = True
    for d, dirs, files in os.walk(SRC):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), SRC)
            if rel not in want and rel != "CMake/Dependencies.cmake":
                os.unlink(os.path.join(d, f))
                changed = True
    dep = os.path.join(SRC, "CMake/Dependencies.cmake")
    if not os.path.exists(dep):
        with open(dep, "w") as f:
            f.write(DEPS)
    return changed


def build(variant="o1", targets=("slang",)):
    """Builds the targets of /repo's current working tree; returns the directory of the binaries."""
    os.makedirs(SRC, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _mirror()
        cc, cxx, flags, ld = VARIANTS[variant]
        out = os.path.join(BUILD, variant)
        env = dict(os.environ, CC=cc, CXX=cxx, LC_ALL="C.UTF-8")
        if not os.path.exists(os.path.join(out, "build.ninja")):
            r = subprocess.run(["cmake", "-S", SRC, "-B", out, "-G", "Ninja", "-DBUILD=Debug",
                                "-DCMAKE_CXX_FLAGS_DEBUG=" + flags, "-DCMAKE_EXE_LINKER_FLAGS=" + ld],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                shutil.rmtree(out, ignore_errors=True)
                raise BuildError(r.stdout.decode(errors="replace")[-4000:])
        r = subprocess.run(["ninja", "-C", out] + list(targets), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    return os.path.join(out, "bin")


# ---------------------------------------------------------------------------------------------- tape

class Stop(Exception):
    """The tape asks for more choices than allowed."""


class Tape:
    """Source of every random choice. 0 is always the simplest choice."""

    MAX = 20000

    def __init__(self, seed=None, data=None):
        self.rng = random.Random(seed) if data is None else None
        self.data = data
        self.out = []
        self.labels = {}

    def below(self, n):
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        if len(self.out) >= self.MAX:
            raise Stop()
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            i = len(self.out)
            v = min(self.data[i], n - 1) if i < len(self.data) else 0
        self.out.append(v)
        return v

    def int(self, lo, hi):
        """Integer in [lo, hi], simplest is lo (or 0 if inside)."""
        if lo <= 0 <= hi:
            v = self.below(hi - lo + 1)
            # 0,1,2,...,hi,-1,-2,...
            return v if v <= hi else hi - v
        return lo + self.below(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is simplest."""
        return self.below(den) >= den - num

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; first is simplest."""
        total = sum(w for w, _ in pairs)
        v = self.below(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def many(self, lo, hi, more=3):
        """A count in [lo, hi], geometric with 'more' in 'more+1' chance to continue."""
        n = lo
        while n < hi and self.below(more + 1) != 0:
            n += 1
        return n

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


# ---------------------------------------------------------------------------------------------- running

class Out:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.rc < 0 or self.timeout

    def describe(self):
        return {"rc": self.rc, "timeout": self.timeout, "stdout": self.out[-3000:].decode("utf-8", "replace"),
                "stderr": self.err[-3000:].decode("utf-8", "replace")}


CPU_LIMIT = 20          # seconds of CPU time for programs that normally need a few hundredths
WALL_LIMIT = 120
BLOCKED = 8             # seconds asleep without using any CPU time until a program counts as waiting for something that never happens


def _activity(session):
    """What the processes of a session have done so far, or None if one of them is able to run right now."""
    seen = []
    for pid in os.listdir("/proc"):
        if not pid.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % pid) as f:
                fields = f.read().rpartition(")")[2].split()
        except OSError:
            continue
        if int(fields[3]) != session:
            continue
        if fields[0] not in "SZ":
            return None
        seen.append((pid, fields[11], fields[12]))
    return seen


def _wait(p, stdin, wall):
    """Waits for a program; raises TimeoutExpired if it takes too long or is blocked for good."""
    def step(seconds, data=None):
        if stdin:
            p.communicate(data, timeout=seconds)
        else:
            p.wait(timeout=seconds)

    end = time.time() + wall
    try:
        return step(min(3, wall), stdin)
    except subprocess.TimeoutExpired:
        pass
    last, since = None, time.time()
    while time.time() < end:
        try:
            return step(0.5)
        except subprocess.TimeoutExpired:
            now = _activity(p.pid)
            if now is None or now != last:
                last, since = now, time.time()
            elif time.time() - since > BLOCKED:
                break
    raise subprocess.TimeoutExpired(p.args, wall)


class Env:
    """Where the binaries are and how to start them; one scratch directory per worker process."""

    def __init__(self, bindir, variant):
        self.bindir = bindir
        self.variant = variant
        self.scratch = None

    def dir(self):
        if self.scratch is None or not os.path.isdir(self.scratch):
            self.scratch = tempfile.mkdtemp(prefix="slangcheck-")
        return self.scratch

    def close(self):
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def base_env(self):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.dir(), "LC_ALL": "C.UTF-8", "TZ": "UTC",
             "SLANG_LIBRARY": os.path.join(SRC, "Projects/Library")}
        if self.variant == "asan":
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:hard_rss_limit_mb=3000"
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99:halt_on_error=1"
        return e

    def binary(self, name="slang"):
        return os.path.join(self.bindir, name, name)

    def exec(self, argv, stdin=b"", cwd=None, env=None, cpu=CPU_LIMIT, wall=WALL_LIMIT, preexec=None):
        e = self.base_env()
        if env:
            e.update(env)

        of = tempfile.TemporaryFile(dir=self.dir())
        ef = tempfile.TemporaryFile(dir=self.dir())
        p = subprocess.Popen(argv, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL, stdout=of, stderr=ef,
                             cwd=cwd or self.dir(), env=e, preexec_fn=preexec, start_new_session=True)
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
            if self.variant != "asan":
                resource.prlimit(p.pid, resource.RLIMIT_AS, (4 << 30, 4 << 30))
        except (ProcessLookupError, PermissionError):
            pass
        timeout = False
        try:
            _wait(p, stdin, wall)
        except subprocess.TimeoutExpired:
            timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        if p.returncode in (-signal.SIGXCPU,) or (p.returncode == -signal.SIGKILL):
            timeout = True
        of.seek(0)
        ef.seek(0)
        r = Out(p.returncode, of.read(), ef.read(), timeout)
        of.close()
        ef.close()
        return r

    def slang(self, source, args=(), options=(), name="main.os", files=None, **kw):
        """Runs a Slang program given as text (or bytes)."""
        d = self.dir()
        path = os.path.join(d, name)
        data = source if isinstance(source, bytes) else source.encode("utf-8", "surrogateescape")
        with open(path, "wb") as f:
            f.write(data)
        for rel, text in (files or {}).items():
            full = os.path.join(d, rel)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        try:
            return self.exec([self.binary()] + list(options) + [path] + list(args), **kw)
        finally:
            for rel in files or ():
                os.unlink(os.path.join(d, rel))


class Result:
    """Outcome of one case. failure is None, a text or a dict describing the disagreement."""
    __slots__ = ("failure", "nontrivial", "key", "labels", "evaluations", "sample", "known")

    def __init__(self, failure=None, nontrivial=True, key=None, labels=None, evaluations=1, sample=None, known=None):
        self.failure = {"what": failure} if isinstance(failure, str) else failure
        self.nontrivial = nontrivial
        self.key = key
        self.labels = labels or {}
        self.evaluations = evaluations
        self.sample = sample
        self.known = known


def compare_output(expected_out, expected_rc, got, source=None):
    """None or a failure description. expected_out: str/bytes or None, expected_rc: int or None."""
    if isinstance(expected_out, str):
        expected_out = expected_out.encode("utf-8", "surrogateescape")
    bad = []
    if got.timeout:
        bad.append("did not terminate")
    elif got.rc < 0:
        bad.append("killed by signal %d" % -got.rc)
    elif got.rc == 99 and b"Sanitizer" in got.err + got.out:
        bad.append("sanitizer report")
    elif expected_rc is not None and got.rc != expected_rc:
        bad.append("exit status %d instead of %d" % (got.rc, expected_rc))
    if expected_out is not None and got.out != expected_out:
        bad.append("output differs")
    if not bad:
        return None
    f = {"what": ", ".join(bad), "got": got.describe()}
    if expected_out is not None:
        e = expected_out.split(b"\n")
        g = got.out.split(b"\n")
        for i in range(max(len(e), len(g))):
            a = e[i] if i < len(e) else None
            b = g[i] if i < len(g) else None
            if a != b:
                f["first_difference"] = {"line": i + 1,
                                         "expected": None if a is None else a.decode("utf-8", "replace"),
                                         "got": None if b is None else b.decode("utf-8", "replace")}
                break
        f["expected_stdout"] = expected_out[-3000:].decode("utf-8", "replace")
    if expected_rc is not None:
        f["expected_rc"] = expected_rc
    return f


# ---------------------------------------------------------------------------------------------- exploration

_mod = None
_env = None


def _init(modname, bindir, variant):
    global _mod, _env
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    _mod = load(modname)
    _env = Env(bindir, variant)
    import atexit
    atexit.register(_env.close)
    mp.util.Finalize(None, _env.close, exitpriority=10)


def load(name):
    import importlib
    for p in (os.path.join(VERIF, "checks"), os.path.join(VERIF, "lib")):
        if p not in sys.path:
            sys.path.insert(0, p)
    return importlib.import_module(name)


def one(mod, env, tape):
    """Generates and runs one case. Returns (case, Result) or None when the tape is too long."""
    try:
        case = mod.gen(tape)
    except Stop:
        return None
    r = mod.run(case, env)
    for k, v in tape.labels.items():
        r.labels[k] = r.labels.get(k, 0) + v
    return case, r


def case_seed(seed, prop, i):
    return "%s:%s:%d" % (seed, prop, i)


def _task(arg):
    seed, idx, deadline = arg
    out = []
    for i in idx:
        if time.time() > deadline:
            break
        t = Tape(case_seed(seed, _mod.PROPERTY, i))
        try:
            x = one(_mod, _env, t)
        except Exception:
            out.append({"i": i, "error": traceback.format_exc()})
            continue
        if x is None:
            out.append({"i": i, "skip": True})
            continue
        case, r = x
        d = {"i": i, "n": r.evaluations, "nt": r.nontrivial, "labels": r.labels}
        key = r.key if r.key is not None else json.dumps(t.out)
        if not isinstance(key, (list, tuple, set)):
            key = [key]
        d["keys"] = [hashlib.blake2b(str(k).encode("utf-8", "surrogateescape"), digest_size=8).digest() for k in key] if r.nontrivial else []
        if r.known:
            d["known"] = r.known
        if r.failure:
            d["failure"] = r.failure
            d["tape"] = t.out
        if i < 3 or r.sample is not None and i < 64:
            d["sample"] = r.sample if r.sample is not None else render(_mod, case)
        out.append(d)
    return out


def render(mod, case):
    if hasattr(mod, "render"):
        return mod.render(case)
    return str(case)


def _fails(mod, env, tape):
    t = Tape(data=tape)
    try:
        x = one(mod, env, t)
    except Exception:
        return None
    if x is None:
        return None
    case, r = x
    if r.failure and not r.known:
        return t.out, case, r
    return None


def shrink(mod, env, tape, budget):
    """Greedy shrinking of the choice tape; the same oracle decides every candidate."""
    end = time.time() + budget
    best = _fails(mod, env, tape)
    if best is None:
        return None
    improved = True
    while improved and time.time() < end:
        improved = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best[0]) - size
            while i >= 0 and time.time() < end:
                cand = best[0][:i] + best[0][i + size:]
                r = _fails(mod, env, cand)
                if r is not None and (len(r[0]), r[0]) < (len(best[0]), best[0]):
                    best = r
                    improved = True
                    i = min(i, len(best[0]) - size)
                else:
                    i -= size if size > 4 else 1
        i = 0
        while i < len(best[0]) and time.time() < end:
            v = best[0][i]
            if v:
                for c in (0, v // 2, v - 1):
                    if c >= v:
                        continue
                    cand = best[0][:i] + [c] + best[0][i + 1:]
                    r = _fails(mod, env, cand)
                    if r is not None and (len(r[0]), r[0]) < (len(best[0]), best[0]):
                        best = r
                        improved = True
                        break
            i += 1
    return best


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def write_replay(prop, seed, tier, index, best):
    tape, case, r = best
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(tape).encode(), digest_size=4).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "case": index, "tape": tape,
                   "failure": r.failure, "rendered": jsonable(render(_mod, case))}, f, indent=1)
    return path


def known_findings(prop):
    """Descriptions of known findings of a property: {key: text}."""
    p = os.path.join(VERIF, "known-findings.json")
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e["property"] == prop and e.get("status") == "open":
                out[e["key"]] = e["what"]
    return out


def main(name):
    global _mod, _env
    t0 = time.time()
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--show", type=int, help="print case number N and stop")
    ap.add_argument("--all", action="store_true", help="collect many failures instead of stopping at the first")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(sys.argv[2:])
    tier = "thorough" if a.tier == "thorough" else "quick"
    mod = load(name)
    prop = mod.PROPERTY
    variant = getattr(mod, "VARIANT", "o1")
    try:
        bindir = build(variant, getattr(mod, "TARGETS", ("slang",)))
        if hasattr(mod, "prepare"):
            mod.prepare()
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    t_build = time.time() - t0
    _mod, _env = mod, Env(bindir, variant)
    try:
        if a.replay:
            d = json.load(open(a.replay))
            r = _fails(mod, _env, d["tape"])
            if r is None:
                print("no violation")
                return 0
            print(json.dumps(r[2].failure, indent=1))
            print(jsonable(render(mod, r[1])))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        if a.show is not None:
            t = Tape(case_seed(a.seed, prop, a.show))
            case, r = one(mod, _env, t)
            print(jsonable(render(mod, case)))
            print(r.labels, r.nontrivial)
            print(json.dumps(r.failure, indent=1))
            return 0
        return explore(mod, a, tier, t0, t_build, bindir, variant)
    finally:
        _env.close()


def explore(mod, a, tier, t0, t_build, bindir, variant):
    prop = mod.PROPERTY
    n = a.cases or mod.CASES[tier]
    wall = {"quick": 240, "thorough": 700}[tier]
    deadline = time.time() + wall
    chunk = max(1, min(getattr(mod, "CHUNK", 8), n // (a.jobs * 4) or 1))
    tasks = [(a.seed, list(range(s, min(n, s + chunk))), deadline) for s in range(0, n, chunk)]
    st = {"cases": 0, "evaluations": 0, "nontrivial_cases": 0, "skipped": 0}
    keys = set()
    labels = {}
    samples = []
    failures = []
    errors = []
    known = {}
    with mp.Pool(a.jobs, _init, (mod.__name__, bindir, variant)) as pool:
        for res in pool.imap_unordered(_task, tasks):
            for d in res:
                if "error" in d:
                    errors.append(d)
                    continue
                if d.get("skip"):
                    st["skipped"] += 1
                    continue
                st["cases"] += 1
                st["evaluations"] += d["n"]
                st["nontrivial_cases"] += bool(d["nt"])
                keys.update(d["keys"])
                for k, v in d["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                if "sample" in d and len(samples) < 4:
                    samples.append((d["i"], jsonable(d["sample"])))
                if "known" in d:
                    known[d["known"]] = known.get(d["known"], 0) + 1
                elif "failure" in d:
                    failures.append(d)
            if errors or (failures and not a.all):
                pool.terminate()
                break
            if failures and len(failures) > 200:
                pool.terminate()
                break
        else:
            pool.close()
            pool.join()
    cov = {"evaluations": st["evaluations"], "distinct_nontrivial": len(keys), "rule": mod.RULE,
           "samples": [s for _, s in sorted(samples, key=lambda x: x[0])], "cases": st["cases"],
           "nontrivial_cases": st["nontrivial_cases"], "classes": dict(sorted(labels.items())),
           "requested_cases": n, "skipped_cases": st["skipped"], "build_s": round(t_build, 1)}
    kf = known_findings(prop)
    viol = []
    status = 0
    for k in list(known):
        if k not in kf:
            errors.append({"error": "unknown known-finding key " + k})
    if errors:
        print("ERROR in check:\n" + errors[0]["error"])
        status = 2
    if a.all and failures:
        import collections
        c = collections.Counter()
        for d in sorted(failures, key=lambda d: len(d["tape"])):
            what = d["failure"].get("group") or d["failure"]["what"]
            c[what] += 1
            if c[what] <= 2:
                print("case %d (%s): %s" % (d["i"], what, json.dumps(d["failure"])[:1500]))
        print(c)
    for d in sorted(failures, key=lambda d: (len(d["tape"]), d["i"]))[:1]:
        best = None
        # a failure counts only if it reproduces every time
        reps = [_fails(mod, _env, d["tape"]) for _ in range(3)]
        if not all(reps):
            st["irreproducible"] = st.get("irreproducible", 0) + 1
            cov["irreproducible"] = d["failure"]
            print("case %d failed once but not on replay: %s" % (d["i"], d["failure"].get("what")))
            continue
        best = reps[0]
        if not a.no_shrink:
            best = shrink(mod, _env, d["tape"], 60 if tier == "quick" else 120) or best
        path = write_replay(prop, a.seed, tier, d["i"], best)
        viol.append({"replay": path, "what": best[2].failure.get("what"), "case": d["i"]})
        print(json.dumps(best[2].failure, indent=1)[:6000])
        print(str(jsonable(render(mod, best[1])))[:6000])
        status = 1
    for k in sorted(kf):
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, kf[k], known.get(k, 0)))
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": mod.LEVEL, "coverage": cov,
          "wall_s": round(time.time() - t0, 2),
          "assumptions": getattr(mod, "ASSUMPTIONS", ["the reference model in /verif states the intended behaviour"])}
    if viol:
        ev["violations"] = len(viol)
        cov["violation_details"] = viol
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s seed=%d cases=%d evaluations=%d nontrivial=%d distinct=%d wall=%.1fs (build %.1fs)%s" % (
        prop, tier, a.seed, st["cases"], st["evaluations"], st["nontrivial_cases"], len(keys),
        time.time() - t0, t_build, " INCOMPLETE" if st["cases"] + st["skipped"] < n and not failures else ""))
    if a.cases or a.all:
        print(labels)
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    return status
