"""Package manager: histories of commands against generated repositories, compared with a model of the library."""
import io
import json
import os
import platform
import shutil
import tarfile

from vlib import Result

PROPERTY = "C34"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 6000}
CHUNK = 10
TARGETS = ("slang", "slang-pkg")
RULE = ("case = a repository of up to 6 modules in several versions with generated dependencies (chains, diamonds, cycles, minimum versions, interpreter versions), a library and up to 8 commands "
        "(update, install, upgrade, remove, purge, restrict, list, search, info, create and publishing of new versions, with missing files in the repository); after each command the library "
        "is compared with a model of the installed modules and restrictions; non-trivial if a command changed installed modules through dependencies, was refused, or had to leave other modules alone")

NAMES = ["Alpha", "Beta", "Gamma", "Delta", "a1", "System2"]
VERSIONS = ["0.0.1", "0.1.0", "0.2.0", "0.9.9", "0.10.0", "1.0.0", "1.0.2", "1.0.10", "1.2.0", "2.0.0", "9.0.0", "10.0.0", "10.1.1"]
WORDS = ["net", "Json", "file tools", "Alpha helper", "xml", "math", "beta-test", "STRING"]
USER = 65534


def vkey(v):
    return tuple(int(x) for x in v.split("."))


def gen(t):
    names = t.sample(NAMES, 1 + t.below(len(NAMES)))
    mods = {}
    for n in names:
        vs = sorted(set(t.choice(VERSIONS) for _ in range(1 + t.below(4))), key=vkey)
        mods[n] = {"versions": vs, "deps": {}, "arch": t.weighted([(30, ""), (8, "own"), (1, "sparc")]), "long": n + " " + t.choice(WORDS), "keywords": t.sample(WORDS, t.below(3)),
                   "description": t.choice(WORDS), "external": t.bool(1, 4), "files": t.below(3)}
    for n in names:
        m, deps = mods[n], {}
        for v in m["versions"]:
            deps = dict(deps)
            for d in names:             # later versions only demand more than earlier ones
                if t.bool(1, 4 if d not in deps else 5):
                    vs = mods[d]["versions"]
                    old = deps.get(d)
                    cand = [x for x in vs if old is None or vkey(x) >= vkey(old)]
                    if old is None and d in deps:
                        continue
                    deps[d] = None if d not in deps and t.bool(1, 6) else t.choice(cand)
            if t.bool(1, 8):
                deps["Slang"] = t.weighted([(3, "0.1.0"), (3, "0.9.0"), (3, "0.9.7"), (1, "0.10.0"), (1, "99.0.0")]) if "Slang" not in deps else deps["Slang"]
            m["deps"][v] = dict(deps)
    index = {n: t.below(len(mods[n]["versions"])) for n in names}
    steps = []
    for _ in range(1 + t.many(0, 7, 6)):
        k = t.weighted([(8, "install"), (3, "upgrade"), (3, "remove"), (2, "purge"), (3, "restrict"), (2, "update"), (2, "publish"), (1, "list"), (1, "search"), (1, "info"), (1, "create"), (1, "local")])
        s = {"do": k, "fault": None}
        if k in ("install", "remove", "purge", "upgrade"):
            s["params"] = t.sample(names, (1 if k != "upgrade" else 0) + t.below(min(3, len(names))))
            if t.bool(1, 10):
                s["params"] = s["params"] + ["Nope"]
            if k == "install":
                s["params"] = [p + (":" + t.choice(mods[p]["versions"] + ["77.7.7"] * t.below(2)) if p in mods and t.bool(1, 5) else "") for p in s["params"]]
                s["flags"] = [f for f in ("--force", "--skip-dependencies") if t.bool(1, 6)]
            if k in ("install", "upgrade") and t.bool(1, 8):
                s["fault"] = [t.choice(["module.json", "module.tar.gz"]), t.choice(names)]
        elif k == "restrict":
            n = t.choice(names)
            lo, hi = t.choice(VERSIONS), t.choice(VERSIONS)
            s["params"] = [n] + t.choice([[], [lo + ":"], [":" + hi], [lo + ":" + hi]])
        elif k == "publish":
            s["params"] = [t.choice(names)]
        elif k == "update":
            s["params"], s["fault"] = [], t.choice([None, None, None, ["index", None]])
        elif k == "search":
            s["params"] = [t.choice(["", "a", "ALPHA", "json", "T", "net", "zzz", "b"])]
        elif k == "info":
            s["params"] = [t.choice(names)]
        elif k == "create":
            s["params"] = [t.choice(names)]
        else:
            s["params"] = []
        steps.append(s)
    return {"modules": mods, "index": index, "steps": steps, "local": t.bool(1, 2), "first": t.bool(3, 4)}


# ---------------------------------------------------------------------------------------------- files

def description(case, n, v, root):
    m = case["modules"][n]
    j = {"name": m["long"], "name_short": n, "version": v, "description": m["description"], "keywords": m["keywords"],
         "dependencies": [dict({"module": d}, **({"version_min": x} if x else {})) for d, x in m["deps"][v].items()],
         "target": {"directory": n, "type": "external", "url": "file://%s/ext/%s-%s.tar.gz" % (root, n, v)} if m["external"] else {"directory": n, "type": "internal"}}
    if m["arch"]:
        j["architecture"] = platform.machine() if m["arch"] == "own" else m["arch"]
    return j


def content(case, n, v, root):
    r = {"module.json": json.dumps(description(case, n, v, root), indent=1)}
    for i in range(case["modules"][n]["files"]):
        r["%sfile%d.os" % ("sub/" * i, i)] = "// %s %s %d\n" % (n, v, i)
    return r


def archive(n, files):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz", compresslevel=1) as tar:
        for rel, text in files.items():
            info = tarfile.TarInfo(n + "/" + rel)
            info.size, info.mode = len(text), 0o644
            tar.addfile(info, io.BytesIO(text.encode()))
    return b.getvalue()


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def tree(path):
    r = {}
    for d, ds, fs in os.walk(path):
        if d == path and ".slang" in ds:
            ds.remove(".slang")
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                r[os.path.relpath(p, path)] = h.read()
    return r


def drop():
    os.setgroups([])
    os.setgid(USER)
    os.setuid(USER)


class Repo:
    def __init__(self, case, root):
        self.case, self.root, self.path = case, root, root + "/repo"
        for n, m in case["modules"].items():
            for v in m["versions"]:
                d = "%s/modules/%s/%s/" % (self.path, n, v)
                a = archive(n, content(case, n, v, root))
                put(d + "module.json", content(case, n, v, root)["module.json"])
                put(root + "/ext/%s-%s.tar.gz" % (n, v) if m["external"] else d + "module.tar.gz", a)
        self.index = dict(case["index"])
        self.write()

    def version(self, n):
        return self.case["modules"][n]["versions"][self.index[n]]

    def write(self):
        put(self.path + "/modules/index.json", json.dumps({"modules": [
            {"name": n, "version": self.version(n), "name_full": m["long"], "description": m["description"], "keywords": m["keywords"]} for n, m in self.case["modules"].items()]}))

    def file(self, kind, n, v):
        if kind == "index":
            return self.path + "/modules/index.json"
        if kind == "module.tar.gz" and self.case["modules"][n]["external"]:
            return self.root + "/ext/%s-%s.tar.gz" % (n, v)
        return "%s/modules/%s/%s/%s" % (self.path, n, v, kind)


# ---------------------------------------------------------------------------------------------- model

class Refused(Exception):
    pass


class Model:
    def __init__(self, case, repo):
        self.case, self.repo = case, repo
        self.installed = {}         # name -> version
        self.restrictions = {}
        self.cache = None           # index known to the library
        self.fault = None

    def update(self):
        self.cache = {n: self.repo.version(n) for n in self.case["modules"]}

    def known(self, n, v, kind):
        return n in self.case["modules"] and v in self.case["modules"][n]["versions"] and self.fault != [kind, n]

    def allowed(self, n, v):
        lo, hi = self.restrictions.get(n, (None, None)) if n != "Slang" or n in self.restrictions else (None, "0.9.7")
        return not (lo and vkey(v) < vkey(lo)) and not (hi and vkey(hi) < vkey(v))

    def install(self, params, flags):
        """Returns (installed modules afterwards, exit status, strict) - strict is False for requests that contradict themselves."""
        local = self.installed
        strict, need, force, todo, explicit = True, {}, "--force" in flags, [], set()
        for p in params:
            n, _, v = p.partition(":")
            if v:
                force = True
                explicit.add(n)
            else:
                v = (self.cache or {}).get(n)
            need[n] = v
            todo.append(n)
        status = 0
        while todo and "--skip-dependencies" not in flags:
            n = todo.pop()
            v = need[n]
            if v is None or not self.known(n, v, "module.json"):
                continue
            if self.case["modules"][n]["arch"] == "sparc":
                return local, 2, strict
            for d, lo in self.case["modules"][n]["deps"][v].items():
                want = lo or self.cache.get(d)
                have = "0.9.7" if d == "Slang" else local.get(d)
                if d in explicit and vkey(need[d]) < vkey(want) or need.get(d) == "77.7.7":
                    strict = False
                if have is not None and (lo is None or vkey(have) >= vkey(lo)):
                    if d in explicit:
                        strict = strict and vkey(need[d]) >= vkey(want)
                    continue
                if d in need and need[d] is not None and vkey(need[d]) >= vkey(want):
                    continue
                need[d] = want
                todo.append(d)
        for n, v in need.items():
            if v is not None and not self.allowed(n, v):
                return local, 0, strict
        after = dict(local)
        for n, v in need.items():
            if v is None or n == "Slang" or not self.known(n, v, "module.json") or not self.known(n, v, "module.tar.gz"):
                continue
            if n in local and not force and vkey(local[n]) >= vkey(v):
                continue
            after[n] = v
        return after, 0, strict


# ---------------------------------------------------------------------------------------------- running

def render(case):
    r = []
    for n, m in case["modules"].items():
        r.append("module %s (index %s)%s: " % (n, m["versions"][case["index"][n]], " arch " + m["arch"] if m["arch"] else "") +
                 "; ".join("%s needs %s" % (v, {d: x or "any" for d, x in m["deps"][v].items()}) for v in m["versions"]))
    for s in case["steps"]:
        r.append("slang-pkg %s %s %s%s" % (s["do"], " ".join(s["params"]), " ".join(s.get("flags", [])), "   [missing: %s of %s]" % tuple(s["fault"]) if s["fault"] else ""))
    return "\n".join(r) + "\n"


def run(case, env):
    scratch = env.dir()
    os.chmod(scratch, 0o755)
    tool = os.path.join(scratch, "slang-pkg")
    if not os.path.exists(tool):
        shutil.copy(env.binary("slang-pkg"), tool)
        os.chmod(tool, 0o755)
    root = os.path.join(scratch, "case")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return go(case, env, root, tool)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def go(case, env, root, tool):
    repo = Repo(case, root)
    model = Model(case, repo)
    lib, work = root + "/lib", root + "/work"
    labels, trivial = {}, True
    for d in (lib, work):
        os.makedirs(d)
        os.chown(d, USER, USER)
    put(lib + "/notes.txt", "mine")
    put(lib + "/Own/x.os", "// mine")

    def call(args, cwd=None):
        return env.exec([tool] + args, cwd=cwd or (lib if case["local"] else work), env={"SLANG_LIBRARY": lib + ":/nonexistent", "HOME": work}, preexec=drop, cpu=10, wall=60)

    r = call(["--locallibrary"], cwd=lib)
    if r.timeout:
        return Result(nontrivial=False, labels={"inconclusive": 1})
    config = lib + "/.slang/config.json"
    try:
        with open(config) as f:
            c = json.load(f)
        c["repository"] = {"name": "main", "url": "file://" + repo.path + ("/" if case["first"] else "")}
        put(config, json.dumps(c))
        os.chown(config, USER, USER)
    except (OSError, ValueError, KeyError) as e:
        return Result({"what": "no usable library after --locallibrary: %r" % e, "got": r.describe()})
    if case["first"]:
        call(["update"])
        model.update()
    before = tree(lib)
    for i, s in enumerate(case["steps"]):
        k, args = s["do"], list(s["params"])
        hidden = []
        model.fault = s["fault"]
        if s["fault"]:
            kind, n = s["fault"]
            for v in case["modules"][n]["versions"] if n else [None]:
                p = repo.file(kind, n, v)
                if os.path.exists(p):
                    os.rename(p, p + ".hidden")
                    hidden.append(p)
        expected, status, strict, got = dict(model.installed), 0, True, None
        if k == "publish":
            n = args[0]
            repo.index[n] = min(repo.index[n] + 1, len(case["modules"][n]["versions"]) - 1)
            repo.write()
        elif k == "create":
            n = args[0]
            v = repo.version(n)
            files = content(case, n, v, root)
            for rel, text in files.items():
                put(work + "/" + n + "/" + rel, text)
            got = call(["create", n], cwd=work)
            made = work + "/%s_%s.tar.gz" % (n, v)
            if os.path.exists(made):
                shutil.copy(made, repo.file("module.tar.gz", n, v))
                os.chmod(repo.file("module.tar.gz", n, v), 0o644)
            try:
                with tarfile.open(made) as tar:
                    inside = {x.name: tar.extractfile(x).read().decode() for x in tar.getmembers() if x.isfile()}
                if inside != {n + "/" + rel: text for rel, text in files.items()}:
                    return Result({"what": "step %d: created archive contains %s" % (i, sorted(inside)), "got": got.describe()})
            except (OSError, tarfile.TarError) as e:
                return Result({"what": "step %d: no archive created: %r" % (i, e), "got": got.describe()})
            shutil.rmtree(work + "/" + n)
        else:
            if k in ("install", "upgrade", "info") and model.cache is None:
                model.update()
            if k == "install":
                expected, status, strict = model.install(args, s["flags"])
                args += s["flags"]
            elif k == "upgrade":
                outdated = sorted(n for n, v in model.installed.items() if n in model.cache and vkey(v) < vkey(model.cache[n]) and (not args or n in args))
                saved = model.installed
                for n in outdated:
                    model.installed, status, ok = model.install([n], [])
                    strict = strict and ok
                    if status:
                        break
                expected, model.installed = model.installed, saved
            elif k in ("remove", "purge"):
                for p in args:
                    expected.pop(p, None)
                    if k == "purge":
                        model.restrictions.pop(p, None)
            elif k == "restrict":
                model.restrictions.pop(args[0], None)
                if len(args) > 1:
                    lo, _, hi = args[1].partition(":")
                    model.restrictions[args[0]] = (lo or None, hi or None)
            elif k == "update":
                if s["fault"]:
                    status = None
                else:
                    model.update()
            got = call(["--locallibrary"], cwd=lib) if k == "local" else call([k] + args)
        for p in hidden:
            os.rename(p + ".hidden", p)
        if got is not None and got.timeout:
            return Result({"what": "step %d (%s): does not terminate" % (i, k), "got": got.describe()} if got.rc == -24 else None, nontrivial=False, labels={"inconclusive": 1})
        if k == "update" and s["fault"]:
            if got.rc == 0:
                return Result({"what": "step %d: update without an index succeeded" % i, "got": got.describe()})
            call(["update"])
            model.update()
        labels[k] = labels.get(k, 0) + 1

        def bad(what):
            return Result({"what": "step %d (%s %s): %s" % (i, k, " ".join(args), what), "installed before": model.installed, "expected": expected, "got": got.describe() if got else None})

        after = tree(lib)
        if got is not None and (got.rc < 0 or status is not None and strict and got.rc != status):
            return bad("exit status %d instead of %s" % (got.rc, status))
        for n, m in case["modules"].items():
            old = {p: x for p, x in before.items() if p.startswith(n + "/")}
            new = {p: x for p, x in after.items() if p.startswith(n + "/")}
            was, will = model.installed.get(n), expected.get(n)
            if not strict:
                if n not in [p.partition(":")[0] for p in s["params"]] and not any(n in d for x in case["modules"].values() for d in x["deps"].values()) and old != new:
                    return bad("unrelated module %s changed" % n)
                will = json.loads(new[n + "/module.json"])["version"] if new else None
                if will is None:
                    expected.pop(n, None)
                else:
                    expected[n] = will
            if will is None:
                if new:
                    return bad("module %s is installed" % n)
            elif was == will and k != "install":
                if old != new:
                    return bad("module %s changed" % n)
            else:
                for rel, text in content(case, n, will, root).items():
                    if new.get(n + "/" + rel) != text.encode():
                        return bad("module %s is not installed in version %s: %s" % (n, will, rel))
        if {p: x for p, x in after.items() if p.split("/")[0] not in case["modules"]} != {"notes.txt": b"mine", "Own/x.os": b"// mine"}:
            return bad("other files of the library changed: %s" % sorted(p for p in after if p.split("/")[0] not in case["modules"]))
        try:
            with open(config) as f:
                c = json.load(f).get("restrictions") or {}
            have = {n: (x.get("version_min"), x.get("version_max")) for n, x in c.items() if x}
        except (OSError, ValueError, AttributeError) as e:
            return bad("configuration unreadable: %r" % e)
        if have != {n: x for n, x in model.restrictions.items() if x != (None, None)}:
            return bad("restrictions are %s instead of %s" % (have, model.restrictions))
        if k == "list":
            lines = got.out.decode().splitlines()
            want = sorted(["%s:%s - %s" % (n, v, case["modules"][n]["long"]) for n, v in model.installed.items()])
            if sorted(x for x in lines if not x.startswith("Slang:"))[:] != sorted(want + ["%d module(s) installed." % (len(want) + 1)]):
                return bad("modules are not listed as installed")
        if k == "search" and model.cache is not None:
            t = args[0].lower()
            hits = ["%s:%s - %s" % (n, model.cache[n], m["long"]) for n, m in case["modules"].items()
                    if any(t in w.lower() for w in m["keywords"] + [n, m["description"]])]
            if got.out.decode().splitlines() != (hits + ["%d result(s) found." % len(hits)] if hits else ["Nothing found."]):
                return bad("search should find %s" % hits)
        if k == "info" and args[0] in model.installed and model.installed[args[0]] == model.cache[args[0]]:
            if ("%s:%s - %s" % (args[0], model.installed[args[0]], case["modules"][args[0]]["long"])) not in got.out.decode().splitlines():
                return bad("no information about an installed module")
        if k in ("install", "upgrade"):
            changed = [n for n in expected if expected[n] != model.installed.get(n)]
            asked = [p.partition(":")[0] for p in s["params"]] if k == "install" else list(expected)
            if any(n not in asked for n in changed):
                labels["dependencies installed"] = labels.get("dependencies installed", 0) + 1
                trivial = False
            elif changed:
                labels["changed"] = labels.get("changed", 0) + 1
            if not changed:
                labels["unchanged"] = labels.get("unchanged", 0) + 1
                trivial = trivial and not model.restrictions
            if not strict:
                labels["contradicting"] = labels.get("contradicting", 0) + 1
        if k in ("remove", "purge") and expected and expected != model.installed:
            trivial = False
        model.installed, before = expected, after
    return Result(nontrivial=not trivial, key=json.dumps([case["modules"], case["steps"]], sort_keys=True), labels=labels, evaluations=len(case["steps"]))
