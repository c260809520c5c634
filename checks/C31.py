"""Version numbers: all pairs of generated lists of versions compared by the library class and by the package manager's class against the defined order."""
import glob
import os
import subprocess

import vlib
from vlib import Result, compare_output

PROPERTY = "C31"
LEVEL = "exploration"
TARGETS = ("slang", "slang-pkg")
CASES = {"quick": 9000, "thorough": 30000}
RULE = ("case = list of 2 to 7 versions (numbers of one to ten digits, labels, build numbers) that are often equal in their first parts; the text, the successors and all ordered pairs under all comparison operators are "
        "compared for the library class (constructed and parsed) and for the package manager's class; non-trivial if two versions share all three numbers but differ; distinct counts lists")

DRIVER = os.path.join(vlib.BUILD, "semver", "driver")
LABELS = ["", "", "alpha", "beta", "rc1", "rc2", "rc10", "a-b", "RC1", "false", "1", "alpha.1", "z"]
BUILDS = ["", "", "", "1", "2", "10", "001", "b-1", "false"]


def prepare():
    os.makedirs(os.path.dirname(DRIVER), exist_ok=True)
    utils = os.path.join(vlib.SRC, "Projects/Utils")
    tmp = DRIVER + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-std=c++14", "-O1", "-I", utils, "-o", tmp, os.path.join(os.path.dirname(os.path.abspath(__file__)), "semver_driver.cpp"),
                        "-Wl,--start-group"] + sorted(glob.glob(os.path.join(vlib.BUILD, "o1/lib/libUtils*.a"))) + ["-Wl,--end-group"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise vlib.BuildError(r.stdout.decode(errors="replace")[-4000:])
    os.rename(tmp, DRIVER)


def number(t):
    k = t.below(8)
    if k < 5:
        return t.below(3)
    return t.choice([9, 10, 11, 99, 100, 20, 2, 2**31 - 2]) if k < 7 else t.int(0, 2**31 - 2)


def gen(t):
    vs = []
    for _ in range(t.int(2, 7)):
        if vs and t.bool(3, 4):
            v = list(t.choice(vs))
            for i in t.sample(range(5), t.int(0, 2)):
                v[i] = number(t) if i < 3 else t.choice(LABELS if i == 3 else BUILDS)
        else:
            v = [number(t), number(t), number(t), t.choice(LABELS), t.choice(BUILDS)]
        vs.append(v)
    return {"versions": vs, "parsed": [t.bool() for _ in vs]}


def key(v):
    return (v[0], v[1], v[2], v[3] == "", v[3].encode(), v[4].encode())


def text(v):
    return "%d.%d.%d" % tuple(v[:3]) + ("-" + v[3] if v[3] else "") + ("+" + v[4] if v[4] else "")


def source(case):
    r = ["import libSemVer.All;", "", "public void cmp(SemVer a const, SemVer b const) {", '\tprint("" + (a < b) + (a > b) + (a == b) + (a != b));', "}", "",
         "public int Main(int argc, string args) modify throws {"]
    for i, (v, p) in enumerate(zip(case["versions"], case["parsed"])):
        if p and not v[4]:
            r.append('\tSemVer v%d = SemVer.FromString("%s");' % (i, text(v)))
        else:
            a = ['%d' % x for x in v[:3]]
            if v[3] or v[4]:
                a.append('"%s"' % v[3])
            if v[4]:
                a.append('"%s"' % v[4])
            r.append("\tSemVer v%d = new SemVer(%s);" % (i, ", ".join(a)))
    n = len(case["versions"])
    for i in range(n):
        r.append('\tprint(cast<string>(v%d) + " " + cast<string>(v%d.nextMajor()) + " " + cast<string>(v%d.nextMinor()) + " " + cast<string>(v%d.nextBugfix()));' % (i, i, i, i))
        r += ["\tcmp(v%d, v%d);" % (i, j) for j in range(n)]
    return "\n".join(r + ["\treturn 0;", "}", ""])


def succ(v):
    return "%d.0.0 %d.%d.0 %d.%d.%d" % (v[0] + 1, v[0], v[1] + 1, v[0], v[1], v[2] + 1)


def render(case):
    return source(case) + "\n// " + " ".join(text(v) for v in case["versions"]) + "\n"


def run(case, env):
    vs = case["versions"]
    a, b = [], []
    for v in vs:
        a.append(text(v) + " " + succ(v))
        b.append("%s %s %s" % (text(v), "invalid" if text(v) == "0.0.0" else "valid", succ(v)))
        for w in vs:
            lt, gt, eq = (int(x) for x in (key(v) < key(w), key(v) > key(w), v == w))
            a.append("%d%d%d%d" % (lt, gt, eq, not eq))
            b.append(("%d%d%d" % (lt, eq, not eq)) * 2)
    failure = compare_output("\n".join(a) + "\n", 0, env.slang(source(case)))
    if not failure:
        failure = compare_output("\n".join(b) + "\n", 0, env.exec([DRIVER], stdin=(" ".join(text(v) for v in vs) + "\n").encode()))
        if failure:
            failure["what"] = "package manager: " + failure["what"]
    nt = any(v[:3] == w[:3] and v != w for v in vs for w in vs)
    return Result(failure, nt, repr(vs))
