"""Sound execution: programs of the other generators, ended early at an arbitrary point, run on a build that checks every memory access."""
import importlib

from vlib import Result
from C20 import lex

PROPERTY = "C22"
LEVEL = "exploration"
VARIANT = "asan"
CASES = {"quick": 3000, "thorough": 20000}
RULE = ("case = a program of one of the generators for expressions, conversions, control flow, exceptions, scopes, object graphs, calls, dispatch, generics, operators or enums, run on a build "
        "with address and undefined behaviour checks, usually with a failing operation (exit, uncaught or caught exception, division by zero, null object, failed assertion, failing builtin, "
        "failure in a constructor, destructor or operator) inserted at an arbitrary place and execution count; non-trivial if the inserted operation has been reached or the program prints at least 10 lines")

SOURCES = [(2, "C01"), (1, "C02"), (2, "C03"), (4, "C04"), (5, "C05"), (4, "C06"), (8, "C07"), (4, "C08"), (4, "C09"), (2, "C10"), (4, "C11"), (3, "C12"), (4, "C13"), (2, "C14")]

SUPPORT = """
public int zHits;
public bool zHit(int k) { zHits++; return zHits == k; }
public void zThrow(int k) throws { switch ( k ) { case 0: { throw 5; } case 1: { throw "text"; } case 2: { throw new zNil(); } default: { throw 1.5d; } } }
public int zZero() { return 0; }
public object zNil { public void Constructor() { x = 1; } public int f() const { return x; } public int x; public zNil n; }
public object zBad { public void Constructor(int k) throws { x = k; if ( k == 1 ) { throw "ctor"; } int q = 4 / (k - 2); } public int x; }
public object zEnd { public void Constructor(int k) { x = k; } public void Destructor() throws { print("@d"); if ( x == 1 ) { throw "dtor"; } if ( x == 2 ) { exit(41); } int q = 4 / (x - 3); } public int x; }
public object zOp { public void Constructor(int k) { x = k; } public zOp operator+(zOp o const) const throws { if ( x == 1 ) { throw "op"; } int q = 4 / (x - 2); return o; }
	public bool operator==(zOp o const) const throws { if ( x == 1 ) { throw "op"; } exit(42); return true; } public int x; }
public int zDeep(int n) throws { zNil l = new zNil(); if ( n < 1 ) { throw l; } return zDeep(n - 1) + 1; }
public int zDown(int n) { zNil l = new zNil(); if ( n < 1 ) { exit(43); } return zDown(n - 1) + 1; }
"""


def failure(t, depth=0):
    """(statement, exit status or None)"""
    k = t.below(22 if depth < 2 else 18)
    if k < 3:
        n = t.choice([0, 1, 2, 7, 98, 100, 127, 128, 129, 200, 254, 255])
        return "exit(%d);" % n, n
    if k == 3:
        return t.choice(["throw 5;", "throw \"text\";", "throw 1.5d;", "throw true;", "throw new zNil();"]), None
    if k == 4:
        return "zThrow(%d);" % t.below(4), None
    if k == 5:
        return "int zq = 1 %s zZero();" % t.choice(["/", "%"]), None
    if k == 6:
        return "zNil zn; int zi = zn.f();", None
    if k == 7:
        return "zNil zn; zn.x = 2;", None
    if k == 8:
        return "zNil zn = new zNil(); %s" % t.choice(["zn.n.x = 2;", "int zi = zn.n.f();", "zn.n.n.x = 1;", "zn.n = zn; zn.n.n.n.x = 3; throw zn;", "zn.n = new zNil(); zn.n.n = zn; exit(7);"]), None
    if k == 9:
        return "assert( zZero() == 1 );", None
    if k == 10:
        return t.choice(["string zs = substr(\"abc\", 7, 2);", "int zi = cast<int>( \"zz\" );"]), None
    if k in (11, 12):
        return "zBad zb = new zBad(%d);" % t.choice([1, 2]), None
    if k in (13, 14):
        return t.choice(["zEnd ze = new zEnd(%d);", "{ zEnd ze = new zEnd(%d); }", "zEnd ze = new zEnd(%d); delete ze;", "zEnd ze = new zEnd(%d); throw 3;",
                         "for ( int zi = 0; zi < 2; zi++ ) { zEnd ze = new zEnd(%d); }", "zEnd ze = new zEnd(%d); ze = new zEnd(9);"]) % t.choice([1, 2, 3]), None
    if k == 15:
        return t.choice(["zOp zo = new zOp(%d) + new zOp(4);", "zOp za = new zOp(%d); zOp zo = za + za;", "zOp za = new zOp(%d); if ( za == za ) { print(\"=\"); }"]) % t.choice([1, 2]), None
    if k == 16:
        return "int zd = zDeep(%d);" % t.below(40), None
    if k == 17:
        return "int zd = zDown(%d);" % t.below(40), 43
    a, code = failure(t, depth + 1)
    if k == 18:
        return "try { %s } finally { print(\"@f\"); }" % a, code
    if k == 19:
        b, _ = failure(t, depth + 1)
        return "try { %s } finally { %s }" % (a, b), None
    if k == 20:
        return "try { %s } catch { print(\"@c\"); }" % a, code
    b, _ = failure(t, depth + 1)
    return "try { %s } catch { %s }" % (a, b), code


def places(tokens):
    """indices of tokens after which a statement may be inserted"""
    stack, r, paren = [], [], 0
    head = []
    for i, (k, x) in enumerate(tokens):
        if x in "([":
            paren += 1
        elif x in ")]":
            paren -= 1
        if x == "{":
            words = [w for w in head]
            body = bool(stack) and stack[-1] != "decl"
            if not body and ")" in words:
                kind = "body"
            elif not body:
                kind = "decl"
            elif "switch" in words:
                kind = "switch"
            else:
                kind = "body"
            stack.append(kind)
            head = []
            if kind == "body":
                r.append(i)
            continue
        if x == "}":
            if stack:
                stack.pop()
            head = []
            continue
        if x == ";" and paren == 0:
            if stack and stack[-1] == "body" and not (head and head[0] in ("return", "throw", "break", "continue", "exit")) and tokens[i + 1][1] != "else":
                r.append(i)
            head = []
            continue
        head.append(x)
    return r


def gen(t):
    name = t.weighted(SOURCES)
    case = importlib.import_module(name).gen(t)
    src = case.get("src") or case["generic"]
    tokens = lex(src)
    at = places(tokens)
    if not at or t.below(5) == 0:
        return {"source": name, "old": src, "new": None, "code": None}
    main = next((j for j, (_, x) in enumerate(tokens) if x == "Main"), 0)
    if t.bool(3, 4):
        at = [j for j in at if j > main] or at
    i = t.choice(at)
    stmt, code = failure(t)
    if i < main and "Destructor" in src:
        code = None                         # a destructor cannot end the program
    n = t.choice([1, 1, 1, 1, 1, 2, 3, 5])
    ins = "if ( zHit(%d) ) { print(\"@@\"); %s }" % (n, stmt)
    new = SUPPORT + " ".join(x for _, x in tokens[:i + 1]) + "\n" + ins + "\n" + " ".join(x for _, x in tokens[i + 1:]) + "\n"
    return {"source": name, "old": src, "new": new, "code": code, "stmt": stmt}


def sound(got):
    err = got.err.decode("latin1")
    for w in ("AddressSanitizer", "runtime error:", "UndefinedBehaviorSanitizer", "terminate called"):
        if w in err:
            i = err.index(w)
            return "not sound: %s" % err[max(0, i - 100):i + 1200]
    if got.rc < 0:
        return "ended by signal: %s" % got.describe()
    return None


def run(case, env):
    a = env.slang(case["old"])
    if a.timeout:
        return Result(None, False, case["old"], {"timeout": 1})
    labels = {"source=" + case["source"]: 1}
    failure = sound(a)
    if failure or not case["new"]:
        return Result(failure, a.out.count(b"\n") >= 10, case["old"], labels)
    b = env.slang(case["new"])
    if b.timeout:
        return Result(None, False, case["new"], {"timeout": 1})
    failure = sound(b)
    i = b.out.find(b"@@\n")
    started = i >= 0
    if not failure:
        if started:
            labels["reached"] = 1
            if not a.out.startswith(b.out[:i]):
                failure = "output before the failing operation differs from that of the program without it\nwith %s\nwithout %s" % (b.describe(), a.describe())
            elif case["code"] is not None and "finally" not in case["old"] and b.rc != case["code"]:
                failure = "exit status %d instead of %d\n%s" % (b.rc, case["code"], b.describe())
        elif b.out == b"" and b.rc:
            labels["rejected"] = 1
        elif (a.out.split(b"Stack trace:")[0], a.rc) != (b.out.split(b"Stack trace:")[0], b.rc):
            failure = "an operation which is never executed changes the program\nwith %s\nwithout %s" % (b.describe(), a.describe())
    return Result(failure, started or (not failure and a.out.count(b"\n") >= 10), case["new"], labels)


def render(case):
    return case["new"] or case["old"]
