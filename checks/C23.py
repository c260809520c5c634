"""Command line: arguments, options, exit status and the syntax check of the interpreter."""
import importlib
import os

from vlib import Result
from C20 import lex

PROPERTY = "C23"
LEVEL = "exploration"
CASES = {"quick": 18000, "thorough": 60000}
RULE = ("case = a run of the interpreter with generated options, script name and arguments whose script prints what it received, a program that ends with a generated status (result of the main function, "
        "exit, uncaught exception, failing operation), or a valid, invalid or token-mutated program for which syntax check and execution have to agree; non-trivial if there are at least 2 arguments, "
        "options in front of the script, a status other than 0, or if the program is a rejected one")

WORDS = ["", " ", "a", "-q", "-v", "-f", "-l", "-h", "--help", "--file", "--library", "--syntax", "--tokens", "--version", "--debug", "--spec", "--quiet", "--verbose", "--skip-sanitycheck", "--", "-", "x y",
         "\t", "a\nb", "\n", "\"", "'", "\\", "\\n", "\\\"", "$HOME", "*", "a=b", "0", "-1", "true", "null", "äö", "€", "%s", "%n", "//", "/*", "#", ";", "{", "}", "main.os", "x" * 300, "\r", "\x01", "\x7f", "\\t", "-F", "--Syntax"]
NAMES = ["main.os", "script", "a b.os", "-x.os", "x.y.z", "d/main.os", "./main.os", "d/../main.os", "ä.os", "--", "main.os.bak", "'q'.os", "Main"]
ALPHABET = "ab -=\"'\\\n\t$#/*{};%ä~0"

SHOW = """public int Main(int argc, string args) {
	print(argc); print(strlen(args)); print("[" + args + "]");
	return %d;
}
"""

PROGRAMS = ["C01", "C02", "C04", "C05", "C07", "C09", "C10", "C11", "C12", "C13", "C14"]
PAIRS = ["C16", "C17", "C18", "C19"]


def word(t):
    if t.bool(3, 4):
        return t.choice(WORDS)
    return "".join(t.choice(ALPHABET) for _ in range(t.below(12)))


def options(t):
    r = []
    for _ in range(t.choice([0, 0, 1, 1, 2, 3])):
        r += t.choice([["--skip-sanitycheck"], ["-l", t.choice(["lib", "/nonexistent", ".", ""])], ["--library", "lib"], ["-q"], ["--quiet"], ["-v"], ["--verbose"]])
    return r


def arguments(t):
    opts, name = options(t), t.choice(NAMES)
    args = [word(t) for _ in range(t.many(0, 8))]
    status = t.choice([0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 65536, -1, -128, -256, -257, 2147483647, -2147483647, t.below(100000) - 50000])
    muted = False
    for o in opts:
        if o in ("-q", "--quiet"):
            muted = True
        elif o in ("-v", "--verbose"):
            muted = None
    return {"mode": "arguments", "options": opts, "name": name, "flag": t.choice([[], [], ["-f"], ["--file"]]), "args": args, "status": status, "muted": muted}


ENDS = [("return %d;", "int"), ("exit(%d); return 3;", "int"), ("if ( argc > 0 ) { exit(%d); } return 3;", "int"), ("throw %d;", "fail"), ("throw \"t%d\";", "fail"), ("int z = argc - argc; return %d / z;", "fail"),
        ("assert(argc == %d - argc); return 0;", None), ("return f(%d);", "int"), ("f(%d); return g(4);", "four"), ("try { return %d; } finally { print(\"f\"); } return 1;", "int"), ("while ( true ) { return %d; } return 1;", "int"),
        ("O o; return o.x + %d;", "fail"), ("O o = new O(); o.x = %d; return o.x;", "int"), ("g(%d); return 1;", "int"), ("O o = new O(); return o.go(%d);", "int"), ("for ( int i = 0; i < 3; i++ ) { if ( i == 1 ) { exit(%d); } } return 1;", "int")]


def status(t):
    body, kind = t.choice([e for e in ENDS if e[1]])
    v = t.choice([0, 1, 2, 127, 128, 254, 255, 256, 300, 65535, 65536, 2147483647, t.below(1000000)])
    if body.startswith("g("):
        g = "exit(v);"
    else:
        g = "print(\"g\");"
    src = ("public object O { public int x; public int go(int v) const { exit(v); return 1; } }\n"
           "public int f(int v) { return v; }\npublic int g(int v) { %s return v; }\n"
           "public int Main(int argc, string args) throws {\n\tprint(\"<start>\");\n\t%s\n}\n" % (g, body % v))
    want = {"int": v & 255, "four": 4, "fail": None}[kind]
    return {"mode": "status", "src": src, "want": want}


def no_main(t):
    src = t.choice(["public int Main() { print(\"<start>\"); return 0; }", "public int Main(string a, int b) { print(\"<start>\"); return 0; }", "public object Main { }", "", "public int f() { return 1; }",
                    "public int main(int argc, string args) { print(\"<start>\"); return 0; }", "public namespace N { public int Main(int argc, string args) { print(\"<start>\"); return 0; } }",
                    "public object O { public int Main(int argc, string args) { print(\"<start>\"); return 0; } }", None, "DIR"])
    return {"mode": "missing", "src": src}


def mutate(t, tokens):
    tokens = list(tokens)
    for _ in range(t.choice([1, 1, 1, 2, 3])):
        i = t.below(len(tokens))
        k = t.below(6)
        if k == 0:
            del tokens[i]
        elif k == 1:
            tokens.insert(i, tokens[i])
        elif k == 2:
            j = t.below(len(tokens))
            tokens[i], tokens[j] = tokens[j], tokens[i]
        elif k == 3:
            tokens[i] = tokens[t.below(len(tokens))]
        elif k == 4:
            tokens.insert(i, t.choice(tokens))
        else:
            same = [x for x in tokens if x[0] == tokens[i][0]]
            tokens[i] = t.choice(same)
        if not tokens:
            tokens = [("op", ";")]
    return tokens


PROBE = "if ( argc > 0 ) { print(\"<start>\"); exit(77); }"


def probe(src):
    """makes the program end as soon as its main function has been started"""
    i = src.find("Main(")
    j = src.find("{", i)
    return src[:j + 1] + " " + PROBE + src[j + 1:]


def syntax(t):
    kind = t.choice(["plain", "mutated", "mutated", "mutated", "pair", "pair"])
    if kind == "pair":
        name = t.choice(PAIRS)
        case = importlib.import_module(name).gen(t)
        if case.get("bad") is None or not isinstance(case.get("bad"), str):
            src = case.get("src") or case.get("good")
            if not isinstance(src, str):
                return syntax(t)
        else:
            src = case["bad"] if t.bool() else case["good"]
        if not isinstance(src, str) or "Main(int argc" not in src:
            return syntax(t)
        return {"mode": "syntax", "src": probe(src), "source": name, "kind": kind}
    name = t.choice(PROGRAMS)
    case = importlib.import_module(name).gen(t)
    src = case.get("src") or case["generic"]
    if "Main(int argc" not in src:
        return syntax(t)
    src = probe(src)
    if kind == "mutated":
        a, b = src.split(PROBE)
        i = a.rindex("public int Main")
        head = lex(a[:i])
        tail = lex(b)
        if head and t.bool():
            head = mutate(t, head)
        else:
            tail = mutate(t, tail)
        src = " ".join(x for _, x in head) + "\n" + a[i:] + PROBE + "\n" + " ".join(x for _, x in tail) + "\n"
    return {"mode": "syntax", "src": src, "source": name, "kind": kind}


def gen(t):
    mode = t.weighted([(3, arguments), (2, status), (1, no_main), (6, syntax)])
    return mode(t)


def run(case, env):
    mode = case["mode"]
    labels = {mode: 1}
    if mode == "arguments":
        text = SHOW % case["status"]
        d = env.dir()
        os.makedirs(os.path.join(d, "lib"), exist_ok=True)
        os.makedirs(os.path.join(d, "d"), exist_ok=True)
        path = os.path.normpath(os.path.join(d, case["name"]))
        with open(path, "w") as f:
            f.write(text)
        argv = [env.binary()] + case["options"] + case["flag"] + [case["name"]] + case["args"]
        got = env.exec(argv, cwd=d)
        os.remove(path)
        if got.timeout:
            return Result("does not end: %s" % got.describe(), True, repr(argv))
        joined = "\n".join([case["name"]] + case["args"])
        want = "%d\n%d\n[%s]\n" % (1 + len(case["args"]), len(joined.encode()), joined)
        failure = None
        if got.rc != case["status"] & 255:
            failure = "exit status %d instead of %d: %r\n%s" % (got.rc, case["status"] & 255, argv[1:], got.describe())
        elif case["muted"] is None:
            # every printed text is followed by the place it has been printed at
            out = got.out.decode("utf8", "replace")
            if "[" + joined + "]" not in out or not out.startswith(str(1 + len(case["args"]))):
                failure = "arguments differ: %r\n%s" % (argv[1:], got.describe())
        elif case["muted"]:
            if got.out:
                failure = "output in quiet mode: %r\n%s" % (argv[1:], got.describe())
        elif got.out != want.encode():
            failure = "arguments differ: %r\n%s" % (argv[1:], got.describe())
        return Result(failure, len(case["args"]) >= 2 or bool(case["options"]), repr(argv[1:]), labels)
    if mode == "status":
        got = env.slang(case["src"])
        if got.timeout:
            return Result("does not end: %s" % got.describe(), True, case["src"])
        failure = None
        if not got.out.startswith(b"<start>\n"):
            failure = "program has not been started: %s" % got.describe()
        elif case["want"] is None and (got.rc == 0 or got.rc < 0):
            failure = "exit status %d of a failed program: %s" % (got.rc, got.describe())
        elif case["want"] is not None and got.rc != case["want"]:
            failure = "exit status %d instead of %d: %s" % (got.rc, case["want"], got.describe())
        return Result(failure, case["want"] != 0, case["src"], labels)
    if mode == "missing":
        if case["src"] is None or case["src"] == "DIR":
            got = env.exec([env.binary(), "nosuchfile.os" if case["src"] is None else "."], cwd=env.dir())
        else:
            got = env.slang(case["src"])
        failure = None
        if got.timeout:
            return Result("does not end: %s" % got.describe(), True, str(case["src"]))
        if got.rc == 0 or got.rc < 0 or b"<start>" in got.out:
            failure = "program without a main function: %s" % got.describe()
        return Result(failure, True, str(case["src"]), labels)
    a = env.slang(case["src"], options=("--syntax",))
    b = env.slang(case["src"])
    if a.timeout or b.timeout:
        return Result(None, False, case["src"], {"timeout": 1})
    failure = None
    started = b"<start>" in b.out
    if b"<start>" in a.out:
        failure = "the syntax check runs the program: %s" % a.describe()
    elif (a.rc == 0) != started:
        failure = "syntax check and execution disagree\nsyntax check %s\nexecution %s" % (a.describe(), b.describe())
    elif started and b.rc != 77:
        failure = "exit status %d instead of 77: %s" % (b.rc, b.describe())
    elif not started and b.rc == 0:
        failure = "rejected program ends with status 0: %s" % b.describe()
    labels = {"syntax %s %s" % (case["kind"], "accepted" if started else "rejected"): 1}
    return Result(failure, not started, case["src"], labels)


def render(case):
    if case["mode"] == "arguments":
        return "slang %r\n%s" % (case["options"] + case["flag"] + [case["name"]] + case["args"], SHOW % case["status"])
    return case["src"] or "(no file)"
