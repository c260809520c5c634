"""Any source text: mutated, truncated, spliced and random texts on a build that checks every memory access."""
import importlib
import os
import signal

import vlib
from vlib import Result
from C20 import lex

PROPERTY = "C21"
LEVEL = "exploration"
VARIANT = "asan"
CASES = {"quick": 5000, "thorough": 20000}
RULE = ("case = a source text made from a generated program, a library or test script by deleting, doubling, exchanging, inserting or cutting tokens, bytes or lines, or a random sequence of tokens or bytes; "
        "accepted texts derived from generated programs are executed as well; the built-in balance check is skipped in a third of all cases; non-trivial if the text has been rejected or executed; distinct counts texts")

PROGRAMS = ["C01", "C02", "C04", "C05", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C19"]
EXTRA = [";", "{", "}", "(", ")", "<", ">", "[", "]", ",", ".", ":", "::", "?", "=", "==", "!", "+", "-", "*", "/", "%", "&", "|", "^", "~", "@", "$", "\\", "'", "\"", "\"x", "#", "0", "1", "1.", "1.5", "1.5f", "99999999999999999999",
         "0x", "1e5", "x", "_", "int", "string", "public", "private", "protected", "static", "object", "interface", "abstract", "enum", "namespace", "import", "using", "extends", "implements", "replicates", "operator", "const", "modify",
         "throws", "virtual", "override", "final", "if", "else", "for", "foreach", "while", "switch", "case", "default", "break", "continue", "return", "throw", "try", "catch", "finally", "new", "copy", "delete", "this", "base", "null",
         "true", "false", "is", "cast", "typeid", "var", "void", "assert", "print", "exit", "prototype", "/*", "*/", "//", "..", "...", "++", "--", "<<", ">>", "Main", "Constructor", "bool", "float", "double", "Object", "\0", "\xff", "\xe2\x82",
         "abstract public", "= 1", "()", "{}", "[]", "< >", "x.y", "x.", ".x", "stable", "unstable", "atomic", "library", "deprecated", "use", "private:", "\n", "\t"]


def corpus():
    r = []
    root = os.path.join(vlib.SRC, "Projects")
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".os"):
                p = os.path.join(d, f)
                if os.path.getsize(p) < 12000:
                    r.append(p)
    return r


_corpus = None


def base(t):
    """(text, whether it may be executed)"""
    global _corpus
    if t.bool(2, 3):
        case = importlib.import_module(t.choice(PROGRAMS)).gen(t)
        src = case.get("src") or case.get("generic") or case.get("good")
        if isinstance(src, str):
            return src, True
    if _corpus is None:
        _corpus = corpus()
    with open(t.choice(_corpus), "rb") as f:
        return f.read().decode("latin1"), False


def tokens(t, src):
    tok = [x for _, x in lex(src)] or [";"]
    n = t.choice([1, 1, 1, 2, 2, 3, 5, 9])
    for _ in range(n):
        i = t.below(len(tok))
        k = t.below(10)
        if k == 0:
            del tok[i]
        elif k == 1:
            tok.insert(i, tok[i])
        elif k == 2:
            j = t.below(len(tok))
            tok[i], tok[j] = tok[j], tok[i]
        elif k == 3:
            tok[i] = t.choice(EXTRA)
        elif k in (4, 5):
            tok.insert(i, t.choice(EXTRA))
        elif k == 6:
            j = i + t.below(12)
            del tok[i:j]
        elif k == 7:
            j = t.below(len(tok))
            tok[j:j] = tok[i:i + t.below(12)]
        elif k == 8:
            tok[i] = tok[t.below(len(tok))]
        else:
            del tok[i:]
        if not tok:
            tok = [";"]
    return " ".join(tok)


def chars(t, src):
    s = src
    for _ in range(t.choice([1, 1, 2, 4])):
        i = t.below(len(s) + 1)
        k = t.below(5)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i]
        elif k == 2:
            s = s[i:]
        elif k == 3:
            s = s[:i] + t.choice(EXTRA) + s[i:]
        else:
            s = s[:i] + chr(t.below(256)) + s[i + 1:]
    return s


def gen(t):
    k = t.below(10)
    safe = True
    if k < 8:
        src, safe = base(t)
        src, kind = (tokens(t, src), "tokens") if k < 6 else (chars(t, src), "bytes")
    elif k == 8:
        (a, x), (b, y) = base(t), base(t)
        src, kind, safe = a[:t.below(len(a) + 1)] + b[t.below(len(b) + 1):], "spliced", x and y
    else:
        src, kind = "", "random"
        if t.bool():
            src = "public int Main(int argc, string args) {\n" if t.bool() else "public object O {\n"
        src += " ".join(t.choice(EXTRA) for _ in range(t.many(1, 40, 12)))
    return {"src": src, "kind": kind, "safe": safe and "import" not in src, "skip": t.bool(1, 3)}


def judge(got, running):
    err = got.err.decode("latin1")
    for w in ("AddressSanitizer", "runtime error:", "UndefinedBehaviorSanitizer", "terminate called"):
        if w in err:
            i = err.index(w)
            if running and ("stack-overflow" in err[i:i + 200] or "rss limit" in err):
                return None, "endless recursion"
            return "not sound: %s" % err[max(0, i - 100):i + 1800], None
    if got.timeout:
        if not running and got.rc == -signal.SIGXCPU:
            return "checking the text does not end: %s" % got.describe(), None
        return None, "timeout"
    if got.rc < 0:
        return "ended by signal: %s" % got.describe(), None
    return None, None


def run(case, env):
    data = case["src"].encode("latin1", "replace")
    options = ["--skip-sanitycheck"] if case["skip"] else []
    got = env.slang(data, options=options + ["--syntax"])
    labels = {case["kind"]: 1, "accepted" if got.rc == 0 else "rejected": 1}
    failure, note = judge(got, False)
    if note:
        labels[note] = 1
    if not failure and not note and got.rc == 0 and case["safe"]:
        # texts made of generated programs do not touch anything outside of the interpreter
        labels["executed"] = 1
        got = env.slang(data, options=options, cpu=2)
        failure, note = judge(got, True)
        if note:
            labels["executed: " + note] = 1
    return Result(failure, got.rc != 0 or "executed" in labels, case["src"], labels)


def render(case):
    return case["src"]
