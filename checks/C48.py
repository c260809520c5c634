"""Syntax: programs of the other generators with one place that no reading of the grammar allows have to be refused before anything runs."""
import importlib

from C20 import TOKEN
from vlib import Result

PROPERTY = "C48"
LEVEL = "exploration"
CASES = {"quick": 18000, "thorough": 80000}
RULE = ("case = a program of one of the generators for expressions, conversions, control flow, exceptions, scopes, objects, calls, overloads, dispatch, generics, operators or enums with one "
        "syntactic break (a missing end of a statement, an unbalanced bracket, a missing operand or comma, two operands or operators in a row, a stray token, a truncated text), "
        "parsed or run; one of four programs (of generators that only make valid ones) is also given without the break and has to be accepted; non-trivial if the break is inside of a body; distinct counts broken program texts")

SOURCES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"]

BINARY = ["+", "*", "/", "%", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "="]
OPENING = ["(", "[", "{"]
CLOSING = [")", "]", "}"]


def lex(src):
    """[(kind, text, start, end)] without white space and comments"""
    return [(m.lastgroup, m.group(), m.start(), m.end()) for m in TOKEN.finditer(src) if m.lastgroup != "space"]


def operand(tok):
    return tok[0] in ("string", "number")


def shape(toks):
    """for every token: bracket depth behind it, the innermost open bracket, whether it is inside of a generic class (whose code is only read when it is used) and the first token of its statement"""
    depth, generic, r, first, opened = 0, None, [], 0, []
    for i, (k, x, _, _) in enumerate(toks):
        if x in OPENING:
            depth += 1
            opened.append(x)
            if x == "{" and generic is None:
                j = i - 1
                while j >= 0 and toks[j][1] not in ("{", "}", ";"):
                    j -= 1
                head = [y[1] for y in toks[j + 1:i]]
                if ("object" in head or "interface" in head) and "<" in head and "extends" not in head[:head.index("<")] and "implements" not in head[:head.index("<")]:
                    generic = depth
        r.append([depth, opened[-1] if opened else None, generic is not None, toks[first][1]])
        if x in CLOSING:
            depth -= 1
            opened.pop()
            r[-1][0] = depth
            if x == "}" and generic is not None and depth < generic:
                generic = None
        if x in ("{", "}", ";"):
            first = i + 1
    return r


def places(toks, form, kind):
    """positions of tokens that can be broken this way"""
    n = len(toks)
    r = []
    for i in range(1, n - 1):
        k, x = toks[i][:2]
        pk, px = toks[i - 1][:2]
        nk, nx = toks[i + 1][:2]
        depth, inner, generic, first = form[i]
        if kind == "unopened":
            ok = x in OPENING
        elif kind == "unclosed":
            ok = x in CLOSING
        elif kind == "other bracket":
            ok = x in OPENING or x in CLOSING
        elif kind == "extra bracket":
            ok = x in (";", ",") or x in BINARY
        elif kind == "truncated":
            ok = depth > 0
        elif generic:
            ok = False
        elif kind == "no end of statement":
            # declarations and assignments may go without it
            ok = x == ";" and first in KEYWORDS and (nx == "}" or nk == "word")
        elif kind == "no operand":
            ok = operand(toks[i]) and px in BINARY and nx in (";", ")", ",")
        elif kind == "no comma":
            ok = x == "," and inner == "(" and (operand(toks[i - 1]) or px == ")") and (operand(toks[i + 1]) or nk == "word")
        elif kind == "two operands":
            ok = operand(toks[i])
        elif kind == "two operators":
            ok = x in BINARY and operand(toks[i + 1])
        elif kind == "stray token":
            ok = x == ";" and px != ";"
        if ok:
            r.append(i)
    return r


KEYWORDS = ["return", "break", "continue", "throw", "exit", "assert", "print", "delete", "import", "using"]
KINDS = ["no end of statement", "unopened", "unclosed", "other bracket", "extra bracket", "no operand", "no comma", "two operands", "two operators", "stray token", "truncated"]


def gen(t):
    name = t.choice(SOURCES)
    case = importlib.import_module(name).gen(t)
    src = case.get("src") or case["generic"]
    toks = lex(src)
    form = shape(toks)
    kind = t.choice(KINDS)
    cand = places(toks, form, kind)
    if not cand:
        kind = "unclosed"
        cand = places(toks, form, kind)
    i = t.choice(cand)
    k, x, a, b = toks[i]
    detail = x
    if kind in ("no end of statement", "unopened", "unclosed", "no operand", "no comma"):
        bad = src[:a] + " " + src[b:]
    elif kind == "other bracket":
        detail = t.choice([y for y in OPENING + CLOSING if y != x])
        bad = src[:a] + detail + src[b:]
    elif kind == "extra bracket":
        detail = t.choice(OPENING + CLOSING)
        bad = src[:a] + " " + detail + " " + src[a:]
    elif kind == "two operands":
        detail = t.choice(["1", "0", "\"t\"", "2.5d", "true", "x"])
        bad = src[:b] + " " + detail + " " + src[b:] if t.bool() or detail == "x" else src[:a] + " " + detail + " " + src[a:]
    elif kind == "two operators":
        detail = t.choice(["*", "/", "%", "==", "<=", "&&", "||", "+=", ",", ")", "]", ";"])
        bad = src[:b] + " " + detail + " " + src[b:]
    elif kind == "stray token":
        detail = t.choice(["*", "/", "%", "==", "&&", "||", ",", "=", "else", "case", "catch", ":", "$", "`", "~", "^", "\\", ".", "extends", "public", "+"])
        bad = src[:a] + " " + detail + " " + src[a:]
    else:
        bad = src[:b]
    return {"source": name, "kind": kind, "token": detail, "bad": bad, "at": bad[:a].count("\n") + 1, "run": t.bool(), "inside": form[i][0] > 0,
            "before": src if t.bool(1, 4) and name not in ("C10", "C14") and case.get("allowed", True) else None}


def run(case, env):
    got = env.slang(case["bad"], options=() if case["run"] else ("--syntax",))
    labels = {"%s=%s" % (x, case[x]): 1 for x in ("source", "kind", "run")}
    labels["token=%s %s" % (case["kind"], case["token"][:5])] = 1
    failure = None
    if got.timeout or got.rc <= 0 or got.out:
        failure = "a program with a broken place (%s, %s, line %d) was not refused: %s" % (case["kind"], case["token"], case["at"], got.describe())
    elif case["before"]:
        labels["unbroken program"] = 1
        whole = env.slang(case["before"], options=("--syntax",))
        if whole.timeout or whole.rc != 0:
            failure = "the program without the broken place was refused: %s" % whole.describe()
    return Result(failure, case["inside"], case["bad"], labels)


def render(case):
    return "// %s (%s) in line %d\n%s" % (case["kind"], case["token"], case["at"], case["bad"])
