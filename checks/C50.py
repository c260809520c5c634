"""Larger programs: the bundled BASIC interpreter runs generated BASIC programs like a model of BASIC."""
import os

import nat
import vlib
from vlib import Result, Stop, compare_output

PROPERTY = "C50"
LEVEL = "exploration"
CASES = {"quick": 800, "thorough": 9000}
RULE = ("case = BASIC program of 4 to about 50 numbered lines (DIM, LET, PRINT, REM, INPUT, IF with every comparison, GOTO, conditions joined by AND and OR, GOSUB and RETURN, nested FOR with and without STEP, loops built from GOTO, several "
        "statements in a line, END) with generated expressions over numbers and texts, spelled in any case and spacing, with empty lines and with or without a final linebreak, and the lines typed by its user; "
        "non-trivial if the run jumps (a taken GOTO, GOSUB or NEXT) and prints at least twice; distinct counts BASIC programs with their input")

WORDS = ["a", "Total", "x y", "", "1", "it is", "END", "<>", "z;", "(b)", "100%", "a:b"]
REMS = ["nothing", "print 1", "a b c", "loop 10", "x = 1"]


# ---- expressions: ("n", int) ("v", name) ("s", text) ("b", op, l, r) ("c", op, l, r) ("l", op, l, r) ("p", e) ("u", sign, e) ----

def is_string(e):
    k = e[0]
    if k == "s":
        return True
    if k in "bcl":
        return is_string(e[2]) or is_string(e[3])
    return is_string(e[1]) if k == "p" else False


def number(s):
    return nat.convert(s, "string", "float")


def value(e, env):
    k = e[0]
    if k == "n":
        return nat.text(float(e[1]), "float")
    if k == "u":
        v = value(e[2], env)
        return nat.text(nat.arith("-", 0.0, number(v), "float"), "float") if e[1] == "-" else v
    if k == "s":
        return e[1]
    if k == "v":
        return env[e[1]]
    if k == "p":
        return value(e[1], env)
    l, r = value(e[2], env), value(e[3], env)
    s = is_string(e)
    if k == "l":
        both = truth(l), truth(r)
        return nat.text(all(both) if e[1] == "AND" else any(both), "bool")
    if k == "b":
        if s:
            return l + r
        v = nat.arith(e[1], number(l), number(r), "float")
        if abs(v) > 1e6:
            raise Stop()
        return nat.text(v, "float")
    if e[1] in ("=", "<>"):
        return nat.text((l == r) == (e[1] == "="), "bool")
    if s:
        return nat.text(nat.compare(e[1], l, r, "string"), "bool")
    return nat.text(nat.compare(e[1], number(l), number(r), "float"), "bool")


def truth(s):
    return s not in ("", "0")


class Gen:
    def __init__(self, t):
        self.t = t
        self.lines = []         # [(label or None, [statements])]
        self.labels = 0
        self.input = []
        self.names = t.sample(["A", "B", "C", "TOTAL", "X1", "Y_2", "N", "Q", "SEQ"], t.int(2, 4))
        self.counters = 0
        self.subs = t.int(0, 2)
        self.loopvars = ["I", "J", "K"]

    def label(self):
        self.labels += 1
        return "L%d" % self.labels

    def add(self, *stmts, label=None):
        self.lines.append((label, list(stmts)))

    # expressions
    def atom(self):
        t = self.t
        return ("v", t.choice(self.names)) if t.bool(3, 5) else ("n", t.int(0, 20))

    def factor(self, depth):
        t = self.t
        e = self.term(depth)
        while t.bool(1, 5):
            op = t.choice("**/")
            e = ("b", op, e, ("n", t.int(1, 9)) if op == "/" else self.term(depth - 1))
        return e

    def term(self, depth):
        if self.t.bool(1, 8):
            return ("u", self.t.choice("---+"), self.term(depth))
        if depth > 0 and self.t.bool(1, 5):
            return ("p", self.num(depth - 1))
        return self.atom()

    def num(self, depth=2):
        t = self.t
        e = self.factor(depth)
        while t.bool(2, 5):
            e = ("b", t.choice("+-"), e, self.factor(depth - 1))
        return e

    def cond(self):
        t = self.t
        e = self.compare()
        while t.bool(1, 4):
            op = t.choice(["AND", "OR"])
            e = ("l", op, ("p", e) if e[0] == "l" and (e[1] != op or t.bool(1, 3)) else e, self.compare())
        return e

    def compare(self):
        t = self.t
        if t.bool(1, 8):
            return ("c", t.choice(["=", "<>", "<", "<=", ">", ">="]), ("s", t.choice(WORDS)), ("s", t.choice(WORDS)))
        if t.bool(1, 8):
            return self.num(1)
        return ("c", t.choice(["=", "<>", "<", "<=", ">", ">="]), self.num(1), self.num(1))

    def out(self):
        t = self.t
        k = t.below(6)
        if k == 0:
            return self.num()
        if k == 1:
            return ("s", t.choice(WORDS))
        if k == 2:
            return ("c", t.choice(["=", "<>", "<", "<=", ">", ">="]), self.num(1), self.num(1))
        e = ("b", "+", ("s", t.choice(WORDS)), self.factor(1))
        if t.bool(1, 4):
            e = ("b", "+", self.factor(1), ("s", t.choice(WORDS)))
        while t.bool(1, 2):
            e = ("b", "+", e, ("s", t.choice(WORDS)) if t.bool() else self.factor(1))
        return e

    # statements
    def simple(self):
        t = self.t
        if t.bool(1, 2):
            return ("print", self.out())
        return ("let", t.choice(self.names), self.num())

    def block(self, depth):
        for _ in range(self.t.int(1, 3)):
            self.stmt(depth)

    def stmt(self, depth):
        t = self.t
        k = t.weighted([(5, "simple"), (2, "multi"), (1, "rem"), (3, "if"), (3 if depth else 0, "else"), (3 if depth and self.loopvars else 0, "for"),
                        (2 if depth else 0, "loop"), (2 if self.subs else 0, "gosub"), (1, "input"), (1, "goto")])
        if k == "simple":
            self.add(self.simple())
        elif k == "multi":
            self.add(*[self.simple() for _ in range(t.int(2, 3))])
        elif k == "rem":
            self.add(("rem", t.choice(REMS)))
        elif k == "if":
            self.add(("if", self.cond(), self.simple()))
        elif k == "else":
            a, b = self.label(), self.label()
            self.add(("if", self.cond(), ("goto", a)))
            self.block(depth - 1)
            self.add(("goto", b))
            self.add(("rem", "then"), label=a)
            self.block(depth - 1)
            self.add(("print", ("s", "fi")) if t.bool() else ("rem", "fi"), label=b)
        elif k == "for":
            v = self.loopvars.pop()
            a = t.int(0, 5)
            self.add(("for", v, ("n", a) if t.bool(3, 4) else self.atom(), ("n", a + t.int(0, 4)), ("n", t.int(1, 3)) if t.bool(2, 3) else None))
            self.names.append(v)
            self.block(depth - 1)
            self.names.remove(v)
            self.add(("next", v))
            self.loopvars.append(v)
        elif k == "loop":
            v = "W%d" % self.counters
            self.counters += 1
            l = self.label()
            self.add(("let", v, ("n", 0)))
            self.add(("let", v, ("b", "+", ("v", v), ("n", 1))), label=l)
            self.block(depth - 1)
            self.add(("if", ("c", "<", ("v", v), ("n", t.int(1, 4))), ("goto", l)))
        elif k == "gosub":
            self.add(("gosub", "S%d" % t.below(self.subs)))
        elif k == "input":
            self.input.append(str(t.int(0, 30)))
            self.add(("input", t.choice([None, "? ", "value"]), t.choice(self.names)))
        else:
            l = self.label()
            self.add(("goto", l))
            self.add(self.simple())
            self.add(self.simple(), label=l)

    def program(self):
        t = self.t
        names = list(self.names)
        self.block(2)
        while t.bool(2, 3) and len(self.lines) < 40:
            self.stmt(2)
        self.add(("end",))
        for i in range(self.subs):
            at = len(self.lines)
            subs, self.subs = self.subs, i      # subroutines call only those declared before
            self.block(1)
            self.subs = subs
            self.lines.insert(at, ("S%d" % i, [("rem", "sub")]))
            self.add(("return",))
        head = []
        for n in names + ["W%d" % i for i in range(self.counters)]:
            dim = ("dim", n, ("n", t.int(0, 9)) if t.bool(1, 2) else ("u", "-", ("n", t.int(1, 9))) if t.bool(1, 5) else None)
            if head and t.bool(1, 5):
                head[-1][1].append(dim)
            else:
                head.append((None, [dim]))
        lines = head + self.lines
        num = 10
        out = []
        for label, stmts in lines:
            out.append((num, label, stmts))
            num += t.choice([10, 10, 10, 1, 5, 100])
        where = {label: n for n, label, _ in out if label}
        return [(n, [resolve(s, where) for s in stmts]) for n, _, stmts in out]


def resolve(s, where):
    if s[0] in ("goto", "gosub"):
        return (s[0], where[s[1]])
    if s[0] == "if":
        return ("if", s[1], resolve(s[2], where))
    return s


def run_model(lines, typed):
    order = {n: i for i, (n, _) in enumerate(lines)}
    env = {}
    loops = {}
    back = []
    out = []
    typed = list(typed)
    ev = {"jumps": 0, "prints": 0}
    labels = {}

    def execute(s, i):
        """Index of the line to go to, or None."""
        k = s[0]
        if k == "dim":
            env[s[1]] = "0" if s[2] is None else value(s[2], env)
        elif k == "let":
            env[s[1]] = value(s[2], env)
        elif k == "print":
            out.append(value(s[1], env) + "\n")
            ev["prints"] += 1
        elif k == "input":
            out.append(s[1] or "")
            if not typed:
                raise Stop()
            env[s[2]] = typed.pop(0)
        elif k == "if":
            if truth(value(s[1], env)):
                labels["condition holds"] = 1
                return execute(s[2], i)
            labels["condition does not hold"] = 1
        elif k == "goto":
            labels["goto back" if order[s[1]] <= i else "goto ahead"] = 1
            return order[s[1]]
        elif k == "gosub":
            labels["gosub"] = 1
            back.append(i + 1)
            return order[s[1]]
        elif k == "return":
            return back.pop()
        elif k == "for":
            if s[1] not in loops:
                loops[s[1]] = i
                env[s[1]] = value(s[2], env)
            else:
                env[s[1]] = value(("b", "+", ("v", s[1]), s[4] or ("n", 1)), env)
            if not truth(value(("c", "<", ("v", s[1]), s[3]), env)):
                del loops[s[1]]
        elif k == "next":
            if s[1] in loops:
                labels["another round"] = 1
                return loops[s[1]]
        elif k == "end":
            out.append("END\n")
            return len(lines)
        return None

    i = 0
    fuel = 160
    while i < len(lines):
        fuel -= 1
        if fuel < 0:
            raise Stop()
        target = None
        for s in lines[i][1]:
            target = execute(s, i)
        if target is not None:
            ev["jumps"] += 1
        i = i + 1 if target is None else target
    return "".join(out), ev, labels, len(typed)


# ---- text ----

def spell(t, word):
    return word if t.bool(2, 3) else word.lower() if t.bool() else word.capitalize()


def emit(t, e):
    k = e[0]
    if k == "n":
        return str(e[1])
    if k == "u":
        return e[1] + t.choice(["", "", " "]) + emit(t, e[2])
    if k == "s":
        return '"%s"' % e[1]
    if k == "v":
        return spell(t, e[1])
    if k == "p":
        return "(%s)" % emit(t, e[1])
    if k == "l":
        return emit(t, e[2]) + " " + spell(t, e[1]) + " " + emit(t, e[3])
    sp = t.choice([" ", " ", ""])
    return emit(t, e[2]) + sp + e[1] + sp + emit(t, e[3])


def line(t, s):
    k = s[0]
    kw = lambda w: spell(t, w)
    if k == "dim":
        return kw("DIM") + " " + s[1] + ("" if s[2] is None else " = " + emit(t, s[2]))
    if k == "let":
        return kw("LET") + " " + kw(s[1]) + t.choice([" = ", "="]) + emit(t, s[2])
    if k == "print":
        return kw("PRINT") + " " + emit(t, s[1])
    if k == "rem":
        return kw("REM") + " " + s[1]
    if k == "input":
        return kw("INPUT") + (' "%s"' % s[1] if s[1] else "") + " " + s[2]
    if k == "if":
        return kw("IF") + " " + emit(t, s[1]) + " " + kw("THEN") + " " + line(t, s[2])
    if k == "for":
        step = " %s %s" % (kw("STEP"), emit(t, s[4])) if s[4] else ""
        return "%s %s = %s %s %s%s" % (kw("FOR"), s[1], emit(t, s[2]), kw("TO"), emit(t, s[3]), step)
    if k == "next":
        return kw("NEXT") + " " + s[1]
    if k in ("goto", "gosub"):
        return kw(k.upper()) + " %d" % s[1]
    return kw(k.upper())


def gen(t):
    g = Gen(t)
    lines = g.program()
    typed = [str(t.int(0, 30)) for _ in range(t.int(0, 12))] if g.input else []
    out, ev, labels, left = run_model(lines, typed)
    text = "".join("%s%d %s\n" % ("\n" if t.bool(1, 12) else "", n, t.choice([" : ", ":"]).join(line(t, s) for s in stmts)) for n, stmts in lines)
    if t.bool(1, 8):
        text += "%d REM %s\n" % (lines[-1][0] + 10, t.choice(REMS))
    if t.bool(1, 5):
        text = text[:-1]
    return {"basic": text, "typed": typed, "out": out, "ev": ev, "labels": labels}


def run(case, env):
    path = os.path.join(env.dir(), "program.bas")
    with open(path, "w") as f:
        f.write(case["basic"])
    try:
        main = os.path.join(vlib.SRC, "Projects/Library/Basic-Token/Basic.os")
        got = env.exec([env.binary(), main, path], stdin="".join(x + "\n" for x in case["typed"]).encode())
    finally:
        os.unlink(path)
    ev = case["ev"]
    return Result(compare_output(case["out"], 0, got), ev["jumps"] > 0 and ev["prints"] > 1, case["basic"] + "|" + " ".join(case["typed"]),
                  labels={"runs with " + k: 1 for k in case["labels"]})


def render(case):
    return case["basic"] + ("typed: " + " ".join(case["typed"]) if case["typed"] else "")
