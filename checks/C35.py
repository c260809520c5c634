"""Debugger: programs run under generated command sequences behave as without a debugger and stop where they have to."""
import importlib
import os
import re

from vlib import Result
from C20 import lex

PROPERTY = "C35"
LEVEL = "exploration"
CASES = {"quick": 7500, "thorough": 25000}
CHUNK = 10
TARGETS = ("slang", "slang-dbg")
RULE = ("case = a generated program (one statement per line), a set of plain and conditional breakpoints and a sequence of debugger commands (step, continue, step into, step out, adding and deleting "
        "breakpoints, inspecting commands); the program runs without the debugger, single-stepped and under the generated commands; its output has to be the same in all runs, every stop has to be "
        "in front of the statement of its line, and the stops of the generated commands have to be those the single-stepped run predicts; non-trivial if the program stops at least twice at breakpoints "
        "or is stepped at least 3 times")

PROGRAMS = ["C02", "C04", "C04", "C05", "C05", "C07", "C08", "C09", "C10", "C11", "C13", "C14"]
PROMPT = "slang-dbg> "
STEPS = 400
FREE = ["bt", "l", "p %s", "w %s", "watches", "breakpoints", "threads", "help", "p nosuch", "p", "frame 0", "frame 99", "down", "up", "t 0"]


def arrange(tokens):
    """one statement per line; texts that are printed carry the line they are printed from"""
    lines, line, depth, i = [], [], 0, 0
    simple = {}
    n = len(tokens)
    out = []
    while i < n:
        kind, text = tokens[i]
        if kind == "word" and text == "print" and i + 1 < n and tokens[i + 1][1] == "(":
            d, j = 0, i + 1
            while True:
                if tokens[j][1] == "(":
                    d += 1
                elif tokens[j][1] == ")":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            # only statements of their own
            own = (not out or out[-1] in (";", "{", "}", ":")) and j + 1 < n and tokens[j + 1][1] == ";"
            inner = tokens[i + 2:j]
            if own and not any(x == "print" for _, x in inner):
                out.append(("print", inner))
                i = j + 1
                continue
        out.append(text)
        i += 1
    for x in out:
        if isinstance(x, tuple):
            number = len(lines) + 1
            inner = " ".join(y for _, y in x[1])
            if not line:
                simple[number] = all(y in ("+", "-", "*") or k not in ("op",) for k, y in x[1]) and not any(k == "word" for k, y in x[1])
            line.append("print(\"<\" + \"@%d:\" + (%s) + \"@\" + \">\")" % (number, inner))
            continue
        line.append(x)
        if x == "(":
            depth += 1
        elif x == ")":
            depth -= 1
        elif depth == 0 and x in (";", "{", "}"):
            lines.append(" ".join(line))
            line = []
    if line:
        lines.append(" ".join(line))
    return lines, simple


def gen(t):
    while True:
        case = importlib.import_module(t.choice(PROGRAMS)).gen(t)
        src = case.get("src") or case.get("generic")
        if src and "Main(int argc" in src and "print(" in src and not case.get("files"):
            break
    lines, simple = arrange(lex(src))
    stops = [i + 1 for i, x in enumerate(lines) if x.endswith(";")]
    names, depth = [], 0
    for x in lines:
        m = re.match(r"(?:public )?int (\w+) (?:= -? ?\d+ )?;", x)
        if m and depth == 0:
            names.append(m.group(1))
        depth += x.count("{") - x.count("}")
    mode = t.weighted([(5, "exact"), (2, "free")])
    watch = names[0] if names else None

    def breakpoint():
        c = None
        if watch and t.bool(1, 3):
            c = [watch, t.choice(["==", "!=", "<", "<=", ">", ">="]), t.choice([0, 1, 2, 3, 5, 10, 100])]
        return [t.choice(stops) if stops and t.bool(9, 10) else 1 + t.below(len(lines)), c]

    first = [breakpoint() for _ in range(t.many(1, 14, 9))]
    commands = []
    for _ in range(t.many(1, 40, 9)):
        k = t.weighted([(6, "c"), (4, "n"), (1, "b"), (1, "d"), (1, "x")] + ([(3, "i"), (3, "o")] if mode == "free" else []))
        if k == "b":
            commands.append(["b"] + breakpoint())
        elif k == "d":
            commands.append(["d", 1 + t.below(4)])
        elif k == "x":
            x = t.choice(FREE)
            commands.append(["x", x % (watch or "argc") if "%" in x else x])
        else:
            commands.append([k])
    return {"lines": lines, "simple": sorted(simple), "plain": sorted(n for n in simple if simple[n]), "watch": watch, "first": first, "commands": commands, "mode": mode, "throw": t.bool(), "catch": t.bool(1, 4)}


def condition(c):
    return "" if c is None else " %s %s %d" % tuple(c)


def script(case):
    r = ["b main.os %d%s" % (n, condition(c)) for n, c in case["first"]] + ["r"]
    for c in case["commands"]:
        if c[0] == "b":
            r.append("b main.os %d%s" % (c[1], condition(c[2])))
        elif c[0] == "d":
            r.append("d %d" % c[1])
        else:
            r.append(c[-1])
    return r


def render(case):
    return "\n".join(case["lines"]) + "\n\n// debugger commands: " + "; ".join(script(case)) + "\n"


EVENT = re.compile(r"slang-dbg> |<@(\d+):(.*?)@>|\[Breakpoint \S+ (\d+)(?: \[[^\]\n]*\])? reached\]|\[(Stepping into|Stepping out of|Exception has been thrown|Caught exception)[^\n]*\]"
                   r"|\[Watch\] \w+: [^\n]*'(-?\d+)'|\[(Process finished|Exception thrown in|abnormal)", re.S)


def parse(out):
    """the events between two prompts, in order"""
    groups, cur = [], []
    for m in EVENT.finditer(out):
        if m.group() == PROMPT:
            groups.append(cur)
            cur = []
        elif m.group(1):
            cur.append(("out", int(m.group(1)), m.group(2)))
        elif m.group(3):
            cur.append(("line", int(m.group(3))))
        elif m.group(4):
            cur.append(("stop", m.group(4)))
        elif m.group(5):
            cur.append(("value", int(m.group(5))))
        else:
            cur.append(("end",))
    groups.append(cur)
    return groups


def program(groups):
    return [e[1:] for g in groups for e in g if e[0] == "out"]


def stop_of(group):
    """what made the program stop at the end of this group"""
    for e in reversed(group):
        if e[0] in ("line", "stop", "end"):
            return e
    return None


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def run(case, env):
    d = env.dir()
    src = "\n".join(case["lines"]) + "\n"
    path = os.path.join(d, "main.os")
    with open(path, "w") as f:
        f.write(src)
    with open(path + ".dbg", "w") as f:
        f.write('{ "breakonexceptionthrow": %s, "breakonexceptioncatch": %s, "autowatch": true }' % ("true" if case["throw"] else "false", "true" if case["catch"] else "false"))

    def debug(commands, n):
        text = "\n".join(commands + ["ignore"] * n + ["quit"]) + "\n"
        return env.exec([env.binary("slang-dbg"), "main.os"], stdin=text.encode(), cwd=d)

    labels = {case["mode"]: 1}
    plain = env.slang(src)
    if plain.timeout or plain.rc < 0:
        return Result(nontrivial=False, labels={"inconclusive": 1})
    want = [(int(a), b) for a, b in re.findall(r"<@(\d+):(.*?)@>", plain.out.decode("utf8", "replace"), re.S)]
    if not want:
        return Result(nontrivial=False, labels={"rejected or silent": 1})

    def bad(what, got, events=None):
        return Result({"what": what, "without debugger": want[:50], "got": got.describe()})

    # single-stepped
    w = ["w " + case["watch"]] if case["watch"] else []
    got = debug(w + ["r"] + ["n"] * STEPS, 300)
    if got.timeout:
        return Result(nontrivial=False, labels={"inconclusive": 1})
    groups = parse(got.out.decode("utf8", "replace"))
    if got.rc != 0:
        return bad("debugger ended with status %d" % got.rc, got)
    if program(groups) != want:
        return bad("output differs when the program is single-stepped", got)
    groups = groups[len(w) + 1:]            # groups[0] = first stop, groups[i] = effect of the i-th step
    if not groups or stop_of(groups[0]) != ("stop", "Stepping into"):
        return bad("program has not been started", got)
    last = next((i for i, g in enumerate(groups) if ("end",) in g or not any(e[0] in ("line", "stop") for e in g)), None)
    complete = last is not None and last <= STEPS
    steps = groups[:last + 1] if complete else groups[:STEPS + 1]
    # every text is printed directly after a stop at its line
    seen = None
    own, unsure = set(case["simple"]), set()
    counts = {}
    for i, g in enumerate(steps):
        if i > STEPS:
            break
        for e in g:
            if e[0] == "line":
                seen = e[1]
                counts[seen] = counts.get(seen, 0) + 1
            elif e[0] == "out" and e[1] in own:
                if e[1] in case["plain"] and seen != e[1]:
                    return bad("line %d is executed without a stop in front of it" % e[1], got)
                counts[e[1]] = counts.get(e[1], 0) - 1
                if counts[e[1]] < 0:
                    return bad("line %d is executed without a stop in front of it" % e[1], got)
                seen = None
            elif e[0] in ("stop", "end") and e[0] == "stop":
                seen = None
    labels["steps"] = len(steps)

    # generated commands
    got = debug(script(case), 300)
    if got.timeout:
        return Result(nontrivial=False, labels={"inconclusive": 1})
    groups = parse(got.out.decode("utf8", "replace"))
    if got.rc != 0:
        return bad("debugger ended with status %d under the generated commands" % got.rc, got)
    if program(groups) != want:
        return bad("output differs under the generated commands", got)
    hits, stepped = 0, 0
    if case["mode"] == "exact":
        points = {}
        for n, c in case["first"]:
            points[n] = c
        groups = groups[len(case["first"]) + 1:]
        pos, value = 0, None
        values = []
        for g in steps:
            for e in g:
                if e[0] == "value":
                    value = e[1]
            values.append(value)
        if stop_of(groups[0]) != ("stop", "Stepping into"):
            return bad("program has not been started under the generated commands", got)
        for k, c in enumerate(case["commands"]):
            if k + 1 >= len(groups):
                break
            g = groups[k + 1]
            if c[0] == "b":
                points[c[1]] = c[2]
            elif c[0] == "d":
                if c[1] <= len(points):
                    del points[sorted(points)[c[1] - 1]]
            elif c[0] in "nc":
                start = pos
                unknown = False
                while True:
                    pos += 1
                    if pos >= len(steps):
                        break
                    s = stop_of(steps[pos])
                    if c[0] == "n" or s is None or s[0] != "line":
                        break
                    if s[1] in points:
                        cond = points[s[1]]
                        if cond is None:
                            break
                        if values[pos] is None:
                            unknown = True
                            break
                        if OPS[cond[1]](values[pos], cond[2]):
                            break
                if unknown or pos >= len(steps):
                    break
                expected = stop_of(steps[pos])
                actual = stop_of(g)
                texts = [e[1:] for h in steps[start + 1:pos + 1] for e in h if e[0] == "out"]
                if expected != actual or texts != [e[1:] for e in g if e[0] == "out"]:
                    return bad("command %d (%s) stops at %s with output %s instead of %s with output %s" % (k + 1, c[0], actual, [e[1:] for e in g if e[0] == "out"][:9], expected, texts[:9]), got)
                if expected is None or expected == ("end",):
                    break
                if c[0] == "n":
                    stepped += 1
                elif expected[0] == "line":
                    hits += 1
                    if points.get(expected[1]) is not None:
                        labels["conditional stops"] = labels.get("conditional stops", 0) + 1
    labels["breakpoint stops"] = hits
    labels["single steps"] = stepped
    if not complete:
        labels["longer than the stepped part"] = 1
    return Result(nontrivial=hits >= 2 or stepped >= 3 or case["mode"] == "free", key=render(case), labels=labels)
