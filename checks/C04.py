"""Structured control flow against a reference interpreter."""
import prog
from vlib import Result, Stop

PROPERTY = "C04"
LEVEL = "exploration"
CASES = {"quick": 27000, "thorough": 120000}
RULE = ("case = program with up to 3 functions of nested if/else, while, for, switch, break, continue, return and blocks over "
        "shadowed variables, printing a trace; non-trivial if at run time it takes at least one loop iteration or switch case "
        "and at least one break, continue, early return or repeated switch")


def gen(t):
    g = prog.Gen(t, {"try": 0, "throw": 0, "jump": 4, "while": 3, "for": 4, "switch": 4, "if": 4, "global": 1}, throws=False)
    funcs, main, gl = g.program()
    try:
        out, rc, m = prog.execute(funcs, main, gl)
    except prog.Fuel:
        raise Stop()
    return {"src": prog.source(funcs, main, gl), "out": out, "rc": rc, "ev": m.events}


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = (ev.get("iteration", 0) or ev.get("case", 0)) and (ev.get("break", 0) or ev.get("continue", 0) or ev.get("return", 0) or ev.get("switch again", 0))
    return Result(prog.check(case["out"], case["rc"], got), bool(nt), case["src"], labels={"runs with " + k: 1 for k in ev}, evaluations=1)


def render(case):
    return case["src"]
