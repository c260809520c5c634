"""Exceptions: which handler runs, with which value, and what finally blocks do."""
import prog
from vlib import Result, Stop

PROPERTY = "C05"
LEVEL = "exploration"
CASES = {"quick": 27000, "thorough": 120000}
RULE = ("case = program with up to 3 functions of nested try/catch/finally, throw, rethrow and throwing calls, constructors, operators and iterators, values and objects of a class hierarchy, inside loops, "
        "switches and conditions; non-trivial if an exception is thrown and caught, swallowed, propagated past a try or rethrown "
        "in the modelled run; distinct counts program texts")


def gen(t):
    g = prog.Gen(t, {"try": 8, "throw": 5, "jump": 3, "global": 1}, throws="objects", trace=2)
    funcs, main, gl = g.program()
    try:
        out, rc, m = prog.execute(funcs, main, gl)
    except prog.Fuel:
        raise Stop()
    return {"src": prog.source(funcs, main, gl), "out": out, "rc": rc, "ev": m.events}


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = ev.get("throw", 0) and (ev.get("caught", 0) or ev.get("swallowed", 0) or ev.get("propagated", 0))
    return Result(prog.check(case["out"], case["rc"], got), bool(nt), case["src"], labels={"runs with " + k: 1 for k in ev}, evaluations=1)


def render(case):
    return case["src"]
