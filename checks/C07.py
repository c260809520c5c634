"""Object lifetime: destruction exactly once, when the last reference disappears."""
import objs
import prog
from vlib import Result, Stop

PROPERTY = "C07"
LEVEL = "exploration"
CASES = {"quick": 24000, "thorough": 120000}
RULE = ("case = program that creates objects and moves references through variables, fields, parameters, results, temporaries and "
        "thrown objects, in nested scopes, loops, functions and handlers, without reference cycles; non-trivial if at least 4 objects are destroyed in "
        "the modelled run, one of them after a reassignment, link change, return or throw; distinct counts program texts")


def gen(t):
    g = objs.Gen(t, True, throws=t.bool(2, 3))
    funcs, main = g.program()
    try:
        w, rc = objs.execute(funcs, main, True)
    except prog.Fuel:
        raise Stop()
    bases = objs.inherited(t)
    return {"bases": sum(map(len, bases)), "src": objs.source(funcs, main, t.choice([True, True, True, "self"]), bases), "out": w.out, "rc": rc, "ev": w.ev}


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = ev.get("destroyed", 0) >= 4 and any(ev.get(k) for k in ("reassigned", "linked", "unlinked", "return", "throw", "deep update"))
    return Result(objs.check(case["out"], case["rc"], got), bool(nt), case["src"], labels=dict({"runs with " + k: 1 for k in ev}, **{"inherited fields": case["bases"] > 0}))


def render(case):
    return case["src"]
