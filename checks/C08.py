"""References and copies: updates through one reference are seen through exactly the references to the same object."""
import objs
import prog
from vlib import Result, Stop

PROPERTY = "C08"
LEVEL = "exploration"
CASES = {"quick": 24000, "thorough": 120000}
RULE = ("case = program that updates values and links of objects (cycles included) through variables (empty and deleted ones included), fields, parameters, results and copies and "
        "compares identities; non-trivial if a value is updated or a link changed and afterwards observed; distinct counts program texts")


def gen(t):
    g = objs.Gen(t, False, throws=t.bool(1, 3))
    funcs, main = g.program()
    names = ["x", "nil", "G"]
    main += [objs.Show("end" + n, objs.Var(n)) for n in names] + [objs.Show("end%s%s" % (n, f), objs.Field(n, f)) for n in names for f in ("Next", "Other")]
    if any(s.ends for s in main):
        main = main[:[s.ends for s in main].index(True) + 1]
    try:
        w, rc = objs.execute(funcs, main, False)
    except (prog.Fuel, RecursionError):
        raise Stop()
    bases = objs.inherited(t)
    return {"bases": sum(map(len, bases)), "src": objs.source(funcs, main, False, bases), "out": w.out, "rc": rc, "ev": w.ev}


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = any(ev.get(k) for k in ("value update", "deep update", "setval", "linked")) and len(case["out"]) > 5
    return Result(objs.check(case["out"], case["rc"], got), bool(nt), case["src"], labels=dict({"runs with " + k: 1 for k in ev}, **{"inherited fields": case["bases"] > 0}))


def render(case):
    return case["src"]
