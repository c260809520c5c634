"""Scope restoration: values, names and objects after leaving blocks by every route, repeatedly."""
import prog
from prog import Call, Lit, Print, Var, Bin
from vlib import Result, Stop

PROPERTY = "C06"
LEVEL = "exploration"
CASES = {"quick": 21000, "thorough": 100000}
RULE = ("case = program of nested blocks, loops, handlers and calls that redeclare the same few names at every level, with scoped "
        "objects that report their destruction and variables printed after every construct; non-trivial if in the modelled run a "
        "scope is left by break, continue, return or an exception; distinct counts program texts")


def gen(t):
    g = prog.Gen(t, {"block": 4, "decl": 7, "assign": 4, "print": 2, "try": 4, "throw": 2, "jump": 4, "call": 3, "guard": 3,
                     "for": 3, "foreach": 2, "while": 2, "switch": 2, "global": 1, "exit": 1 if t.bool(1, 6) else 0},
                 guards=True, throws="objects", trace=1, probe=True)
    funcs, main, gl = g.program()
    if funcs and t.bool(1, 2):
        # the same code again and again
        f = t.choice(funcs)
        args = [{"int": Lit(2, "int"), "string": Lit("x", "string"), "bool": Lit(True, "bool")}[pt] for pt, _ in f.params]
        c = Call(f.name, args, f.ret, [pt for pt, _ in f.params])
        use = prog.ExprStmt(c) if f.ret == "void" else Print("again", c)
        body = prog.Try(prog.Block([use]), [(None, None, prog.Block([Print("failed")]))], None)
        loop = prog.For(prog.Decl("int", "rep", Lit(0, "int")), Bin("<", Var("rep", "int"), Lit(3, "int"), "bool"),
                        prog.Assign("rep", "++", None, "int"), prog.Block([body]))
        main = [loop] + main
    try:
        out, rc, m = prog.execute(funcs, main, gl)
    except prog.Fuel:
        raise Stop()
    return {"src": prog.source(funcs, main, gl), "out": out, "rc": rc, "ev": m.events}


def run(case, env):
    got = env.slang(case["src"])
    ev = case["ev"]
    nt = any(ev.get(k) for k in ("break", "continue", "return", "caught", "swallowed", "propagated"))
    return Result(prog.check(case["out"], case["rc"], got), nt, case["src"], labels={"runs with " + k: 1 for k in ev})


def render(case):
    return case["src"]
