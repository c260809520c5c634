"""Expressions over native types against a reference evaluator."""
from nat import *
from vlib import Result, compare_output

PROPERTY = "C01"
LEVEL = "exploration"
CASES = {"quick": 36000, "thorough": 150000}
RULE = ("case = program with up to 22 generated expressions (typed trees of depth <= 5 over variables and boundary literals, "
        "printed directly, through a variable, a parameter, a return value, a condition or a compound assignment); an "
        "expression is non-trivial if it has at least two operators; distinct counts distinct expression texts with operand values")


def gen(t):
    variables = {}
    values = {}
    for typ in TYPES:
        for i in range(t.int(1, 2)):
            n = "v_%s%d" % (typ, i)
            variables[n] = typ
            values[n] = gen_value(t, typ)
    g = ExprGen(t, variables)
    head = ["public void show(bool b) { print(\"b\" + b); }",
            "public void showi(int b) { print(\"i\" + b); }",
            "public void showd(double b) { print(\"d\" + b); }",
            "public void shows(string b) { print(\"s\" + b); }"]
    body = []
    out = []
    keys = []
    for n, typ in variables.items():
        body.append("%s %s = %s;" % (typ, n, const(values[n], typ).emit()))
    env = dict(values)
    funcs = []
    for k in range(t.many(1, 22, 12)):
        typ = t.choice(TYPES)
        e = g.gen(typ, t.int(1, 5))
        try:
            v, rt = e.eval(env)
            if rt in REALS and v != v:
                continue
        except Undefined:
            continue
        src = e.emit(t)
        how = t.below(8)
        try:
            if how <= 2:
                body.append('print("%d:" + (%s));' % (k, src))
                out.append("%d:%s" % (k, text(v, rt)))
            elif how == 3:
                dst = t.choice([d for d in TYPES if assignable(d, typ)])
                res = text(convert(v, rt, dst), dst)
                body.append('%s r%d = %s; print("%d=" + r%d);' % (dst, k, src, k, k))
                out.append("%d=%s" % (k, res))
            elif how == 4 and rt == typ and typ in ("bool", "int", "double", "string"):
                f = {"bool": "show", "int": "showi", "double": "showd", "string": "shows"}[typ]
                body.append("%s(%s);" % (f, src))
                out.append({"bool": "b", "int": "i", "double": "d", "string": "s"}[typ] + text(v, rt))
            elif how == 5:
                body.append('if ( %s ) { print("%d:then"); } else { print("%d:else"); }' % (src, k, k))
                out.append("%d:%s" % (k, "then" if to_bool(v, rt) else "else"))
            elif how == 6 and rt == typ:
                # a function that computes the expression from its own copies of the variables
                ps = ", ".join("%s %s" % (ty, n) for n, ty in variables.items())
                funcs.append("public %s f%d(%s) { return %s; }" % (typ, k, ps, src))
                body.append('print("%d>" + f%d(%s));' % (k, k, ", ".join(variables)))
                out.append("%d>%s" % (k, text(v, rt)))
            elif how == 7:
                # compound assignment or increment on a variable
                n = t.choice(list(variables))
                vt = variables[n]
                op = t.choice(["+", "-", "*", "/", "%", "++", "--"])
                if op in ("++", "--"):
                    if vt not in NUM:
                        continue
                    nv = arith(op[0], env[n], convert(1, "int", vt), vt)
                    text(nv, vt)
                    body.append('%s%s; print("%d~" + %s);' % (n, op, k, n))
                    src = n + op
                else:
                    sr = static_result(op, vt, typ)
                    if sr is None or not assignable(vt, sr):
                        continue
                    if vt == "string":
                        nv = env[n] + text(v, rt)
                        if len(nv) > 400:
                            continue
                    else:
                        nv = arith(op, env[n], convert(v, rt, vt), vt)
                    text(nv, vt)
                    body.append('%s %s= %s; print("%d~" + %s);' % (n, op, src, k, n))
                out.append("%d~%s" % (k, text(nv, vt)))
                env[n] = nv
            else:
                continue
        except Undefined:
            continue
        if e.size() >= 2:
            keys.append((src, sorted((n, env[n]) for n in variables if n in src)))
            t.label("nontrivial expressions")
            t.label("result " + typ)
    src = "\n".join(head + funcs) + "\npublic int Main(int argc, string args) modify {\n\t" + "\n\t".join(body) + "\n\treturn 0;\n}\n"
    return {"src": src, "out": "\n".join(out) + ("\n" if out else ""), "keys": keys, "n": len(out)}


def assignable(dst, src):
    if dst in ("bool", "string"):
        return True
    if dst == "int16":
        return src in INTS
    return src != "string"


def run(case, env):
    got = env.slang(case["src"])
    f = compare_output(case["out"], 0, got)
    return Result(f, bool(case["keys"]), case["keys"], evaluations=case["n"])


def render(case):
    return case["src"]
