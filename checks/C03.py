"""Chains of conversions between native types against a reference model."""
from nat import BITS, INTS, REALS, TYPES, Undefined, const, convert, gen_value, text
from vlib import Result, compare_output

PROPERTY = "C03"
LEVEL = "exploration"
CASES = {"quick": 18000, "thorough": 100000}
RULE = ("case = program with 6 to 24 chains of 1 to 6 conversions between native types, each conversion being one of both cast forms or the assignment to a "
        "local, global or member variable, starting from boundary values; a chain is non-trivial if a conversion changes type; "
        "distinct counts distinct (value, conversions) chains")

ASSIGNABLE = {
    "bool": ("bool", "double", "float", "int16", "int", "int64", "string"),
    "double": ("bool", "double", "float", "int16", "int", "int64"),
    "float": ("bool", "double", "float", "int16", "int", "int64"),
    "int16": ("int16", "int", "int64"),
    "int": ("bool", "double", "float", "int16", "int", "int64"),
    "int64": ("bool", "double", "float", "int16", "int", "int64"),
    "string": ("bool", "double", "float", "int16", "int", "int64", "string"),
}


def gen(t):
    body, out, keys = [], [], []
    for k in range(t.many(6, 24, 10)):
        typ = t.choice(TYPES)
        v = gen_value(t, typ)
        if typ == "string" and t.bool(2, 3):
            src = t.choice(["int16", "int", "int64", "double"])
            v = text(gen_value(t, src), src)
        key = [typ, repr(v)]
        body.append("%s x%d = %s;" % (typ, k, const(v, typ).emit()))
        e = "x%d" % k
        lines = []
        changes = 0
        try:
            for i in range(t.int(1, 6)):
                how = t.choice(["cast", "cast", "prefix", "local", "init", "global", "member", "setter"])
                if how in ("cast", "prefix"):
                    dst = t.choice(TYPES)
                else:
                    dst = t.choice([d for d in TYPES if typ in ASSIGNABLE[d]])
                v = convert(v, typ, dst)
                changes += typ != dst
                if how == "cast":
                    e = "cast<%s>(%s)" % (dst, e)
                elif how == "prefix":
                    e = "(%s %s)" % (dst, e[1:-1] if e.startswith("(") else e)
                elif how == "init":
                    lines.append("%s y%d_%d = %s;" % (dst, k, i, e))
                    e = "y%d_%d" % (k, i)
                elif how == "local":
                    lines.append("l_%s = %s;" % (dst, e))
                    e = "l_%s" % dst
                elif how == "global":
                    lines.append("g_%s = %s;" % (dst, e))
                    e = "g_%s" % dst
                elif how == "member":
                    lines.append("box.m_%s = %s;" % (dst, e))
                    e = "box.m_%s" % dst
                else:
                    lines.append("box.set_%s(cast<%s>(%s));" % (dst, dst, e))
                    e = "box.m_%s" % dst
                typ = dst
                key.append(how + dst)
            # the integer content is printed through its own text form, never re-read by the model
            body += lines
            body.append('print("%d:" + %s);' % (k, e))
            out.append("%d:%s" % (k, text(v, typ)))
            if typ in INTS and t.bool(1, 3):
                lim = 1 << (BITS[typ] - 1)
                body.append('print("%d in range " + ((%s) + 0));' % (k, e))
                out.append("%d in range %d" % (k, v))
                assert -lim <= v < lim
            if typ in INTS:
                # text and back is the identity
                body.append("print(cast<%s>(cast<string>(%s)) == %s);" % (typ, e, e))
                out.append("1")
        except Undefined:
            continue
        if changes:
            keys.append("|".join(key))
    glob = "\n".join("%s g_%s;" % (ty, ty) for ty in TYPES)
    box = "public object Box {\n%s\n}\n" % "\n".join("\tpublic %s m_%s;\n\tpublic void set_%s(%s v) modify { m_%s = v; }" % (ty, ty, ty, ty, ty) for ty in TYPES)
    src = "%s\n\n%s\npublic int Main(int argc, string args) modify throws {\n\tBox box = new Box();\n%s\n%s\n\treturn 0;\n}\n" % (
        glob, box, "\n".join("\t%s l_%s;" % (ty, ty) for ty in TYPES), "\n".join("\t" + b for b in body))
    return {"src": src, "out": out, "keys": keys}


def run(case, env):
    got = env.slang(case["src"])
    r = Result(compare_output("".join(x + "\n" for x in case["out"]), 0, got), bool(case["keys"]), case["keys"], evaluations=len(case["out"]))
    return r


def render(case):
    return case["src"]
